"""Figures of merit of profiles and images."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 14


def run(ctx):
    m = 'utils.tomographics.'
    ctx.model(m + 'foot_tangent_fit_dq', 'figures.tangents_of_steps')
    ctx.model(m + 'foot_tangent_fit', 'figures.feet')
    ctx.model(m + 'foot_tangent_fit_density', 'figures.upper_foot')
    ctx.model(m + '_urf_length_at_level', 'figures.bucket_length')
    ctx.model(m + '_residue_urf_length', 'figures.length_error')
    ctx.model(m + 'matched_area_calc', 'figures.matched_area')
    ctx.model(m + '_cumulative_density_calc', 'figures.accumulated')
    ctx.model(m + 'emittance_density_calc', 'figures.area_of_share')
    ctx.model(m + 'rms_params', 'figures.moments')
    ctx.model(m + 'density_vs_emittance', 'figures.density_by_area')
    ctx.model(m + 'tomo_weight_clipping', 'figures.clip')
