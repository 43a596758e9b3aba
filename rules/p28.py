"""Cutting, filtering and fitting of measured profiles."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 8
M = 'data.pre_process.'


def run(ctx):
    for a, b in [('get_cuts', 'cuts'), ('cut_waterfall', 'cut'), ('filter_profiles', 'good_profiles'),
                 ('_calc_tangentbins', 'tangent_bins'), ('_calc_tangentfeet', 'feet'), ('fit_synch_part_x', 'fit')]:
        ctx.model(M + a, 'data.' + b)
