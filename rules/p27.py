"""Beam quality figures of a phase space."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 4
M = 'data.post_process.'
NUM = ('ret', 'defaults')


def run(ctx):
    ctx.model(M + 'emittance_rms', 'data.area_rms')
    ctx.model(M + 'emittance_rms', 'data.area_rms_of', known='data.area_rms_of_recorded', aspects=NUM)
    ctx.model(M + 'rms_dpp', 'data.momentum_spread')
    ctx.model(M + 'rms_dpp', 'data.momentum_spread_of', known='data.momentum_spread_of_recorded', aspects=NUM)
    ctx.model(M + 'emittance_fractional', 'data.area_fraction')
    ctx.model(M + 'emittance_90', 'data.area_90')
    ctx.model(M + 'post_process', 'data.quality', known='data.quality_recorded', aspects=NUM)
