"""Coordinates a reconstruction accepts."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 8


def run(ctx):
    m = 'tomography.__tomography.TomographyABC.'
    ctx.model(m + 'xp=', 'tomo.set_x')
    ctx.model(m + 'yp=', 'tomo.set_y')
    m = 'tomography.tomography.Tomography.'
    ctx.model(m + '__init__', 'tomo.new', aspects=('raises', 'attrs', 'defaults'))
    ctx.model(m + 'run', 'tomo.run', aspects=('raises',))
    ctx.model(m + 'run_hybrid', 'tomo.run_hybrid', aspects=('raises',))
    m = 'tomography.tomography_multibunch.Tomography.'
    ctx.model(m + '__init__', 'tomo.new', aspects=('raises', 'attrs', 'defaults'))
    ctx.model(m + 'run', 'tomo.run_multi', aspects=('raises',))
