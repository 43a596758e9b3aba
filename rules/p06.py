"""Reconstruction iteration."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE, MULTI
MIN_OBLIGATIONS = 30


def run(ctx):
    m = 'tomography.tomography.Tomography.'
    ctx.model(m + '__init__', 'tomo.new')
    ctx.model(m + 'run', 'tomo.run')
    ctx.model(m + 'run_hybrid', 'tomo.run_hybrid')
    m = 'tomography.tomography_multibunch.Tomography.'
    ctx.model(m + '__init__', 'tomo.new')
    ctx.model(m + 'run', 'tomo.run_multi')
    a = ('ret', 'params', 'raises')
    ctx.binding('back_project', 'bind.back_project', aspects=a)
    ctx.binding('project', 'bind.project', aspects=a)
    for r in ('double', 'float'):
        ctx.binding('count_particles_in_bins', 'bind.count_particles', r, aspects=a)
        ctx.binding('count_particles_in_bins_multi', 'bind.count_particles_multi', r, aspects=a)
        ctx.binding('reconstruct', 'bind.reconstruct', r, aspects=a, ranges={'xp': 'n_bins'})
        ctx.binding('reconstruct_multi', 'bind.reconstruct_multi', r, aspects=a, ranges=MULTI)
