"""Discrepancy history."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE, MULTI
MIN_OBLIGATIONS = 5


def run(ctx):
    for r in ('double', 'float'):
        ctx.binding('reconstruct', 'bind.reconstruct', r, aspects=('ret',), only=[1, 2], ranges={'xp': 'n_bins'})
        ctx.binding('reconstruct_multi', 'bind.reconstruct_multi', r, aspects=('ret',), only=[1, 2, 3], ranges=MULTI)
    m = 'tomography.tomography.Tomography.'
    ctx.model(m + 'run', 'tomo.run', aspects=('attrs',), only_attrs=['self.diff', 'self.recreated'])
    ctx.model(m + 'run_hybrid', 'tomo.run_hybrid', aspects=('attrs',), only_attrs=['self.diff', 'self.recreated'])
    m = 'tomography.tomography_multibunch.Tomography.'
    ctx.model(m + 'run', 'tomo.run_multi', aspects=('attrs',), only_attrs=['self.diff', 'self.diff_split', 'self.recreated'])
