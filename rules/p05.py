"""Weights: never negative, never all zero."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE, MULTI
MIN_OBLIGATIONS = 5


def run(ctx):
    for r in ('double', 'float'):
        ctx.binding('reconstruct', 'bind.reconstruct', r, aspects=('ret', 'raises'), only=[0], ranges={'xp': 'n_bins'})
        ctx.binding('reconstruct_multi', 'bind.reconstruct_multi', r, aspects=('ret', 'raises'), only=[0], ranges=MULTI)
    m = 'tomography.tomography.Tomography.'
    ctx.model(m + '__init__', 'tomo.new', aspects=('attrs', 'raises'), only_attrs=['self._waterfall'])
    ctx.model(m + 'run', 'tomo.run', aspects=('ret', 'attrs', 'raises'), only_attrs=['self.weight'])
    ctx.model(m + 'run_hybrid', 'tomo.run_hybrid', aspects=('ret', 'raises'))
    m = 'tomography.tomography_multibunch.Tomography.'
    ctx.model(m + 'run', 'tomo.run_multi', aspects=('ret', 'attrs', 'raises'),
              only_attrs=['self.weight_combined', 'self.weight_split'])
