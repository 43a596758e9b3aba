"""Lost particles."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 4


def run(ctx):
    m = 'tracking.particles.'
    ctx.model(m + 'filter_lost', 'coords.remove_lost')
    ctx.model(m + 'ready_for_tomography', 'coords.for_tomography')
