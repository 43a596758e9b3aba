"""Start distribution."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 5


def run(ctx):
    ctx.model('tracking.particles.Particles.homogeneous_distribution', 'coords.homogeneous')
