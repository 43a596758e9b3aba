"""Coordinate conversions."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 5


def run(ctx):
    m = 'tracking.particles.'
    ctx.model(m + 'Particles._bin_nr_to_physical_coords', 'coords.to_physical',
              via=[(m + 'Particles.homogeneous_distribution', 'coords.homogeneous')])
    ctx.model(m + 'physical_to_coords', 'coords.to_image')
    ctx.model(m + '_assert_coordinates', 'coords.check_coordinates',
              via=[(m + 'Particles.coordinates_dphi_denergy=', 'coords.set_coordinates')])
    ctx.model(m + 'Particles.coordinates_dphi_denergy=', 'coords.set_coordinates')
    ctx.model(m + 'Particles.coordinates_dphi_denergy', 'coords.get_coordinates')
