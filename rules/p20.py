"""Geometry of the phase-space image."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 5
M = 'tracking.phase_space_info.PhaseSpaceInfo.'


def run(ctx):
    for a, b in [('calc_xorigin', 'origin'), ('find_dEbin', 'energy_bin'),
                 ('find_binned_phase_energy_limits', 'limits')]:
        ctx.model(M + a, 'coords.' + b)
