"""Rows of the tracking belong to their frames."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 24


def run(ctx):
    m='tracking.tracking.Tracking.'
    ctx.model(m+'__init__','tracks.new_tracker')
    ctx.model(m+'enable_fortran_output','tracks.fortran_on')
    ctx.model(m+'enable_self_fields','tracks.self_fields_on')
    ctx.model(m+'track','tracks.track',opaque=['tracking.particles.Particles.homogeneous_distribution','tracking.tracking.Tracking.kick_and_drift_self','compat.fortran.write_plotinfo'],calls=['libtomo.kick_and_drift'])
    ctx.model(m+'kick_and_drift','tracks.step_by_step')
    ctx.model(m+'_calc_xp_sf','tracks.folded_bin')
    ctx.model(m+'kick_and_drift_self','tracks.with_self_fields')
    a = ('ret', 'params', 'raises')
    for r in ('double', 'float'):
        ctx.binding('kick_and_drift', 'bind.track_array', r, 'array', aspects=a)
        ctx.binding('kick_and_drift', 'bind.track_scalar', r, 'scalar', aspects=a)
    ctx.binding('kick_and_drift', 'bind.track_machine', aspects=a)
