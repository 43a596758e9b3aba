"""Progress reports."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE, MULTI
MIN_OBLIGATIONS = 5


def run(ctx):
    for r in ('double', 'float'):
        ctx.binding('reconstruct', 'bind.reconstruct', r, aspects=('log',), ranges={'xp': 'n_bins'})
        ctx.binding('reconstruct_multi', 'bind.reconstruct_multi', r, aspects=('log',), ranges=MULTI)
        ctx.binding('kick_and_drift', 'bind.track_array', r, 'array', aspects=('log',))
        ctx.binding('kick_and_drift', 'bind.track_scalar', r, 'scalar', aspects=('log',))
    ctx.binding('kick_and_drift', 'bind.track_machine', aspects=('log',))
    c = ['libtomo.reconstruct']
    ctx.model('tomography.tomography.Tomography.run', 'tomo.run', aspects=(), calls=['libtomo.reconstruct'])
    ctx.model('tomography.tomography_multibunch.Tomography.run', 'tomo.run_multi', aspects=(),
              calls=['libtomo.reconstruct_multi'])
    ctx.model('tracking.tracking.Tracking.track', 'tracks.track', aspects=(), calls=['libtomo.kick_and_drift'],
              opaque=['tracking.particles.Particles.homogeneous_distribution',
                      'tracking.tracking.Tracking.kick_and_drift_self', 'compat.fortran.write_plotinfo'])
