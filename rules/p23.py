"""Files and printed text in the format of the original program."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 20
F, T = 'compat.fortran.', 'compat.tomoscope.'
A = ('ret', 'raises', 'attrs', 'params', 'defaults', 'output')
K = 'tracking.tracking.Tracking.'
IMG = ['utils.tomo_output.create_phase_space_image']


def run(ctx):
    for a, b in [('save_profile', 'profile'), ('save_self_volt_profile', 'self_volt'), ('save_phase_space', 'image'),
                 ('save_difference', 'difference'), ('print_tracking_status', 'status'), ('write_plotinfo', 'plotinfo')]:
        ctx.model(F + a, 'output.' + b, aspects=A)
    for a, b in [('save_profile', 'scope_profile'), ('save_image', 'scope_image'), ('save_difference', 'scope_difference')]:
        ctx.model(T + a, 'output.' + b, aspects=A, opaque=IMG)
    o = ('output',)
    ctx.model(K + 'track', 'tracks.track', aspects=o,
              opaque=['tracking.particles.Particles.homogeneous_distribution', 'tracking.tracking.Tracking.kick_and_drift_self',
                      'compat.fortran.write_plotinfo'], calls=['libtomo.kick_and_drift'])
    ctx.model(K + 'kick_and_drift', 'tracks.step_by_step', aspects=o)
    for r in ('double', 'float'):
        for pick in ('array', 'scalar'):
            ctx.binding('kick_and_drift', 'output.track_array', r, pick, aspects=o)
        ctx.binding('reconstruct', 'output.reconstruct', r, aspects=o)
        ctx.binding('reconstruct_multi', 'output.reconstruct_multi', r, aspects=o)
    ctx.binding('kick_and_drift', 'output.track_machine', aspects=o)
