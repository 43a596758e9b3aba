"""Old names keep working."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 25


def run(ctx):
    a = ctx.idx.alias()
    if a is None:
        ctx.undecided('alias', 'import tomo', 'the alias is set in an unknown way', 'tomo/__init__.py')
    else:
        ctx.holds('alias', 'import tomo', a, 'importing tomo does not give the package', 'tomo/__init__.py')
    A = ('ret', 'raises', 'params', 'output')
    for f in ('save_profile', 'save_self_volt_profile', 'save_phase_space', 'write_plotinfo', 'save_difference',
              'print_tracking_status'):
        old = 'utils.tomo_output.%s_ftn' % f
        ctx.model('compat.fortran.' + f, 'old.' + f, aspects=A, label=old)
        ctx.model('compat.fortran.' + f, 'old.' + f + '_kw', aspects=A, label=old + ' (keywords)')
    ctx.model('compat.fortran.calc_baseline', 'old.calc_baseline', aspects=A, label='data.data_treatment.calc_baseline_ftn')
    P = 'data.pre_process.'
    ctx.model(P + 'rebin', 'old.rebin', aspects=A, label='data.data_treatment.rebin')
    ctx.model(P + 'rebin', 'old.rebin_kw', aspects=A, label='utils.data_treatment.rebin')
    ctx.model('data.data_treatment.rebin', 'old.rebin', aspects=('defaults',))
    ctx.model(P + 'fit_synch_part_x', 'old.fit_synch_part_x', aspects=A, label='data.data_treatment.fit_synch_part_x')
    ctx.model(P + 'fit_synch_part_x', 'old.fit_synch_part_x_utils', aspects=A, label='utils.data_treatment.fit_synch_part_x')
    ctx.model('data.data_treatment.phase_space', 'old.phase_space', aspects=A, label='utils.data_treatment.phase_space')
    ctx.model('data.data_treatment._make_phase_space', 'old.make_phase_space', aspects=A)
    for f in ('kick', 'drift', 'kick_and_drift', 'back_project', 'project', 'reconstruct'):
        ctx.model('cpp_routines.tomolib_wrappers.' + f, 'old.' + f, aspects=A + ('defaults',))
