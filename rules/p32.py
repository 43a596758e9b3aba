"""The complete reconstruction: which component gets which data in which order."""
from notes import VALUE_NOTE
from engine import V
from terms import app
from parts import component, made
MIN_OBLIGATIONS = 10
TECHNIQUE = 'dataflow value summaries over uninterpreted components with inferred attribute effects, compared with a reference model'
NOTE = ('The steps of the reconstruction are uninterpreted functions of the data they can see; which attributes of an object a step '
        'may read or set is inferred from the syntax trees of everything it can call. ' + VALUE_NOTE)


def parts(ctx):
    idx = ctx.idx
    machine = idx.cls('tracking.machine', 'Machine')
    frames = idx.cls('utils.tomo_input', 'Frames')
    profiles = idx.cls('data.profiles', 'Profiles')
    part = idx.cls('tracking.particles', 'Particles')

    def pair(a, b):
        return lambda eng, call, bound: V(app('tuple', app(a, call), app(b, call)), kind='seq', data='tuple',
                                          elems=[V(app(a, call)), V(app(b, call))])

    def inputs(eng, call, bound):
        return V(call, kind='seq', data='tuple', elems=[made(machine, app('machine', call)), made(frames, app('frames', call))])

    def new_profiles(eng, call, bound):
        return made(profiles, app('profiles', call), machine=bound['machine'])

    def part_(path, name, *a, **k):
        return component(name, ctx.find(path), *a, **k)

    I = 'utils.tomo_input.'
    m = {
        I + 'get_user_input': part_(I + 'get_user_input', 'get_user_input', ['input_file_path'], result=pair('parameters', 'data')),
        I + 'txt_input_to_machine': part_(I + 'txt_input_to_machine', 'txt_input_to_machine', ['input_array'], result=inputs),
        'tracking.machine.Machine.values_at_turns': part_('tracking.machine.Machine.values_at_turns', 'values_at_turns', ['self'], ['self']),
        I + 'Frames.to_waterfall': part_(I + 'Frames.to_waterfall', 'to_waterfall', ['self', 'raw_data']),
        I + 'raw_data_to_profiles': part_(I + 'raw_data_to_profiles', 'raw_data_to_profiles', ['waterfall', 'machine', 'rbn', 'sampling_time',
                                                                       'synch_part_x'], ['machine'], new_profiles),
        'data.profiles.Profiles.calc_profilecharge': part_('data.profiles.Profiles.calc_profilecharge', 'calc_profilecharge', ['self'], ['self']),
        'data.profiles.Profiles.calc_self_fields': part_('data.profiles.Profiles.calc_self_fields', 'calc_self_fields', ['self', 'filtered_profiles'], ['self']),
        'data.pre_process.fit_synch_part_x': part_('data.pre_process.fit_synch_part_x', 'fit_synch_part_x', ['profiles']),
        'tracking.machine.Machine.load_fitted_synch_part_x_ftn': part_('tracking.machine.Machine.load_fitted_synch_part_x_ftn', 'load_fitted_synch_part_x_ftn', ['self', 'fit_info'],
                                                                          ['self']),
        'tracking.particles.Particles.__init__': part_('tracking.particles.Particles.__init__', 'Particles', ['self'], ['self']),
        'tracking.tracking.Tracking.track': part_('tracking.tracking.Tracking.track', 
            'track', ['self', 'recprof', 'init_distr', 'callback', 'deltaturn'], ['self.machine', 'self.particles'],
            pair('phases', 'energies'), prints=True),
        'tracking.particles.physical_to_coords': part_('tracking.particles.physical_to_coords', 
            'physical_to_coords', ['tracked_dphi', 'tracked_denergy', 'machine', 'xorigin', 'dEbin'],
            result=pair('x', 'y')),
        'tracking.particles.ready_for_tomography': part_('tracking.particles.ready_for_tomography', 
            'ready_for_tomography', ['xp', 'yp', 'nbins'], result=pair('x', 'y')),
        'utils.tomo_output.show': part_('utils.tomo_output.show', 'show', ['image', 'diff', 'profile'], prints=True),
    }
    return m


def run(ctx):
    m = parts(ctx)
    for f in ('read_input_file', 'track', 'tomogram'):
        ctx.model('shortcuts.' + f, 'images.' + f, models=m, aspects=('ret', 'params', 'defaults', 'output'), normal=False)
    ctx.model('utils.tomo_run.run', 'images.run', models=m, aspects=('ret', 'defaults', 'output'), normal=False)
