"""documented sizes and ranges of the arguments of the extension module, by exported name."""
import terms as t


def h(seed, *x):
    from compare import _h
    return _h(seed, *x)


def pickn(seed, name, lo, hi):
    return lo + h(seed, 'contract', name) % (hi - lo + 1)


def ints(**kw):
    def f(seed):
        return {k: pickn(seed, k, *r) for k, r in kw.items()}
    return f


def track(prefix=''):
    """a tracking call: nturns = dturns*(profiles-1), the start within the profiles."""
    def f(seed):
        np_, dt = pickn(seed, 'np', 1, 4), pickn(seed, 'dt', 1, 3)
        rec = pickn(seed, 'rec', 0, np_ - 1)
        d = pickn(seed, 'delta', -dt + 1, dt - 1)
        if rec * dt + d < 0 or rec * dt + d > dt * (np_ - 1):
            d = 0
        return {prefix + 'dturns': dt, 'nturns': dt * (np_ - 1), 'rec_prof': rec, 'deltaturn': d, 'nparts': pickn(seed, 'npart', 1, 3),
                '#profiles': np_}
    return f


def turns(*names):
    return {n: lambda e: e['nturns'] + 1 for n in names}


TRACK = {'xp': lambda e: e['#profiles'] * e['nparts'], 'yp': lambda e: e['#profiles'] * e['nparts'],
         'denergy': lambda e: e['nparts'], 'dphi': lambda e: e['nparts'], **turns('rfv1', 'rfv2')}
VALUES = turns('phi0', 'deltaE0', 'drift_coef', 'phi12')
MACHINE = turns('machine.phi0', 'machine.deltaE0', 'machine.drift_coef')
N = lambda *ks: lambda e: eval('*'.join(map(str, ks)), {'E': e}, dict(e))
REC = ints(n_particles=(1, 3), n_profiles=(1, 3), n_bins=(1, 3), n_iter=(0, 2))
RECM = ints(n_particles=(1, 2), n_profiles=(1, 2), n_bins=(3, 4), n_iter=(0, 2), n_centers=(1, 3))
POINT = {'n_particles': (1, 3), 'n_profiles': (1, 3), 'n_bins': (1, 3)}
FLAT = lambda e, i: (e['n_bins'] * (i % e['n_profiles']), e['n_bins'] * (i % e['n_profiles']) + e['n_bins'])


class Contract:
    def __init__(self, inst, sizes=None, ranges=None, shapes=None, count=14):
        self.count = count
        self.inst, self.sizes, self.ranges, self.shapes = inst, sizes or {}, ranges or {}, shapes or {}


def contract(b):
    """contract of one exported overload."""
    n, args = b['name'], b['args']
    if n == 'kick_and_drift':
        if 'machine' in args:
            return Contract(track('machine.'), {**TRACK, **MACHINE}, shapes={'xp': ('#profiles', 'nparts')})
        return Contract(track(), {**TRACK, **VALUES}, shapes={'xp': ('#profiles', 'nparts'), 'phi12': ('nturns+1',)})
    if n in ('kick', 'drift'):
        return Contract(ints(npart=(1, 4), turn=(0, 2)), {'denergy': N('npart'), 'dphi': N('npart'), 'rfv1': lambda e: e['turn'] + 1,
                        'rfv2': lambda e: e['turn'] + 1, 'drift_coef': lambda e: e['turn'] + 1,
                        'machine.phi0': lambda e: e['turn'] + 1, 'machine.deltaE0': lambda e: e['turn'] + 1})
    if n in ('kick_up', 'kick_down', 'drift_up', 'drift_down'):
        return Contract(ints(n_particles=(1, 4)), {'denergy': N('n_particles'), 'dphi': N('n_particles')})
    if n == 'project':
        return Contract(ints(**POINT), {'flat_rec': N('n_profiles', 'n_bins'), 'flat_points': N('n_particles', 'n_profiles'),
                                        'weights': N('n_particles')}, {'flat_points': FLAT})
    if n == 'back_project':
        return Contract(ints(**POINT), {'flat_profiles': N('n_profiles', 'n_bins'), 'weights': N('n_particles'),
                                        'flat_points': N('n_particles', 'n_profiles')}, {'flat_points': FLAT})
    if n == 'count_particles_in_bins':
        return Contract(ints(**POINT), {'input_parts': N('n_profiles', 'n_bins'), 'input_xp': N('n_profiles', 'n_particles')},
                        {'input_xp': lambda e, i: (0, e['n_bins'])})
    if n == 'count_particles_in_bins_multi':
        return Contract(ints(n_particles=(1, 2), n_profiles=(1, 2), n_bins=(3, 4), n_centers=(1, 3)),
                        {'input_parts': N('n_profiles', 'n_bins'), 'input_xp': N('n_profiles', 'n_particles'), 'input_centers': N('n_centers')},
                        {'input_xp': lambda e, i: (0, e['n_bins'] - 1), 'input_centers': lambda e, i: (0, 2)})
    if n == 'reconstruct':
        return Contract(REC, {'xp': N('n_profiles', 'n_particles'), 'waterfall': N('n_profiles', 'n_bins')},
                        {'xp': lambda e, i: (0, e['n_bins'])})
    if n == 'reconstruct_multi':
        return Contract(RECM, {'xp': N('n_profiles', 'n_particles'), 'waterfall': N('n_profiles', 'n_bins'),
                               'inp_cutleft': N('n_centers'), 'inpt_cutright': N('n_centers'), 'inp_centers': N('n_centers')},
                        {'xp': lambda e, i: (0, e['n_bins'] - 1), 'inp_centers': lambda e, i: (0, 2),
                         'inp_cutleft': lambda e, i: (0, 2), 'inpt_cutright': lambda e, i: (2, e['n_bins'] + 1)})
    if n == 'make_phase_space':
        def grid(k):
            def r(e, i):
                if e['#mode'] != k or i != e['#at'] % e['#n']:
                    return 0, e['n_bins']
                return (-2, 0) if e['#side'] else (e['n_bins'], e['n_bins'] + 2)         # one position off the grid
            return r
        return Contract(ints(n_bins=(1, 3), **{'#n': (1, 4), '#mode': (0, 2), '#side': (0, 1), '#at': (0, 3)}),
                        {'xp': N('E["#n"]'), 'yp': N('E["#n"]'), 'weights': N('E["#n"]')}, {'xp': grid(1), 'yp': grid(2)},
                        shapes={'xp': ('#n',), 'yp': ('#n',), 'weights': ('#n',)}, count=60)
    return None
