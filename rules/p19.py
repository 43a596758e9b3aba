"""Root searches use an objective and its exact derivative at the same turn."""
import ast
from notes import VALUE, VALUE_NOTE
import deriv
import terms as t
from pyfront import rel
from summ import summarize
TECHNIQUE = 'symbolic differentiation of the extracted objective of every Newton search, compared with the extracted slope; ' + VALUE
NOTE = ('Every call of scipy.optimize.newton in the package is located; its objective and slope are resolved, summarised for the same '
        'arguments, and d objective / d phase is compared with the slope. ' + VALUE_NOTE)
MIN_OBLIGATIONS = 12
NEWTON = ('ext:scipy.optimize.newton',)

def run(ctx):
    m = 'utils.physics.'
    for a, b in [('drfvolt_rf1', 'gain_slope_rf1'), ('drf_voltage', 'gain_slope'), ('drfvolt_rf1_mch', 'gain_slope_rf1_lin'),
                 ('drfvolt_rf1_pmch', 'gain_slope_rf1_prog'), ('drf_voltage_mch', 'gain_slope_lin'),
                 ('drf_voltage_pmch', 'gain_slope_prog'), ('phase_low_mch', 'potential_of'), ('phase_low', 'potential_arr'),
                 ('dphase_low', 'potential_slope'), ('dphase_low', 'potential_slope_arr'), ('dphase_low_mch', 'potential_slope_of'),
                 ('find_synch_phase_mch', 'synchronous_phase')]:
        ctx.model(m + a, 'physics.' + b, vocab=NEWTON, aspects=('ret', 'raises', 'params'), label=m + a + ' [' + b + ']')
    ctx.model('tracking.programs_machine.ProgramsMachine.find_synchronous_phase', 'physics.synchronous_phases', vocab=NEWTON,
              aspects=('attrs', 'raises'))
    ctx.part('search', 'newton calls', searches, ctx)


def searches(ctx):
    """every Newton search with a slope: slope = d objective / d first parameter."""
    idx = ctx.idx
    done = set()
    for mod in idx.modules.values():
        if not mod.name.startswith('longitudinal_tomography'):
            continue
        for n in ast.walk(mod.tree):
            if not isinstance(n, ast.Call):
                continue
            r = idx.resolve_expr(mod, n.func)
            if r is None or r[0] != 'ext' or not r[1].startswith('scipy.optimize') or not r[1].endswith('.newton'):
                continue
            w = '%s:%d' % (rel(mod.path), n.lineno)
            kw = {k.arg: k.value for k in n.keywords}
            f = kw.get('func', n.args[0] if n.args else None)
            d = kw.get('fprime', n.args[2] if len(n.args) > 2 else None)
            ctx.sites += 1
            if f is None or d is None:
                if 'fprime' not in kw and None in kw:
                    ctx.undecided('slope', ast.unparse(n)[:60], 'arguments are not given in the call', w)
                continue
            rf, rd = idx.resolve_expr(mod, f), idx.resolve_expr(mod, d)
            if rf is None or rd is None or rf[0] != 'func' or rd[0] != 'func':
                ctx.undecided('slope', ast.unparse(f), 'objective or slope not found', w)
                continue
            key = (id(rf[1]), id(rd[1]))
            if key in done:
                continue
            done.add(key)
            ctx.part('slope', '%s / %s' % (rf[1].name, rd[1].name), slope, ctx, rf[1], rd[1], w)


def slope(ctx, f, d, w):
    fp = f.args.posonlyargs + f.args.args
    dp = d.args.posonlyargs + d.args.args
    e1, e2 = ctx.engine(), ctx.engine()
    a1, a2 = {}, {}
    for i, p in enumerate(fp):
        a1[p.arg] = e1.param(p.arg, p.annotation, f.mod)
        if i < len(dp):
            a2[dp[i].arg] = e2.param(p.arg, p.annotation, f.mod)
    what = '%s is the derivative of %s' % (d.name, f.name)
    if len(dp) < len(fp) and d.args.vararg is None:
        ctx.bad('slope', what, 'it takes %d arguments where the objective takes %d' % (len(dp), len(fp)), w)
        return
    s1 = summarize(ctx.idx, f, a1, eng=e1)
    s2 = summarize(ctx.idx, d, a2, eng=e2)
    ctx.functions |= e1.visited | e2.visited
    x = a1[fp[0].arg].term
    try:
        want = deriv.d(s1.ret, x)
    except deriv.NoDerivative as ex:
        ctx.undecided('slope', what, str(ex), w)
        return
    ctx.same('slope', what, s2.ret, want, w)
