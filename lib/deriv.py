"""derivative of a term with respect to a symbol (sum, product, power, sine, cosine, conditional)."""
from fractions import Fraction
import terms as t


class NoDerivative(ValueError):
    pass




def d(e, x):
    if e is x:
        return t.ONE
    if e.op in ('sym', 'const') or x not in t.subterms(e):
        return t.ZERO
    if e.op == 'poly':
        out = t.ZERO
        for c, mono in e.args:
            for i, (a, p) in enumerate(mono):
                da = d(a, x)
                if da is t.ZERO:
                    continue
                rest = [t.power(b, q) for j, (b, q) in enumerate(mono) if j != i]
                out = t.add(out, t.scale(t.mul(t.power(a, p - Fraction(1)), da, *rest), c * p))
        return out
    if e.op == 'ite' and x not in t.subterms(e.args[0]):
        return t.ite(e.args[0], d(e.args[1], x), d(e.args[2], x))
    if e.op == 'app' and e.args[0] == 'sin':
        return t.mul(t.cos(e.args[1]), d(e.args[1], x))
    if e.op == 'app' and e.args[0] == 'cos':
        return t.neg(t.mul(t.sin(e.args[1]), d(e.args[1], x)))
    raise NoDerivative('no derivative rule for ' + t.show(e)[:100])
