"""Symbolic differentiation of normal forms."""
from terms import *
import terms as TM

def deriv(t, x):
    out = []
    for mo, c in P(t).items():
        for i, (a, e) in enumerate(mo):
            da = datom(a, x)
            if da is ZERO: continue
            rest = dict(mo); rest[a] = e - 1
            out.append(mul(mkpoly(TM._mono_term(dict(rest), c * e)), da))
    return add(*out) if out else ZERO

def datom(a, x):
    if a is x: return ONE
    if x not in a.fs: return ZERO
    if a.op == 'base': return deriv(a.args[0], x)
    if a.op == 'fn':
        f, u = a.args[0], a.args[1]
        du = deriv(u, x)
        if f == 'sin': d = fn('cos', u)
        elif f == 'cos': d = neg(fn('sin', u))
        elif f == 'exp': d = a
        elif f == 'ln': d = inv(u)
        elif f == 'asin': d = powq(sub(ONE, powi(u, 2)), Fr(-1, 2))
        elif f == 'acos': d = neg(powq(sub(ONE, powi(u, 2)), Fr(-1, 2)))
        elif f == 'atan': d = inv(add(ONE, powi(u, 2)))
        elif f == 'abs': d = div(fn('abs', u), u)
        else: raise ValueError('derivative of ' + f)
        return mul(d, du)
    raise ValueError('derivative of ' + a.op)
