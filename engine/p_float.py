"""C03 and C04: the active scalar."""
from common import *
from deriv import deriv
from p_ops import total
import lib

AF = 'advantage::afloat::AFloat'
INH = AF + '::'
S = ('float', 'S'); ENV = {'S': S}
def k_un(tr, m): return '<%s as %s>::%s' % (AF, tr, m)
def k_op(tr, m, l='AF', r='AF'):
    n = {'AF': AF, 'f64': 'f64'}
    return '<%s as %s<%s>>::%s' % (n[l], tr, n[r], m)
FL = 'num_traits::float::Float'

class Active:
    """construction and observation of active scalars through the crate's own constructors and accessors"""
    def __init__(self, prog): self.prog = prog
    def make(self, v, dv, ctx=None):
        t = run(self.prog, INH + 'new', [v, dv], ENV).value
        if ctx is not None:
            cell = {}
            def setup(it):
                cell['l'] = it.new(t); return [mk('mref', cell['l'], ()), ctx[0], ctx[1]]
            r = run(self.prog, INH + 'set_context', [], ENV, setup)
            t = r.store[cell['l']]
        return t
    def get(self, t, what, env=ENV): return run(self.prog, INH + what, [t], env).value
    def value(self, t, env=ENV): return self.get(t, 'value', env)
    def dvalue(self, t, env=ENV): return self.get(t, 'dvalue', env)
    def ctx(self, t, env=ENV): return self.get(t, 'context', env)

def ready(ck, prog):
    ok = True
    for m in ('new', 'value', 'dvalue', 'context', 'set_context'):
        ok &= ck.anchor(INH + m in prog.bykey, INH + m)
    if not ok: return None
    a = Active(prog)
    v, d = sym('v'), sym('dv')
    t = a.make(v, d)
    ck.equal('new: value', INH + 'new', a.value(t), v)
    ck.equal('new: derivative', INH + 'new', a.dvalue(t), d)
    ck.equal('new: unattached', INH + 'new', a.ctx(t), NONE)
    for m, w in (('value_mut', v), ('dvalue_mut', d)):
        if INH + m in prog.bykey:
            cell = {}
            def setup(it):
                cell['l'] = it.new(t); return [mk('mref', cell['l'], ())]
            r = ck.function(prog, INH + m, env=ENV, setup=setup, name=m)
            if r is not None and r.value is not None and r.value.op == 'mref':
                it = r.it
                ck.equal(m + ' refers to the same component', INH + m, it.val(r.value), w)
                z = sym('z'); it.write(it.deref(r.value), z)
                t2 = it.store[cell['l']]
                ck.equal(m + ' writes through', INH + m, tup(a.value(t2), a.dvalue(t2), a.ctx(t2)), tup(z if m == 'value_mut' else v, z if m == 'dvalue_mut' else d, NONE))
    return a

# symbolic derivative of a specification over operands (value symbol, derivative)
def chain(f, subs):
    """tangent of f by the chain rule; abs by its increment"""
    return tang(f, subs)
def tang(t, subs):
    out = []
    for mo, c in P(t).items():
        for a, e in mo:
            da = dat(a, subs)
            if da is ZERO: continue
            rest = dict(mo); rest[a] = e - 1
            out.append(mul(mkpoly(TM._mono_term(rest, c * e)), da))
    return add(*out) if out else ZERO
def dat(a, subs):
    if a in subs: return subs[a]
    if a.op == 'base': return tang(a.args[0], subs)
    if a.op == 'fn' and a.args[0] == 'abs':
        u = a.args[1]; du = tang(u, subs)
        return ZERO if du is ZERO else sub(fn('abs', add(u, du)), fn('abs', u))
    if a.op == 'fn':
        z = sym('chain.z'); du = tang(a.args[1], subs)
        return ZERO if du is ZERO else mul(subst(deriv(mk('fn', a.args[0], z), z), {z: a.args[1]}), du)
    return ZERO

OPS = {'Add': add, 'Sub': sub, 'Mul': mul, 'Div': div}
half = num(Fr(1, 2))
def methods():
    """method -> (operand count, value specification, facts on the domain)"""
    x, y, z = sym('x'), sym('y'), sym('z')
    pos = lambda t: fgt0(t)
    M = {}
    for m in ('abs', 'exp', 'sin', 'cos', 'atan'): M[m] = (1, fn(m, x), ())
    M['ln'] = (1, fn('ln', x), (pos(x),))
    M['tan'] = (1, fn('tan', x), (not_(feq0(fn('cos', x))),))
    for m in ('asin', 'acos'): M[m] = (1, fn(m, x), (pos(sub(ONE, powi(x, 2))),))
    M['powf'] = (2, pow_(x, y), (pos(x),))
    M['mul_add'] = (3, add(mul(x, y), z), ())
    M['recip'] = (1, inv(x), (not_(feq0(x)),))
    M['sqrt'] = (1, powq(x, Fr(1, 2)), (pos(x),))
    M['cbrt'] = (1, powq(x, Fr(1, 3)), (pos(x),))
    M['exp2'] = (1, exp_(mul(x, fn('ln', num(2)))), ())
    M['log'] = (2, div(fn('ln', x), fn('ln', y)), (pos(x), pos(y), not_(feq0(fn('ln', y)))))
    M['log2'] = (1, div(fn('ln', x), fn('ln', num(2))), (pos(x),))
    M['log10'] = (1, div(fn('ln', x), fn('ln', num(10))), (pos(x),))
    M['max'] = (2, fmax(x, y), ())
    M['min'] = (2, fmin(x, y), ())
    M['abs_sub'] = (2, scale(add(sub(x, y), fn('abs', sub(x, y))), Fr(1, 2)), ())
    M['hypot'] = (2, powq(add(powi(x, 2), powi(y, 2)), Fr(1, 2)), (pos(add(powi(x, 2), powi(y, 2))),))
    # methods without a rule today: if they ever return, they have to return this
    O = {}
    O['sinh'] = (1, scale(sub(exp_(x), exp_(neg(x))), Fr(1, 2)), ())
    O['cosh'] = (1, scale(add(exp_(x), exp_(neg(x))), Fr(1, 2)), ())
    O['exp_m1'] = (1, sub(exp_(x), ONE), ())
    O['ln_1p'] = (1, fn('ln', add(x, ONE)), (pos(add(x, ONE)),))
    return M, O, (x, y, z)
NORULE = ('floor', 'ceil', 'round', 'trunc', 'fract', 'signum')
OTHER = ('tanh', 'asinh', 'acosh', 'atanh', 'atan2')
PREDS = ('is_nan', 'is_infinite', 'is_finite', 'is_normal', 'is_sign_positive', 'is_sign_negative', 'classify', 'integer_decode', 'is_subnormal')
CONSTS = ('nan', 'infinity', 'neg_infinity', 'neg_zero', 'min_value', 'min_positive_value', 'max_value', 'epsilon')
HAVE_DEFAULT = ('epsilon', 'is_subnormal', 'to_degrees', 'to_radians', 'clamp', 'copysign')

def result_is(ck, a, name, key, r, val, dval, attached=False):
    if r is None or not total(ck, name, key, r): return
    t = r.value
    ck.equal(name + ': value', key, a.value(t), val, r.pc)
    if dval is not None: ck.equal(name + ': derivative', key, a.dvalue(t), dval, r.pc)
    ck.equal(name + ': stays unattached', key, a.ctx(t), NONE, r.pc)

def c03(ck, prog):
    ck.rules.append('value graph of every operator impl and Float method of the active scalar equals the named operation and its chain-rule tangent')
    a = ready(ck, prog)
    if a is None: return
    x, y, z = sym('x'), sym('y'), sym('z')
    dx, dy, dz = sym('dx'), sym('dy'), sym('dz')
    X, Y, Z = a.make(x, dx), a.make(y, dy), a.make(z, dz)
    at1, at2 = (sym('cid', 'nat'), sym('vid', 'nat')), (sym('cid2', 'nat'), sym('vid2', 'nat'))
    XA, YA = a.make(x, dx, at1), a.make(y, dy, at2)
    subs = {x: dx, y: dy, z: dz}
    nz = lambda *ts: tuple(l for t in ts for l in lits(not_(feq0(t))))
    for op, f in OPS.items():
        tr = 'core::ops::arith::' + op; m = op.lower()
        dom = nz(y) if op == 'Div' else ()
        w = f(x, y)
        for l, r_ in (('AF', 'AF'), ('AF', 'f64'), ('f64', 'AF')):
            key = k_op(tr, m, l, r_)
            A, B = (X if l == 'AF' else x), (Y if r_ == 'AF' else y)
            sb = {**({x: dx} if l == 'AF' else {}), **({y: dy} if r_ == 'AF' else {})}
            env = ENV
            r = ck.function(prog, key, [A, B], env, pc=dom, name='%s %s %s' % (l, op, r_))
            result_is(ck, a, '%s %s %s' % (l, op, r_), key, r, w, tang(w, sb))
            # same operand on both sides
            if l == r_ == 'AF':
                dom1 = nz(x) if op == 'Div' else ()
                r = ck.function(prog, key, [X, X], env, pc=dom1, name=op + ' with itself')
                result_is(ck, a, op + ' with itself', key, r, f(x, x), tang(f(x, x), {x: dx}))
        for r_ in ('AF', 'f64'):
            key = k_op('core::ops::arith::' + op + 'Assign', m + '_assign', 'AF', r_)
            cell = {}
            def setup(it):
                cell['l'] = it.new(X); return [mk('mref', cell['l'], ()), Y if r_ == 'AF' else y]
            r = ck.function(prog, key, env=ENV, setup=setup, pc=dom, name='%sAssign %s' % (op, r_))
            if r is not None:
                r.value = r.store.get(cell['l'])
                result_is(ck, a, '%sAssign %s' % (op, r_), key, r, w, tang(w, {x: dx, **({y: dy} if r_ == 'AF' else {})}))
    # reference and further operand forms, if the crate offers them
    for key in sorted(prog.bykey):
        if key.startswith('<') and ' as core::ops::arith::' in key and 'afloat::AFloat' in key:
            trait = key.split(' as ')[1].split('<')[0].split('>')[0].rsplit('::', 1)[1]
            known = trait in ('Neg', 'Rem') or trait.replace('Assign', '') in OPS
            if not known: ck.undecided('operator form', key, 'no specification for this operator')
    key = k_un('core::ops::arith::Neg', 'neg')
    r = ck.function(prog, key, [X], ENV, name='Neg')
    result_is(ck, a, 'Neg', key, r, neg(x), neg(dx))
    key = k_op('core::ops::arith::Rem', 'rem')
    r = ck.function(prog, key, [X, Y], ENV, name='Rem')
    if r is not None:
        if r.diverges: ck.ok('Rem panics', key)
        else: ck.violation('Rem panics', key, 'returns %s' % short(r.value))
    M, O, _ = methods()
    args = [X, Y, Z]
    for m, (n, w, dom) in sorted(M.items()):
        key = k_un(FL, m)
        pc = tuple(l for f in dom for l in lits(f))
        r = ck.function(prog, key, args[:n], ENV, pc=pc, name=m)
        result_is(ck, a, m, key, r, w, tang(w, subs))
    # integer powers
    key = k_un(FL, 'powi')
    n = sym('n', 'int')
    pc = lits(fgt0(x))
    r = ck.function(prog, key, [X, n], ENV, pc=pc, name='powi')
    if r is not None:
        result_is(ck, a, 'powi', key, r, pow_(x, n), None)
        if not r.diverges: ck.equal('powi: derivative', key, a.dvalue(r.value), mul(n, pow_(x, sub(n, ONE)), dx), r.pc)
    for k in (-2, -1, 0, 1, 2, 3, 4, 5):
        for base in (None, -3) + ((0,) if k >= 0 else ()):
            b = num(base) if base is not None else x
            pc = lits(fgt0(x)) if base is None else ()
            r = ck.function(prog, key, [a.make(b, dx), num(k)], ENV, pc=pc, name='powi %d' % k)
            if base is not None:
                val = num(Fr(base) ** k); d = ZERO if k == 0 else scale(dx, k * Fr(base) ** (k - 1))
            else: val, d = powi(x, k), mul(num(k), powi(x, k - 1), dx) if k else ZERO
            result_is(ck, a, 'powi %s^%d' % ('x' if base is None else base, k), key, r, val, d)
    # isolated points
    pt = lambda m, vs, ds, val, d: result_is(ck, a, '%s at %s' % (m, tuple(vs)), k_un(FL, m), ck.function(prog, k_un(FL, m), [a.make(num(v), q) for v, q in zip(vs, ds)], ENV, name=m), num(val), d)
    pt('cbrt', [8], [dx], 2, scale(dx, Fr(1, 12)))
    r = ck.function(prog, k_un(FL, 'cbrt'), [a.make(num(-8), dx)], ENV, name='cbrt')
    if r is not None and r.value is not None and a.value(r.value) is lib.NAN:
        ck.violation('cbrt at -8 is not a number', k_un(FL, 'cbrt'), 'a power with a fractional exponent of a negative base')
    else: result_is(ck, a, 'cbrt at -8', k_un(FL, 'cbrt'), r, num(-2), scale(dx, Fr(1, 12)))
    pt('hypot', [3, 0], [dx, dy], 3, dx)
    pt('hypot', [0, -3], [dx, dy], 3, neg(dy))
    pt('hypot', [-3, -4], [dx, dy], 5, add(scale(dx, Fr(-3, 5)), scale(dy, Fr(-4, 5))))
    pt('recip', [-2], [dx], Fr(-1, 2), scale(dx, Fr(-1, 4)))
    pt('powf', [-2, 2], [dx, ZERO], 4, scale(dx, -4))
    pt('powf', [0, 2], [dx, ZERO], 0, ZERO)
    pt('sqrt', [0], [ZERO], 0, ZERO)
    pt('sqrt', [4], [dx], 2, scale(dx, Fr(1, 4)))
    for m in NORULE + OTHER + tuple(O):
        key = k_un(FL, m)
        r = ck.function(prog, key, args[:2 if m == 'atan2' else 1], ENV, pc=tuple(l for f in O.get(m, (0, 0, ()))[2] for l in lits(f)), name=m)
        if r is None: continue
        if r.diverges: ck.ok(m + ' panics', key)
        elif m in O: result_is(ck, a, m, key, r, O[m][1], tang(O[m][1], subs))
        elif m in NORULE: ck.violation(m + ' panics', key, 'there is no differentiation rule for it, and it returns %s' % short(r.value))
        elif a.value(r.value) in (x, y, dx, dy) or const(a.value(r.value)) is not None or const(a.dvalue(r.value)) is not None: ck.violation(m, key, 'returns ' + short(r.value))
        else: ck.undecided(m, key, 'no specification of this method')
    key = k_un(FL, 'sin_cos')
    r = ck.function(prog, key, [X], ENV, name='sin_cos')
    if r is not None and total(ck, 'sin_cos', key, r):
        s, c = fld(r.value, 0), fld(r.value, 1)
        ck.equal('sin_cos', key, tup(a.value(s), a.dvalue(s), a.value(c), a.dvalue(c)), tup(fn('sin', x), mul(fn('cos', x), dx), fn('cos', x), neg(mul(fn('sin', x), dx))), r.pc)
    for m in PREDS:
        key = k_un(FL, m)
        if key not in prog.bykey:
            if m in HAVE_DEFAULT: continue
            ck.anchor(False, key); continue
        for A, tag in ((X, m), (XA, m + ' (attached)')):
            r = ck.function(prog, key, [A], ENV, name=tag)
            if r is not None and total(ck, tag, key, r): ck.equal(tag, key, r.value, lib.float_method(r.it, m, [x]), r.pc)
    for m in CONSTS:
        key = k_un(FL, m)
        if key not in prog.bykey:
            # num-traits' provided epsilon converts f32::EPSILON through ToPrimitive
            if m in HAVE_DEFAULT: ck.violation('constant ' + m, key, 'not overridden: num-traits provides the single precision value for every scalar')
            else: ck.anchor(False, key)
            continue
        r = ck.function(prog, key, [], ENV, name=m)
        if r is not None and total(ck, m, key, r):
            result_is(ck, a, 'constant ' + m, key, r, sym('const:' + m), ZERO)
    for tr, m, v in (('num_traits::identities::Zero', 'zero', ZERO), ('num_traits::identities::One', 'one', ONE)):
        key = k_un(tr, m)
        r = ck.function(prog, key, [], ENV, name=m)
        result_is(ck, a, m, key, r, v, ZERO)
        key = k_un(tr, 'is_' + m)
        for A, tag in ((X, 'is_' + m), (XA, 'is_%s (attached)' % m)):
            r = ck.function(prog, key, [A], ENV, name=tag)
            if r is not None and total(ck, tag, key, r): ck.equal(tag, key, r.value, feq(x, v), r.pc)
        for f in (m == 'zero' and 'set_zero' or 'set_one',):
            key = k_un(tr, f)
            if key in prog.bykey:
                cell = {}
                def setup(it):
                    cell['l'] = it.new(X); return [mk('mref', cell['l'], ())]
                r = ck.function(prog, key, env=ENV, setup=setup, name=f)
                if r is not None:
                    r.value = r.store.get(cell['l']); result_is(ck, a, f, key, r, v, ZERO)
    # comparisons
    for tr, ms in (('core::cmp::PartialEq', ('eq', 'ne')), ('core::cmp::PartialOrd', ('partial_cmp', 'lt', 'le', 'gt', 'ge'))):
        for m in ms:
            key = k_op(tr, m)
            if key not in prog.bykey: key = k_un(tr, m)
            if key not in prog.bykey:
                if m in ('eq', 'partial_cmp'): ck.anchor(False, key)
                continue
            for A, B, tag in ((X, Y, m), (XA, Y, m + ' (left attached)'), (X, YA, m + ' (right attached)'), (XA, YA, m + ' (attached)')):
                r = ck.function(prog, key, [A, B], ENV, name=tag)
                if r is None or not total(ck, tag, key, r): continue
                want = {'eq': lambda: feq(x, y), 'ne': lambda: not_(feq(x, y)), 'lt': lambda: flt(x, y), 'gt': lambda: flt(y, x), 'le': lambda: not_(flt(y, x)), 'ge': lambda: not_(flt(x, y)),
                        'partial_cmp': lambda: lib.some_cmp(x, y, S)}[m]()
                ck.equal('comparison ' + tag, key, r.value, want, r.pc)
                for s in (dx, dy, *at1, *at2):
                    if s in getattr(r.value, 'fs', ()): ck.violation('comparison %s uses the value alone' % tag, key, 'depends on ' + short(s))

PRIMS = ('to_isize', 'to_i8', 'to_i16', 'to_i32', 'to_i64', 'to_i128', 'to_usize', 'to_u8', 'to_u16', 'to_u32', 'to_u64', 'to_u128', 'to_f32', 'to_f64')
TP = 'num_traits::cast::ToPrimitive'
VIA = {'to_i128': 'to_i64', 'to_u128': 'to_u64', 'to_f64': 'to_i64', 'to_f32': 'to_f64'}   # provided methods of num-traits 0.2
def c04(ck, prog):
    ck.rules.append('value graph of every conversion equals the conversion of the zero-order value; provided trait methods are taken with the route num-traits gives them')
    a = ready(ck, prog)
    if a is None: return
    v, d, c, i = sym('v'), sym('dv'), sym('cid', 'nat'), sym('vid', 'nat')
    for att in (None, (c, i)):
        X = a.make(v, d, att)
        for m in PRIMS:
            key = k_un(TP, m)
            tag = m + (' (attached)' if att else '')
            if key in prog.bykey:
                r = ck.function(prog, key, [X], ENV, name=m)
                if r is None or not total(ck, tag, key, r): continue
                want = lib.call(r.it, TP + '::' + m, None, [S], [v], None, '')
                ck.equal('conversion ' + tag, key, r.value, want, r.pc)
            elif m in ('to_i64', 'to_u64'): ck.anchor(False, key)
            elif m == 'to_f32' and k_un(TP, 'to_f64') in prog.bykey: ck.ok('conversion ' + tag, k_un(TP, 'to_f64'), 'provided: rounds to_f64')
            elif m in ('to_i128', 'to_u128', 'to_f32', 'to_f64'):
                ck.violation('conversion ' + tag, key, 'not overridden: num-traits converts through %s and loses what does not fit' % VIA[m])
            else: ck.ok('conversion ' + tag, k_un(TP, VIA.get(m, 'to_i64' if m.startswith('to_i') else 'to_u64')), 'provided: narrows the 64-bit conversion')
        key = INH + 'cast'
        T_ = ('float', 'T')
        r = ck.function(prog, key, [X], {'S': S, 'T': T_}, name='cast')
        if r is not None and total(ck, 'cast', key, r):
            ck.equal('cast keeps value, derivative and attachment' + (' (attached)' if att else ''), key, tup(a.value(r.value), a.dvalue(r.value), a.ctx(r.value)), tup(v, d, a.ctx(X)), r.pc)
    # construction
    for key, args, want in ((k_op('core::convert::From', 'from', 'AF', 'S').replace('<None>', ''), None, None),) if False else ():
        pass
    fk = [k for k in prog.bykey if k.startswith('<%s as core::convert::From' % AF) and k.endswith('::from')]
    ck.anchor(bool(fk), 'From<S> for AFloat<S>')
    for k in fk:
        r = ck.function(prog, k, [v], ENV, name='From')
        result_is(ck, a, 'From', k, r, v, ZERO)
    key = k_un('num_traits::cast::NumCast', 'from')
    for src, t in ((('float', 'T'), 'float'), (('int', 'i64'), 'integer')):
        w = sym('w', 'real' if t == 'float' else 'int')
        r = ck.function(prog, key, [w], {'S': S, 'T': src}, name='NumCast')
        if r is not None and total(ck, 'NumCast from ' + t, key, r):
            x = fld(r.value, 0, 'any', 1)
            if ck.equal('NumCast from %s succeeds' % t, key, isv(r.value, OPT, 1), TRUE, r.pc) is not False:
                ck.equal('NumCast from ' + t, key, tup(a.value(x), a.dvalue(x), a.ctx(x)), tup(w, ZERO, NONE), r.pc)
    X = a.make(v, d, (c, i))
    AT = ('adt', AF, (('float', 'T'),))
    r = ck.function(prog, key, [X], {'S': S, 'T': AT}, name='NumCast')
    if r is not None and total(ck, 'NumCast from active', key, r):
        x = fld(r.value, 0, 'any', 1)
        ck.equal('NumCast from active', key, tup(isv(r.value, OPT, 1), a.value(x), a.dvalue(x), a.ctx(x)), tup(TRUE, v, ZERO, NONE), r.pc)
    key = k_un('num_traits::Num', 'from_str_radix')
    s, q = sym('text', 'any'), sym('radix', 'nat')
    r = ck.function(prog, key, [s, q], ENV, name='from_str_radix')
    if r is not None and total(ck, 'from_str_radix', key, r):
        pr = mk('app', 'from_str_radix', 'any', s, q)
        okc = isv(pr, RES, 0)
        ck.equal('from_str_radix succeeds with the scalar', key, isv(r.value, RES, 0), okc, r.pc)
        x = simplify(r.value, tuple(lits(okc)))
        if x.op == 'st':
            t = fld(x, 0, 'any', 0)
            ck.equal('from_str_radix', key, tup(a.value(t), a.dvalue(t), a.ctx(t)), tup(fld(pr, 0, 'real', 0), ZERO, NONE), tuple(lits(okc)))
    # nested active scalars: the conversion of the innermost value
    inner = a.make(v, d)
    N = run(prog, INH + 'new', [inner, a.make(sym('e'), sym('de'))], {'S': ('adt', AF, (S,))}).value
    for m in ('to_f64', 'to_i64', 'to_u64'):
        key = k_un(TP, m)
        r = ck.function(prog, key, [N], {'S': ('adt', AF, (S,))}, name='nested ' + m)
        if r is not None and total(ck, 'nested ' + m, key, r):
            ck.equal('conversion of a nested active scalar ' + m, key, r.value, lib.call(r.it, TP + '::' + m, None, [S], [v], None, ''), r.pc)
    recorded_values(ck, prog, a)

def recorded_values(ck, prog, a):
    """values entering a tape are the program's values"""
    v, d = sym('v'), sym('dv')
    inner = a.make(v, d)
    cases = [('scalar', ENV, a.make(v, d), v)]
    NS = ('adt', AF, (S,))
    cases.append(('nested active scalar', {'S': NS}, run(prog, INH + 'new', [inner, a.make(ZERO, ZERO)], {'S': NS}).value, inner))
    from p_ctx import Session, contained, opaque_ctx, observe, CTX
    for m in ('set_indep', 'set_dep', 'record', 'values'): ck.anchor(CTX + '::' + m in prog.bykey, CTX + '::' + m)
    for tag, env, X, raw in cases:
        for m in ('set_indep', 'set_dep', 'record', 'new_indep'):
            key = CTX + '::' + m
            if key not in prog.bykey: continue
            name = '%s records the value of a %s' % (m, tag)
            def body():
                s = Session(ck, prog); it = s.it
                ref = s.ref(opaque_ctx(prog))
                b = observe(s, ref)['values']
                n0 = len(it.panics)
                if m == 'record': s.call(key, [ref, sym('opcode', 'any'), raw, NONE, NONE], env)
                elif m == 'new_indep': s.call(key, [ref, raw], env)
                else: s.call(key, [ref, s.ref(X)], env)
                r = Res(); r.panics = it.panics[n0:]; r.diverges = False; r.base_pc = it.pc
                if total(ck, name, key, r):
                    ck.equal(name, key, observe(s, ref)['values'], concat(b, seq_lit(v)), it.pc)
                s.done()
            try: contained(ck, name, key, body)
            except Diverge: ck.violation(name, key, 'the call cannot return')
