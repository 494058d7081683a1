"""Models of the library functions the analysed crate (or a refactoring of it) may call."""
from terms import *
import terms as TM
from theory import decide, lits, simplify, inconsistent
from interp import *
import interp as I
import math

# ---------------------------------------------------------------- scalars
def kind(ty):
    if ty is None: return 'real'
    while ty[0] in ('ref',): ty = ty[2]
    if ty[0] in ('int', 'uint'): return 'int'
    if ty[0] == 'bool': return 'bool'
    if ty[0] in ('float', 'param', 'alias'): return 'real'
    return 'any'

def binop(it, op, a, b, ty, sp=''):
    if is_unk(a): return unk(UNKS[a])
    if is_unk(b): return unk(UNKS[b])
    k = kind(ty)
    if k == 'real' and (a in NONFIN or b in NONFIN or (op == 'Div' and b is ZERO)): return nonfinite(op, a, b)
    t = ty
    while t is not None and t[0] == 'ref': t = t[2]
    uns = t is not None and t[0] == 'uint'
    if op == 'Add': return add(a, b)
    if op == 'Sub':
        if uns: it.may_panic(le(b, a), 'subtraction underflow', sp)
        return sub(a, b)
    if op == 'Mul': return mul(a, b)
    if op == 'Div':
        if k == 'int':
            it.may_panic(not_(eq0(b)), 'division by zero', sp)
            return fdiv(a, b)
        return div(a, b)
    if op == 'Rem':
        if k == 'int':
            it.may_panic(not_(eq0(b)), 'division by zero', sp)
            return fmod(a, b)
        return mk('fn', 'rem', a, b)
    if op in ('Eq', 'Ne'):
        r = equal(it, a, b, k)
        return r if op == 'Eq' else not_(r)
    if op in ('Lt', 'Le', 'Gt', 'Ge'):
        if op in ('Gt', 'Ge'): a, b = b, a
        if k == 'int':
            return lt(a, b) if op in ('Lt', 'Gt') else le(a, b)
        if k == 'real':
            return flt(a, b) if op in ('Lt', 'Gt') else not_(flt(b, a))
        if k == 'bool':
            return and_(not_(a), b) if op in ('Lt', 'Gt') else or_(not_(a), b)
        return unk('comparison', 'bool')
    if op in ('BitAnd', 'BitOr', 'BitXor') and k == 'bool':
        if op == 'BitAnd': return and_(a, b)
        if op == 'BitOr': return or_(a, b)
        return or_(and_(a, not_(b)), and_(not_(a), b))
    if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
        ca, cb = const(a), const(b)
        if op == 'Shl' and cb is not None: return scale(a, 2 ** int(cb))
        if op == 'Shr' and cb is not None: return fdiv(a, num(2 ** int(cb)))
        if ca is not None and cb is not None and ca >= 0 and cb >= 0:
            ia, ib = int(ca), int(cb)
            return num({'BitAnd': ia & ib, 'BitOr': ia | ib, 'BitXor': ia ^ ib, 'Shl': ia << ib, 'Shr': ia >> ib}[op])
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if const(x) == 1 and y.op == 'app' and y.args[0] == 'shr': return ite(bit(y.args[2], y.args[3]), ONE, ZERO)
            return TM.bitop('and', 'nat', a, b)
        if op in ('Shl', 'Shr'): return TM.bitop(op.lower(), 'nat', a, b)
        return mk('app', op.lower(), 'nat', *sorted((a, b)))
    return unk('operator ' + op)
def bit(x, i):
    return TM.bitop('bit', 'bool', x, i)

def equal(it, a, b, k='any'):
    if a is b: return TRUE
    if is_unk(a) or is_unk(b): return unk('equality', 'bool')
    for x, y in ((a, b), (b, a)):
        if x.op == 'app' and x.args[0] == 'discr':
            c = const(y)
            if c is not None: return isv(x.args[2], x.args[3], int(c))
            if y.op == 'app' and y.args[0] == 'discr': return same_variant(x.args[2], y.args[2], x.args[3])
    if k == 'int': return ieq(a, b)
    if k == 'real': return feq(a, b)
    if k == 'bool' or is_bool(a) or is_bool(b): return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op == 'st' and b.op == 'st':
        if a.args[0] != b.args[0]: return unk('equality', 'bool')
        if a.args[1] != b.args[1]: return FALSE
        return and_(*[equal(it, x, y, fkind(x, y)) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == 'mat' and b.op == 'mat' and it.unroll:
        d = [const(x) for x in (nrows(a), ncols(a), nrows(b), ncols(b))]
        if None not in d and d[0] * d[1] <= 64:
            if d[:2] != d[2:]: return FALSE
            return and_(*[feq(mat_at(a, num(i), num(j)), mat_at(b, num(i), num(j))) for i in range(int(d[0])) for j in range(int(d[1]))])
    return eqv(a, b)
def fkind(x, y):
    for t in (x, y):
        if t.op == 'poly' or t.op in ('len', 'nrows', 'ncols', 'fdiv', 'fmod'): return 'int' if nonneg(t) else 'real'
        if t.op in ('sym', 'fld', 'app') :
            s = t.args[2] if t.op == 'fld' else t.args[1]
            if s in ('nat', 'int'): return 'int'
            if s == 'real': return 'real'
    return 'any'
def same_variant(x, y, path):
    for a, b in ((x, y), (y, x)):
        if a.op == 'st': return isv(b, path, a.args[1])
        if a.op == 'ite': return bite(a.args[0], same_variant(a.args[1], b, path), same_variant(a.args[2], b, path))
    return eqv(x, y)

# non-finite floats arise only from constant operands (isolated points of a partition)
NAN = sym('@nan', 'real'); INF = sym('@inf', 'real')
NONFIN = {NAN, INF}
def nonfinite(op, a, b):
    if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return unk('comparison of non-finite values', 'bool')
    if NAN in (a, b): return NAN
    if op == 'Mul': return NAN if ZERO in (a, b) else INF
    if op == 'Div':
        if b is ZERO: return NAN if a is ZERO else INF
        if b is INF: return NAN if a is INF else ZERO
        return INF
    if op in ('Add', 'Sub'): return unk('sum of infinities') if a is b else INF
    return NAN

INTR = ('int', 'uint')
def cast(it, v, f, t):
    if is_unk(v): return unk(UNKS[v])
    if f is None or t is None: return unk('cast')
    v0 = v
    if t[0] in INTR + ('float',): v = it.val(v)
    if f[0] in INTR and t[0] in INTR:
        return v
    if f[0] in INTR and t[0] == 'float': return v
    if f[0] == 'float' and t[0] == 'float': return v if f == t else round_to(v, t)
    if f[0] == 'float' and t[0] in INTR:
        c = const(v)
        if c is not None and abs(c) < 2 ** 31: return num(max(0, int(c)) if t[0] == 'uint' else int(c))
        return mk('app', 'trunc', 'int', v)
    if f[0] == 'bool' and t[0] in INTR: return ite(v, ONE, ZERO)
    if f[0] == 'adt' and t[0] in INTR: return discr(v, f[1])
    return v0

def round_to(v, t):
    """conversion to a narrower float type loses digits"""
    return mk('app', 'single', 'real', v) if t == ('float', 'f32') and const(v) is None else v

def discr(v, path):
    if v.op == 'st': return num(v.args[1])
    if v.op == 'ite': return ite(v.args[0], discr(v.args[1], path), discr(v.args[2], path))
    return mk('app', 'discr', 'nat', v, path)

def constant(it, key, ty):
    last = key.split('::')[-1]
    C = {'EPSILON': 'eps', 'MAX': 'maxval', 'MIN': 'minval', 'INFINITY': 'inf', 'NEG_INFINITY': 'neginf', 'NAN': 'nan', 'PI': 'pi',
         'FRAC_PI_2': None, 'LN_2': None, 'LN_10': None, 'E': None}
    if last == 'PI': return sym('const:pi', 'real')
    if last == 'FRAC_PI_2': return scale(sym('const:pi', 'real'), Fr(1, 2))
    if last == 'FRAC_PI_3': return scale(sym('const:pi', 'real'), Fr(1, 3))
    if last == 'FRAC_PI_4': return scale(sym('const:pi', 'real'), Fr(1, 4))
    if last == 'LN_2': return fn('ln', num(2))
    if last == 'LN_10': return fn('ln', num(10))
    if last == 'E': return fn('exp', ONE)
    if last == 'SQRT_2': return powq(num(2), Fr(1, 2))
    tn = ty[1] if ty and len(ty) > 1 and isinstance(ty[1], str) else ''
    if ty and ty[0] == 'uint' and last == 'MIN': return ZERO
    return sym('const:%s:%s' % (tn, last), 'real' if ty and ty[0] == 'float' else 'int')

FN1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'ln', 'sqrt', 'abs'}
def float_method(it, m, a):
    x = a[0] if a else None
    if any(v in NONFIN for v in a):
        if NAN in a or m not in ('exp', 'powf', 'powi', 'abs', 'sqrt'): return NAN if NAN in a else unk('function of an infinity')
        return unk('function of an infinity')
    cx = const(x) if a else None
    if cx is not None:
        if m in ('ln', 'log2', 'log10') and cx <= 0: return INF if cx == 0 else NAN
        if m == 'sqrt' and cx < 0: return NAN
        if m in ('asin', 'acos') and abs(cx) > 1: return NAN
        if m == 'recip' and cx == 0: return INF
        if m in ('powf', 'powi'):
            y = a[1]; cy = const(y)
            if cx == 0:
                if cy is not None: return ONE if cy == 0 else ZERO if cy > 0 else INF
                if it.decide(fgt0(y)) is True: return ZERO
                return unk('power of zero')
            if cx < 0 and (cy is None or cy.denominator != 1): return NAN if cy is not None else unk('power of a negative number')
    if m in FN1: return fn(m, x)
    if m == 'powi': return pow_(x, a[1]) if const(a[1]) is not None else pow_(x, a[1])
    if m == 'powf': return pow_(x, a[1])
    if m == 'recip': return inv(x)
    if m == 'max': return fmax(x, a[1])
    if m == 'min': return fmin(x, a[1])
    if m == 'mul_add': return add(mul(x, a[1]), a[2])
    if m == 'exp2': return exp_(mul(x, fn('ln', num(2))))
    if m == 'log2': return div(fn('ln', x), fn('ln', num(2)))
    if m == 'log10': return div(fn('ln', x), fn('ln', num(10)))
    if m == 'log': return div(fn('ln', x), fn('ln', a[1]))
    if m == 'cbrt':
        return mk('fn', 'cbrt', x)
    if m == 'hypot': return powq(add(powi(x, 2), powi(a[1], 2)), Fr(1, 2))
    if m == 'abs_sub': return scale(add(sub(x, a[1]), fn('abs', sub(x, a[1]))), Fr(1, 2))
    if m == 'sin_cos': return tup(fn('sin', x), fn('cos', x))
    if m in ('zero', 'neg_zero') and not a: return ZERO
    if m in ('sinh',): return scale(sub(exp_(x), exp_(neg(x))), Fr(1, 2))
    if m in ('cosh',): return scale(add(exp_(x), exp_(neg(x))), Fr(1, 2))
    if m in ('is_nan', 'is_infinite', 'is_finite', 'is_normal', 'is_sign_positive', 'is_sign_negative'):
        if it.finite and m in ('is_nan', 'is_infinite', 'is_finite'): return boolc(m == 'is_finite')
        return mk('app', 'float.' + m, 'bool', x)
    if m in ('copysign', 'atan2', 'rem_euclid', 'powc'): return mk('fn', m, *a)
    if m == 'total_cmp': return mk('app', 'cmp', 'any', *a)
    if m in ('ceil', 'floor', 'round', 'trunc') and all(y.op == 'sym' and y.args[0] == 'const:pi' for y in x.fs):
        v = closed(x)
        # the value must be clear of the integers for the rounding to be settled
        if v is not None and abs(v) < 2 ** 31 and abs(v - round(v)) > 1e-6 and abs(abs(v - math.floor(v)) - 0.5) > 1e-6:
            return num({'ceil': math.ceil, 'floor': math.floor, 'round': round, 'trunc': math.trunc}[m](v))
    if m == 'signum': return ite(flt(ZERO, x), ONE, ite(flt(x, ZERO), num(-1), mk('app', 'float.signum', 'real', x)))
    s = {'integer_decode': 'any', 'classify': 'any'}.get(m, 'real')
    return mk('app', 'float.' + m, s, *a)
def closed(t):
    """numeric value of a closed term"""
    try:
        if t.op == 'poly':
            return math.fsum(float(c) * math.prod(closed(a) ** float(e) for a, e in m) for m, c in t.args[0])
        if t.op == 'base': return closed(t.args[0])
        if t.op == 'fn' and t.args[0] in ('exp', 'ln', 'sin', 'cos', 'abs'):
            return {'exp': math.exp, 'ln': math.log, 'sin': math.sin, 'cos': math.cos, 'abs': abs}[t.args[0]](closed(t.args[1]))
        if t.op == 'sym' and t.args[0] == 'const:pi': return math.pi
    except (TypeError, ValueError, OverflowError, ZeroDivisionError): return None
    return None
FLOATM = FN1 | {'powi', 'powf', 'recip', 'max', 'min', 'mul_add', 'exp2', 'log2', 'log10', 'log', 'cbrt', 'hypot', 'abs_sub', 'sin_cos',
    'is_nan', 'is_infinite', 'is_finite', 'is_normal', 'is_sign_positive', 'is_sign_negative', 'classify', 'integer_decode', 'floor', 'ceil', 'round',
    'trunc', 'fract', 'signum', 'exp_m1', 'ln_1p', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'atan2', 'copysign', 'to_degrees', 'to_radians', 'total_cmp'}
FLOATC = {'nan', 'infinity', 'neg_infinity', 'neg_zero', 'min_value', 'min_positive_value', 'max_value', 'epsilon'}

def is_float_ty(t): return t[0] == 'float' or t[0] == 'param'

# ---------------------------------------------------------------- iterators
IT = '@it'
def mkit(s): return st(IT, 0, s, ZERO)
def rest(it, v):
    """remaining elements of an iterator value"""
    v = it.val(v)
    if v.op == 'st' and v.args[0] == IT: return seq_from(v.args[2], v.args[3])
    if v.op == 'ite': return ite(v.args[0], rest(it, v.args[1]), rest(it, v.args[2]))
    s = as_seq(it, v)
    if s is not None: return s
    return None
def seq_from(s, lo):
    if lo is ZERO: return s
    return seq_slice(s, lo, length(s))
def as_seq(it, v):
    """sequence of elements of a collection value"""
    if v.op in ('arr', 'fseq', 'concat', 'bigcat', 'slice', 'fold'): return v
    if v.op == 'mat': return flat(v)
    if v.op == 'st':
        if v.args[0] == IT: return seq_from(v.args[2], v.args[3])
        if v.args[0] == 'core::ops::range::Range': return rng(it, v.args[2], v.args[3])
        if v.args[0] == 'core::ops::range::RangeInclusive': return rng(it, v.args[2], add(v.args[3], ONE))
        if v.args[0] == OPT: return seq_lit(v.args[2]) if v.args[1] == 1 else EMPTY
        return None
    if v.op == 'ite':
        a, b = as_seq(it, v.args[1]), as_seq(it, v.args[2])
        return ite(v.args[0], a, b) if a is not None and b is not None else None
    if v.op == 'sym' and v.args[1].startswith('seq'): return v
    if v.op in ('app', 'fld', 'sel') and seq_sort(v) is not None: return v
    if v.op in ('sym', 'app', 'fld') and (v.args[1] if v.op != 'fld' else v.args[2]) == 'mat': return flat(v)
    return None
def rng(it, lo, hi):
    n = sub(hi, lo)
    d = it.decide(ge0(n))
    if d is not True: n = ite(ge0(n), n, ZERO) if d is None else ZERO
    return arr(n, lambda i: add(lo, i))
def flat(m):
    if ncols(m) is ONE: return arr(nrows(m), lambda i: mat_at(m, i, ZERO))
    if nrows(m) is ONE: return arr(ncols(m), lambda i: mat_at(m, ZERO, i))
    return arr(mul(nrows(m), ncols(m)), lambda k: mat_lin(m, k))

GEN = (IT, '@ff', '@ff.map', '@ff.take', '@ff.take_while', '@ff.enumerate', '@ff.chain')   # a generator, and generators under an adaptor
def drained(it, v):
    """the elements a generator still yields, walked one by one"""
    ref = mk('mref', it.new(v), ())
    out = []
    for _ in range(it.unroll + 1):
        r = it.val(nxt(it, ref))
        d = it.decide(isv(r, OPT, 1))
        if d is None: raise I.Give('length of a generator')
        if d is False: return seq_lit(*out)
        out.append(fld(r, 0, 'any', 1))
    raise I.Give('length of a generator')
def iter_of(it, v, mut=False):
    """iterator over a collection, or over references into it"""
    if v.op == 'st' and v.args[0] in GEN: return v
    if v.op in ('mref', 'arc'):
        pl = it.deref(v)
        x = it.read(pl)
        if x.op == 'st' and x.args[0] in GEN: return v
        if x.op in ('mref', 'arc'): return iter_of(it, x, mut)
        if x.op == 'st' and x.args[0] in ('core::ops::range::Range',): return v
        s = as_seq(it, x)
        if s is None: return None
        if mut:
            ismat = x.op == 'mat' or (x.op in ('sym', 'app', 'fld') and seq_sort(x) is None)
            k = 'l' if ismat else 'i'
            return mkit(arr(length(s), lambda i: mk('mref', pl.loc, pl.path + (k, i))))
        return mkit(s)
    s = as_seq(it, v)
    return mkit(s) if s is not None else None

def capply(it, f, *args):
    """apply a closure that must not modify anything"""
    before = dict(it.store)
    r = it.call_closure(f, list(args))
    for l, v in before.items():
        w = it.store.get(l)
        if w is not v:
            # rewritten under the facts of this path, but not changed
            if w is None or simplify(w, it.pc) is not simplify(v, it.pc): raise Give('closure with side effects')
            it.store[l] = v
    return r

def each(it, dom, empty, f):
    """f() at a generic position of a domain; where f cannot return the domain has to be empty"""
    save = it.pc
    if it.decide(empty) is True: return ZERO
    it.assume(dom)
    try: r = f()
    except Diverge:
        it.pc = save; it.assume(empty)
        if inconsistent(it.pc): it.pc = save; raise
        return ZERO
    except BaseException: it.pc = save; raise
    it.pc = save
    return r
def probe(it, f):
    """f() without leaving traces; None if it cannot be evaluated"""
    save = (it.pc, dict(it.store), len(it.panics))
    try: return f()
    except (Give, Diverge): return None
    finally: it.pc = save[0]; it.store.clear(); it.store.update(save[1]); del it.panics[save[2]:]

def smap(it, s, f):
    """map with path facts"""
    if s.op == 'arr':
        k = fresh('i', 'nat')
        c = const(s.args[0])
        if c == 0: return EMPTY
        r = each(it, lt(k, s.args[0]), le(s.args[0], ZERO), lambda: f(at(s, k)))
        return mk('arr', s.args[0], lam_over(k, r))
    if s.op == 'fseq':
        k = fresh('k', 'nat')
        save = it.pc
        it.assume(and_(lt(k, s.args[0]), app_lam(s.args[1], k)))
        try: r = f(app_lam(s.args[2], k))
        finally: it.pc = save
        return fseq_l(s.args[0], s.args[1], lam_over(k, r))
    if s.op == 'concat': return concat(*[smap(it, x, f) for x in s.args[0]])
    if s.op == 'bigcat':
        k = fresh('k', 'nat')
        save = it.pc
        it.assume(lt(k, s.args[0]))
        try: r = smap(it, app_lam(s.args[1], k), f)
        finally: it.pc = save
        return bigcat_l(s.args[0], lam_over(k, r))
    if s.op == 'ite':
        return ite(s.args[0], smap(it, s.args[1], f), smap(it, s.args[2], f))
    k = fresh('i', 'nat')
    n = length(s)
    r = each(it, lt(k, n), le(n, ZERO), lambda: f(at(s, k)))
    return mk('arr', n, lam_over(k, r))

def conditions(it, s, f, limit=4):
    """per element: the decided condition, or the open one; None if too many are open"""
    n = const(length(s))
    if not it.unroll or n is None or n > 16 or s.op not in ('arr', 'ite', 'concat'): return None
    cs = []; open_ = 0
    for i in range(int(n)):
        c = f(at(s, num(i)))
        d = it.decide(c) if c.op not in ('true', 'false') else c is TRUE
        if d is None: open_ += 1
        cs.append(TRUE if d is True else FALSE if d is False else c)
        if open_ > limit: return None
    return cs
def sfilter(it, s, f):
    cs = conditions(it, s, f)
    if cs is not None:
        def pick(i, acc):
            if i == len(cs): return seq_lit(*acc)
            x = at(s, num(i))
            if cs[i] is TRUE: return pick(i + 1, acc + [x])
            if cs[i] is FALSE: return pick(i + 1, acc)
            return ite(cs[i], pick(i + 1, acc + [x]), pick(i + 1, acc))
        return pick(0, [])
    if s.op == 'arr':
        k = fresh('i', 'nat'); n = s.args[0]
        if n is ZERO: return EMPTY
        save = it.pc; it.assume(lt(k, n))
        try: c = f(at(s, k))
        finally: it.pc = save
        return fseq_l(n, lam_over(k, c), s.args[1])
    if s.op == 'fseq':
        k = fresh('k', 'nat')
        c0 = app_lam(s.args[1], k)
        save = it.pc; it.assume(and_(lt(k, s.args[0]), c0))
        try: c = f(app_lam(s.args[2], k))
        finally: it.pc = save
        return fseq_l(s.args[0], lam_over(k, and_(c0, c)), s.args[2])
    if s.op == 'concat': return concat(*[sfilter(it, x, f) for x in s.args[0]])
    if s.op == 'ite': return ite(s.args[0], sfilter(it, s.args[1], f), sfilter(it, s.args[2], f))
    if s.op == 'bigcat':
        k = fresh('k', 'nat')
        save = it.pc; it.assume(lt(k, s.args[0]))
        try: r = sfilter(it, app_lam(s.args[1], k), f)
        finally: it.pc = save
        return bigcat_l(s.args[0], lam_over(k, r))
    k = fresh('i', 'nat'); n = length(s)
    save = it.pc; it.assume(lt(k, n))
    try: c = f(at(s, k))
    finally: it.pc = save
    return fseq_l(n, lam_over(k, c), lam_over(k, at(s, k)))

def nxt(it, ref, sp=''):
    """Iterator::next on a &mut iterator"""
    pl = it.slot(ref)
    v = it.read(pl)
    while v.op in ('mref',):
        pl = it.deref(v); v = it.read(pl)
    if v.op == 'st' and v.args[0] == IT:
        s, pos = v.args[2], v.args[3]
        if s.op == 'fseq' and it.filters is not None and pl.loc in it.filters:
            # iteration of a filtered sequence inside a loop: walk the underlying index
            if len(it.filters[pl.loc]) == 3 and it.filters[pl.loc][2] is not it.pc and it.filters[pl.loc][1] is not pos: raise I.Give('filtered sequence advanced twice in one iteration')
            it.filters[pl.loc] = (s, pos, it.pc)
            c = lt(pos, s.args[0])
            def some_():
                it.assume(app_lam(s.args[1], pos))
                it.write(pl, st(IT, 0, s, add(pos, ONE)))
                return some(app_lam(s.args[2], pos))
            return it.branch([(c, some_), (TRUE, lambda: NONE)])
        c = lt(pos, length(s))
        def some_():
            it.write(pl, st(IT, 0, s, add(pos, ONE)))
            return some(at(s, pos))
        return it.branch([(c, some_), (TRUE, lambda: NONE)])
    if v.op == 'st' and v.args[0] == '@ff':
        return it.call_closure(mk('mref', pl.loc, pl.path + ('f', 0, 0)), [])
    if v.op == 'st' and v.args[0].startswith('@ff.'):
        kind = v.args[0][4:]
        part = lambda i: mk('mref', pl.loc, pl.path + ('f', i, 0))
        if kind == 'take':
            def more(): it.write(it.deref(part(1)), sub(v.args[3], ONE)); return nxt(it, part(0), sp)
            return it.branch([(lt(ZERO, v.args[3]), more), (TRUE, lambda: NONE)])
        r = it.val(nxt(it, part(0), sp))
        has = isv(r, OPT, 1); x = fld(r, 0, 'any', 1)
        if kind == 'chain':
            if it.decide(has) is not True and it.decide(has) is not False: raise I.Give('length of a generator')
            return r if it.decide(has) is True else nxt(it, part(1), sp)
        def here():
            if kind == 'map': return some(it.call_closure(part(1), [x]))
            if kind == 'enumerate': it.write(it.deref(part(1)), add(v.args[3], ONE)); return some(tup(v.args[3], x))
            return ite(capply(it, v.args[3], x), some(x), NONE)
        return it.branch([(has, here), (TRUE, lambda: NONE)])
    if v.op == 'st' and v.args[0] == 'core::ops::range::Range':
        lo, hi = v.args[2], v.args[3]
        def some2():
            it.write(pl, st(v.args[0], 0, add(lo, ONE), hi))
            return some(lo)
        return it.branch([(lt(lo, hi), some2), (TRUE, lambda: NONE)])
    s = as_seq(it, v)
    if s is not None:
        it.write(pl, mkit(s))
        return nxt(it, ref, sp)
    it.write(pl, unk('iterator state'))
    return unk('next of unknown iterator')

def slast(s):
    return at(s, sub(length(s), ONE))
def opt_elem(it, s, i):
    """s.get(i)"""
    return ite(lt(i, length(s)), some(at(s, i)), NONE)

ITER = 'core::iter::traits::iterator::Iterator::'
def iterator(it, m, a, targs, rty, sp):
    v0 = a[0]
    if m == 'next': return nxt(it, v0, sp)
    if m == 'by_ref': return v0
    cur = it.val(v0)
    if cur.op == 'st' and cur.args[0] in GEN and cur.args[0] != IT:
        if m in ('into_iter', 'fuse') : return v0
        if v0.op == 'mref' and m != 'next': return unk('adapter on generator: ' + m)
        if m in ('map', 'take_while'): return st('@ff.' + m, 0, cur, a[1])
        if m == 'take': return st('@ff.take', 0, cur, it.val(a[1]))
        if m == 'enumerate': return st('@ff.enumerate', 0, cur, ZERO)
        if m == 'chain':
            t = iter_of(it, a[1])
            return st('@ff.chain', 0, cur, t) if t is not None and t.op == 'st' else unk('adapter on generator: ' + m)
        if m in ('inspect', 'peekable', 'rev', 'skip_while', 'step_by') or not it.unroll or it.inv is not None: return unk('adapter on generator: ' + m)
        return iterator(it, m, [mkit(drained(it, cur))] + list(a[1:]), targs, rty, sp)
    s = rest(it, v0)
    if s is None: return unk('iterator ' + m)
    if v0.op == 'mref':
        # adaptor borrowing an iterator: consumed completely unless it stops early
        pl = it.deref(v0)
        if m in ('nth',):
            i = it.val(a[1])
            cv = it.read(pl)
            if cv.op == 'st' and cv.args[0] == IT:
                npos = add(cv.args[3], i, ONE)
                it.write(pl, st(IT, 0, cv.args[2], imin(npos, length(cv.args[2]))))
            return opt_elem(it, s, i)
        if m in ('take', 'take_while', 'map_while'): return unk('partial consumption')
        it.write(pl, unk('iterator state') if m in ('any', 'all', 'find', 'position', 'find_map', 'try_fold', 'skip_while') else mkit(EMPTY))
    if m in ('cloned', 'copied'): return mkit(smap(it, s, lambda x: it.val(x)))
    if m in ('into_iter', 'iter', 'fuse', 'into_par_iter', 'par_iter', 'peekable', 'with_min_len', 'with_max_len', 'inspect'): return mkit(s)
    if m == 'map': return mkit(smap(it, s, lambda x: capply(it, a[1], x)))
    if m == 'filter': return mkit(sfilter(it, s, lambda x: capply(it, a[1], x)))
    if m in ('filter_map',):
        t = smap(it, s, lambda x: capply(it, a[1], x))
        f = sfilter(it, t, lambda x: isv(x, OPT, 1))
        u = [t for t in (targs or [])[1:] if t and t[0] in ('uint', 'int', 'float', 'bool', 'adt', 'ref')]
        so = it.p.sort(u[0]) if u else 'any'
        return mkit(smap(it, f, lambda x: fld(x, 0, so, 1)))
    if m in ('flat_map', 'flat_map_iter'):
        t = smap(it, s, lambda x: sub_seq(it, capply(it, a[1], x)))
        return mkit(seq_flat(t))
    if m in ('flatten', 'flatten_iter'):
        return mkit(seq_flat(smap(it, s, lambda x: sub_seq(it, x))))
    if m == 'enumerate':
        if s.op == 'fseq': return unk('enumerate of a filtered sequence')
        n = length(s)
        return mkit(arr(n, lambda i: tup(i, at(s, i))))
    if m == 'zip':
        t = sub_seq(it, a[1])
        n = length(s); k = length(t)
        d = it.decide(le(n, k)); d2 = it.decide(le(k, n))
        ln = n if d is True else k if d2 is True else ite(le(n, k), n, k)
        return mkit(arr(ln, lambda i: tup(at(s, i), at(t, i))))
    if m == 'chain': return mkit(concat(s, sub_seq(it, a[1])))
    if m == 'rev': return mkit(seq_rev(s))
    if m == 'skip':
        k = it.val(a[1]); return mkit(cut(it, s, k, None))
    if m == 'take':
        k = it.val(a[1]); return mkit(cut(it, s, ZERO, k))
    if m == 'step_by':
        k = it.val(a[1]); n = length(s)
        c = const(k)
        if c is None or c <= 0: return unk('step_by')
        return mkit(arr(fdiv(add(n, num(c - 1)), k), lambda i: at(s, scale(i, c))))
    if m == 'collect' or m == 'collect_vec': return collect(it, s, rty)
    if m == 'count': return length(s)
    if m == 'len': return length(s)
    if m in ('sum',): return ssum(s)
    if m in ('last',):
        return ite(lt(ZERO, length(s)), some(slast(s)), NONE)
    if m == 'nth': return opt_elem(it, s, it.val(a[1]))
    if m in ('max', 'min'):
        return smax(m, smap(it, s, lambda x: it.val(x)))
    if m == 'unzip':
        return tup(conv(it, smap(it, s, lambda x: fld(x, 0)), rty[1][0] if rty and rty[0] == 'tuple' else None),
                   conv(it, smap(it, s, lambda x: fld(x, 1)), rty[1][1] if rty and rty[0] == 'tuple' else None))
    if m in ('skip_while', 'take_while'):
        cs = conditions(it, s, lambda x: capply(it, a[1], x))
        if cs is None: raise I.Give(m)
        n = len(cs)
        part = lambda i: seq_lit(*[at(s, num(j)) for j in (range(i, n) if m[0] == 's' else range(i))])
        def pref(i): return part(n) if i == n else part(i) if cs[i] is FALSE else pref(i + 1) if cs[i] is TRUE else ite(cs[i], pref(i + 1), part(i))
        return mkit(pref(0))
    if m == 'any': return quant(it, s, lambda x: capply(it, a[1], x))
    if m == 'all': return not_(quant(it, s, lambda x: not_(capply(it, a[1], x))))
    if m in ('for_each', 'fold', 'try_fold', 'reduce', 'find', 'position', 'find_map'):
        import loops
        return loops.consume(it, m, s, a, rty, sp)
    if m == 'sum': return ssum(s)
    if m == 'size_hint': return tup(length(s), some(length(s)))
    return unk('iterator method ' + m)

def sub_seq(it, x):
    r = iter_of(it, x)
    if r is None: r = x
    s = rest(it, r)
    if s is None: raise Give('not a sequence')
    return s
def cut(it, s, lo, n):
    """s.skip(lo) / s.take(n)"""
    L = length(s)
    if n is None:
        d = it.decide(le(lo, L))
        if d is not True: lo = ite(le(lo, L), lo, L) if d is None else L
        return seq_slice(s, lo, L)
    d = it.decide(le(n, L))
    if d is not True: n = ite(le(n, L), n, L) if d is None else L
    return seq_slice(s, ZERO, n)
def ssum(s):
    if s.op == 'arr': return sum_l(s.args[0], s.args[1])
    if s.op == 'fseq': return sum_(s.args[0], lambda k: ite(app_lam(s.args[1], k), app_lam(s.args[2], k), ZERO))
    if s.op == 'concat': return add(*[ssum(x) for x in s.args[0]])
    if s.op == 'ite': return ite(s.args[0], ssum(s.args[1]), ssum(s.args[2]))
    return sum_(length(s), lambda k: at(s, k))
def smax(m, s):
    """extremum of a sequence, as an option"""
    if s.op == 'ite': return ite(s.args[0], smax(m, s.args[1]), smax(m, s.args[2]))
    ps = None
    if s.op == 'concat': ps = s.args[0]
    elif s.op == 'arr':
        c = const(s.args[0])
        if c == 0: return NONE
        if c is not None and c <= 8: ps = [at(s, num(i)) for i in range(int(c))]
    if ps is not None:
        best = imax if m == 'max' else imin
        has = FALSE; v = ZERO
        for q in ps:
            if s.op == 'concat':
                o = smax(m, q); h = lt(ZERO, length(q)); x = fld(simplify(o, lits(h)), 0, 'nat', 1)
            else: h = TRUE; x = q
            v = ite(has, ite(h, best(v, x), v), x); has = or_(has, h)
        return ite(has, some(v), NONE)
    return ite(lt(ZERO, length(s)), some(mk('app', 'max' if m == 'max' else 'min', 'nat', s)), NONE)
def quant(it, s, f):
    """exists an element with f"""
    if s.op == 'concat': return or_(*[quant(it, x, f) for x in s.args[0]])
    c = const(length(s))
    if c is not None and c <= 4: return or_(*[f(at(s, num(i))) for i in range(int(c))])
    t = smap(it, s, f)
    if t.op == 'arr' and t.args[1].args[1] is FALSE: return FALSE
    return mk('app', 'exists', 'bool', t)

def conv(it, s, ty):
    if ty is not None and ty[0] == 'adt' and ty[1] == 'nalgebra::base::matrix::Matrix': return vecm(length(s), lambda i: at(s, i))
    return s
def collect(it, s, rty):
    s = smap(it, s, lambda x: x)
    if rty is not None:
        t = it.p.strip(rty)
        if t[0] == 'adt' and t[1] == OPT: return unk('collect into Option')
        if t[0] == 'adt' and t[1] == RES: return unk('collect into Result')
        if t[0] == 'adt' and t[1].startswith('std::collections'): return unk('collect into map')
        if t[0] == 'adt' and t[1] == 'nalgebra::base::matrix::Matrix': return conv(it, s, t)
    return s

# ---------------------------------------------------------------- dispatch
def call(it, key, rkey, targs, args, rty, sp):
    a = args
    name = key.split('::')[-1]
    p = it.p
    V_ = lambda i: it.val(a[i])

    # floats
    if key.startswith('num_traits::float::Float') or (key.startswith('f64::') or key.startswith('f32::')) or key.startswith('num_traits::real') or key.startswith('num_traits::float::FloatCore'):
        if name in FLOATM: return float_method(it, name, [it.val(x) for x in a])
        if name in FLOATC:
            return sym('const:%s' % name, 'real') if name != 'neg_zero' else sym('const:neg_zero', 'real')
    if key in ('num_traits::identities::Zero::zero', 'num_traits::identities::One::one'):
        t = targs[0]
        if t[0] in ('float', 'int', 'uint', 'param', 'alias'): return ZERO if name == 'zero' else ONE
    if key in ('num_traits::identities::Zero::is_zero', 'num_traits::identities::One::is_one'):
        x = V_(0); c = ZERO if name == 'is_zero' else ONE
        return feq(x, c) if is_float_ty(p.strip(targs[0])) else ieq(x, c)
    if key == 'num_traits::cast::NumCast::from':
        t = targs[0]
        if t[0] in ('float', 'param', 'alias'):
            src = targs[1] if len(targs) > 1 else None
            if src and p.strip(src)[0] == 'adt' and p.strip(src)[1] in p.adt:
                d = {'name': 'to_f64', 'trait': 'num_traits::cast::ToPrimitive'}
                r = it.resolve(d, [src], a)
                if r is None: return unk('conversion')
                return it.invoke(r[0], r[1], a, sp, 'to_f64', [src])
            return some(round_to(it.val(a[0]), t))
        if t[0] in ('int', 'uint'):
            src = p.strip(targs[1])
            if src[0] in ('int', 'uint'):
                x = V_(0)
                return some(x) if t[0] == src[0] or src[0] == 'uint' else ite(ge0(x), some(x), NONE)
            return mk('app', 'prim.to_' + t[1], 'any', V_(0))
    if key.startswith('num_traits::cast::ToPrimitive::'):
        src = p.strip(targs[0])
        if src[0] in ('float', 'param', 'alias'):
            if name in ('to_f32', 'to_f64'): return some(round_to(V_(0), ('float', name[3:])))
            return mk('app', 'prim.' + name, 'any', V_(0))
        if src[0] in ('int', 'uint'): return some(V_(0))
        if src[1:2] == ('num_bigint::biguint::BigUint',): return some(V_(0)) if name == 'to_usize' else unk('bigint')
        return unk('ToPrimitive')
    if name in ('size_of', 'align_of', 'size_of_val', 'type_name', 'needs_drop') and key.startswith('core::') and targs:
        t = p.strip(targs[0])
        w = {'f64': 8, 'f32': 4, 'i64': 8, 'u64': 8, 'i32': 4, 'u32': 4, 'usize': 8, 'isize': 8, 'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'i128': 16, 'u128': 16}.get(t[1]) if t[0] in ('float', 'int', 'uint') else None
        if name == 'needs_drop' and t[0] in ('float', 'int', 'uint'): return FALSE
        if w is not None and name in ('size_of', 'align_of', 'size_of_val'): return num(w)
        return mk('app', '%s:%s' % (name, t), {'type_name': 'any', 'needs_drop': 'bool'}.get(name, 'nat'))
    if key == 'num_traits::cast::AsPrimitive::as_':
        return cast(it, a[0], p.strip(targs[0]), targs[1])
    if key == 'num_traits::cast::cast':
        return call(it, 'num_traits::cast::NumCast::from', None, [targs[1], targs[0]], a, rty, sp)
    if key == 'num_traits::Num::from_str_radix':
        return mk('app', 'from_str_radix', 'any', V_(0), V_(1))

    # arithmetic through traits
    if key.startswith('core::ops::arith::') or key.startswith('core::ops::bit::'):
        r = arith(it, name, a, targs, sp)
        if r is not None: return r
    if key.startswith('core::cmp::PartialEq::'):
        x, y = it.val(a[0]), it.val(a[1])
        t = p.strip(targs[0])
        r = eq_ty(it, x, y, t)
        return r if name == 'eq' else not_(r)
    if key.startswith('core::cmp::PartialOrd::'):
        x, y = it.val(a[0]), it.val(a[1])
        t = p.strip(targs[0])
        if name in ('lt', 'le', 'gt', 'ge') and t[0] in ('float', 'int', 'uint', 'param'):
            return binop(it, name.capitalize(), x, y, t)
        if name == 'partial_cmp': return some_cmp(x, y, t)
        return unk('comparison', 'bool')
    if key == 'core::cmp::Ord::cmp':
        x, y = it.val(a[0]), it.val(a[1])
        if targs and p.strip(targs[0])[0] in ('int', 'uint'): return ite(lt(x, y), st(ORD, 0), ite(ieq(x, y), st(ORD, 1), st(ORD, 2)))
        return mk('app', 'cmp', 'any', x, y)
    if key in ('core::cmp::Ord::max', 'core::cmp::max') or (name == 'max' and key.startswith('core::cmp')):
        return imax_s(it, V_(0), V_(1))
    if key in ('core::cmp::Ord::min', 'core::cmp::min'): return imin_s(it, V_(0), V_(1))
    if key == 'core::cmp::Ord::clamp': return imin_s(it, imax_s(it, V_(0), V_(1)), V_(2))
    if name in INTM and (key.split('::')[0] in INTS or key.startswith('core::num')):
        return int_method(it, name, [it.val(x) for x in a], key.split('::')[0], sp)
    if key == 'core::intrinsics::discriminant_value' or key == 'core::mem::discriminant':
        return discr(it.val(a[0]), p.strip(targs[0])[1] if p.strip(targs[0])[0] == 'adt' else '?')

    # references, boxes, conversions
    if key in ('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::convert::identity', 'core::option::Option::cloned_'):
        x = a[0]
        t = targs[0]
        if x.op in ('mref',) and not arc_like(p, t): return it.val(x)
        return x
    if key == 'core::clone::Clone::clone_from':
        it.write(it.slot(a[0]), it.val(a[1])); return UNIT
    if key == 'core::ops::deref::Deref::deref':
        x = a[0]
        if x.op == 'mref':
            v = it.read(it.deref(x))
            if v.op in ('mref', 'arc'): return v
            if v.op in ('app', 'fld', 'sym') and arc_like(p, targs[0]): return arc_obj(it, v, targs[0])
            return x if p.nonfreeze(targs[0]) or True and x.op == 'mref' and not plain(v) else v
        if arc_like(p, targs[0]) and x.op not in ('arc',): return arc_obj(it, x, targs[0])
        return x
    if key == 'core::ops::deref::DerefMut::deref_mut':
        x = a[0]
        if x.op == 'mref':
            v = it.read(it.deref(x))
            if v.op in ('mref', 'arc'): return v
        return x
    if key == 'core::convert::Into::into' or key == 'core::convert::From::from':
        src, dst = (targs[0], targs[1]) if name == 'into' else (targs[1] if len(targs) > 1 else targs[0], targs[0])
        if name == 'into':
            hit = p.find_impl('core::convert::From', dst, [src])
            if hit:
                r = it.resolve({'name': 'from', 'trait': 'core::convert::From'}, [dst, src], a)
                if r: return it.invoke(r[0], r[1], a, sp, 'core::convert::From::from', [dst, src])
        if dst == src: return a[0]
        if dst[0] == 'adt' and dst[1] == 'num_bigint::biguint::BigUint': return V_(0)
        if dst[0] in ('float', 'int', 'uint') and src[0] in ('float', 'int', 'uint'): return cast(it, a[0], src, dst)
        if dst[0] == 'adt' and (dst[1] in I.BOXES or dst[1] in I.SEQS): return a[0]
        if dst[0] == 'adt' and dst[1].startswith('nalgebra'):
            s = as_seq(it, V_(0))
            if s is not None: return vecm(length(s), lambda i: at(s, i))
        if dst[0] == 'adt' and dst[1] == OPT: return some(a[0])
        return unk('conversion ' + str(dst))
    if key in ('alloc::boxed::Box::new', 'alloc::boxed::Box::pin', 'alloc::intrinsics::write_box_via_move', 'alloc::boxed::Box::new_uninit', 'alloc::boxed::box_assume_init_into_vec_unsafe', 'core::mem::manually_drop::ManuallyDrop::new'):
        if name == 'new_uninit': return mk('absent')
        if name == 'write_box_via_move': return a[1]
        if 'manually_drop' in key: it.events.append(('forget', a[0], rty))
        return a[0]
    if key in ('alloc::boxed::Box::leak', 'alloc::boxed::Box::into_raw'):
        l = it.new(a[0])
        it.events.append(('leak', l, rty))
        return mk('mref', l, ())
    if key == 'alloc::boxed::Box::from_raw':
        it.events.append(('from_raw', a[0], rty, it.pc))
        return it.val(a[0])
    if key in ('core::ptr::eq', 'core::ptr::addr_eq'):
        x, y = a
        if x.op == 'mref' and y.op == 'mref':
            x, y = it.slot(x), it.slot(y)
            if x.loc == y.loc and x.path == y.path: return TRUE
            if x.loc != y.loc and not isinstance(x.loc, tuple) and not isinstance(y.loc, tuple): return FALSE
        return unk('comparison of addresses', 'bool')
    if key == 'core::mem::forget':
        it.events.append(('forget', a[0], rty)); return UNIT
    if key == 'core::mem::drop': 
        it.events.append(('drop', a[0], rty)); return UNIT
    if key == 'core::mem::replace':
        pl = it.slot(a[0]); o = it.read(pl); it.write(pl, a[1]); return o
    if key in ('core::ptr::write', 'core::ptr::mut_ptr::<impl *mut T>::write', '*mut T::write') or name == 'write' and key.startswith(('core::ptr::', '*mut')):
        it.write(it.slot(a[0]), a[1]); return UNIT
    if name == 'read' and key.startswith(('core::ptr::', '*mut', '*const')): return it.val(a[0])
    if name == 'replace' and key.startswith(('core::ptr::', '*mut')):
        pl = it.slot(a[0]); o = it.read(pl); it.write(pl, a[1]); return o
    if key == 'core::mem::take':
        pl = it.slot(a[0]); o = it.read(pl)
        it.write(pl, default_of(it, targs[0])); return o
    if key == 'core::mem::swap':
        x, y = it.slot(a[0]), it.slot(a[1])
        u, w = it.read(x), it.read(y)
        it.write(x, w); it.write(y, u); return UNIT
    if key == 'core::default::Default::default':
        return default_of(it, targs[0])
    if key.startswith('core::ops::function::Fn'):
        tupv = it.val(a[1])
        return it.call_closure(a[0], list(tupv.args[2:]))
    if key.startswith('alloc::sync::Arc') or key.startswith('alloc::rcs::arc') or key.startswith('alloc::rc::'):
        return arc(it, name, a, targs, rty)
    if key.startswith(('std::sync::poison::mutex', 'std::sync::mutex', 'std::sync::poison::rwlock')):
        if name == 'new': return a[0]
        if name in ('lock', 'try_lock', 'read', 'write', 'try_read', 'try_write'):
            it.events.append(('lock', a[0]))
            if it.on_lock is not None: it.on_lock(a[0])
            return ok(a[0])
        if name == 'into_inner': return ok(it.val(a[0]))
        if name == 'get_mut': return ok(a[0])
    if key.startswith('core::sync::atomic::Atomic'):
        return atomic(it, name, a, targs)
    if key.startswith('lazy_static::lazy::Lazy'): return a[0]
    if key.startswith(('std::sync::lazy_lock::LazyLock', 'std::sync::once_lock::OnceLock')) and name in ('force', 'get_or_init', 'deref'): return a[0]
    if key.startswith('std::collections::hash::map::HashMap') or key.startswith('alloc::collections::btree::map::BTreeMap'):
        return hashmap(it, name, a, rty, targs)

    # options and results
    if key.startswith('core::option::Option::'): return option(it, name, a, targs, rty, sp)
    if key.startswith('core::result::Result::'): return result(it, name, a, targs, rty, sp)
    if key == 'core::ops::try_trait::Try::branch':
        r = V_(0); CF = 'core::ops::control_flow::ControlFlow'
        TM.NVARIANTS[CF] = 2
        t = p.strip(targs[0])
        if t[1] == OPT:
            return it.branch([(isv(r, OPT, 1), lambda: st(CF, 0, fld(r, 0, psort(p, t, 0), 1))), (TRUE, lambda: st(CF, 1, NONE))])
        if t[1] == RES:
            return it.branch([(isv(r, RES, 0), lambda: st(CF, 0, fld(r, 0, psort(p, t, 0), 0))), (TRUE, lambda: st(CF, 1, st(RES, 1, fld(r, 0, psort(p, t, 1), 1))))])
    if key == 'core::ops::try_trait::FromResidual::from_residual':
        return a[0]
    if key == 'core::ops::try_trait::Try::from_output':
        t = targs[0]
        return some(a[0]) if t[1] == OPT else ok(a[0])

    # iterators
    if key == 'core::iter::traits::collect::IntoIterator::into_iter' or name in ('into_par_iter', 'par_iter', 'par_iter_mut') and key.startswith('rayon'):
        r = iter_of(it, a[0], mut=(targs[0][0] == 'ref' and targs[0][1]) or name == 'par_iter_mut')
        return r if r is not None else unk('into_iter')
    if key.startswith(ITER) or key.startswith('core::iter::traits::double_ended::DoubleEndedIterator::') or key.startswith('core::iter::traits::exact_size'):
        if name == 'next_back': return next_back(it, a[0])
        if name == 'rev' or name != 'rfold': return iterator(it, name, a, targs, rty, sp)
    if key.startswith('rayon::iter::'):
        if name in ('reduce', 'reduce_with', 'fold', 'fold_with', 'map_init', 'map_with'): return parallel(it, name, a, rty)
        if name in ('try_fold', 'try_reduce', 'try_reduce_with', 'try_for_each', 'for_each_init', 'for_each_with', 'fold_chunks', 'fold_chunks_with', 'try_fold_with', 'try_for_each_init', 'try_for_each_with', 'chunks', 'find_first', 'find_last', 'position_first'): return unk('parallel ' + name)
        return iterator(it, name, a, targs, rty, sp)
    if key == 'core::ops::range::RangeInclusive::new': return st('core::ops::range::RangeInclusive', 0, V_(0), V_(1))
    if key.startswith('core::ops::range::RangeInclusive') and name in ('start', 'end'): return V_(0).args[2 if name == 'start' else 3]
    if key.startswith('core::iter::sources::'):
        if name == 'from_fn': return st('@ff', 0, a[0])
        if name == 'once': return mkit(seq_lit(a[0]))
        if name == 'empty': return mkit(EMPTY)
        if name == 'repeat_n': return mkit(arr(V_(1), lambda i: a[0]))
    if key in ('core::iter::adapters::zip::zip', 'core::iter::zip'):
        return iterator(it, 'zip', [iter_of(it, a[0]), a[1]], targs, rty, sp)
    if key == 'core::iter::traits::collect::Extend::extend':
        pl = it.slot(a[0]); s = it.read(pl)
        it.write(pl, concat(s, smap(it, sub_seq(it, a[1]), lambda x: it.val(x)))); return UNIT
    if key == 'core::iter::traits::collect::FromIterator::from_iter':
        return collect(it, sub_seq(it, a[0]), targs[0])

    # sequences
    if key.startswith('[T]::') or key.startswith('core::slice') or key.startswith('alloc::slice') or key.startswith('alloc::vec::Vec') or key.startswith('alloc::collections::vec_deque::VecDeque') or key.startswith('[T;N]'):
        return seqm(it, name, a, targs, rty, sp)
    if key == 'alloc::vec::from_elem':
        x, n = V_(0), V_(1)
        return arr(n, lambda i: x)
    if key.startswith('core::ops::index::Index'):
        return index(it, a, targs, rty, sp, mut=name == 'index_mut')
    if key.startswith('nalgebra::'):
        import libna
        r = libna.call(it, key, name, targs, a, rty, sp)
        if r is not None: return r
    if key == 'num_integer::binomial':
        n, k = const(V_(0)), const(V_(1))
        if n is not None and k is not None and 0 <= k <= n < 64: return num(math.comb(int(n), int(k)))
        return mk('app', 'binomial', 'nat', V_(0), V_(1))
    if key.startswith('core::fmt') or key.startswith('std::io::stdio') or key.startswith('alloc::fmt'): return UNIT
    if key.endswith('::hint::black_box'): return a[0]

    # methods of a local trait on an opaque receiver
    if key.startswith(p.crate + '::'):
        if any(x.op == 'mref' and not static_ref(x) for x in a):
            for x in a:
                if x.op == 'mref': it.write(it.deref(x), unk('modified by ' + key))
        return it.opaque_call(key, a, rty)
    it.notes.append('unmodelled call ' + key)
    for x in a:
        if x.op == 'mref':
            it.write(it.deref(x), unk('modified by ' + key))
    return unk('call of ' + key)

def static_ref(x): return isinstance(x.args[0], tuple) and x.args[0][0] == 'static'
def plain(v): return True
def psort(p, t, i):
    return p.sort(t[2][i]) if len(t[2]) > i else 'any'
ORD = 'core::cmp::Ordering'
def some_cmp(x, y, t):
    if t[0] in ('int', 'uint'): return some(ite(lt(x, y), st(ORD, 0), ite(ieq(x, y), st(ORD, 1), st(ORD, 2))))
    if t[0] not in ('float', 'param'): return mk('app', 'partial_cmp', 'any', x, y)
    return ite(flt(x, y), some(st(ORD, 0)), ite(flt(y, x), some(st(ORD, 2)), ite(feq(x, y), some(st(ORD, 1)), NONE)))

ARCS = ('alloc::sync::Arc', 'alloc::rcs::arc::Arc', 'alloc::rc::Rc')
def arc_like(p, t):
    while t[0] == 'ref': t = t[2]
    return t[0] == 'adt' and t[1] in ARCS
def arc_obj(it, v, t):
    """object behind an opaque Arc value"""
    while t[0] == 'ref': t = t[2]
    loc = ('obj', v)
    inner = t[2][0]
    while inner[0] == 'adt' and inner[1] in I.TRANSPARENT: inner = inner[2][0]
    it.objty[loc] = inner
    return mk('mref', loc, ())

def target(it, r):
    """place a (possibly nested) reference leads to"""
    pl = it.slot(r)
    while True:
        m = it.read(pl)
        if m.op != 'mref': return pl
        pl = it.deref(m)

def arith(it, name, a, targs, sp):
    p = it.p
    t0 = p.strip(targs[0]); t1 = p.strip(targs[1]) if len(targs) > 1 else None
    scal = ('float', 'int', 'uint', 'param', 'alias', 'bool')
    asg = name.endswith('_assign')
    base = name.replace('_assign', '')
    OP = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'neg': 'Neg', 'not': 'Not', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}
    if t0[0] == 'adt' and t0[1] == 'num_bigint::biguint::BigUint': t0 = ('uint', 'big')
    if t0[0] in scal and (t1 is None or t1[0] in scal or t1[1:2] == ('num_bigint::biguint::BigUint',)):
        if base in ('neg',): return neg(it.val(a[0]))
        if base == 'not': return not_(it.val(a[0]))
        if asg:
            pl = target(it, a[0])
            it.write(pl, binop(it, OP[base], it.val(it.read(pl)), it.val(a[1]), t0, sp)); return UNIT
        return binop(it, OP[base], it.val(a[0]), it.val(a[1]), t0, sp)
    if (t0[0] == 'adt' and t0[1].startswith('nalgebra')) or (t1 is not None and t1[0] == 'adt' and t1[1].startswith('nalgebra')):
        import libna
        if asg:
            pl = target(it, a[0])
            it.write(pl, libna.arith(it, base, it.val(it.read(pl)), it.val(a[1]), sp)); return UNIT
        return libna.arith(it, base, it.val(a[0]), it.val(a[1]) if len(a) > 1 else None, sp)
    return None

def eq_ty(it, x, y, t):
    if is_unk(x) or is_unk(y): return unk('equality', 'bool')
    if t[0] in ('int', 'uint', 'char'): return equal(it, x, y, 'int')
    if t[0] in ('float', 'param', 'alias'): return equal(it, x, y, 'real')
    if t[0] == 'bool': return equal(it, x, y, 'bool')
    if t[0] == 'tuple': return and_(*[eq_ty(it, fld(x, i, it.p.sort(u)), fld(y, i, it.p.sort(u)), it.p.strip(u)) for i, u in enumerate(t[1])])
    if t[0] == 'adt' and t[1] == OPT:
        u = it.p.strip(t[2][0]); s = it.p.sort(u)
        nx, ny = isv(x, OPT, 1), isv(y, OPT, 1)
        if nx is FALSE: return not_(ny)
        if ny is FALSE: return not_(nx)
        return or_(and_(not_(nx), not_(ny)), and_(nx, ny, eq_ty(it, fld(x, 0, s, 1), fld(y, 0, s, 1), u)))
    if t[0] == 'adt' and t[1] in it.p.adt:
        if all(not v['fields'] for v in it.p.adt[t[1]]['variants']): return same_variant(x, y, t[1])
    return equal(it, x, y) if x.op == 'mat' and y.op == 'mat' else eqv(x, y)

def imax_s(it, a, b):
    d = it.decide(le(a, b))
    if d is True: return b
    if d is False: return a
    return imax(a, b)
def imin_s(it, a, b):
    d = it.decide(le(a, b))
    if d is True: return a
    if d is False: return b
    return imin(a, b)

INTS = {'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'}
INTM = {'max_value', 'min_value', 'saturating_sub', 'saturating_add', 'wrapping_add', 'wrapping_sub', 'checked_sub', 'checked_add', 'checked_mul', 'checked_div', 'min', 'max', 'pow', 'abs', 'abs_diff',
        'div_ceil', 'rem_euclid', 'div_euclid', 'signum', 'is_power_of_two', 'wrapping_shl', 'rotate_left', 'rotate_right', 'saturating_mul', 'overflowing_add', 'is_multiple_of'}
def int_method(it, m, a, ty, sp):
    uns = ty.startswith('u')
    if m == 'max_value': return sym('const:%s:MAX' % ty, 'nat')
    if m == 'min_value': return ZERO if uns else sym('const:%s:MIN' % ty, 'int')
    x = a[0]
    if m == 'saturating_sub': return ite(le(a[1], x), sub(x, a[1]), ZERO) if uns else sub(x, a[1])
    if m in ('saturating_add', 'wrapping_add'): return add(x, a[1])
    if m == 'wrapping_sub' and uns:
        # below zero it wraps to a value of the machine
        return ite(le(a[1], x), sub(x, a[1]), add(sub(x, a[1]), ONE, sym('const:%s:MAX' % ty, 'nat')))
    if m == 'saturating_mul': return mul(x, a[1])
    if m == 'checked_sub': return ite(le(a[1], x), some(sub(x, a[1])), NONE) if uns else some(sub(x, a[1]))
    if m == 'checked_add': return some(add(x, a[1]))
    if m == 'checked_mul': return some(mul(x, a[1]))
    if m == 'checked_div': return ite(eq0(a[1]), NONE, some(fdiv(x, a[1])))
    if m == 'min': return imin_s(it, x, a[1])
    if m == 'max': return imax_s(it, x, a[1])
    if m == 'pow' and const(a[1]) is not None: return powi(x, int(const(a[1])))
    if m == 'abs': return ite(ge0(x), x, neg(x))
    if m == 'abs_diff': return ite(le(a[1], x), sub(x, a[1]), sub(a[1], x))
    if m == 'div_ceil' and const(a[1]) is not None: return fdiv(add(x, num(const(a[1]) - 1)), a[1])
    if m == 'rem_euclid': return fmod(x, a[1])
    if m == 'div_euclid': return fdiv(x, a[1])
    if m in ('rotate_left', 'rotate_right') and uns and ty[1:].isdigit() and const(x) is not None and const(a[1]) is not None:
        w = int(ty[1:]); k = int(const(a[1])) % w; v = int(const(x))
        if m == 'rotate_right': k = (w - k) % w
        return num(((v << k) | (v >> (w - k))) & ((1 << w) - 1))
    if m == 'is_multiple_of': return eq0(fmod(x, a[1]))
    return unk('integer method ' + m)

def default_of(it, t):
    if t[0] in ('int', 'uint', 'float'): return ZERO
    if t[0] == 'bool': return FALSE
    if t[0] == 'adt':
        if t[1] == OPT: return NONE
        if t[1] in I.SEQS: return EMPTY
    if t[0] == 'tuple': return tup(*[default_of(it, x) for x in t[1]])
    return unk('default')

# ---------------------------------------------------------------- options
def option(it, m, a, targs, rty, sp):
    p = it.p
    r0 = a[0]
    o = it.val(r0) if r0.op != 'mref' or m not in ('take', 'replace', 'insert', 'as_mut', 'get_or_insert_with', 'get_or_insert') else None
    if o is not None and is_unk(o): return unk(UNKS[o])
    ty = targs[0] if targs else ('any',)
    s = p.sort(ty)
    def inner(): return p.shape(fld(o, 0, s, 1), ty) if o.op != 'st' else fld(o, 0, s, 1)
    if m in ('take',):
        pl = it.slot(r0); o = it.read(pl); it.write(pl, NONE); return o
    if m in ('replace', 'insert'):
        pl = it.slot(r0); o = it.read(pl); it.write(pl, some(a[1])); return o if m == 'replace' else mk('mref', pl.loc, pl.path + ('f', 0, 1))
    if m == 'as_mut':
        pl = it.slot(r0); o = it.read(pl)
        return it.branch([(isv(o, OPT, 1), lambda: some(mk('mref', pl.loc, pl.path + ('f', 0, 1)))), (TRUE, lambda: NONE)])
    if m in ('as_ref', 'as_deref', 'cloned', 'copied', 'as_deref_mut', 'iter'):
        if m in ('cloned', 'copied'):
            return it.branch([(isv(o, OPT, 1), lambda: some(it.val(inner()))), (TRUE, lambda: NONE)]) if o.op == 'st' or it.has_ref(o) else o
        return o
    some_ = isv(o, OPT, 1)
    if m in ('unwrap', 'expect', 'unwrap_unchecked'):
        it.may_panic(some_, 'unwrap of None', sp)
        o = it.simp(o)
        return inner()
    if m == 'is_some': return some_
    if m == 'is_none': return not_(some_)
    if m in ('is_some_and', 'is_none_or'):
        return it.branch([(some_, lambda: it.call_closure(a[1], [inner()])), (TRUE, lambda: boolc(m == 'is_none_or'))])
    def br(y, n): return it.branch([(some_, y), (TRUE, n)])
    if m == 'map': return br(lambda: some(it.call_closure(a[1], [inner()])), lambda: NONE)
    if m == 'and_then': return br(lambda: it.call_closure(a[1], [inner()]), lambda: NONE)
    if m == 'map_or': return br(lambda: it.call_closure(a[2], [inner()]), lambda: a[1])
    if m == 'map_or_else': return br(lambda: it.call_closure(a[2], [inner()]), lambda: it.call_closure(a[1], []))
    if m == 'unwrap_or': return br(inner, lambda: a[1])
    if m == 'unwrap_or_else': return br(inner, lambda: it.call_closure(a[1], []))
    if m == 'unwrap_or_default': return br(inner, lambda: default_of(it, ty))
    if m == 'or': return br(lambda: o, lambda: a[1])
    if m == 'or_else': return br(lambda: o, lambda: it.call_closure(a[1], []))
    if m == 'and': return br(lambda: a[1], lambda: NONE)
    if m == 'xor': return unk('xor')
    if m == 'filter': return br(lambda: it.branch([(it.call_closure(a[1], [inner()]), lambda: o), (TRUE, lambda: NONE)]), lambda: NONE)
    if m == 'ok_or': return br(lambda: ok(inner()), lambda: st(RES, 1, a[1]))
    if m == 'ok_or_else': return br(lambda: ok(inner()), lambda: st(RES, 1, it.call_closure(a[1], [])))
    if m == 'zip':
        q = it.val(a[1])
        return br(lambda: it.branch([(isv(q, OPT, 1), lambda: some(tup(inner(), fld(q, 0, 'any', 1)))), (TRUE, lambda: NONE)]), lambda: NONE)
    if m == 'unzip':
        return br(lambda: tup(some(fld(inner(), 0)), some(fld(inner(), 1))), lambda: tup(NONE, NONE))
    if m == 'flatten': return br(inner, lambda: NONE)
    return unk('Option::' + m)

def result(it, m, a, targs, rty, sp):
    o = it.val(a[0]) if a[0].op == 'mref' else a[0]
    if is_unk(o): return unk(UNKS[o])
    p = it.p
    ty = targs[0] if targs else ('any',)
    s = p.sort(ty)
    is_ok = isv(o, RES, 0)
    inner = lambda: fld(o, 0, s, 0)
    err = lambda: fld(o, 0, 'any', 1)
    if m in ('unwrap', 'expect'):
        it.may_panic(is_ok, 'unwrap of Err', sp)
        o = it.simp(o)
        return inner()
    if m == 'is_ok': return is_ok
    if m == 'is_err': return not_(is_ok)
    def br(y, n): return it.branch([(is_ok, y), (TRUE, n)])
    if m == 'map': return br(lambda: ok(it.call_closure(a[1], [inner()])), lambda: st(RES, 1, err()))
    if m == 'map_err': return br(lambda: ok(inner()), lambda: st(RES, 1, it.call_closure(a[1], [err()])))
    if m == 'and_then': return br(lambda: it.call_closure(a[1], [inner()]), lambda: st(RES, 1, err()))
    if m == 'ok': return br(lambda: some(inner()), lambda: NONE)
    if m == 'err': return br(lambda: NONE, lambda: some(err()))
    if m == 'unwrap_or': return br(inner, lambda: a[1])
    if m == 'unwrap_or_else': return br(inner, lambda: it.call_closure(a[1], [err()]))
    if m == 'unwrap_or_default': return br(inner, lambda: default_of(it, ty))
    return unk('Result::' + m)

# ---------------------------------------------------------------- shared ownership
def arc(it, m, a, targs, rty):
    if m == 'new': return mk('arc', it.new(a[0]))
    if m == 'clone': return it.val(a[0]) if a[0].op == 'mref' else a[0]
    if m == 'downgrade':
        v = a[0]
        if v.op == 'mref' : v = it.read(it.deref(v))
        return mk('app', 'weak', 'any', v)
    if m == 'upgrade':
        w = it.val(a[0]) if a[0].op == 'mref' else a[0]
        if w.op == 'ite': return ite(w.args[0], *[arc(it, m, [x], targs, rty) for x in w.args[1:]])
        if w.op == 'app' and w.args[0] == 'weak': return NONE if w.args[2] in it.dead else some(w.args[2])   # a strong reference is held
        return mk('app', 'upgrade', 'any', w)
    if m in ('ptr_eq',): return eqv(a[0], a[1])
    if m in ('strong_count', 'weak_count'):
        w = it.val(a[0]) if a[0].op == 'mref' else a[0]
        if w.op == 'ite': return ite(w.args[0], *[arc(it, m, [x], targs, rty) for x in w.args[1:]])
        if w.op == 'app' and w.args[0] == 'upgrade' : w = w.args[2]
        if m == 'strong_count' and w.op == 'app' and w.args[0] == 'weak' and w.args[2] in it.dead: return ZERO
        live = w.op == 'arc' or (w.op == 'app' and w.args[0] == 'weak')
        n = mk('app', m, 'nat', w)
        if m == 'weak_count': return n
        return add(n, ONE) if live else ite(isv(mk('app', 'upgrade', 'any', w), OPT, 1), add(n, ONE), ZERO)
    return unk('Arc::' + m)
def atomic(it, m, a, targs):
    if m == 'new': return a[0]
    pl = it.deref(a[0])
    if isinstance(pl, V): return unk('atomic')
    old = it.read(pl)
    it.events.append(('atomic', m, pl.loc, a[1:]))
    if old.op == 'sym' and old.args[1] == 'any': 
        old = sym(old.args[0] + ':n', 'nat')
    if m == 'fetch_add': it.write(pl, add(old, it.val(a[1]))); return old
    if m == 'fetch_sub': it.write(pl, sub(old, it.val(a[1]))); return old
    if m == 'load': return old
    if m == 'store': it.write(pl, it.val(a[1])); return UNIT
    if m == 'swap': it.write(pl, it.val(a[1])); return old
    if m in ('compare_exchange', 'compare_exchange_weak'):
        want, new = it.val(a[1]), it.val(a[2])
        c = ieq(old, want)
        it.write(pl, ite(c, new, old))
        return it.simp(ite(c, ok(old), st(RES, 1, old)))
    if m in ('fetch_max', 'fetch_min'):
        v = it.val(a[1]); it.write(pl, imax(old, v) if m == 'fetch_max' else imin(old, v)); return old
    if m == 'fetch_update' and len(a) >= 4:
        r = capply(it, a[3], old)
        c = isv(r, OPT, 1)
        it.write(pl, it.simp(ite(c, fld(r, 0, 'nat', 1), old)))
        it.events[-1] = ('atomic', 'fetch_update', pl.loc, [old, it.simp(fld(r, 0, 'nat', 1))])
        return it.simp(ite(c, ok(old), st(RES, 1, old)))
    it.write(pl, unk('atomic'))
    return unk('atomic ' + m)
def hashmap(it, m, a, rty, targs):
    if m in ('new', 'with_capacity', 'default'): return mk('app', 'map.empty', 'any')
    r = a[0]
    if m in ('insert', 'remove'):
        pl = it.slot(r); o = it.read(pl)
        k = it.val(a[1])
        it.write(pl, mk('app', 'map.' + m, 'any', o, k, *a[2:]))
        return map_get(o, k)
    if m == 'clear':
        it.write(it.slot(r), mk('app', 'map.empty', 'any')); return UNIT
    if m == 'retain':
        pl = it.slot(r); o = it.read(pl)
        def keep(o):
            if o.op == 'ite': return ite(o.args[0], keep(o.args[1]), keep(o.args[2]))
            if o.op == 'app' and o.args[0] == 'map.empty': return o
            if o.op == 'app' and o.args[0] == 'map.remove': return mk('app', 'map.remove', 'any', keep(o.args[2]), o.args[3])
            if o.op == 'app' and o.args[0] == 'map.insert':
                c = capply(it, a[1], o.args[3], o.args[4]); rest_ = keep(o.args[2])
                return ite(c, mk('app', 'map.insert', 'any', rest_, o.args[3], o.args[4]), mk('app', 'map.remove', 'any', rest_, o.args[3]))
            k = fresh('key', 'nat'); v = fresh('value', 'any')
            c = capply(it, a[1], k, v)
            return mk('app', 'map.retain', 'any', o, lam_over(k, lam_over(v, c))) if is_bool(c) and not is_unk(c) else unk('HashMap::retain')
        it.write(pl, keep(o))
        return UNIT
    o = it.val(r)
    if m in ('get', 'get_mut'): return map_get(o, it.val(a[1]))
    if m in ('keys', 'values', 'iter', 'into_iter', 'into_keys', 'into_values'):
        es = map_entries(it, o)
        if es is not None:
            return mkit(seq_lit(*[k if m.endswith('keys') else v if m.endswith('values') else tup(k, v) for k, v in es]))
        return unk('HashMap::' + m)
    if m == 'contains_key': return isv(map_get(o, it.val(a[1])), OPT, 1)
    if m in ('len', 'is_empty'):
        n = map_len(o)
        return n if m == 'len' else le(n, ZERO)
    if m not in ('contains_key', 'get_key_value', 'capacity', 'reserve', 'shrink_to_fit', 'hasher') and r.op == 'mref':
        it.write(it.slot(r), unk('HashMap::' + m))
    return unk('HashMap::' + m)
def map_entries(it, o):
    """entries of a map whose content is known"""
    if o.op != 'app': return None
    if o.args[0] == 'map.empty': return []
    if o.args[0] not in ('map.insert', 'map.remove', 'map.retain'): return None
    es = map_entries(it, o.args[2])
    if es is None: return None
    out = []
    for k, v in es:
        d = it.decide(app_lam(app_lam(o.args[3], k), v)) if o.args[0] == 'map.retain' else it.decide(not_(ieq(k, o.args[3])))
        if d is None: return None
        if d: out.append((k, v))
    return out + ([(o.args[3], o.args[4])] if o.args[0] == 'map.insert' else [])
COUNTED = set()
def map_len(o):
    """number of entries"""
    if o.op == 'ite': return ite(o.args[0], map_len(o.args[1]), map_len(o.args[2]))
    if o.op == 'app' and o.args[0] in ('map.insert', 'map.remove'):
        n = map_len(o.args[2]); had = isv(map_get(o.args[2], o.args[3]), OPT, 1)
        return add(n, ite(had, ZERO, ONE)) if o.args[0] == 'map.insert' else sub(n, ite(had, ONE, ZERO))
    if o.op == 'app' and o.args[0] == 'map.empty': return ZERO
    COUNTED.add(o)
    return mk('app', 'map.len', 'nat', o)
def map_get(o, k):
    if o in COUNTED: return ite(le(map_len(o), ZERO), NONE, mk('app', 'map.get', 'any', o, k))
    if o.op == 'ite': return ite(o.args[0], map_get(o.args[1], k), map_get(o.args[2], k))
    if o.op == 'app' and o.args[0] == 'map.insert':
        return ite(ieq(o.args[3], k), some(o.args[4]), map_get(o.args[2], k))
    if o.op == 'app' and o.args[0] == 'map.remove':
        return ite(ieq(o.args[3], k), NONE, map_get(o.args[2], k))
    if o.op == 'app' and o.args[0] == 'map.retain':
        old = map_get(o.args[2], k)
        return ite(and_(isv(old, OPT, 1), app_lam(app_lam(o.args[3], k), fld(old, 0, 'any', 1))), old, NONE)
    if o.op == 'app' and o.args[0] == 'map.empty': return NONE
    return mk('app', 'map.get', 'any', o, k)

# ---------------------------------------------------------------- sequences
def seqm(it, m, a, targs, rty, sp):
    p = it.p
    if m in ('new', 'with_capacity'): return EMPTY
    if m == 'from_elem': return arr(it.val(a[1]), lambda i: it.val(a[0]))
    r = a[0]
    if m in ('push', 'push_back', 'push_front', 'append', 'extend_from_slice', 'pop', 'pop_back', 'pop_front', 'clear', 'truncate', 'insert', 'remove', 'resize', 'swap',
             'fill', 'copy_from_slice', 'clone_from_slice', 'reverse', 'extend', 'reserve', 'drain', 'split_off', 'retain', 'dedup', 'shrink_to_fit', 'sort', 'sort_by', 'sort_unstable', 'swap_remove', 'rotate_left', 'sort_by_key', 'sort_unstable_by_key', 'reserve_exact'):
        pl = it.slot(r); s = it.read(pl)
        while s.op == 'mref': pl = it.deref(s); s = it.read(pl)
        if is_unk(s): return unk(UNKS[s])
        w = lambda x: (it.write(pl, x), UNIT)[1]
        if m in ('push', 'push_back'): return w(concat(s, seq_lit(a[1])))
        if m == 'push_front': return w(concat(seq_lit(a[1]), s))
        if m == 'append':
            q = it.slot(a[1]); t = it.read(q)
            it.write(q, EMPTY)
            return w(concat(s, t))
        if m in ('extend_from_slice',): return w(concat(s, it.val(a[1])))
        if m == 'extend': return w(concat(s, sub_seq(it, a[1])))
        if m in ('reserve', 'shrink_to_fit', 'reserve_exact'): return UNIT
        if m == 'clear': return w(EMPTY)
        if m == 'truncate':
            return w(cut(it, s, ZERO, it.val(a[1])))
        if m == 'resize':
            n = it.val(a[1]); x = it.val(a[2]); L = length(s)
            return w(arr(n, lambda i: ite(lt(i, L), at(s, i), x)))
        if m in ('pop', 'pop_back', 'pop_front'):
            n = length(s)
            def some_():
                if m == 'pop_front':
                    it.write(pl, seq_slice(s, ONE, n)); return some(at(s, ZERO))
                it.write(pl, seq_slice(s, ZERO, sub(n, ONE)))
                return some(at(s, sub(n, ONE)))
            return it.branch([(lt(ZERO, n), some_), (TRUE, lambda: NONE)])
        if m == 'swap':
            i, j = it.val(a[1]), it.val(a[2])
            it.may_panic(and_(lt(i, length(s)), lt(j, length(s))), 'swap out of bounds', sp)
            x, y = at(s, i), at(s, j)
            return w(upd(upd(s, i, y), j, x))
        if m == 'fill':
            x = it.val(a[1]); return w(arr(length(s), lambda i: x))
        if m in ('copy_from_slice', 'clone_from_slice'):
            t = it.val(a[1])
            it.may_panic(ieq(length(s), length(t)), 'slice length mismatch', sp)
            return w(t)
        if m == 'reverse': return w(seq_rev(s))
        if m == 'remove':
            i = it.val(a[1]); n = length(s)
            it.may_panic(lt(i, n), 'remove out of bounds', sp)
            it.write(pl, concat(seq_slice(s, ZERO, i), seq_slice(s, add(i, ONE), n)))
            return at(s, i)
        if m == 'insert':
            i = it.val(a[1]); n = length(s)
            return w(concat(seq_slice(s, ZERO, i), seq_lit(a[2]), seq_slice(s, i, n)))
        if m == 'drain':
            b = range_bounds(it, a[1], length(s))
            if b is not None and b[0] is ZERO and b[1] is length(s):
                it.write(pl, EMPTY); return mkit(s)
            if b is not None:
                n = length(s)
                it.may_panic(and_(le(b[0], b[1]), le(b[1], n)), 'drain out of bounds', sp)
                it.write(pl, concat(seq_slice(s, ZERO, b[0]), seq_slice(s, b[1], n)))
                return mkit(seq_slice(s, b[0], b[1]))
        if m == 'split_off':
            i = it.val(a[1]); n = length(s)
            it.may_panic(le(i, n), 'split_off out of bounds', sp)
            it.write(pl, seq_slice(s, ZERO, i))
            return seq_slice(s, i, n)
        if m == 'retain': return w(sfilter(it, s, lambda x: capply(it, a[1], x)))
        if m == 'swap_remove':
            i = it.val(a[1]); n = length(s)
            it.may_panic(lt(i, n), 'swap_remove out of bounds', sp)
            x = at(s, i)
            it.write(pl, seq_slice(upd(s, i, at(s, sub(n, ONE))), ZERO, sub(n, ONE)))
            return x
        ln = const(length(s))
        if ln is not None and ln <= 32 and m in ('dedup', 'sort', 'sort_unstable', 'rotate_left'):
            xs = [at(s, num(i)) for i in range(int(ln))]
            if m == 'rotate_left' and const(it.val(a[1])) is not None and const(it.val(a[1])) <= ln:
                k = int(const(it.val(a[1]))); return w(seq_lit(*(xs[k:] + xs[:k])))
            if m == 'dedup':
                out = xs[:1]
                for x in xs[1:]:
                    d = it.decide(equal(it, out[-1], x, fkind(out[-1], x)))
                    if d is None: break
                    if d is False: out.append(x)
                else: return w(seq_lit(*out))
            if m.startswith('sort') and all(const(x) is not None for x in xs): return w(seq_lit(*sorted(xs, key=const)))
        if m.startswith('sort'):
            it.write(pl, mk('app', 'sorted', 'seq:any', s)); return UNIT
        it.write(pl, unk('Vec::' + m)); return unk('Vec::' + m)
    if m in ('iter_mut', 'as_mut_slice', 'last_mut', 'first_mut', 'get_mut', 'back_mut', 'front_mut', 'split_at_mut', 'chunks_mut', 'as_mut'):
        pl = it.slot(r); s = it.read(pl)
        while s.op == 'mref': pl = it.deref(s); s = it.read(pl)
        if is_unk(s): return unk(UNKS[s])
        n = length(s)
        ref = lambda i: mk('mref', pl.loc, pl.path + ('i', i))
        if m == 'iter_mut': return mkit(arr(n, ref))
        if m in ('as_mut_slice', 'as_mut'): return mk('mref', pl.loc, pl.path)
        i = {'last_mut': sub(n, ONE), 'back_mut': sub(n, ONE), 'first_mut': ZERO, 'front_mut': ZERO}.get(m)
        if m == 'get_mut': i = it.val(a[1])
        if i is not None:
            c = lt(i, n) if m == 'get_mut' else lt(ZERO, n)
            return it.branch([(c, lambda: some(ref(i))), (TRUE, lambda: NONE)])
        if m == 'split_at_mut':
            k = it.val(a[1])
            return tup(mk('mref', pl.loc, pl.path + ('sub', ZERO, k)), mk('mref', pl.loc, pl.path + ('sub', k, n)))
        return unk('slice ' + m)
    s = it.val(r)
    if is_unk(s): return unk(UNKS[s])
    s = as_seq(it, s) if as_seq(it, s) is not None else s
    n = length(s)
    if m == 'len': return n
    if m == 'is_empty': return eq0(n)
    if m in ('iter', 'into_iter'): return mkit(s)
    if m in ('to_vec', 'as_slice', 'into_boxed_slice', 'clone', 'into_vec', 'make_contiguous', 'as_ref', 'to_owned'): return s
    if m in ('first', 'front'): return ite(lt(ZERO, n), some(at(s, ZERO)), NONE)
    if m in ('last', 'back'): return ite(lt(ZERO, n), some(at(s, sub(n, ONE))), NONE)
    if m == 'get':
        i = it.val(a[1])
        if i.op == 'st':
            b = range_bounds(it, i, n)
            if b is None: return unk('get range')
            return ite(and_(le(b[0], b[1]), le(b[1], n)), some(seq_slice(s, b[0], b[1])), NONE)
        return ite(lt(i, n), some(at(s, i)), NONE)
    if m == 'split_first': return ite(lt(ZERO, n), some(tup(at(s, ZERO), seq_slice(s, ONE, n))), NONE)
    if m == 'split_last': return ite(lt(ZERO, n), some(tup(at(s, sub(n, ONE)), seq_slice(s, ZERO, sub(n, ONE)))), NONE)
    if m in ('get_unchecked',): return at(s, it.val(a[1]))
    if m == 'split_at':
        k = it.val(a[1])
        it.may_panic(le(k, n), 'split out of bounds', sp)
        return tup(seq_slice(s, ZERO, k), seq_slice(s, k, n))
    if m == 'contains':
        x = it.val(a[1])
        return quant(it, s, lambda y: equal(it, y, x, fkind(x, y)))
    if m == 'capacity': return n
    if m == 'concat': return seq_flat(s)
    return unk('slice method ' + m)

def range_bounds(it, r, n):
    r = it.val(r)
    if r.op != 'st': return None
    p = r.args[0].split('::')[-1]
    if p == 'Range': return r.args[2], r.args[3]
    if p == 'RangeInclusive': return r.args[2], add(r.args[3], ONE)
    if p == 'RangeFrom': return r.args[2], n
    if p == 'RangeTo': return ZERO, r.args[2]
    if p == 'RangeToInclusive': return ZERO, add(r.args[2], ONE)
    if p == 'RangeFull': return ZERO, n
    return None

def index(it, a, targs, rty, sp, mut):
    r = a[0]
    pl = it.deref(r) if r.op == 'mref' else V(r)
    v = it.read(pl)
    while v.op in ('mref', 'arc'):
        pl = it.deref(v); v = it.read(pl)
    if v.op == 'ite' and it.has_ref(v): v = it.val(v); pl = V(v)
    i = it.val(a[1])
    if is_unk(v): return unk(UNKS[v])
    t = it.p.strip(targs[0])
    ismat = t[0] == 'adt' and t[1].startswith('nalgebra')
    def ref(*path):
        if mut:
            if isinstance(pl, V): raise Give('mutable index of a temporary')
            return mk('mref', pl.loc, pl.path + tuple(path))
        return it.proj(v, path[0], path[1:])
    if ismat:
        if i.op == 'st' and i.args[0] == '()':
            x, y = i.args[2], i.args[3]
            it.may_panic(and_(lt(x, nrows(v)), lt(y, ncols(v))), 'matrix index out of bounds', sp)
            return ref('m', x, y)
        n = nrows(v) if ncols(v) is ONE else ncols(v) if nrows(v) is ONE else mul(nrows(v), ncols(v))
        it.may_panic(lt(i, n), 'matrix index out of bounds', sp)
        return ref('l', i)
    if v.op == 'app' and v.args[0].startswith('map.') or (t[0] == 'adt' and t[1].startswith('std::collections')):
        g = map_get(v, i)
        it.may_panic(isv(g, OPT, 1), 'missing key', sp)
        return fld(g, 0, 'any', 1)
    s = as_seq(it, v)
    if s is None: return unk('index')
    b = range_bounds(it, i, length(s)) if i.op == 'st' else None
    if b is not None:
        it.may_panic(and_(le(b[0], b[1]), le(b[1], length(s))), 'range out of bounds', sp)
        return ref('sub', b[0], b[1])
    it.may_panic(lt(i, length(s)), 'index out of bounds', sp)
    return ref('i', i)

def next_back(it, ref):
    pl = it.slot(ref); v = it.read(pl)
    while v.op == 'mref': pl = it.deref(v); v = it.read(pl)
    s = rest(it, v)
    if s is None: return unk('next_back')
    n = length(s)
    def some_():
        it.write(pl, mkit(seq_slice(s, ZERO, sub(n, ONE)))); return some(at(s, sub(n, ONE)))
    return it.branch([(lt(ZERO, n), some_), (TRUE, lambda: NONE)])

def parallel(it, m, a, rty):
    """rayon's splitting combinators: a general form where the operation is a concatenation or a sum,
    otherwise the splitting `it.split` of a sequence of known small length"""
    s = rest(it, a[0])
    if s is None: return unk(m)
    k = const(length(s)) if s.op != 'fseq' else None
    small = it.unroll and k is not None and 0 <= k <= 6
    xs = [at(s, num(i)) for i in range(int(k))] if small else None
    if m in ('reduce', 'reduce_with'):
        op = a[2] if m == 'reduce' else a[1]
        e = it.call_closure(a[1], []) if m == 'reduce' else EMPTY
        some_ = (lambda r: r) if m == 'reduce' else (lambda r: ite(lt(ZERO, length(s)), some(r), NONE))
        x = sym('red.a%d' % next(_red), 'seq:any'); y = sym('red.b%d' % next(_red), 'seq:any')
        r = probe(it, lambda: it.val(it.call_closure(op, [x, y])))
        if e is EMPTY and r is not None:
            if r is concat(x, y): return some_(seq_flat(s))
            if r is concat(y, x): return some_(seq_flat(seq_rev(s)))
        if e is ZERO or m == 'reduce_with':
            x = sym('red.x', 'real'); y = sym('red.y', 'real')
            if probe(it, lambda: it.val(it.call_closure(op, [x, y]))) is add(x, y): return some_(ssum(s))
        if not small: return unk('parallel reduction')
        f = lambda p, q: it.call_closure(op, [p, q])
        if m == 'reduce_with':
            if not xs: return NONE
            return some(split_tree(it, xs, None, f))
        return split_tree(it, xs, lambda: it.call_closure(a[1], []), f)
    if m in ('map_init', 'map_with'):
        st0 = lambda: it.call_closure(a[1], []) if m == 'map_init' else it.val(a[1])
        if small and xs and it.split == 0:
            l = it.new(st0())
            return mkit(seq_lit(*[it.val(it.call_closure(a[2], [mk('mref', l, ()), x])) for x in xs]))
        return mkit(smap(it, s, lambda x: it.call_closure(a[2], [mk('mref', it.new(st0()), ()), x])))
    # fold, fold_with: one accumulator per part
    st0 = lambda: it.call_closure(a[1], []) if m == 'fold' else it.val(a[1])
    if not small:
        e = st0()
        if e is not EMPTY: return unk('parallel fold')
        x = sym('red.a%d' % next(_red), 'seq:any')
        def one(z):
            r = it.call_closure(a[2], [x, z])
            if r.op == 'concat' and r.args[0][0] is x and not any(occurs(x, q) for q in r.args[0][1:]): return concat(*r.args[0][1:])
            raise Give('parallel fold')
        return mkit(smap(it, s, one))
    n = len(xs)
    parts = [xs] if it.split == 0 else [[x] for x in xs] if it.split == 1 else [xs[:1], xs[1:]] if n > 1 else [xs, []]
    out = []
    for p in parts:
        acc = st0()
        for x in p: acc = it.call_closure(a[2], [acc, x])
        out.append(acc)
    return mkit(seq_lit(*out))
def split_tree(it, xs, e, f):
    if e is None:
        if it.split == 1:
            r = xs[-1]
            for x in reversed(xs[:-1]): r = f(x, r)
        else:
            r = xs[0]
            for x in xs[1:]: r = f(r, x)
        return r
    if not xs: return e()
    if it.split == 0:
        r = e()
        for x in xs: r = f(r, x)
    elif it.split == 1:
        r = f(e(), xs[-1])
        for x in reversed(xs[:-1]): r = f(f(e(), x), r)
    else:
        h = len(xs) // 2
        l = e()
        for x in xs[:h]: l = f(l, x)
        r = e()
        for x in xs[h:]: r = f(r, x)
        r = f(l, r)
    return r
_red = itertools.count(1)
