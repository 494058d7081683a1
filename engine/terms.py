"""Hash-consed value terms with normal forms.

A term denotes the value of a program expression as a function of the analysed function's inputs.
Numbers are kept in a normal form of rational functions over atoms (usize as unbounded integers,
floats as real numbers); sequences and matrices are comprehensions (length + element function)."""
from fractions import Fraction as Fr
from math import gcd
import itertools, time

_table = {}
_ids = itertools.count(1)

class Budget(Exception):
    """a decision takes too long"""
LIMIT = [None]
def limited(seconds, f):
    """f() within a time limit"""
    old = LIMIT[0]; t = time.time() + seconds
    LIMIT[0] = t if old is None else min(t, old)
    try: return f()
    finally: LIMIT[0] = old

class T:
    __slots__ = ('op', 'args', 'id', 'mb', 'fs')
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id

def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; t.id = next(_ids)
        if t.id & 255 == 0 and LIMIT[0] is not None and time.time() > LIMIT[0]: raise Budget()
        mb = 0
        fs = None
        for a in _kids(op, args):
            if a.mb > mb: mb = a.mb
            if a.fs: fs = a.fs if fs is None else (fs if a.fs <= fs else fs | a.fs)
        if op == 'lam': mb = max(mb, args[0])
        t.mb = mb
        if op in ('sym', 'bv'):
            fs = frozenset((t,))
        t.fs = fs or frozenset()
        if op == 'lam' and mkbv(args[0]) in t.fs: t.fs = t.fs - {mkbv(args[0])}
        _table[key] = t
    return t

def mkbv(h):
    return mk('bv', h)

def _kids(op, args):
    if op == 'poly':
        for m, c in args[0]:
            for a, e in m: yield a
    else:
        for a in args:
            if isinstance(a, T): yield a
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T): yield b

_fresh = itertools.count(1)
def sym(name, sort='real'): return mk('sym', name, sort)
def fresh(pref='t', sort='real'): return mk('sym', '%s#%d' % (pref, next(_fresh)), sort)

TRUE = mk('true'); FALSE = mk('false')
def boolc(b): return TRUE if b else FALSE

# ---------------------------------------------------------------- numbers
def P(t):
    if t.op == 'poly': return dict(t.args[0])
    return {((t, 1),): 1}

def mkpoly(d):
    d = {m: (c if type(c) is int else c.numerator if c.denominator == 1 else c) for m, c in d.items() if c}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk('poly', items)

def num(c):
    c = Fr(c)
    return mk('poly', (((), c),) if c != 0 else ())
ZERO = num(0); ONE = num(1)

def is_const(t): return t.op == 'poly' and (not t.args[0] or (len(t.args[0]) == 1 and t.args[0][0][0] == ()))
def const(t):
    if t.op != 'poly': return None
    if not t.args[0]: return Fr(0)
    if len(t.args[0]) == 1 and t.args[0][0][0] == (): return t.args[0][0][1]
    return None

def add(*ts):
    d = {}
    for t in ts:
        for m, c in (t.args[0] if t.op == 'poly' else ((((t, 1),), 1),)):
            d[m] = d.get(m, 0) + c
    return mkpoly(d)
def scale(t, c):
    if type(c) is not int:
        c = Fr(c)
        if c.denominator == 1: c = c.numerator
    if c == 1: return t
    return mkpoly({m: k * c for m, k in P(t).items()})
def neg(t): return scale(t, -1)
def sub(a, b): return add(a, neg(b))

def _mono_mul(m1, m2):
    e = {}
    for a, x in m1: e[a] = e.get(a, 0) + x
    for a, x in m2: e[a] = e.get(a, 0) + x
    return e

def _mono_term(e, c):
    """dict atom->exp, coefficient -> poly dict (reduced)"""
    # reductions: base(p)^n for n>=1 expands, sin^2 -> 1-cos^2, |x|^2 -> x^2
    for a in list(e):
        x = e[a]
        if x == 0: del e[a]; continue
        if a.op == 'base' and x >= 1:
            n = x.numerator // x.denominator
            rest = dict(e); rest[a] = x - n
            return mul_d(_mono_term(rest, c), P(powi(a.args[0], n)))
        if a.op == 'fn' and a.args[0] == 'sin' and x >= 2 and x.denominator == 1:
            rest = dict(e); rest[a] = x - 2
            co = mk('fn', 'cos', a.args[1])
            return mul_d(_mono_term(rest, c), P(sub(ONE, powi(co, 2))))
        if a.op == 'fn' and a.args[0] == 'abs' and x.denominator == 1 and abs(x) >= 2:
            k = 2 if x > 0 else -2
            rest = dict(e); rest[a] = x - k
            return mul_d(_mono_term(rest, c), P(powi(a.args[1], k)))
        if a.op == 'ite' and is_boolnum(a) and x > 1:
            e[a] = Fr(1)
    m = tuple(sorted(((a, x if type(x) is int else x.numerator if x.denominator == 1 else x) for a, x in e.items() if x), key=lambda ax: ax[0].id))
    return {m: c}

def is_boolnum(a):
    """ite(c,1,0): idempotent under multiplication"""
    return a.op == 'ite' and a.args[1] is ONE and a.args[2] is ZERO

def mul_d(d1, d2):
    r = {}
    for m1, c1 in d1.items():
        for m2, c2 in d2.items():
            for m, c in _mono_term(_mono_mul(m1, m2), c1 * c2).items():
                r[m] = r.get(m, 0) + c
    return r
def mul(*ts):
    d = {(): Fr(1)}
    for t in ts:
        if t is ZERO: return ZERO
        d = mul_d(d, P(t))
    return mkpoly(d)

def powi(t, n):
    if n == 0: return ONE
    if n < 0: return powi(inv(t), -n)
    r = ONE
    for _ in range(n): r = mul(r, t)
    return r

def content(p):
    """(c, p') with p = c*p', leading coefficient of p' is 1"""
    items = p.args[0] if p.op == 'poly' else None
    if items is None: return Fr(1), p
    # leading = largest key with nonconstant monomial
    nz = [mc for mc in items if mc[0] != ()] or list(items)
    c = nz[0][1]
    return c, scale(p, Fr(1) / c)

def inv(t):
    c = const(t)
    if c is not None:
        if c == 0: return mk('fn', 'div0')
        return num(Fr(1) / c)
    if t.op == 'poly' and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        return mkpoly(_mono_term({a: -e for a, e in m}, Fr(1) / c))
    if t.op != 'poly': return mkpoly({((t, Fr(-1)),): Fr(1)})
    c, p = content(t)
    return mkpoly({((mk('base', p), Fr(-1)),): Fr(1) / c})

def div(a, b): return mul(a, inv(b))

def _rat_root(c, q):
    """c**q if rational and exact, else None"""
    if c < 0: return None
    n, d = q.numerator, q.denominator
    def root(x):
        r = round(x ** (1.0 / d))
        for y in (r - 1, r, r + 1):
            if y >= 0 and y ** d == x: return y
        return None
    a, b = root(c.numerator), root(c.denominator)
    if a is None or b is None or b == 0: return None
    return Fr(a, b) ** n

def powq(t, q):
    """t**q for rational q (domain: t>0 unless q is an integer)"""
    q = Fr(q)
    if q.denominator == 1: return powi(t, int(q))
    c = const(t)
    if c is not None:
        r = _rat_root(c, q)
        if r is not None: return num(r)
        return mkpoly({((mk('base', t), q),): Fr(1)}) if c > 0 else mk('fn', 'powc', t, num(q))
    if t.op == 'poly' and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        # (x^2)^(1/2) = |x|
        out = powq(num(c), q) if c != 1 else ONE
        if c < 0: return mkpoly({((mk('base', t), q),): Fr(1)})
        for a, e in m:
            if e.denominator == 1 and e.numerator % 2 == 0 and not positive(a):
                out = mul(out, powq_atom(fn('abs', a), e * q))
            else:
                out = mul(out, powq_atom(a, e * q))
        return out
    if t.op != 'poly': return powq_atom(t, q)
    c, p = content(t)
    if c > 0: return mul(powq(num(c), q), mkpoly(_mono_term({mk('base', p): q}, Fr(1))))
    return mkpoly(_mono_term({mk('base', t): q}, Fr(1)))

def powq_atom(a, q):
    if a.op == 'poly': return powq(a, q) if q.denominator != 1 else powi(a, int(q))
    return mkpoly(_mono_term({a: Fr(q)}, Fr(1)))

def positive(a):
    return a.op == 'fn' and a.args[0] in ('exp', 'abs')

def exp_(t):
    """exp of a sum is a product of powers; c*ln(x) turns into x^c"""
    out = ONE
    for m, c in P(t).items():
        if m == ():
            out = mul(out, powq_atom(mk('fn', 'exp', ONE), c)); continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'ln':
            out = mul(out, powq(m[0][0].args[1], c)); continue
        if c.denominator == 1:
            out = mul(out, powq_atom(mk('fn', 'exp', mkpoly({m: Fr(1)})), c))
        else:
            out = mul(out, powq_atom(mk('fn', 'exp', mkpoly({m: Fr(1)})), c))
    return out

def ln_(t):
    c = const(t)
    if c == 1: return ZERO
    if t.op == 'poly' and len(t.args[0]) == 1 and t.args[0][0][1] == 1 and len(t.args[0][0][0]) == 1:
        a, e = t.args[0][0][0][0]
        if a.op == 'fn' and a.args[0] == 'exp': return mul(num(e), a.args[1])
        if e.denominator != 1: return mul(num(e), mk('fn', 'ln', a))
    if t.op == 'fn' and t.args[0] == 'exp': return t.args[1]
    return mk('fn', 'ln', t)

def pow_(x, y):
    c = const(y)
    if c is not None: return powq(x, c)
    if x is ONE: return ONE
    return exp_(mul(y, ln_(x)))

def _lead_neg(t):
    d = [mc for mc in t.args[0]] if t.op == 'poly' else []
    return bool(d) and d[0][1] < 0

def fn(name, t, *rest):
    """elementary real functions"""
    c = const(t)
    if name == 'exp': return exp_(t) if c != 0 else ONE
    if name == 'ln': return ln_(t)
    if name == 'sqrt': return powq(t, Fr(1, 2))
    if name == 'tan': return mul(fn('sin', t), inv(fn('cos', t)))
    if name == 'sin':
        if c == 0: return ZERO
        return neg(mk('fn', 'sin', neg(t))) if _lead_neg(t) else mk('fn', 'sin', t)
    if name == 'cos':
        if c == 0: return ONE
        return mk('fn', 'cos', neg(t)) if _lead_neg(t) else mk('fn', 'cos', t)
    if name == 'abs':
        if c is not None: return num(abs(c))
        if t.op == 'poly' and len(t.args[0]) == 1:
            m, c = t.args[0][0]
            out = num(abs(c)); r = {}
            for a, e in m:
                if positive(a) or (e.denominator == 1 and e.numerator % 2 == 0):
                    out = mul(out, powq_atom(a, e))
                else: r[a] = e
            if not r: return out
            if len(r) == 1 and list(r.values())[0].denominator == 1:
                a, e = list(r.items())[0]
                return mul(out, powq_atom(mk('fn', 'abs', a), e))
            return mul(out, mk('fn', 'abs', mkpoly(_mono_term(r, Fr(1)))))
        if positive(t): return t
        return mk('fn', 'abs', neg(t)) if _lead_neg(t) else mk('fn', 'abs', t)
    if name in ('asin', 'atan') and c == 0: return ZERO
    return mk('fn', name, t, *rest)

def fmax(a, b): return scale(add(a, b, fn('abs', sub(a, b))), Fr(1, 2))
def fmin(a, b): return scale(sub(add(a, b), fn('abs', sub(a, b))), Fr(1, 2))

# ---------------------------------------------------------------- integers
NAT_OPS = {'len', 'nrows', 'ncols'}
def is_nat(a):
    o = a.op
    if o == 'sym': return a.args[1] == 'nat'
    if o in NAT_OPS: return True
    if o in ('fdiv', 'fmod'): return nonneg(a.args[0])
    if o == 'sel': return seq_sort(a.args[0]) == 'nat'
    if o == 'app': return a.args[1] == 'nat'
    if o == 'fld': return a.args[2] == 'nat'
    if o == 'ite': return nonneg(a.args[1]) and nonneg(a.args[2])
    if o == 'sum':
        h, b = a.args[1].args
        return nonneg_body(b)
    if o == 'bv': return True   # only index binders
    if o == 'maxseq': return True
    return False
def nonneg_body(b):
    return b is ONE or b is ZERO or nonneg(b)
def seq_sort(a):
    if a.op == 'sym' and a.args[1].startswith('seq:'): return a.args[1][4:]
    if a.op == 'app' and isinstance(a.args[1], str) and a.args[1].startswith('seq:'): return a.args[1][4:]
    if a.op == 'fld' and isinstance(a.args[2], str) and a.args[2].startswith('seq:'): return a.args[2][4:]
    return None
def nonneg(t):
    if t.op == 'poly':
        return all(c > 0 and all(is_nat(a) and e > 0 for a, e in m) for m, c in t.args[0])
    return is_nat(t)

def ge0(p):
    """p >= 0 over the integers"""
    c = const(p)
    if c is not None: return boolc(c >= 0)
    if nonneg(p): return TRUE
    if nonneg(scale(sub(neg(p), ONE), 1)): return FALSE
    d = P(p)
    k = [x for m, x in d.items() if m != ()]
    if all(x.denominator == 1 for x in k) and k:
        g = 0
        for x in k: g = gcd(g, abs(int(x)))
        if g > 1:
            c0 = Fr(d.get((), 0)) / g
            d = {m: Fr(x) / g for m, x in d.items() if m != ()}
            d[()] = Fr(c0.numerator // c0.denominator)
            return ge0(mkpoly(d))
    if p.op == 'ite': return bite(p.args[0], ge0(p.args[1]), ge0(p.args[2]))
    if len(k) == 1 and len(d) <= 2:
        # constant + c*x
        (m, c), = [(m, x) for m, x in d.items() if m != ()]
        if len(m) == 1 and m[0][1] == 1:
            x, c0 = m[0][0], d.get((), 0)
            if x.op == 'ite': return bite(x.args[0], ge0(add(scale(x.args[1], c), num(c0))), ge0(add(scale(x.args[2], c), num(c0))))
            if x.op == 'app' and x.args[0] == 'shl' and const(x.args[2]) is not None and const(x.args[2]) >= 1:
                if c > 0 and c0 + c >= 0: return TRUE
                if c < 0 and c0 + c < 0: return FALSE
    # floor(a/c) + d >= 0  <=>  a + c*d >= 0 ;  -floor(a/c) + d >= 0 <=> a < c*(d+1)
    ats = [(m, x) for m, x in P(p).items() if m != () and len(m) == 1 and m[0][0].op == 'fdiv' and m[0][1] == 1 and abs(x) == 1]
    if len(ats) == 1:
        (m, x) = ats[0]
        a, cst = m[0][0].args
        rest = mkpoly({mm: cc for mm, cc in P(p).items() if mm != m})
        cc = const(cst)
        if cc is not None and cc > 0:
            if x == 1: return ge0(add(a, scale(rest, cc)))
            return ge0(sub(scale(add(rest, ONE), cc), add(a, ONE)))
    return mk('ge0', p)
def lt(a, b): return ge0(sub(sub(b, a), ONE))
def le(a, b): return ge0(sub(b, a))

def eq0(p):
    c = const(p)
    if c is not None: return boolc(c == 0)
    if p.op == 'ite': return bite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    d = P(p)
    if nonneg(p):
        return not_(ge0(sub(p, ONE)))
    if nonneg(neg(p)): return not_(ge0(sub(neg(p), ONE)))
    c, q = content(p)
    return mk('eq0', q)
def ieq(a, b): return eq0(sub(a, b))

def feq0(p):
    tick()
    c = const(p)
    if c is not None: return boolc(c == 0)
    if p.op == 'ite': return bite(p.args[0], feq0(p.args[1]), feq0(p.args[2]))
    if p.op == 'poly' and len(p.args[0]) == 1: p = mkpoly({p.args[0][0][0]: Fr(1)})
    c, q = content(p)
    return mk('feq0', q)
def fgt0(p):
    tick()
    c = const(p)
    if c is not None: return boolc(c > 0)
    if p.op == 'ite': return bite(p.args[0], fgt0(p.args[1]), fgt0(p.args[2]))
    c, q = content(p)
    return mk('fgt0', scale(q, 1 if c > 0 else -1))
def flt(a, b): return fgt0(sub(b, a))
def feq(a, b): return feq0(sub(a, b))

def fdiv(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None and cb != 0: return num(ca // cb)
    if cb == 1: return a
    if a is b: return ONE
    return mk('fdiv', a, b)
def fmod(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None and cb != 0: return num(ca % cb)
    if cb == 1: return ZERO
    return mk('fmod', a, b)
def imin(a, b):
    c = le(a, b)
    return ite(c, a, b)
def imax(a, b):
    c = le(a, b)
    return ite(c, b, a)

# ---------------------------------------------------------------- booleans
_not = {}
def not_(a):
    r = _not.get(a)
    if r is None: r = _not[a] = _not_(a)
    return r
def _not_(a):
    tick()
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'ge0': return ge0(sub(neg(a.args[0]), ONE))
    if a.op == 'and': return or_(*[not_(x) for x in a.args[0]])
    if a.op == 'or': return and_(*[not_(x) for x in a.args[0]])
    if a.op == 'ite': return bite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', a)
def _excl(y, vs):
    """the condition, if it gets simpler, given the variants of values"""
    if y.op == 'isv': return FALSE if vs.get(y.args[0], y.args[2]) != y.args[2] else None
    if y.op == 'not' and y.args[0].op == 'isv': return TRUE if vs.get(y.args[0].args[0], y.args[0].args[2]) != y.args[0].args[2] else None
    if y.op in ('and', 'or') and any(x in y.fs for t in vs for x in t.fs):
        es = [_excl(d, vs) for d in y.args[0]]
        if any(e is not None for e in es): return (and_ if y.op == 'and' else or_)(*[d if e is None else e for d, e in zip(y.args[0], es)])
    return None
def and_(*xs):
    tick()
    s = set()
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == 'and': s.update(x.args[0])
        else: s.add(x)
    vs = {x.args[0]: x.args[2] for x in s if x.op == 'isv'}
    if vs:
        # a value is of one variant only
        ch = False; out = set()
        for y in s:
            r = _excl(y, vs)
            if r is FALSE: return FALSE
            if r is None: out.add(y)
            else:
                ch = True
                if r is not TRUE: out.add(r)
        if ch: return and_(*out)
    for x in list(s):
        if not_(x) in s: return FALSE
        if x.op == 'or':
            ds = [y for y in x.args[0] if not_(y) not in s]
            if any(y in s for y in x.args[0]): s.discard(x)
            elif len(ds) != len(x.args[0]):
                s.discard(x); return and_(or_(*ds), *s)
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return mk('and', tuple(sorted(s)))
def or_(*xs):
    tick()
    s = set()
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        if x.op == 'or': s.update(x.args[0])
        else: s.add(x)
    vs = {x.args[0].args[0]: x.args[0].args[2] for x in s if x.op == 'not' and x.args[0].op == 'isv'}
    if vs:
        ch = False; out = set()
        for y in s:
            r = _excl(y, vs)
            if r is TRUE: return TRUE
            if r is None: out.add(y)
            else:
                ch = True
                if r is not FALSE: out.add(r)
        if ch: return or_(*out)
    for x in list(s):
        if not_(x) in s: return TRUE
        if x.op == 'and':
            ds = [y for y in x.args[0] if not_(y) not in s]
            if any(y in s for y in x.args[0]): s.discard(x)
            elif len(ds) != len(x.args[0]):
                s.discard(x); return or_(and_(*ds), *s)
    if not s: return FALSE
    if len(s) == 1: return next(iter(s))
    return mk('or', tuple(sorted(s)))
def bite(c, a, b): 
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return or_(and_(c, a), and_(not_(c), b))

BOOL_OPS = {'true', 'false', 'not', 'and', 'or', 'ge0', 'eq0', 'feq0', 'fgt0', 'isv', 'eqv'}
def is_bool(t): return t.op in BOOL_OPS or (t.op in ('sym',) and t.args[1] == 'bool') or (t.op in ('app',) and t.args[1] == 'bool') or (t.op == 'fld' and t.args[2] == 'bool') or (t.op == 'sel' and seq_sort(t.args[0]) == 'bool')

# enum variants -----------------------------------------------------------
NVARIANTS = {'core::option::Option': 2, 'core::result::Result': 2}
def isv(x, path, v):
    if x.op == 'st':
        return boolc(x.args[1] == v)
    if x.op == 'ite': return bite(x.args[0], isv(x.args[1], path, v), isv(x.args[2], path, v))
    n = NVARIANTS.get(path)
    if n == 1: return TRUE
    if n == 2 and v == 0: return not_(mk('isv', x, path, 1))
    return mk('isv', x, path, v)

# ---------------------------------------------------------------- structures
def st(path, variant, *fields): return mk('st', path, variant, *fields)
def tup(*fs): return st('()', 0, *fs)
UNIT = tup()
OPT = 'core::option::Option'; RES = 'core::result::Result'
def some(x): return st(OPT, 1, x)
NONE = st(OPT, 0)
def ok(x): return st(RES, 0, x)

def fld(t, i, sort='any', v=0, path=None):
    """field i of t (of variant v)"""
    if t.op == 'st':
        if t.args[1] != v: return mk('absent')
        return t.args[2 + i]
    if t.op == 'ite':
        a, b = t.args[1], t.args[2]
        if a.op == 'st' and a.args[1] != v: return fld(b, i, sort, v)
        if b.op == 'st' and b.args[1] != v: return fld(a, i, sort, v)
        x, y = fld(a, i, sort, v), fld(b, i, sort, v)
        if x.op == 'absent': return y
        if y.op == 'absent': return x
        return ite(t.args[0], x, y)
    return mk('fld', t, (i, v), sort)

def occurs(x, t, memo=None):
    if x is t: return True
    if x.op in ('sym', 'bv'): return x in t.fs
    if memo is None: memo = {}
    if t in memo: return memo[t]
    r = False
    for k in _kids(t.op, t.args):
        if occurs(x, k, memo): r = True; break
    memo[t] = r
    return r

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.op == 'absent': return b
    if b.op == 'absent': return a
    # simplify the branches under the condition
    if c.op not in ('and', 'or'):
        a2 = subst(a, {c: TRUE}); b2 = subst(b, {c: FALSE})
        if a2 is not a or b2 is not b: return ite(c, a2, b2)
    if is_bool(a) and is_bool(b): return bite(c, a, b)
    if a.op == 'st' and b.op == 'st' and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args) == len(b.args) and len(a.args) > 2:
        if a.args[0] not in ('ref',):
            return st(a.args[0], a.args[1], *[ite(c, x, y) if isinstance(x, T) else x for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == 'arr' and b.op == 'arr' and a.args[0] is b.args[0]:
        return arr(a.args[0], lambda i: ite(c, at(a, i), at(b, i)))
    if a.op == 'mat' and b.op == 'mat' and a.args[:2] == b.args[:2]:
        return mat(a.args[0], a.args[1], lambda i, j: ite(c, mat_at(a, i, j), mat_at(b, i, j)))
    # ite(x == e, A, B) with B[x:=e] == A is B
    if c.op in ('eq0', 'feq0'):
        for x, e in solve_atoms(c.args[0]):
            b1 = subst(b, {x: e})
            if b1 is a or subst(a, {x: e}) is b1: return b
    if c.op == 'ge0':  # integers: k-1 >= 0 guards, value at the boundary k == 0
        q = sub(c.args[0], num(-1))
        if nonneg(q) and q.op != 'poly' and subst(a, {q: ZERO}) is b: return a
    # common factor: ite(c, k*t, 0)
    if c.op == 'ite': pass
    if c.op == 'ge0':
        # canonical orientation of integer conditions
        d = not_(c)
        if d.op == 'ge0' and d.id < c.id: return mk('ite', d, b, a)
    return mk('ite', c, a, b)

def solve_atoms(p):
    """atoms x of the polynomial p with p = 0 <=> x = e"""
    out = []
    d = P(p)
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sym', 'bv', 'sel', 'msel', 'fld', 'app'):
            x = m[0][0]
            rest = mkpoly({mm: -Fr(cc) / c for mm, cc in d.items() if mm != m})
            if not occurs(x, rest): out.append((x, rest))
    if len(d) == 1:
        (m, c), = d.items()
        for a, e in m:
            if e > 0 and a.op in ('sym', 'bv', 'sel', 'msel', 'fld', 'app') and (a, ZERO) not in out: out.append((a, ZERO))
    return out

# ---------------------------------------------------------------- lambdas
def lam(f, sort='nat', name='i'):
    x = fresh(name, sort)
    return lam_over(x, f(x))
def lam_over(x, body):
    h = body.mb + 1
    return mk('lam', h, subst(body, {x: mkbv(h)}))
def app_lam(l, x):
    h, b = l.args
    return subst(b, {mkbv(h): x})

def subst(t, m):
    if not m: return t
    keys_fs = all(k.op in ('sym', 'bv') for k in m)
    return _subst(t, m, {}, keys_fs)
_tick = [0]
def tick():
    _tick[0] += 1
    if _tick[0] & 255 == 0 and LIMIT[0] is not None and time.time() > LIMIT[0]: raise Budget()
def _subst(t, m, memo, leafy):
    tick()
    r = memo.get(t)
    if r is not None: return r
    if t in m: r = m[t]
    elif leafy and not any(k in t.fs for k in m): r = t
    elif not leafy and not any(k.fs <= t.fs for k in m): r = t
    elif t.op in ('sym', 'bv', 'true', 'false'): r = t
    elif t.op == 'lam':
        h, b = t.args
        x = fresh('o', 'nat') if True else None
        m2 = dict(m); m2.pop(mkbv(h), None); m2[mkbv(h)] = x
        b2 = _subst(b, m2, {}, leafy)
        # unchanged apart from the binder?
        r = mk('lam', b2.mb + 1, _subst(b2, {x: mkbv(b2.mb + 1)}, {}, True))
    elif t.op == 'poly':
        ch = False; out = {}
        parts = []
        for mo, c in t.args[0]:
            f = [(a, _subst(a, m, memo, leafy), e) for a, e in mo]
            if any(a is not b for a, b, e in f): ch = True
            parts.append((f, c))
        if not ch: r = t
        else:
            for f, c in parts:
                d = {(): c}
                for a, b, e in f:
                    if e.denominator == 1 and b.op == 'poly': d = mul_d(d, P(powi(b, int(e))))
                    else: d = mul_d(d, P(powq_atom(b, e)))
                for k, v in d.items(): out[k] = out.get(k, 0) + v
            r = mkpoly(out)
    else:
        na = []
        ch = False
        for a in t.args:
            if isinstance(a, T):
                b = _subst(a, m, memo, leafy)
            elif isinstance(a, tuple) and any(isinstance(z, T) for z in a):
                b = tuple(_subst(z, m, memo, leafy) if isinstance(z, T) else z for z in a)
            else: b = a
            if b is not a and b != a: ch = True
            na.append(b)
        r = rebuild(t.op, na) if ch else t
    memo[t] = r
    return r

def bitop(name, sort, x, y):
    """operators on the binary representation of natural numbers"""
    c, d = const(x), const(y)
    if d is not None and d >= 0:
        if name == 'shl': return scale(x, 2 ** int(d))
        if name == 'shr': return fdiv(x, num(2 ** int(d)))
    if c is not None and d is not None and c >= 0 and d >= 0:
        if name == 'bit': return boolc(int(c) >> int(d) & 1)
        if name == 'and': return num(int(c) & int(d))
    if name == 'bit' and x is ZERO: return FALSE
    if name == 'and':
        for a, b, k in ((x, y, d), (y, x, c)):
            if k == 0: return ZERO
            if k is not None and k > 0 and int(k) & (int(k) - 1) == 0: return ite(bitop('bit', 'bool', a, num(int(k).bit_length() - 1)), b, ZERO)
            if b.op == 'app' and b.args[0] == 'shl' and const(b.args[2]) == 1: return ite(bitop('bit', 'bool', a, b.args[3]), b, ZERO)
        if const(y) == 1 and x.op == 'app' and x.args[0] == 'shr': return ite(bitop('bit', 'bool', x.args[2], x.args[3]), ONE, ZERO)
        x, y = sorted((x, y))
    return mk('app', name, sort, x, y)
def rebuild(op, a):
    if op == 'fn':
        if a[0] in ('sin', 'cos', 'abs', 'exp', 'ln', 'asin', 'atan', 'acos'): return fn(*a)
        return mk('fn', *a)
    if op == 'base': return mk('base', a[0]) if a[0].op == 'poly' and const(a[0]) is None else a[0]
    if op == 'ge0': return ge0(*a)
    if op == 'eq0': return eq0(*a)
    if op == 'feq0': return feq0(*a)
    if op == 'fgt0': return fgt0(*a)
    if op == 'not': return not_(*a)
    if op == 'and': return and_(*a[0])
    if op == 'or': return or_(*a[0])
    if op == 'isv': return isv(*a)
    if op == 'ite': return ite(*a)
    if op == 'fld': return fld(a[0], a[1][0], a[2], a[1][1])
    if op == 'fdiv': return fdiv(*a)
    if op == 'fmod': return fmod(*a)
    if op == 'sel': return at(*a)
    if op == 'msel': return mat_at(*a)
    if op == 'len': return length(*a)
    if op == 'nrows': return nrows(*a)
    if op == 'ncols': return ncols(*a)
    if op == 'fseq': return fseq_l(*a)
    if op == 'concat': return concat(*a[0])
    if op == 'bigcat': return bigcat_l(*a)
    if op == 'sum': return sum_l(*a)
    if op == 'eqv': return eqv(*a)
    if op == 'slice': return seq_slice(*a)
    if op == 'fold': return fold_l(*a)
    if op == 'app' and a[0] in ('shl', 'shr', 'bit', 'and'): return bitop(*a)
    if op == 'app' and a[0] in ('max', 'min', 'exists') and UNROLL[0]: return unroll_app(a)
    return mk(op, *a)

# ---------------------------------------------------------------- sequences
def arr(n, f):
    return mk('arr', n, lam(f))
def arr_l(n, l): return mk('arr', n, l)
def seq_lit(*xs):
    xs = list(xs)
    if len(xs) == 1: return arr(ONE, lambda i: xs[0])
    if not xs: return EMPTY
    return concat(*[seq_lit(x) for x in xs])
def fseq(n, c, e): return fseq_l(n, lam(c), lam(e))
def fseq_l(n, cl, el):
    if n is ZERO: return EMPTY
    if cl.args[1] is TRUE: return mk('arr', n, el)
    if cl.args[1] is FALSE: return EMPTY
    if UNROLL[0]:
        c = const(n)
        if c is not None and 0 <= c <= 4:
            return concat(*[ite(app_lam(cl, num(i)), seq_lit(app_lam(el, num(i))), EMPTY) for i in range(int(c))])
    c = const(n)
    if c is not None and 0 <= c <= 8:
        bs = [app_lam(cl, num(i)) for i in range(int(c))]
        if all(b is TRUE or b is FALSE for b in bs):
            return concat(*[seq_lit(app_lam(el, num(i))) for i, b in enumerate(bs) if b is TRUE])
    return mk('fseq', n, cl, el)
EMPTY = None
def _init_empty():
    global EMPTY
    EMPTY = mk('arr', ZERO, mk('lam', 1, mk('absent')))
_init_empty()

def is_seq(t): return t.op in ('arr', 'fseq', 'concat', 'bigcat', 'slice') or (t.op == 'sym' and t.args[1].startswith('seq')) 

def concat(*ss):
    out = []
    for s in ss:
        if s.op == 'concat': out.extend(s.args[0])
        elif s.op == 'arr' and s.args[0] is ZERO: continue
        else: out.append(s)
    # merge neighbouring comprehensions: [e(i) | i<n] ++ [e(n+i) | i<m]
    res = []
    for s in out:
        if res and s.op == 'arr' and res[-1].op == 'arr':
            a = res[-1]
            na = a.args[0]
            if not (const(s.args[0]) == 1 and const(na) == 1):
                x = fresh('j', 'nat')
                if const(s.args[0]) == 1:
                    if app_lam(a.args[1], na) is app_lam(s.args[1], ZERO):
                        res[-1] = mk('arr', add(na, ONE), a.args[1]); continue
                elif const(na) == 1:
                    if app_lam(s.args[1], num(-1)) is app_lam(a.args[1], ZERO) :
                        sh = s
                        res[-1] = arr(add(s.args[0], ONE), lambda i: app_lam(sh.args[1], sub(i, ONE))); continue
                elif app_lam(a.args[1], add(na, x)) is app_lam(s.args[1], x):
                    res[-1] = mk('arr', add(na, s.args[0]), a.args[1]); continue
        res.append(s)
    if not res: return EMPTY
    if len(res) == 1: return res[0]
    return mk('concat', tuple(res))

def bigcat(n, f): return bigcat_l(n, lam(f))
def bigcat_l(n, l):
    h, b = l.args
    if n is ZERO: return EMPTY
    if b.op == 'arr' and b.args[0] is ZERO: return EMPTY
    c = const(n)
    if c == 1: return app_lam(l, ZERO)
    if UNROLL[0] and c is not None and 0 <= c <= 4: return concat(*[app_lam(l, num(i)) for i in range(int(c))])
    if b.op == 'arr' and b.args[0] is ONE:
        return mk('arr', n, lam(lambda k: at(app_lam(l, k), ZERO)))
    if b.op == 'ite':
        x, y = b.args[1], b.args[2]
        if x.op == 'arr' and y.op == 'arr':
            if x.args[0] is ONE and y.args[0] is ZERO:
                return fseq(n, lambda k: app_lam(l, k).args[0] if app_lam(l, k).op == 'ite' else boolc(app_lam(l, k).args[0] is ONE),
                            lambda k: _one_elem(app_lam(l, k)))
            if x.args[0] is ZERO and y.args[0] is ONE:
                return fseq(n, lambda k: not_(app_lam(l, k).args[0]) if app_lam(l, k).op == 'ite' else boolc(app_lam(l, k).args[0] is ONE),
                            lambda k: _one_elem(app_lam(l, k)))
    if b.op == 'concat' and False: pass
    return mk('bigcat', n, l)
def _one_elem(s):
    if s.op == 'ite':
        a = s.args[1] if s.args[1].args[0] is ONE else s.args[2]
        return at(a, ZERO)
    return at(s, ZERO)

def length(s):
    if s.op == 'arr': return s.args[0]
    if s.op == 'concat': return add(*[length(x) for x in s.args[0]])
    if s.op == 'ite': return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if s.op == 'fseq': return sum_(s.args[0], lambda k: ite(app_lam(s.args[1], k), ONE, ZERO))
    if s.op == 'bigcat': return sum_(s.args[0], lambda k: length(app_lam(s.args[1], k)))
    if s.op == 'slice': return sub(s.args[2], s.args[1])
    if s.op == 'fold':
        h = fold_shape(s)
        if h is not None and h.op == 'arr': return h.args[0]
    return mk('len', s)

def at(s, i):
    if s.op == 'arr': return app_lam(s.args[1], i)
    if s.op == 'ite': return ite(s.args[0], at(s.args[1], i), at(s.args[2], i))
    if s.op == 'concat':
        off = ZERO
        parts = []
        for x in s.args[0]:
            parts.append((off, x)); off = add(off, length(x))
        r = at(parts[-1][1], sub(i, parts[-1][0]))
        for o, x in reversed(parts[:-1]):
            r = ite(lt(i, add(o, length(x))), at(x, sub(i, o)), r)
        return r
    if s.op == 'slice': return at(s.args[0], add(s.args[1], i))
    if s.op == 'fseq':
        # element at the position of the i-th hit
        ident = lam(lambda k: k)
        if s.args[2] is not ident: return app_lam(s.args[2], mk('sel', mk('fseq', s.args[0], s.args[1], ident), i))
    return mk('sel', s, i)

def upd(s, i, v):
    """s with element i replaced"""
    if s.op == 'ite': return ite(s.args[0], upd(s.args[1], i, v), upd(s.args[2], i, v))
    return arr(length(s), lambda j: ite(ieq(j, i), v, at(s, j)))

def seq_slice(s, lo, hi):
    """elements lo..hi of s"""
    n = length(s)
    if lo is ZERO and hi is n: return s
    if hi is lo: return EMPTY
    if s.op == 'concat':
        # cut at part boundaries only
        off = ZERO; parts = list(s.args[0]); bounds = [ZERO]
        for x in parts: bounds.append(add(bounds[-1], length(x)))
        if lo in bounds and hi in bounds:
            return concat(*parts[bounds.index(lo):bounds.index(hi)])
        # single elements / comprehensions
        if all(p.op == 'arr' for p in parts):
            return arr(sub(hi, lo), lambda i: at(s, add(i, lo)))
    if s.op == 'arr': return arr(sub(hi, lo), lambda i: at(s, add(i, lo)))
    if s.op == 'slice': return seq_slice(s.args[0], add(s.args[1], lo), add(s.args[1], hi))
    return mk('slice', s, lo, hi)

def seq_map(s, f):
    """f: python function element term -> term"""
    if s.op == 'arr': return arr(s.args[0], lambda i: f(at(s, i)))
    if s.op == 'fseq': return fseq(s.args[0], lambda k: app_lam(s.args[1], k), lambda k: f(app_lam(s.args[2], k)))
    if s.op == 'concat': return concat(*[seq_map(x, f) for x in s.args[0]])
    if s.op == 'bigcat': return bigcat(s.args[0], lambda k: seq_map(app_lam(s.args[1], k), f))
    if s.op == 'ite': return ite(s.args[0], seq_map(s.args[1], f), seq_map(s.args[2], f))
    return arr(length(s), lambda i: f(at(s, i)))
def seq_filter(s, f):
    if s.op == 'arr': return fseq(s.args[0], lambda i: f(at(s, i)), lambda i: at(s, i))
    if s.op == 'fseq': return fseq(s.args[0], lambda k: and_(app_lam(s.args[1], k), f(app_lam(s.args[2], k))), lambda k: app_lam(s.args[2], k))
    if s.op == 'concat': return concat(*[seq_filter(x, f) for x in s.args[0]])
    if s.op == 'bigcat': return bigcat(s.args[0], lambda k: seq_filter(app_lam(s.args[1], k), f))
    if s.op == 'ite': return ite(s.args[0], seq_filter(s.args[1], f), seq_filter(s.args[2], f))
    return fseq(length(s), lambda i: f(at(s, i)), lambda i: at(s, i))
def seq_flat(s):
    """concatenation of a sequence of sequences"""
    if s.op == 'arr': return bigcat(s.args[0], lambda k: at(s, k))
    if s.op == 'fseq': return bigcat(s.args[0], lambda k: ite(app_lam(s.args[1], k), app_lam(s.args[2], k), EMPTY))
    if s.op == 'concat': return concat(*[seq_flat(x) for x in s.args[0]])
    if s.op == 'bigcat': return bigcat(s.args[0], lambda k: seq_flat(app_lam(s.args[1], k)))
    return bigcat(length(s), lambda k: at(s, k))
def seq_rev(s):
    if s.op == 'arr': return arr(s.args[0], lambda i: at(s, sub(sub(s.args[0], ONE), i)))
    if s.op == 'fseq':
        n = s.args[0]
        return fseq(n, lambda i: app_lam(s.args[1], sub(sub(n, ONE), i)), lambda i: app_lam(s.args[2], sub(sub(n, ONE), i)))
    if s.op == 'concat': return concat(*[seq_rev(x) for x in reversed(s.args[0])])
    if s.op == 'bigcat':
        n = s.args[0]
        return bigcat(n, lambda k: seq_rev(app_lam(s.args[1], sub(sub(n, ONE), k))))
    if s.op == 'ite': return ite(s.args[0], seq_rev(s.args[1]), seq_rev(s.args[2]))
    n = length(s)
    return arr(n, lambda i: at(s, sub(sub(n, ONE), i)))

# ---------------------------------------------------------------- matrices
def mat(r, c, f):
    return mk('mat', r, c, lam(lambda i: lam(lambda j: f(i, j), name='j')))
def vecm(n, f): return mat(n, ONE, lambda i, j: f(i))
def nrows(m):
    if m.op == 'mat': return m.args[0]
    if m.op == 'ite': return ite(m.args[0], nrows(m.args[1]), nrows(m.args[2]))
    if m.op == 'fold':
        h = fold_shape(m)
        if h is not None and h.op == 'mat': return h.args[0]
    return mk('nrows', m)
def ncols(m):
    if m.op == 'mat': return m.args[1]
    if m.op == 'ite': return ite(m.args[0], ncols(m.args[1]), ncols(m.args[2]))
    if m.op == 'fold':
        h = fold_shape(m)
        if h is not None and h.op == 'mat': return h.args[1]
    return mk('ncols', m)
def mat_at(m, i, j):
    if m.op == 'mat':
        if m.args[0] is ONE: i = ZERO
        if m.args[1] is ONE: j = ZERO
        return app_lam(app_lam(m.args[2], i), j)
    if m.op == 'ite': return ite(m.args[0], mat_at(m.args[1], i, j), mat_at(m.args[2], i, j))
    if ncols(m) is ONE: j = ZERO
    if nrows(m) is ONE: i = ZERO
    return mk('msel', m, i, j)
def mat_upd(m, i, j, v):
    cone = ncols(m) is ONE; rone = nrows(m) is ONE
    return mat(nrows(m), ncols(m), lambda a, b: ite(and_(TRUE if rone else ieq(a, i), TRUE if cone else ieq(b, j)), v, mat_at(m, a, b)))
def matmul(a, b):
    return mat(nrows(a), ncols(b), lambda i, j: sum_(ncols(a), lambda k: mul(mat_at(a, i, k), mat_at(b, k, j))))
def matmap(m, f): return mat(nrows(m), ncols(m), lambda i, j: f(mat_at(m, i, j)))
def matzip(a, b, f): return mat(nrows(a), ncols(a), lambda i, j: f(mat_at(a, i, j), mat_at(b, i, j)))
def identity(r, c): return mat(r, c, lambda i, j: ite(ieq(i, j), ONE, ZERO))

# ---------------------------------------------------------------- sums and folds
SUMLIM = 4
def sum_(n, f): return sum_l(n, lam(f))
def sum_l(n, l):
    cn = const(n)
    if cn is not None and 0 <= cn <= SUMLIM:
        return add(*[app_lam(l, num(i)) for i in range(int(cn))])
    k = fresh('k', 'nat')
    return sum_over(n, k, app_lam(l, k))
def sum_over(n, k, body):
    out = []
    for m, c in P(body).items():
        free = [(a, e) for a, e in m if k not in a.fs]
        dep = [(a, e) for a, e in m if k in a.fs]
        co = mkpoly({tuple(free): c})
        if not dep:
            out.append(mul(co, n)); continue
        if len(dep) == 1 and dep[0][1] == 1 and dep[0][0].op == 'ite':
            a = dep[0][0]
            r = _sum_ite(n, k, a)
            if r is not None:
                out.append(mul(co, r)); continue
        # push one ite inside a product: ite(c,x,0)*y
        its = [(a, e) for a, e in dep if a.op == 'ite' and e == 1 and (a.args[1] is ZERO or a.args[2] is ZERO) and k in a.args[0].fs]
        if its and len(dep) > 1:
            a = its[0][0]
            rest = mkpoly({tuple(x for x in dep if x[0] is not a): Fr(1)})
            b = ite(a.args[0], mul(a.args[1], rest), mul(a.args[2], rest))
            r = _sum_ite(n, k, b) if b.op == 'ite' else None
            if r is not None:
                out.append(mul(co, r)); continue
        b = mkpoly({tuple(dep): Fr(1)})
        out.append(mul(co, mk('sum', n, lam_over(k, b))))
    return add(*out) if out else ZERO
def _sum_ite(n, k, a):
    """sum over k<n of ite(c(k), A, 0) where c pins k"""
    c, x, y = a.args
    if not (x is ZERO or y is ZERO): 
        return None
    if y is not ZERO: c, x = not_(c), y
    lits = list(c.args[0]) if c.op == 'and' else [c]
    for l in lits:
        if l.op != 'eq0' or k not in l.fs: continue
        for z, e in solve_atoms(l.args[0]):
            if z is k:
                others = [subst(o, {k: e}) for o in lits if o is not l]
                return ite(and_(ge0(e), lt(e, n), *others), subst(x, {k: e}), ZERO)
    # k == 0 written as not (k-1 >= 0)
    for l in lits:
        if l is ge0(neg(k)):
            others = [subst(o, {k: ZERO}) for o in lits if o is not l]
            return ite(and_(lt(ZERO, n), *others), subst(x, {k: ZERO}), ZERO)
    # conditions independent of k move out
    outer = [o for o in lits if k not in o.fs]
    if outer:
        inner = and_(*[o for o in lits if k in o.fs])
        return ite(and_(*outer), sum_over(n, k, ite(inner, x, ZERO)), ZERO)
    return None

def fold(n, accs, k, bodies, inits, idx):
    """value of component idx after n steps of accs := bodies(k, accs) from inits"""
    l = mk('vec', *bodies)
    for a in reversed(accs): l = lam_over(a, l)
    return fold_l(n, lam_over(k, l), tuple(inits), idx)
UNROLL = [False]
def fold_l(n, l, inits, idx):
    if n is ZERO: return inits[idx]
    if UNROLL[0]:
        c = const(n)
        if c is not None and 0 <= c <= 6:
            accs = list(inits)
            for k in range(int(c)):
                b = app_lam(l, num(k))
                for a in accs: b = app_lam(b, a)
                accs = list(b.args)
            return accs[idx]
        if c is not None and c < 0: return inits[idx]
    return mk('fold', n, l, inits, idx)
def unroll_app(a):
    """extremum or existence over a sequence of a known small length"""
    s = a[2]
    c = const(length(s)) if s.op != 'fseq' else None
    if c is None or not 1 <= c <= 6: return mk('app', *a)
    xs = [at(s, num(i)) for i in range(int(c))]
    r = xs[0]
    for x in xs[1:]: r = or_(r, x) if a[0] == 'exists' else imax(r, x) if a[0] == 'max' else imin(r, x)
    return r
def fold_open(f, k, accs):
    n, l, inits, idx = f.args
    b = app_lam(l, k)
    for a in accs: b = app_lam(b, a)
    return b.args
_shapes = {}
def fold_shape(f):
    """a value with the dimensions of the folded component, if every step preserves them"""
    if f in _shapes: return _shapes[f]
    n, l, inits, idx = f.args
    h = inits[idx]
    if h.op == 'fold': h = fold_shape(h)
    if h is not None and h.op in ('arr', 'mat'):
        accs = [mk('sym', 'shape%d' % i, 'any') for i in range(len(inits))]
        b = app_lam(l, mk('sym', 'shapek', 'nat'))
        for a in accs: b = app_lam(b, a)
        e, a = b.args[idx], accs[idx]
        if e is not a and h.op == 'arr' and length(e) not in (mk('len', a), h.args[0]): h = None
        elif e is not a and h.op == 'mat' and (nrows(e) not in (nrows(a), h.args[0]) or ncols(e) not in (ncols(a), h.args[1])): h = None
    else: h = None
    _shapes[f] = h
    return h

def eqv(a, b):
    if a is b: return TRUE
    if a.op == 'st' and b.op == 'st':
        if a.args[0] == b.args[0] and a.args[1] != b.args[1]: return FALSE
    if b.id < a.id: a, b = b, a
    return mk('eqv', a, b)

UNKS = {}
def poisoned(t):
    return any(x in UNKS for x in t.fs)

# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 14: return '..'
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else (repr(x) if not isinstance(x, tuple) else '(' + ', '.join(s(y) for y in x) + ')')
    o, a = t.op, t.args
    if o == 'sym': return a[0]
    if o == 'bv': return 'b%d' % a[0]
    if o == 'poly':
        if not a[0]: return '0'
        out = []
        for m, c in a[0]:
            f = []
            for x, e in m:
                f.append(s(x) + ('' if e == 1 else '^%s' % e))
            if c != 1 or not f: f.insert(0, str(c) if c != -1 or not f else '-1')
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if o == 'base': return s(a[0])
    if o == 'fn': return a[0] + '(' + ', '.join(s(x) for x in a[1:]) + ')'
    if o == 'lam': return '\\b%d. ' % a[0] + s(a[1])
    if o == 'arr': return '[' + s(a[1]) + ' | <' + s(a[0]) + ']'
    if o == 'sel': return s(a[0]) + '[' + s(a[1]) + ']'
    if o == 'msel': return s(a[0]) + '[' + s(a[1]) + ',' + s(a[2]) + ']'
    if o == 'ite': return 'if(' + ', '.join(s(x) for x in a) + ')'
    if o == 'st':
        n = str(a[0]).split('::')[-1]
        if a[0] == OPT: return 'None' if a[1] == 0 else 'Some(' + s(a[2]) + ')'
        return ('' if a[0] == '()' else n + ('#%d' % a[1] if a[1] else '')) + '(' + ', '.join(s(x) for x in a[2:]) + ')'
    if o == 'app': return str(a[0]) + '(' + ', '.join(s(x) for x in a[2:]) + ')'
    if o == 'fld': return s(a[0]) + '.%d' % a[1][0]
    if o == 'ge0': return s(a[0]) + '>=0'
    if o in ('eq0', 'feq0'): return s(a[0]) + '==0'
    if o == 'fgt0': return s(a[0]) + '>0'
    if o == 'isv': return 'is(%s,%s)' % (s(a[0]), a[2])
    if o == 'not': return '!' + s(a[0])
    if o in ('and', 'or'): return '(' + (' & ' if o == 'and' else ' | ').join(s(x) for x in a[0]) + ')'
    return o + '(' + ', '.join(s(x) for x in a) + ')'
