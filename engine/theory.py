"""Facts about terms: linear arithmetic by Fourier-Motzkin elimination, simplification of terms
under facts, and the three-valued equality of normal forms (True / False / None = undecided)."""
from terms import *
from terms import _kids, _init_empty
import terms as TM
from math import gcd

# ---------------------------------------------------------------- linear arithmetic
def _lin(p):
    d = P(p); c = d.pop((), 0)
    return d, c

def _norm(d, c, s):
    """integer coefficients without a common factor"""
    l = c.denominator
    for x in d.values():
        q = x.denominator
        if q != 1: l = l * q // gcd(l, q)
    g = 0
    if l == 1:
        for x in d.values(): g = gcd(g, int(x))
        if g == 0: return {}, (1 if c > 0 else -1 if c < 0 else 0), s
        g2 = gcd(g, int(c))
        if g2 == 1: return ({k: int(x) for k, x in d.items()} if any(type(x) is not int for x in d.values()) else d), int(c), s
        return {k: int(x) // g2 for k, x in d.items()}, int(c) // g2, s
    for x in d.values(): g = gcd(g, int(x * l))
    if g == 0: return {}, (1 if c > 0 else -1 if c < 0 else 0), s
    g2 = gcd(g, int(c * l))
    return {k: int(x * l) // g2 for k, x in d.items()}, int(c * l) // g2, s

def _fm_infeasible(cons):
    """cons: list of (dict var->coef, const, strict): sum + const >= 0 (> 0 if strict)"""
    cons = [_norm(*c) for c in cons]
    # equalities are solved first
    while True:
        idx = {}
        eq = None
        for d, c, s in cons:
            if s or not d: continue
            k = (frozenset(d.items()), c)
            n = (frozenset((v, -x) for v, x in d.items()), -c)
            if n in idx: eq = (d, c); break
            idx[k] = True
        if eq is None: break
        d, c = eq
        v = min(d, key=lambda x: (abs(d[x]), len(x), d[x]))
        a = d[v]
        out = []
        for e, f, s in cons:
            b = e.get(v, 0)
            if b == 0: out.append((e, f, s)); continue
            # e - (b/a) d, times |a|
            m = abs(a); q = b * (1 if a > 0 else -1)
            g = {k: x * m for k, x in e.items()}
            for k, x in d.items(): g[k] = g.get(k, 0) - q * x
            f2 = f * m - q * c
            g = {k: x for k, x in g.items() if x}
            h = 0
            for x in g.values(): h = gcd(h, x)
            if h == 0:
                if f2 < 0 or (s and f2 == 0): return True
                continue
            h = gcd(h, f2)
            if h > 1: g = {k: x // h for k, x in g.items()}; f2 //= h
            out.append((g, f2, s))
        cons = out
    for _ in range(40):
        best = {}
        for d, c, s in cons:
            if not d:
                if c < 0 or (s and c == 0): return True
                continue
            # of constraints with the same normal the tightest is kept
            h = 0
            for x in d.values(): h = gcd(h, x)
            k = frozenset((v, x // h) for v, x in d.items())
            r = Fr(c, h) if h != 1 else c
            o = best.get(k)
            if o is None or r < o[0] or (r == o[0] and s and not o[1][2]): best[k] = (r, (d, c, s))
        cons = [o[1] for o in best.values()]
        if not cons: return False
        # variable with the fewest products
        cnt = {}
        for d, c, s in cons:
            for v, k in d.items():
                p, n = cnt.get(v, (0, 0))
                cnt[v] = (p + 1, n) if k > 0 else (p, n + 1)
        v = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        pos = [x for x in cons if x[0].get(v, 0) > 0]
        ng = [x for x in cons if x[0].get(v, 0) < 0]
        rest = [x for x in cons if v not in x[0]]
        if len(pos) * len(ng) > 400: return False
        for d1, c1, s1 in pos:
            for d2, c2, s2 in ng:
                a, b = d1[v], -d2[v]
                d = {}
                for k, x in d1.items(): d[k] = x * b
                for k, x in d2.items(): d[k] = d.get(k, 0) + x * a
                d = {k: x for k, x in d.items() if x}
                c = c1 * b + c2 * a
                h = abs(c)
                for x in d.values(): h = gcd(h, x)
                if h > 1: d = {k: x // h for k, x in d.items()}; c //= h
                rest.append((d, c, s1 or s2))
        cons = rest
        if len(cons) > 600: return False
    return False

def _fact_cons(facts):
    out = []; neq = []
    for f in facts:
        if f.op == 'ge0':
            d, c = _lin(f.args[0]); out.append((d, c, False))
        elif f.op == 'eq0' or f.op == 'feq0':
            d, c = _lin(f.args[0]); out.append((d, c, False)); out.append(({k: -x for k, x in d.items()}, -c, False))
        elif f.op == 'fgt0':
            d, c = _lin(f.args[0]); out.append((d, c, True))
        elif f.op == 'not':
            g = f.args[0]
            if g.op == 'fgt0':
                d, c = _lin(g.args[0]); out.append(({k: -x for k, x in d.items()}, -c, False))
            elif g.op == 'eq0': neq.append(g.args[0])
    return out, neq

def _closure(cons):
    """nonnegativity of natural and even monomials occurring in the constraints"""
    vs = set()
    for d, c, s in cons: vs.update(d)
    out = []
    for m in vs:
        if all((TM.is_nat(a) and e > 0) or TM.positive(a) or (e.denominator == 1 and e.numerator % 2 == 0) or e.denominator % 2 == 0 for a, e in m):
            out.append(({m: 1}, 0, False))
        for a, e in m:
            if len(m) == 1 and e == 1 and a.op == 'fn' and a.args[0] == 'abs':
                d, c = _lin(a.args[1])
                for sg in (1, -1):
                    dd = {k: -sg * x for k, x in d.items()}; dd[m] = dd.get(m, 0) + 1
                    out.append((dd, -sg * c, False))
    return out

def _relevant(cons, seed):
    """constraints connected to the variables of seed"""
    vs = set(seed); out = []; rest = list(cons); ch = True
    while ch:
        ch = False
        for x in list(rest):
            if not x[0] or any(v in vs for v in x[0]):
                rest.remove(x); out.append(x)
                for v in x[0]:
                    if v not in vs: vs.add(v); ch = True
    return out

_ent_memo = {}
def entails_ge(facts, p):
    """facts |= p >= 0 (integers)"""
    key = (tuple(sorted(set(facts))), p)
    r = _ent_memo.get(key)
    if r is None:
        r = _ent_memo[key] = _entails_ge(facts, p)
    return r
def _entails_ge(facts, p):
    if nonneg(p): return True
    c = const(p)
    if c is not None and c >= 0: return True
    cons, neq = _fact_cons(facts)
    d, c = _lin(sub(neg(p), ONE))
    q = (d, c, False)
    cs = _relevant(cons, d.keys()) + [q]
    cs = cs + _closure(cs)
    if _fm_infeasible(cs): return True
    # disequalities sharpen bounds
    vs = {v for x in cs for v in x[0]}
    rel = [n for n in neq if any(v in vs for v in _lin(n)[0])]
    if rel and len(rel) <= 8:
        cs = cs + _closure([(_lin(n)[0], 0, False) for n in rel])
        if _sharpen(cs, rel) is True: return True
    return False
def _sharpen(cs, neq):
    """bounds implied by disequalities; True if they are contradictory"""
    cs = list(cs); neq = list(neq); ch = True
    while ch and neq:
        ch = False
        for n in list(neq):
            dn, cn = _lin(n)
            lo = (dn, cn - 1, False); hi = ({k: -x for k, x in dn.items()}, -cn - 1, False)
            a, b = _fm_infeasible(cs + [lo]), _fm_infeasible(cs + [hi])
            if a and b: return True
            if a or b:
                cs.append(hi if a else lo); neq.remove(n); ch = True
    return cs
def inconsistent(facts):
    if FALSE in facts: return True
    cons, neq = _fact_cons(facts)
    cs = cons + _closure(cons)
    if _fm_infeasible(cs): return True
    if neq:
        if len(neq) <= 8: cs = _sharpen(cs + _closure([(_lin(n)[0], 0, False) for n in neq]), neq)
        if cs is True: return True
    fs = set(facts)
    for f in facts:
        if not_(f) in fs: return True
        if f.op == 'isv':
            for g in facts:
                if g.op == 'isv' and g is not f and g.args[0] is f.args[0]: return True
        if f.op == 'not' and f.args[0].op == 'feq0':
            p = f.args[0].args[0]
            d, c = _lin(p)
            if _fm_infeasible(cs + [(d, c, True)]) and _fm_infeasible(cs + [({k: -x for k, x in d.items()}, -c, True)]): return True
    for f in facts:
        if f.op == 'not' and f.args[0].op == 'isv':
            x, path, v = f.args[0].args
            n = TM.NVARIANTS.get(path)
            if n and all(i == v or not_(isv(x, path, i)) in fs for i in range(n)) : return True
    return False

def decide(c, facts):
    if c is TRUE: return True
    if c is FALSE: return False
    fs = facts if isinstance(facts, (set, frozenset)) else set(facts)
    if c in fs: return True
    if not_(c) in fs: return False
    o = c.op
    if o == 'ge0':
        if entails_ge(facts, c.args[0]): return True
        if entails_ge(facts, sub(neg(c.args[0]), ONE)): return False
        return None
    if o == 'eq0':
        p = c.args[0]
        if entails_ge(facts, p):
            if entails_ge(facts, neg(p)): return True
            if entails_ge(facts, sub(p, ONE)): return False
        elif entails_ge(facts, sub(neg(p), ONE)): return False
        return None
    if o in ('fgt0', 'feq0'):
        cons, _ = _fact_cons(facts)
        d, k = _lin(c.args[0])
        nd = {m: -x for m, x in d.items()}
        cs = _relevant(cons, d.keys())
        cs = cs + _closure(cs + [(d, k, True)])
        pos = _fm_infeasible(cs + [(d, k, True)])
        if o == 'fgt0':
            if pos: return False
            if _fm_infeasible(cs + [(nd, -k, False)]): return True
            return None
        ng = _fm_infeasible(cs + [(nd, -k, True)])
        if pos and ng: return True
        if _fm_infeasible(cs + [(d, k, False), (nd, -k, False)]): return False
        return None
    if o == 'isv':
        for g in fs:
            if g.op == 'isv' and g.args[0] is c.args[0] and g.args[2] != c.args[2]: return False
        n = TM.NVARIANTS.get(c.args[1])
        if n and all(i == c.args[2] or not_(isv(c.args[0], c.args[1], i)) in fs for i in range(n)): return True
        return None
    if o == 'not':
        r = decide(c.args[0], facts)
        return None if r is None else not r
    if o == 'and':
        rs = [decide(x, facts) for x in c.args[0]]
        if any(r is False for r in rs): return False
        if all(r is True for r in rs): return True
        return None
    if o == 'or':
        rs = [decide(x, facts) for x in c.args[0]]
        if any(r is True for r in rs): return True
        if all(r is False for r in rs): return False
        return None
    return None

# ---------------------------------------------------------------- simplification
def lits(c):
    """conjuncts of a condition"""
    if c is TRUE: return ()
    if c.op == 'and': return tuple(c.args[0])
    return (c,)

def has_cond(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = t.op in ('ite', 'fseq') or is_bool(t) or any(has_cond(k) for k in _kids(t.op, t.args))
        memo[t] = r
    return r

def simplify(t, facts, memo=None):
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if not has_cond(t): return t
    if t.op in BINDERS:
        # only the facts about what occurs in it matter
        if has_fold(t): facts = tuple(f for f in facts if f.fs and f.fs <= t.fs)
        else: facts = relevant(t, facts)
        key = (t, facts)
        r = _simp.get(key)
        if r is None:
            r = _simplify(t, facts, {})
            if len(_simp) > 400000: _simp.clear()
            _simp[key] = r
    else: r = _simplify(t, tuple(facts), memo)
    memo[t] = r
    return r
BINDERS = {'fold', 'sum', 'arr', 'mat', 'bigcat', 'fseq'}
_simp = {}
def relevant(t, facts):
    """facts connected to the term through shared symbols"""
    facts = tuple(facts)
    if FALSE in facts: return (FALSE,)
    syms = set(t.fs); left = list(facts); ch = True; keep = set()
    while ch:
        ch = False
        for f in list(left):
            if not f.fs or not f.fs.isdisjoint(syms):
                keep.add(f); left.remove(f)
                if not f.fs <= syms: syms |= f.fs; ch = True
                ch = True
    return tuple(f for f in facts if f in keep)
def simp_bool(c, facts):
    if c.op in ('and', 'or'):
        xs = [simp_bool(x, facts) for x in c.args[0]]
        return and_(*xs) if c.op == 'and' else or_(*xs)
    d = decide(c, facts)
    if d is not None: return boolc(d)
    return c
def _simplify(t, facts, memo):
    o = t.op
    if is_bool(t):
        if o in ('ge0', 'eq0', 'feq0', 'fgt0', 'isv', 'eqv', 'not', 'and', 'or'):
            na = []
            for a in t.args:
                if isinstance(a, T): na.append(simplify(a, facts, memo))
                elif isinstance(a, tuple): na.append(tuple(simplify(z, facts, memo) for z in a))
                else: na.append(a)
            t = rebuild(o, na)
        return simp_bool(t, facts)
    if o == 'ite':
        c = simplify(t.args[0], facts, memo)
        if c is TRUE: return simplify(t.args[1], facts, memo)
        if c is FALSE: return simplify(t.args[2], facts, memo)
        a = simplify(t.args[1], facts + lits(c))
        b = simplify(t.args[2], facts + lits(not_(c)))
        return ite(c, a, b)
    if o == 'arr':
        n = simplify(t.args[0], facts, memo)
        k = fresh('i', 'nat')
        return mk('arr', n, lam_over(k, simplify(app_lam(t.args[1], k), facts + (lt(k, n),))))
    if o == 'mat':
        r, c = simplify(t.args[0], facts, memo), simplify(t.args[1], facts, memo)
        i = fresh('i', 'nat'); j = fresh('j', 'nat')
        b = simplify(app_lam(app_lam(t.args[2], i), j), facts + (lt(i, r), lt(j, c)))
        if r is ONE: b = subst(b, {i: ZERO})
        if c is ONE: b = subst(b, {j: ZERO})
        return mk('mat', r, c, lam_over(i, lam_over(j, b)))
    if o == 'sum':
        n = simplify(t.args[0], facts, memo)
        k = fresh('k', 'nat')
        return sum_over(n, k, simplify(app_lam(t.args[1], k), facts + (lt(k, n),)))
    if o == 'fseq':
        n = simplify(t.args[0], facts, memo)
        k = fresh('k', 'nat')
        c = simplify(app_lam(t.args[1], k), facts + (lt(k, n),))
        e = simplify(app_lam(t.args[2], k), facts + (lt(k, n),) + lits(c))
        return fseq_l(n, lam_over(k, c), lam_over(k, e))
    if o == 'bigcat':
        n = simplify(t.args[0], facts, memo)
        k = fresh('k', 'nat')
        return bigcat_l(n, lam_over(k, simplify(app_lam(t.args[1], k), facts + (lt(k, n),))))
    if o == 'fold':
        n, l, inits, idx = t.args
        n = simplify(n, facts, memo)
        k = fresh('k', 'nat')
        b = app_lam(l, k); accs = []
        while b.op == 'lam':
            a = fresh('acc'); accs.append(a); b = app_lam(b, a)
        bodies = [simplify(x, facts + (lt(k, n),)) for x in b.args]
        return fold(n, accs, k, bodies, [simplify(x, facts, memo) for x in inits], idx)
    if o == 'lam':
        k = fresh('o', 'nat')
        return lam_over(k, simplify(app_lam(t, k), facts))
    if o == 'poly':
        return subst(t, {a: s for a in _kids(o, t.args) for s in [simplify(a, facts, memo)] if s is not a}) if True else t
    na = []; ch = False
    for a in t.args:
        if isinstance(a, T): b = simplify(a, facts, memo)
        elif isinstance(a, tuple) and any(isinstance(z, T) for z in a): b = tuple(simplify(z, facts, memo) if isinstance(z, T) else z for z in a)
        else: b = a
        if b is not a and b != a: ch = True
        na.append(b)
    return rebuild(o, na) if ch else t

# ---------------------------------------------------------------- equality
def conds(t, out, seen):
    """atomic conditions occurring in t outside binders"""
    if t in seen: return
    seen.add(t)
    if not has_cond(t): return
    if t.op in ('lam',): return
    if is_bool(t) and t.op not in ('true', 'false'):
        if t.op in ('and', 'or'):
            for x in t.args[0]: conds(x, out, seen)
            return
        if t.op == 'not': return conds(t.args[0], out, seen)
        for k in _kids(t.op, t.args): conds(k, out, seen)
        if t not in out: out.append(t)
        return
    for k in _kids(t.op, t.args): conds(k, out, seen)

# operators with a meaning of their own: syntactic difference does not imply a difference in value
INTERPRETED = {'and', 'or', 'xor', 'shl', 'shr', 'bit', 'bitnot', 'max', 'min', 'exists', 'sorted', 'discr', 'cmp', 'partial_cmp', 'trunc', 'binomial'}

SCALARS = ('sel', 'msel', 'fld', 'sym', 'app')
class Cmp:
    """one equality question; keeps a description of the first definite difference"""
    def __init__(self, budget=4000):
        self.diff = None; self.unk = None; self.budget = budget; self.under = False
    def no(self, what, a, b):
        if TM.poisoned(a) or TM.poisoned(b) or has_fold(a) or has_fold(b): return self.dunno(what, a, b)
        if self.diff is None: self.diff = (what, a, b)
        return False
    def dunno(self, what, a, b):
        if self.unk is None: self.unk = (what, a, b)
        return None

    def eq(self, a, b, facts=(), where=''):
        if a is b: return True
        self.budget -= 1
        if self.budget < 0: return self.dunno('budget', a, b)
        facts = tuple(facts)
        sm = {}
        for f in facts:
            if f.op in ('eq0', 'feq0'):
                for x, e in sorted(solve_atoms(subst(f.args[0], sm)), key=lambda xe: -xe[0].id):
                    if x.op in ('sym', 'fld', 'sel', 'msel', 'app'):
                        sm = {k: subst(v, {x: e}) for k, v in sm.items()}; sm[x] = e; break
        if sm:
            a, b = subst(a, sm), subst(b, sm)
            if a is b: return True
        a, b = simplify(a, facts), simplify(b, facts)
        if a is b: return True
        if a.op in ('nrows', 'ncols', 'len') and b.op in ('nrows', 'ncols', 'len') and facts and decide(ieq(a, b), facts) is True: return True
        cs = []
        seen = set()
        if not (a.op in ('arr', 'mat', 'fseq', 'bigcat') ):
            conds(a, cs, seen)
        if not (b.op in ('arr', 'mat', 'fseq', 'bigcat')):
            conds(b, cs, seen)
        if cs and not (a.op == 'st' and b.op == 'st'):
            isodd = lambda c: TM.poisoned(c) or has_fold(c) or interp(c)
            # whether an unknown condition can hold together with others is not known: those come last,
            # and below them only a difference on every branch is definite
            c = next((c for c in cs if not isodd(c)), cs[0])
            odd = isodd(c); under = self.under
            if odd: self.under = True
            try:
                res = True; rs = []
                for v in (True, False):
                    lit = c if v else not_(c)
                    f2 = facts + lits(lit)
                    if inconsistent(f2): continue
                    r = self.eq(subst(a, {c: boolc(v)}), subst(b, {c: boolc(v)}), f2, where)
                    if r is False and not self.under: return False
                    rs.append(r)
                    if r is None: res = None
            finally: self.under = under
            if False in rs:
                if all(r is False for r in rs) and (len(rs) == 2 or not odd): return False
                self.diff = None
                return self.dunno(where, a, b)
            return res
        old = self.diff
        r = self.struct(a, b, facts, where)
        if r is False and any(f.op == 'or' for f in facts) and infeasible(facts): self.diff = old; return True
        return r

    def all(self, pairs, facts, where):
        res = True
        for n, x, y in pairs:
            r = self.eq(x, y, facts, where + n)
            if r is False: return False
            if r is None: res = None
        return res

    def struct(self, a, b, facts, where):
        if is_bool(a) and is_bool(b):
            # remaining: constants or atoms
            if {a, b} == {TRUE, FALSE}: return self.no(where, a, b)
            return self.atom(a, b, facts, where)
        if a.op == 'st' and b.op == 'st':
            if a.args[0] != b.args[0]: return self.dunno(where + ':type', a, b)
            if a.args[1] != b.args[1]: return self.no(where + ':variant', a, b)
            return self.all([('.%d' % i, x, y) for i, (x, y) in enumerate(zip(a.args[2:], b.args[2:]))], facts, where)
        for x, y in ((a, b), (b, a)):
            if x.op == 'st' and y.op != 'st':
                # eta: opaque value of known shape
                if all(isinstance(z, T) and z.op == 'fld' and z.args[0] is y for z in x.args[2:]) and len(x.args) > 2: return True
                if y.op in ('sym', 'fld', 'sel', 'app', 'msel'):
                    if TM.NVARIANTS.get(x.args[0], 1) > 1:
                        return self.no(where + ':variant', a, b) if self.free(y) else self.dunno(where, a, b)
                    if self.free(y):
                        r = self.all([('.%d' % i, z, fld(y, i)) for i, z in enumerate(x.args[2:])], facts, where)
                        return r
                return self.dunno(where, a, b)
        sa, sb = seqlike(a), seqlike(b)
        if sa and sb: return self.seq(a, b, facts, where)
        if a.op == 'mat' or b.op == 'mat':
            if not (matlike(a) and matlike(b)): return self.dunno(where, a, b)
            r1 = self.eq(nrows(a), nrows(b), facts, where + '.nrows')
            if r1 is False: return False
            r2 = self.eq(ncols(a), ncols(b), facts, where + '.ncols')
            if r2 is False: return False
            i = fresh('i', 'nat'); j = fresh('j', 'nat')
            f2 = facts + (lt(i, nrows(a)), lt(j, ncols(a)))
            if inconsistent(f2): return True
            ii = ZERO if nrows(a) is ONE else i
            jj = ZERO if ncols(a) is ONE else j
            r3 = self.eq(mat_at(a, ii, jj), mat_at(b, ii, jj), f2, where + '[i,j]')
            if r3 is False: return False
            return True if r1 and r2 and r3 else None
        if numeric(a) and numeric(b) and (a.op == 'poly' or b.op == 'poly'):
            return self.number(a, b, facts, where)
        return self.atom(a, b, facts, where)

    def free(self, t):
        """a value some input can choose freely"""
        if TM.poisoned(t): return False
        if t.op == 'app' and isinstance(t.args[0], str) and (t.args[0].startswith('rec:') or t.args[0] in INTERPRETED): return False
        return t.op in ('sym', 'app') or (t.op in ('fld', 'sel', 'msel') and self.free(t.args[0]))

    def atom(self, a, b, facts, where):
        if a is b: return True
        if facts and a.op in SCALARS and b.op in SCALARS and not is_bool(a) and not is_bool(b):
            d = sub(a, b)
            if entails_ge(facts, d) and entails_ge(facts, neg(d)): return True
        if a.op == b.op == 'len' and all(x.args[0].op == 'sym' for x in (a, b)): return self.no(where, a, b)
        if a.op == b.op:
            o = a.op
            if o == 'fold':
                return self.fold(a, b, facts, where)
            if o == 'sum':
                r = self.eq(a.args[0], b.args[0], facts, where + '.n')
                k = fresh('k', 'nat')
                if r:
                    f2 = facts + (lt(k, a.args[0]),)
                    q = Cmp(self.budget)
                    r2 = q.eq(app_lam(a.args[1], k), app_lam(b.args[1], k), f2, where + '.term')
                    if r2: return True
                    n = a.args[0]
                    if Cmp(self.budget).eq(app_lam(a.args[1], sub(sub(n, ONE), k)), app_lam(b.args[1], k), f2): return True
                return self.dunno(where, a, b)
            if o == 'app' and a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
                return self.all([('.arg%d' % i, x, y) for i, (x, y) in enumerate(zip(a.args[2:], b.args[2:])) if isinstance(x, T)], facts, where + a.args[0])
            if o in ('sel', 'msel', 'fld', 'len', 'nrows', 'ncols'):
                ks = [(x, y) for x, y in zip(a.args, b.args)]
                if any(not isinstance(x, T) and x != y for x, y in ks):
                    return self.no(where, a, b) if self.free(a.args[0]) and self.free(b.args[0]) else self.dunno(where, a, b)
                r = self.all([('.%s%d' % (o, i), x, y) for i, (x, y) in enumerate(ks) if isinstance(x, T)], facts, where)
                if r is False and not (self.free(a) and self.free(b)):
                    return self.dunno(where, a, b)
                return r
            if o in ('fn',) and a.args[0] == b.args[0]:
                return self.all([('.%s' % a.args[0], x, y) for x, y in zip(a.args[1:], b.args[1:])], facts, where)
            if o == 'base': return self.all([('.base', a.args[0], b.args[0])], facts, where)
            if o == 'isv' and a.args[1:] == b.args[1:]:
                return self.all([('.is', a.args[0], b.args[0])], facts, where)
            if o == 'eqv':
                r = self.all([('', a.args[0], b.args[0]), ('', a.args[1], b.args[1])], facts, where)
                return r if r else self.dunno(where, a, b)
            if o in ('feq0', 'fgt0', 'ge0', 'eq0'):
                r = self.eq(a.args[0], b.args[0], facts, where + '.cond')
                return r
            if o == 'sym': return self.no(where, a, b)
            if o == 'clo' or o == 'mref':
                return self.dunno(where, a, b)
            return self.dunno(where, a, b)
        if numeric(a) and numeric(b): return self.number(a, b, facts, where)
        if self.free(a) and self.free(b): return self.no(where, a, b)
        return self.dunno(where, a, b)

    def fold(self, a, b, facts, where):
        if a.args[3] != b.args[3] or len(a.args[2]) != len(b.args[2]): return self.dunno(where, a, b)
        r = self.quiet(a.args[0], b.args[0], facts)
        if r is not True: return self.dunno(where + '.steps', a.args[0], b.args[0])
        for i, (x, y) in enumerate(zip(a.args[2], b.args[2])):
            if self.quiet(x, y, facts) is not True: return self.dunno(where + '.init%d' % i, x, y)
        k = fresh('k', 'nat')
        accs = [acc_like(x) for x in a.args[2]]
        f2 = facts + (lt(k, a.args[0]),)
        if inconsistent(f2): return True
        for i, (x, y) in enumerate(zip(fold_open(a, k, accs), fold_open(b, k, accs))):
            if self.quiet(x, y, f2) is not True: return self.dunno(where + '.step%d' % i, x, y)
        return True
    def quiet(self, a, b, facts):
        """a nested question whose answer is only used as proof"""
        q = Cmp(self.budget); r = q.eq(a, b, facts)
        self.budget = q.budget
        return r

    def seq(self, a, b, facts, where):
        la = list(a.args[0]) if a.op == 'concat' else [a]
        lb = list(b.args[0]) if b.op == 'concat' else [b]
        res = True
        # unknown prefix/suffix structure: align part by part
        if len(la) == len(lb):
            if len(la) == 1: return self.seq1(a, b, facts, where)
            for i, (x, y) in enumerate(zip(la, lb)):
                r = self.seq1(x, y, facts, where + '#%d' % i)
                if r is False:
                    # different cuts may still agree
                    if len(la) > 1 and Cmp(200).eq(length(x), length(y), facts) is not True:
                        self.diff = None
                        return self.pointwise(a, b, facts, where)
                    return False
                if r is None: res = None
            return res
        return self.pointwise(a, b, facts, where)
    def pointwise(self, a, b, facts, where):
        ok = all(x.op == 'arr' or seqlike(x) == 2 for s in (a, b) for x in (s.args[0] if s.op == 'concat' else [s]))
        r = self.eq(length(a), length(b), facts, where + '.len')
        if r is False: return False
        if not ok or r is None: return self.dunno(where, a, b)
        i = fresh('i', 'nat')
        return self.eq(at(a, i), at(b, i), facts + (lt(i, length(a)),), where + '[i]')
    def seq1(self, a, b, facts, where):
        if a is b: return True
        if a.op == b.op == 'fseq' or {a.op, b.op} == {'fseq', 'arr'}:
            def parts(s): return (s.args[0], s.args[1], s.args[2]) if s.op == 'fseq' else (s.args[0], lam(lambda k: TRUE), s.args[1])
            na, ca, ea = parts(a); nb, cb, eb = parts(b)
            r = self.eq(na, nb, facts, where + '.len')
            if r is not True: return r if r is None or {a.op, b.op} == {'fseq'} else self.dunno(where, a, b)
            k = fresh('k', 'nat')
            f2 = facts + (lt(k, na),)
            if inconsistent(f2): return True
            r1 = self.eq(app_lam(ca, k), app_lam(cb, k), f2, where + '.filter')
            if r1 is False: return False
            r2 = self.eq(app_lam(ea, k), app_lam(eb, k), f2 + lits(app_lam(ca, k)), where + '[k]')
            if r2 is False: return False
            return True if r1 and r2 else None
        if a.op == b.op == 'bigcat':
            r = self.eq(a.args[0], b.args[0], facts, where + '.n')
            if r is not True: return r
            k = fresh('k', 'nat')
            return self.eq(app_lam(a.args[1], k), app_lam(b.args[1], k), facts + (lt(k, a.args[0]),), where + '[k]')
        if 'bigcat' in (a.op, b.op) or 'fseq' in (a.op, b.op): 
            return self.dunno(where, a, b)
        r = self.eq(length(a), length(b), facts, where + '.len')
        if r is False: return False
        if a.op == 'fold' and b.op == 'fold':
            return self.fold(a, b, facts, where)
        i = fresh('i', 'nat')
        f2 = facts + (lt(i, length(a)),)
        if inconsistent(f2): return r
        x, y = at(a, i), at(b, i)
        if x.op == 'sel' and y.op == 'sel' and x.args[0] is a and y.args[0] is b:
            return self.atom(a, b, facts, where)
        r2 = self.eq(x, y, f2, where + '[i]')
        if r2 is False: return False
        return True if r and r2 else None

    def number(self, a, b, facts, where):
        d = sub(a, b)
        z = is_zero(d)
        if z: return True
        # merge congruent atoms
        ats = []
        collect_atoms(d, ats)
        m = {}
        unsure = False
        reps = []
        for x in ats:
            if x.op in ('sym',): continue
            hit = False
            for y in reps:
                if y.op == x.op and (x.op != 'fn' or x.args[0] == y.args[0]) and x not in m:
                    q = Cmp(min(self.budget, 600))
                    r = q.atom(x, y, facts, where)
                    if r is True: m[x] = y; hit = True; break
                    if r is None: unsure = True
            if not hit: reps.append(x)
        if m:
            d = subst(d, m)
            if is_zero(d): return True
        for f in facts:
            if f.op in ('feq0', 'eq0') and divides(f.args[0], d): return True
        if facts and entails_ge(facts, d) and entails_ge(facts, neg(d)): return True
        if unsure: return self.dunno(where, a, b)
        z = identity_test(d, facts)
        if z is True: return self.dunno(where, a, b)
        if z is False: return self.no(where, a, b)
        # atoms of undetermined meaning
        roots = [x for x in collect_atoms(d, []) if x.op == 'base']
        if len(roots) >= 2: return self.dunno(where, a, b)
        if any(x.op in ('fold', 'sum', 'maxseq', 'fdiv', 'fmod', 'bitand', 'shl', 'len') and x not in m for x in collect_atoms(d, [])):
            x = [x for x in collect_atoms(d, []) if x.op in ('fold', 'sum', 'maxseq', 'fdiv', 'fmod', 'bitand', 'shl', 'len')]
            if all(y.op in ('fdiv', 'fmod', 'len') for y in x): return self.no(where, a, b) if len(x) == 1 else self.dunno(where, a, b)
            return self.dunno(where, a, b)
        return self.no(where, a, b)

# ---------------------------------------------------------------- identity testing
class _NoEval(Exception): pass
def _val(t, env):
    """value of a closed real or boolean normal form under an assignment of its opaque atoms"""
    import math
    o = t.op
    if o == 'poly':
        s = 0.0
        for m, c in t.args[0].items() if isinstance(t.args[0], dict) else t.args[0]:
            x = float(c)
            for a, e in m:
                v = _val(a, env)
                if e.denominator != 1:
                    if v < 0 and e.denominator % 2 == 0: raise ValueError
                    x *= math.copysign(abs(v) ** float(abs(e)), v if e.numerator % 2 else 1.0) ** (1 if e > 0 else -1)
                else: x *= v ** int(e)
            s += x
        return s
    if o == 'base': return _val(t.args[0], env)
    if o == 'fn':
        f = t.args[0]; xs = [_val(x, env) for x in t.args[1:] if isinstance(x, T)]
        if f == 'ln': return math.log(xs[0])
        if f == 'abs': return abs(xs[0])
        if f in ('sin', 'cos', 'exp', 'asin', 'acos', 'atan', 'copysign'): return getattr(math, f)(*xs)
        raise _NoEval
    if o == 'ite': return _val(t.args[1] if _val(t.args[0], env) else t.args[2], env)
    if o == 'true': return True
    if o == 'false': return False
    if o == 'feq0' or o == 'eq0': return abs(_val(t.args[0], env)) < 1e-12
    if o == 'fgt0': return _val(t.args[0], env) > 1e-9
    if o == 'ge0': return _val(t.args[0], env) > -1e-9
    if o == 'not': return not _val(t.args[0], env)
    if o == 'and': return all(_val(x, env) for x in t.args[0])
    if o == 'or': return any(_val(x, env) for x in t.args[0])
    if o in ('sym', 'sel', 'fld', 'msel', 'app') and t in env: return env[t]
    raise _NoEval
def _leaves(t, out, seen):
    if t in seen: return
    seen.add(t)
    if t.op in ('poly', 'base', 'fn', 'ite', 'feq0', 'eq0', 'fgt0', 'ge0', 'not', 'and', 'or', 'true', 'false'):
        for k in _kids(t.op, t.args): _leaves(k, out, seen)
    elif t.op in ('sym', 'sel', 'fld', 'msel', 'app'):
        if TM.poisoned(t) or t.mb: raise _NoEval
        if t.op == 'app' and isinstance(t.args[0], str) and (t.args[0].startswith('rec:') or t.args[0] in INTERPRETED): raise _NoEval
        out.add(t)
    else: raise _NoEval
def identity_test(d, facts):
    """whether the real function d vanishes wherever the facts hold: True (at every tried point), False (at one it does not), None"""
    import random
    try:
        ls = set(); _leaves(d, ls, set())
        fs = []; rest = list(facts); ch = True
        while ch:
            ch = False
            for f in list(rest):
                if f.fs.isdisjoint(d.fs) and not any(x in ls for x in _subterms(f)): continue
                try:
                    l2 = set(); _leaves(f, l2, set())
                except _NoEval: 
                    if any(x in ls for x in _subterms(f)): raise
                    rest.remove(f); continue
                if not l2.isdisjoint(ls):
                    rest.remove(f); fs.append(f); ls |= l2; ch = True
    except _NoEval: return None
    if len(ls) > 24 or any(TM.is_nat(x) for x in ls): return None
    rnd = random.Random(7); ls = sorted(ls, key=lambda x: x.id); n = 0; tiny = 0
    eqs = [f.args[0] for f in fs if f.op == 'feq0']; fs = [f for f in fs if f.op != 'feq0']
    for tries in range(400 if not eqs else 160):
        k = tries % 4
        env = {x: rnd.uniform(-1, 1) * (1, 3, 0.7, 8)[k] for x in ls}
        try:
            if eqs:
                env = _project(eqs, ls, env)
                if env is None: continue
                if any(f.op == 'not' and f.args[0].op == 'feq0' and abs(_val(f.args[0].args[0], env)) < 1e-5 for f in fs): continue
            if not all(_val(f, env) for f in fs): continue
            v = _val(d, env)
            mag = sum(abs(_val(mkpoly({m: c}), env)) for m, c in P(d).items())
        except (ValueError, OverflowError, ZeroDivisionError): continue
        except _NoEval: return None
        if isinstance(v, complex) or v != v or mag > 1e12: continue
        if abs(v) > 1e-6 * (1 + mag): return False
        if abs(v) < 1e-9 * (1e-3 + mag): tiny += 1
        n += 1
        if n >= 40: break
    if eqs: return True     # no difference found where the equations hold
    return True if n >= 8 and tiny == n else None
def _project(eqs, ls, env):
    """a nearby point where the equations hold"""
    env = dict(env); m = len(eqs); n = len(ls)
    for step in range(30):
        r = [_val(e, env) for e in eqs]
        if any(isinstance(x, complex) or x != x or abs(x) > 1e9 for x in r): return None
        if all(abs(x) < 1e-12 for x in r): return env
        J = []
        for x in ls:
            h = 1e-6 * (1 + abs(env[x])); o = env[x]
            env[x] = o + h; a = [_val(e, env) for e in eqs]
            env[x] = o - h; b = [_val(e, env) for e in eqs]
            env[x] = o
            J.append([(p - q) / (2 * h) for p, q in zip(a, b)])
        A = [[sum(J[k][i] * J[k][j] for k in range(n)) + (1e-12 if i == j else 0) for j in range(m)] + [-r[i]] for i in range(m)]
        for c in range(m):
            p = max(range(c, m), key=lambda i: abs(A[i][c]))
            if abs(A[p][c]) < 1e-14: return None
            A[c], A[p] = A[p], A[c]
            for i in range(m):
                if i != c:
                    q = A[i][c] / A[c][c]
                    A[i] = [u - q * w for u, w in zip(A[i], A[c])]
        lam_ = [A[i][m] / A[i][i] for i in range(m)]
        for k, x in enumerate(ls): env[x] += sum(J[k][i] * lam_[i] for i in range(m))
    return None
def _subterms(t, memo={}):
    r = memo.get(t)
    if r is None:
        out = {t}
        for k in _kids(t.op, t.args): out |= _subterms(k)
        if len(memo) > 20000: memo.clear()
        r = memo[t] = frozenset(out)
    return r

def infeasible(facts, budget=40):
    """no values satisfy the facts; conditions inside them are split"""
    box = [budget]
    def go(fs):
        if inconsistent(tuple(f for f in fs if f.op != 'or')): return True
        box[0] -= 1
        if box[0] < 0: return False
        for f in fs:
            if f.op == 'or':
                rest = tuple(x for x in fs if x is not f)
                return all(go(rest + lits(x)) for x in f.args[0])
        for f in fs:
            g = f.args[0] if f.op == 'not' else f
            cs = []; seen = set()
            for k in _kids(g.op, g.args): conds(k, cs, seen)
            if cs:
                c = cs[0]
                return all(go(tuple(z for x in fs for z in lits(subst(x, {c: boolc(v)}))) + lits(c if v else not_(c))) for v in (True, False))
        return False
    return go(tuple(z for f in facts for z in lits(f)))

def size_atoms(t, out, seen):
    if t in seen: return
    seen.add(t)
    if t.op in ('fold', 'sum', 'bigcat', 'fseq'):
        for a in collect_atoms(t.args[0], []):
            if a.op in ('sym', 'len', 'nrows', 'ncols') and not a.mb and a not in out: out.append(a)
    if t.op == 'app' and t.args[0] in ('max', 'min', 'exists'):
        for a in collect_atoms(length(t.args[2]), []):
            if a.op in ('sym', 'len', 'nrows', 'ncols') and not a.mb and a not in out: out.append(a)
    for k in TM._kids(t.op, t.args): size_atoms(k, out, seen)

def refute(a, b, facts, sizes=(1, 2, 0, 3), limit=40, axioms=()):
    """definite difference of two summaries at small trip counts; None if there is none"""
    import itertools, time
    ns = []
    size_atoms(a, ns, set()); size_atoms(b, ns, set())
    ns = ns[:4]
    if not ns: return None
    t0 = time.time()
    combos = sorted(itertools.product(range(len(sizes)), repeat=len(ns)), key=lambda c: (len(set(c)), sum(c)))
    for c in combos[:limit]:
        if time.time() - t0 > 60: return None
        m = {n: num(sizes[i]) for n, i in zip(ns, c)}
        f2 = tuple(l for f in tuple(facts) + tuple(axioms) for l in lits(subst(f, m)))
        if FALSE in f2 or inconsistent(f2): continue
        TM.UNROLL[0] = True
        try: x, y = subst(a, m), subst(b, m)
        finally: TM.UNROLL[0] = False
        if x is y: continue
        q = Cmp(3000)
        if q.eq(x, y, f2) is False:
            return ', '.join('%s = %s' % (TM.show(n), const(v)) for n, v in m.items()), q.diff
    return None

_hf = {}
def has_fold(t):
    """contains a recurrence that is not in closed form"""
    r = _hf.get(t)
    if r is None: r = _hf[t] = t.op == 'fold' or any(has_fold(k) for k in _kids(t.op, t.args))
    return r

_ip = {}
def interp(t):
    """contains an operator with a meaning of its own, so that conditions in it are not independent of others"""
    r = _ip.get(t)
    if r is None:
        r = t.op == 'app' and t.args[0] in INTERPRETED and not (t.args[0] == 'bit' and const(t.args[3]) is not None)
        r = _ip[t] = r or any(interp(k) for k in _kids(t.op, t.args))
    return r

def numeric(t): return t.op in ('poly', 'sym', 'fn', 'base', 'sel', 'msel', 'fld', 'app', 'sum', 'fold', 'fdiv', 'fmod', 'len', 'nrows', 'ncols', 'ite', 'maxseq', 'bitand', 'shl', 'div0')
def seqlike(t):
    """1: structured, 2: opaque sequence"""
    if t.op in ('arr', 'fseq', 'concat', 'bigcat', 'slice'): return 1
    if t.op == 'sym' and t.args[1].startswith('seq'): return 2
    if t.op in ('fld', 'app', 'sel') and seq_sort(t) is not None: return 2
    if t.op == 'fold' and fold_shape(t) is not None and seqlike(fold_shape(t)): return 2
    return 0
def matlike(t):
    return t.op == 'mat' or (t.op == 'fold' and fold_shape(t) is not None and matlike(fold_shape(t))) or (t.op in ('sym', 'app', 'fld', 'sel'))

def acc_like(init):
    """fresh accumulator of the shape of init"""
    a = fresh('acc')
    return a

def collect_atoms(t, out):
    for m, c in P(t).items():
        for a, e in m:
            if a not in out: out.append(a)
    return out

def divides(p, d):
    """d is a multiple of the polynomial p"""
    D = P(p)
    if len(D) < 2: return False
    order = sorted({a for m in D for a, e in m}, key=lambda a: a.id)
    if any(e < 0 or e.denominator != 1 for m in D for a, e in m): return False
    def rank(m):
        e = dict(m); return tuple(e.get(a, 0) for a in order)
    lm = max(D, key=rank); lc = D[lm]
    for _ in range(40):
        if d is ZERO or is_zero(d): return True
        # leading term of d in the variables of p
        cand = [m for m in P(d) if all(dict(m).get(a, 0) >= e for a, e in lm)]
        if not cand: return False
        m = max(cand, key=rank); c = P(d)[m]
        e = dict(m)
        for a, x in lm: e[a] = e[a] - x
        q = mkpoly(TM._mono_term(e, Fr(c) / lc))
        d = sub(d, mul(q, p))
    return False

def is_zero(d):
    """the rational function d vanishes identically"""
    if d is ZERO: return True
    for _ in range(6):
        # multiply by the inverse of the lowest power of every base
        ats = [a for a in collect_atoms(d, [])]
        mn = {}
        for m, c in P(d).items():
            e = dict(m)
            for a in ats:
                x = e.get(a, Fr(0))
                mn[a] = min(mn.get(a, x), x)
        f = {a: -x for a, x in mn.items() if x < 0 or (a.op == 'base' and x != 0)}
        if not f: break
        dd = {}
        for m, c in P(d).items():
            e = dict(m)
            for a, x in f.items(): e[a] = e.get(a, 0) + x
            for k, v in TM._mono_term(e, c).items(): dd[k] = dd.get(k, 0) + v
        d = mkpoly(dd)
        if d is ZERO: return True
    return d is ZERO
