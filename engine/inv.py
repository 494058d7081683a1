"""Relational loop invariants: instead of closed forms, a loop is summarised by an inductive
invariant over its scalars (linear equalities and inequalities, one-step implications), inferred from
candidates that hold on entry by dropping what the body does not preserve, until nothing changes.

States of an opaque sequence carry a ghost index (`state(e)` is the e-fold step of the start value),
accumulated results the index of the last state folded in (`acc(e)`).  Lists of states are described
by index functions that may be known to ascend strictly, to start at a constant, and to agree."""
from terms import *
import terms as TM
import theory
from theory import decide, lits, simplify, inconsistent, conds
from interp import *
import interp as I
import loops
import itertools, os, time
from fractions import Fraction as Fr

def state(e): return mk('app', 'state', 'any', e)
def accum(e): return mk('app', 'acc', 'any', e)

# ---------------------------------------------------------------- entailment with case splits
_unsat = {}
def unsat(facts, depth=9):
    key = (frozenset(facts), depth)
    r = _unsat.get(key)
    if r is None: r = _unsat[key] = _uns(facts, depth)
    return r
def _uns(facts, depth):
    fs = []
    for f in facts:
        for l in lits(f):
            if l is FALSE: return True
            if l is not TRUE and l not in fs: fs.append(l)
    for _ in range(30):
        base = tuple(f for f in fs if f.op != 'or')
        ors = [f for f in fs if f.op == 'or']
        if inconsistent(base): return True
        ch = False
        out = list(base)
        for f in ors:
            keep = []
            true = False
            for d in f.args[0]:
                v = decide(d, base)
                if v is True: true = True; break
                if v is None and not inconsistent(base + lits(d)): keep.append(d)
            if true: ch = True; continue
            if not keep: return True
            if len(keep) == 1: out += [l for l in lits(keep[0]) if l not in out]; ch = True
            elif len(keep) < len(f.args[0]): out.append(or_(*keep)); ch = True
            else: out.append(f)
        fs = out
        if not ch: break
    if depth == 0: return False
    cs = []; seen = set()
    for f in fs: 
        for a in (f.args if f.op != 'or' else ()):
            if isinstance(a, T): conds(a, cs, seen)
    cs = [c for c in cs if c not in fs and not_(c) not in fs and decide(c, tuple(f for f in fs if f.op != 'or')) is None]
    if cs:
        c = cs[0]
        for l in (c, not_(c)):
            g = tuple(fs) + lits(l)
            b = tuple(f for f in g if f.op != 'or')
            if not unsat(tuple(simplify(f, tuple(x for x in b if x is not f)) if f not in lits(l) else f for f in g), depth - 1): return False
        return True
    ors = [f for f in fs if f.op == 'or']
    if ors:
        f = min(ors, key=lambda x: len(x.args[0]))
        rest = tuple(x for x in fs if x is not f)
        return all(unsat(rest + lits(d), depth - 1) for d in f.args[0])
    return False

def prove(facts, goal):
    if goal is TRUE: return True
    facts = tuple(facts)
    base = tuple(f for f in facts if f.op != 'or')
    g = simplify(goal, base)
    if decide(g, base) is True: return True
    return all(unsat(facts + lits(not_(l))) for l in lits(g))

_cases = {}
def cases(facts, limit=400):
    """conjunctions whose disjunction the facts amount to"""
    key = frozenset(facts)
    r = _cases.get(key)
    if r is None:
        if len(_cases) > 20000: _cases.clear()
        r = []
        _split(tuple(facts), r, limit)
        _cases[key] = r
    return r
def _split(facts, out, limit):
    fs = []; have = set()
    for f in facts:
        for l in lits(f):
            if l is FALSE: return
            if l is not TRUE and l not in have: have.add(l); fs.append(l)
    while True:
        base = tuple(f for f in fs if f.op != 'or')
        if inconsistent(base): return
        ch = False
        nxt = list(base)
        for f in fs:
            if f.op != 'or': continue
            keep = []; true = False
            for d in f.args[0]:
                v = decide(d, base)
                if v is True: true = True; break
                if v is None: keep.append(d)
            if true: ch = True; continue
            if not keep: return
            if len(keep) == 1:
                nxt += [l for l in lits(keep[0]) if l not in nxt]; ch = True
            elif len(keep) < len(f.args[0]): nxt.append(or_(*keep)); ch = True
            else: nxt.append(f)
        fs = nxt
        if not ch: break
    ors = [f for f in fs if f.op == 'or']
    if not ors or len(out) > limit:
        out.append(tuple(fs)); return
    f = min(ors, key=lambda x: (len(x.args[0]), x.id))
    rest = tuple(x for x in fs if x is not f)
    neg_ = ()
    for d in f.args[0]:
        _split(rest + neg_ + lits(d), out, limit)
        neg_ += lits(not_(d))

def holds_in(c, g):
    base = tuple(f for f in c if f.op != 'or')
    g = simplify(g, base)
    r = decide(g, base)
    if r is not None: return r
    if g.op in ('ge0', 'eq0', 'not') and not theory.has_cond(g.args[0]): return False
    return all(unsat(c + lits(not_(l)), 3) for l in lits(g))

# ---------------------------------------------------------------- abstraction of values
class Bad(Exception): pass
T0 = time.time()
LIMIT = 560

def atoms(v, out=None):
    if out is None: out = set()
    if v.op == 'ite':
        atoms(v.args[1], out); atoms(v.args[2], out)
    elif TM.P(v) is not None:
        for m in TM.P(v):
            for a, e in m:
                if a.op == 'ite': atoms(a, out)
                else: out.add(a)
    return out
def sels(t, out, seen):
    if t in seen: return
    seen.add(t)
    if t.op == 'sel' and t.args[0].op == 'sym': out.setdefault(t.args[0], set()).add(t.args[1])
    for k in TM._kids(t.op, t.args): sels(k, out, seen)

def index_of(v, what, none=None):
    """ghost index of a state / result value"""
    if v.op == 'ite':
        a, b = index_of(v.args[1], what, none), index_of(v.args[2], what, none)
        return ite(v.args[0], a, b)
    if v.op == 'app' and v.args[0] == what: return v.args[2]
    if none is not None and v.op == 'st' and v.args[0] == OPT:
        return none if v.args[1] == 0 else index_of(v.args[2], what)
    raise Bad('value is not a ' + what)

def pick(v):
    while v.op == 'ite': v = v.args[1]
    return v
def picks(v):
    if v.op == 'ite': return picks(v.args[1]) + picks(v.args[2])
    return [v]
def mentions(v, what): return any(x.op == 'app' and x.args[0] == what for x in TM.subterms(v)) if hasattr(TM, 'subterms') else what in show(v)

def solved(case):
    """equalities of a conjunction in solved form; opposite bounds count as equalities"""
    sol = {}
    eqs = [f.args[0] for f in case if f.op == 'eq0']
    ges = [f.args[0] for f in case if f.op == 'ge0']
    def solve(p):
        p = reduce_by(p, sol); d = TM.P(p)
        vs = [(m[0][0], c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1]
        if not vs: return False
        v, c = max(vs, key=lambda x: x[0].id)
        e = scale(sub(p, scale(v, c)), Fr(-1) / c)
        for k in list(sol): sol[k] = reduce_by(sol[k], {v: e})
        sol[v] = e
        return True
    for p in eqs: solve(p)
    while True:
        seen = set(); hit = None
        for p in ges:
            q = reduce_by(p, sol)
            if const(q) is not None: continue
            d = TM.P(q)
            if () not in d and nonneg(neg(q)): hit = next(iter(d))[0][0] if len(next(iter(d))) == 1 and next(iter(d))[0][1] == 1 else None
            if hit is not None: break
            if neg(q) in seen: hit = q; break
            seen.add(q)
        if hit is None or not solve(hit): return sol
def reduce_by(p, sol):
    """linear occurrences replaced"""
    if not sol: return p
    d = TM.P(p)
    if not any(len(m) == 1 and m[0][1] == 1 and m[0][0] in sol for m in d): return p
    out = []
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in sol: out.append(scale(sol[m[0][0]], c))
        else: out.append(scale(mul(ONE, *[TM.powq(a, e) for a, e in m]), c))
    return add(*out)
def left_null(rows):
    """basis of the combinations of the rows that vanish"""
    n = len(rows); M = [(dict(r), {i: Fr(1)}) for i, r in enumerate(rows)]
    piv = []
    out = []
    for r, l in M:
        for col, (pr, pl) in piv:
            q = r.get(col)
            if q:
                f = q / pr[col]
                for k, v in pr.items():
                    w = r.get(k, 0) - f * v
                    if w: r[k] = w
                    else: r.pop(k, None)
                for k, v in pl.items():
                    w = l.get(k, 0) - f * v
                    if w: l[k] = w
                    else: l.pop(k, None)
        if r: piv.append((min(r, key=str), (r, l)))
        else: out.append([l.get(i, Fr(0)) for i in range(n)])
    return out
def integral(p):
    d = TM.P(p); k = 1
    for c in d.values(): k = k * Fr(c).denominator // __import__('math').gcd(k, Fr(c).denominator)
    return scale(p, Fr(k))

class Cell:
    """one havocked location: its value at the loop head and its scalars"""
    def __init__(self, inv, lf, init, post, pc):
        self.inv = inv; self.lf = lf; self.init = init
        self.scal = {}          # name -> symbol
        self.fun = {}           # ghost element functions
        self.top = None
        n = '%s%s' % (lf[0], ''.join('.%d' % i for i in lf[1]))
        p, q = picks(init), picks(post)
        if any(is_unk(x) for x in p + q): raise Bad('unknown value')
        def is_(what): return all(x.op == 'app' and x.args[0] == what for x in p + q)
        if is_('state') or is_('acc'):
            what = pick(init).args[0]; self.kind = what
            e = fresh('g', 'nat'); self.scal['g'] = e
            self.val = mk('app', what, 'any', e)
        elif all(x.op == 'st' and x.args[0] == OPT for x in p + q):
            inner = [y for x in p + q if x.args[1] == 1 for y in picks(x.args[2])]
            if not inner or not all(y.op == 'app' and y.args[0] == 'acc' for y in inner): raise Bad('option')
            self.kind = 'opt'
            e = fresh('g', 'nat'); self.scal['g'] = e
            self.val = ite(le(e, inv.N), some(accum(e)), NONE)
        elif TM.is_seq(init) or TM.is_seq(post) or init.op == 'fold':
            self.kind = 'seq'
            L = fresh('len', 'nat'); self.scal['len'] = L
            el = self.element(init, post, pc)
            self.eshape = el
            k = fresh('k', 'nat')
            def make(s, path=()):
                if s == 'nat':
                    m = self.fun.setdefault(path, fresh('m', 'seq:nat')); return lambda k: mk('sel', m, k)
                if isinstance(s, tuple) and s[0] == 'app':
                    m = self.fun.setdefault(path, fresh('m', 'seq:nat')); return lambda k: mk('app', s[1], 'any', mk('sel', m, k))
                subs = [make(x, path + (i,)) for i, x in enumerate(s[3])]
                return lambda k: st(s[1], s[2], *[f(k) for f in subs])
            f = make(el)
            self.val = arr(L, f)
            # last index of the list, -1 if it is empty
            path = sorted(self.fun)[0] if self.fun else None
            if path is not None:
                t = fresh('top', 'int'); m = self.fun[path]
                self.top = (path, t)
                inv.defs[t] = (or_(and_(le(L, ZERO), ieq(t, num(-1))), and_(lt(ZERO, L), ieq(t, mk('sel', m, sub(L, ONE))))),)
        elif TM.is_bool(init) or TM.is_bool(post):
            self.kind = 'bool'; self.val = fresh('b', 'bool')
        elif all(TM.P(x) is not None and (x.op in ('poly', 'sym', 'app', 'sel', 'len', 'fdiv', 'fmod', 'fld')) for x in p + q):
            self.kind = 'num'
            x = fresh('x', 'nat' if inv.unsigned(lf, init) else 'int'); self.scal['x'] = x; self.val = x
        else: raise Bad('shape of a modified location')
    def element(self, init, post, pc):
        for s in (init, post):
            for i in (ZERO, sub(length(s), ONE)):
                if decide(lt(i, length(s)), pc) is False: continue
                e = simplify(at(s, i), pc + lits(lt(i, length(s))))
                try: return self.shape(e)
                except Bad: pass
        raise Bad('elements')
    def shape(self, e):
        e = pick(e)
        if e.op == 'app' and e.args[0] in ('state', 'acc'): return ('app', e.args[0])
        if e.op == 'st': return ('st', e.args[0], e.args[1], [self.shape(x) for x in e.args[2:]])
        if e.op in ('poly', 'sym', 'sel', 'app'): return 'nat'
        raise Bad('element')
    # -- observations of a value of this shape
    def read(self, v, pc):
        """scalars of a value"""
        if self.kind in ('state', 'acc'): return {'g': index_of(v, self.kind)}
        if self.kind == 'opt': return {'g': index_of(v, 'acc', add(self.inv.N, ONE))}
        if self.kind == 'num': return {'x': v}
        if self.kind == 'bool': return {}
        if self.kind == 'seq':
            L = simplify(length(v), pc)
            return {'len': L}
    def elem(self, v, k, path, pc):
        """index component of element k of a list value"""
        e = simplify(at(v, k), pc)
        return self.dig(e, self.eshape, path)
    def dig(self, e, s, path):
        if e.op == 'ite': return ite(e.args[0], self.dig(e.args[1], s, path), self.dig(e.args[2], s, path))
        if s == 'nat': return e
        if s[0] == 'app': return index_of(e, s[1])
        if e.op != 'st' or e.args[:2] != (s[1], s[2]): raise Bad('element')
        return self.dig(e.args[2 + path[0]], s[3][path[0]], path[1:])

class Inv:
    def __init__(self, N, params=()):
        self.N = N; self.params = list(params)
        self.it = None
        self.log = []
        self.reg = {}; self.trees = {}; self.defs = {}; self.pur = {}
        self.memo = {}; self.discovering = 0; self.guarded = []; self.keepalive = []
    # -- naming of conditional numbers: y stands for the value, its definition is used when y is mentioned
    def purify(self, v):
        r = self.pur.get(v)
        if r is None: r = self.pur[v] = self._purify(v)
        return r
    def _purify(self, v):
        o = v.op
        if o == 'ite':
            lv = picks(v)
            if all(x.op == 'app' and x.args[0] in ('state', 'acc') for x in lv) and len({x.args[0] for x in lv}) == 1:
                return mk('app', lv[0].args[0], 'any', self.purify(index_of(v, lv[0].args[0])))
            if not all(x.op == 'poly' or TM.is_nat(x) or (x.op == 'sym' and x.args[1] == 'int') for x in lv): return v
            tr = self.tree(v)
            if tr is None: return v
            vals = []
            for c, w in tr:
                if w not in vals: vals.append(w)
            if len(vals) == 1: return vals[0]
            y = fresh('y', 'nat' if all(nonneg(w) for w in vals) else 'int')
            self.trees[y] = tr
            self.defs[y] = (or_(*[and_(*c, ieq(y, w)) for c, w in tr]),)
            self.pur[v] = y
            return y
        if o == 'poly':
            m = {a: self.purify(a) for mo, c in v.args[0] for a, e in mo if a.op == 'ite'}
            m = {a: b for a, b in m.items() if a is not b}
            if not m: return v
            out = []
            for mo, c in v.args[0]: out.append(scale(mul(ONE, *[TM.powq(m.get(a, a), e) for a, e in mo]), c))
            return add(*out)
        if o == 'app' and v.args[0] in ('state', 'acc'): return mk('app', v.args[0], 'any', self.purify(v.args[2]))
        if o == 'st': 
            a = [self.purify(x) if isinstance(x, T) else x for x in v.args]
            return v if all(x is y for x, y in zip(a, v.args)) else mk('st', *a)
        if o == 'arr': 
            n = self.purify(v.args[0])
            return v if n is v.args[0] else mk('arr', n, v.args[1])
        return v
    def tree(self, v):
        """[(path condition, value)] of a conditional number, named parts expanded"""
        out = []
        def go(v, path):
            if len(out) > 12: return
            if v.op == 'ite':
                ys = [y for y in v.args[0].fs if y in self.trees]
                if ys:
                    y = max(ys, key=lambda y: y.id)
                    for c, w in self.trees[y]: go(subst(v, {y: w}), path + c)
                    return
                for l, w in ((v.args[0], v.args[1]), (not_(v.args[0]), v.args[2])):
                    d = decide(l, path)
                    if d is False: continue
                    p2 = path + (tuple(x for x in lits(l) if x not in path) if d is None else ())
                    if d is None and inconsistent(tuple(x for x in p2 if x.op != 'or')): continue
                    go(w, p2)
                return
            if inconsistent(tuple(x for x in path if x.op != 'or')): return
            ys = [y for y in v.fs if y in self.trees]
            if ys:
                y = max(ys, key=lambda y: y.id)
                for c, w in self.trees[y]: go(subst(v, {y: w}), path + tuple(x for x in c if x not in path))
                return
            cs = []; theory.conds(v, cs, set())
            cs = [c for c in cs if decide(c, path) is None]
            if cs and v.op == 'poly':
                for l in (cs[0], not_(cs[0])):
                    p2 = path + lits(l)
                    if inconsistent(tuple(x for x in p2 if x.op != 'or')): continue
                    go(simplify(v, tuple(x for x in p2 if x.op != 'or')), p2)
                return
            out.append((path, v))
        go(v, ())
        return out if len(out) <= 12 else None
    def defined(self, ts):
        out = []; seen = set(); todo = list(ts)
        while todo:
            t = todo.pop()
            for s in t.fs:
                if s in self.defs and s not in seen:
                    seen.add(s); out += self.defs[s]; todo += self.defs[s]
        return tuple(out)
    def triggers(self, ts):
        """instances of the quantified facts about the list elements that are mentioned"""
        occ = {}; seen = set()
        for t in ts: sels(t, occ, seen)
        out = []
        for cells, cand in self.reg.values():
            for c in cand:
                if c[0] not in ('asc', 'same', 'first'): continue
                cell = cells[c[1]]; L = cell.scal['len']; m = cell.fun[c[2]]
                ix = sorted(set(occ.get(m, ())) | (set(occ.get(cell.fun[c[3]], ())) if c[0] == 'same' else set()), key=lambda x: x.id)
                if c[0] == 'first':
                    if ix: out.append(or_(le(L, ZERO), ieq(mk('sel', m, ZERO), c[3])))
                    for k in ix:
                        if const(k) is None: out.append(or_(le(L, ZERO), lt(k, ZERO), lt(ZERO, k), ieq(mk('sel', m, k), c[3])))
                elif c[0] == 'same':
                    for k in ix: out.append(or_(lt(k, ZERO), le(L, k), ieq(mk('sel', m, k), mk('sel', cell.fun[c[3]], k))))
                elif ix:
                    for a, b in itertools.permutations(ix, 2):
                        out.append(or_(lt(a, ZERO), le(L, b), lt(b, a), le(add(mk('sel', m, a), sub(b, a)), mk('sel', m, b))))
        ment = set()
        for t in ts: ment |= t.fs
        base = tuple(t for t in ts if t.op != 'or')
        have = set(ts)
        for syms, pc0, extra in self.guarded:
            if not (syms & ment) or all(f in have for f in extra): continue
            if all(l in have or (l.op != 'or' and decide(l, base) is True) or (l.op == 'or' and any(decide(d, base) is True for d in l.args[0])) for l in pc0):
                out += [f for f in extra if f not in have]
        return tuple(o for o in out if o is not TRUE)
    def settle(self, pc, c):
        """value of a branch condition, None if both are possible"""
        if self.discovering: return None
        if self.proves(pc, c): return True
        if self.proves(pc, not_(c)): return False
        return None
    def proves(self, pc, goal):
        if time.time() - T0 > LIMIT + 40: raise Give('time limit of the invariant search')
        pc = tuple(pc)
        base = tuple(f for f in pc if f.op != 'or')
        g = simplify(goal, base)
        if g is TRUE or decide(g, base) is True: return True
        d = self.defined(pc + (g,))
        if d and all(holds_in(c, g) for c in cases(base + d)): return True
        ins = self.triggers(pc + (g,) + d) + d
        return all(holds_in(c, g) for c in cases(pc + ins))

    def unsigned(self, lf, init):
        ty = loops.leaf_sort(self.it, lf[0], lf[1], init)
        if ty == 'nat': return True
        if isinstance(ty, tuple): return self.it.p.sort(ty) == 'nat'
        return False

    def loop(self, it, step, ex, cont, fr, S0, pc0):
        self.it = it
        np0, ne0 = len(it.panics), len(it.events)
        cells = {}
        cand = None; staged = False
        for rnd in range(60):
            if time.time() - T0 > LIMIT: raise Give('time limit of the invariant search')
            del it.panics[np0:]; del it.events[ne0:]
            S = dict(S0)
            for (l, p), c in cells.items(): S[l] = loops.put(S[l], p, c.val)
            if cand is not None: self.reg[id(cells)] = (cells, cand)
            head = pc0 + (tuple(self.facts(cells, cand)) if cand is not None else ())
            if cand is None: self.discovering += 1
            try: st1, exits = loops.once(it, step, ex, cont, fr, S, head)
            finally:
                if cand is None: self.discovering -= 1
            if st1 is None:
                if not exits: raise Diverge()
                return loops.leave(it, pc0, exits, fr)
            pc1, S1 = st1
            fresh_ = False
            for l in S0:
                a, b = S.get(l), S1.get(l)
                if b is None or a is b: continue
                for p in list(loops.diff(a, b)):
                    if (l, p) in cells: continue
                    if any(l2 == l and len(q) < len(p) and p[:len(q)] == q for (l2, q) in cells): continue
                    for q in [q for (l2, q) in cells if l2 == l and len(q) > len(p) and q[:len(p)] == p]: del cells[(l, q)]
                    try: cells[(l, p)] = Cell(self, (l, p), simplify(loops.get(S0[l], p), pc0), simplify(loops.get(b, p), pc1), pc1)
                    except Bad as e: raise Give('loop invariant: %s' % e)
                    fresh_ = True
            if fresh_: cand = None; staged = False
            elif cand is None and self.discovering: break     # only what is modified matters
            try:
                if cand is None:
                    if self.discovering: continue
                    allc = self.candidates(cells, S0, pc0)
                    mark = (step.id, [c.kind for c in cells.values()], len(allc))
                    old = self.memo.get(str(mark))
                    gens = [c[1] for c in allc if c[0] == 'lin']
                    if old is not None:
                        # what did not survive under stronger facts will not survive now
                        staged = True
                        lams, dead = old
                        cand = [('lin', integral(add(*[scale(g, q) for g, q in zip(gens, lam) if q]))) for lam in lams]
                        cand += [c for i, c in enumerate(allc) if c[0] != 'lin' and i not in dead]
                        hf = None
                    else: cand = [c for c in allc if c[0] not in ('imp', 'impp')]
                    nc = len(cand)
                    cand = [c for c in cand if c[0] == 'lin' or self.holds(c, cells, lambda q: S0, pc0, None)]
                    if os.environ.get('ADV_INV'): print('  ' * it.in_loop, fr.key.split('::')[-1], 'entry', [(k, c.kind) for k, c in cells.items()], nc, '->', len(cand), round(time.time() - T0, 1), flush=True)
                    self.ghost(cells)
                    continue
                keep = self.sift(cand, cells, S1, pc1)
            except Bad as e: raise Give('loop invariant: %s' % e)
            if os.environ.get('ADV_INV') == '2': print('\n'.join('          ' + show(f) for f in self.facts(cells, keep)))
            if os.environ.get('ADV_INV'): print('  ' * it.in_loop, fr.key.split('::')[-1], 'round', rnd, 'cells', [(k, c.kind) for k, c in cells.items()], len(cand), '->', len(keep), 'exits', len(exits), round(time.time() - T0, 1), flush=True)
            if keep == cand:
                if staged: break
                # implications are tried under the linear facts found
                staged = True
                extra = [c for c in allc if c[0] in ('imp', 'impp')]
                hf = tuple(self.facts(cells, cand))
                try: extra = [c for c in extra if self.holds(c, cells, lambda q: S0, pc0, None) and not self.implied(c, cells, hf)]
                except Bad as e: raise Give('loop invariant: %s' % e)
                if os.environ.get('ADV_INV'): print('  ' * it.in_loop, 'implications', len(extra), flush=True)
                if not extra: break
                cand = cand + extra
                continue
            cand = keep
        else: raise Give('loop invariant: no fixpoint')
        if cand is None: cand = []
        elif not self.discovering:
            hs = [self.hobs(o, cells) for o in self.names(cells)]
            have = set(cand)
            self.memo[str(mark)] = ([[Fr(TM.P(c[1]).get(((h, 1),), 0)) for h in hs] for c in cand if c[0] == 'lin'],
                                    {i for i, c in enumerate(allc) if c[0] != 'lin' and c not in have})
        self.log.append((fr.key, len(cells), len(cand), rnd + 1))
        self.last = (cells, cand)
        if not exits: raise Diverge()
        nr = len(fr.rets)
        v = loops.leave(it, pc0, exits, fr)
        if not self.discovering: v = self.departed(it, v, cells, cand, pc0, fr, nr)
        return v
    def departed(self, it, v, cells, cand, pc0, fr, nr):
        """the state in which the loop is left is one particular visit of its head: it gets symbols of its own,
        as requirements met inside the loop speak about any visit"""
        syms = [x for c in cells.values() for x in list(c.scal.values()) + list(c.fun.values()) + ([c.top[1]] if c.top else [])]
        syms += [c.val for c in cells.values() if c.kind == 'bool']
        if not syms: return v
        ren = {x: fresh(x.args[0].split('#')[0], x.args[1]) for x in syms}
        old = set(syms)
        # named conditional numbers that depend on them
        for y in sorted(self.trees, key=lambda y: y.id):
            if any(x in ren for c, w in self.trees[y] for q in c + (w,) for x in q.fs):
                ren[y] = fresh('y', y.args[1])
                self.trees[ren[y]] = [(tuple(subst(q, ren) for q in c), subst(w, ren)) for c, w in self.trees[y]]
                self.defs[ren[y]] = (or_(*[and_(*c, ieq(ren[y], w)) for c, w in self.trees[ren[y]]]),)
        def sub_(x): return subst(x, ren) if x.fs & ren.keys() else x
        twins = {}
        for k, c in cells.items():
            d = object.__new__(Cell); d.__dict__.update(c.__dict__)
            d.scal = {n: ren[x] for n, x in c.scal.items()}
            d.fun = {p: ren[m] for p, m in c.fun.items()}
            d.val = sub_(c.val)
            if c.top:
                d.top = (c.top[0], ren[c.top[1]])
                self.defs[d.top[1]] = tuple(sub_(f) for f in self.defs[c.top[1]])
            twins[k] = d
        cand2 = [('lin', sub_(c[1])) if c[0] == 'lin' else c for c in cand]
        self.keepalive.append(twins); self.reg[id(twins)] = (twins, cand2)
        known = set(pc0)
        def pcs(pc): return tuple(f if f in known else sub_(f) for f in pc)
        it.pc = pcs(it.pc)
        it.store = {l: sub_(x) for l, x in it.store.items()}
        fr.rets[nr:] = [(pcs(pc), {l: sub_(x) for l, x in S.items()}, sub_(w)) for pc, S, w in fr.rets[nr:]]
        # what is known of the symbols introduced here, wherever the loop was reached
        head = tuple(f for f in self.facts(cells, cand) if f not in known)
        if head: self.guarded.append((frozenset(old), pc0, head))
        extra = tuple(f for f in it.pc if f not in known)
        if extra: self.guarded.append((frozenset(ren[x] for x in old), pc0, extra))
        return sub_(v)
    def ghost(self, cells): pass

    # -- candidates: ('lin', {sym: coef}, const-term, rel) over scalars; const-term may mention parameters
    def scalars(self, cells):
        out = {}
        for k, c in cells.items():
            for n, s in c.scal.items(): out[s] = (k, n)
        return out
    def value(self, cells, who, S, pc):
        (k, n) = who
        v = loops.get(S[k[0]], k[1])
        return simplify(cells[k].read(simplify(v, pc), pc)[n], pc)
    def top(self, cells, k, path, S, pc):
        """last index of a list, -1 if it is empty"""
        c = cells[k]; v = simplify(loops.get(S[k[0]], k[1]), pc)
        L = simplify(length(v), pc)
        p1 = pc + lits(lt(ZERO, L))
        if L is ZERO: return num(-1)
        return ite(lt(ZERO, L), c.elem(v, sub(L, ONE), path, p1), num(-1))
    def htop(self, c, path): return c.top[1]
    def names(self, cells):
        out = []
        for k, c in sorted(cells.items(), key=lambda x: x[0]):
            for n in sorted(c.scal): out.append(('s', k, n))
            if c.top: out.append(('t', k, c.top[0]))
        return out
    def candidates(self, cells, S0, pc0):
        out = []
        names = self.names(cells)   # observables: ('s', sym) / ('t', cell key, path)
        init = {o: self.obs(o, cells, S0, pc0) for o in names}
        params = set(self.params)
        for v in init.values():
            for a in atoms(v): params.add(a)
        for k, c in cells.items():
            if len(k[1]) and S0[k[0]].op == 'st' and S0[k[0]].args[0] == loops.IT: params.add(length(S0[k[0]].args[2]))
        for l, v in S0.items():
            if v.op == 'st' and v.args[0] == loops.IT and (l, (1,)) in cells: params.add(length(v.args[2]))
        params = sorted((p for p in params if const(p) is None), key=lambda p: p.id)
        for o in names: out.append(('lin', sub(self.hobs(o, cells), self.purify(init[o]))))
        for o in names:
            for c in (0, 1):
                out.append(('ge', (o,), (1,), num(c)))
            for p in params:
                for c in (-1, 0, 1):
                    out.append(('ge', (o,), (-1,), add(neg(p), num(c))))     # o <= p - c
                    out.append(('ge', (o,), (1,), add(p, num(c))))          # o >= p + c
            out.append(('ge', (o,), (1,), init[o])); out.append(('ge', (o,), (-1,), neg(init[o])))
        for a, b in itertools.permutations(names, 2):
            for c in (-1, 0, 1): out.append(('ge', (a, b), (1, -1), num(c)))
            for c in (0, 1): out.append(('imp', a, b, c))
        for a in names:
            for p in params:
                for c in (0, 1): out.append(('impp', a, p, c))
        for k, c in sorted(cells.items(), key=lambda x: x[0]):
            for path in sorted(c.fun):
                if path == c.top[0]: out.append(('asc', k, path))
                v = simplify(loops.get(S0[k[0]], k[1]), pc0)
                if decide(lt(ZERO, length(v)), pc0) is True:
                    out.append(('first', k, path, c.elem(v, ZERO, path, pc0)))
            for p, q in itertools.combinations(list(c.fun), 2):
                out.append(('same', k, p, q))
        return out
    def sift(self, cand, cells, S, pc):
        """what of the candidates the body re-establishes; of the equalities, the affine space that is preserved"""
        lin = [c for c in cand if c[0] == 'lin']
        names = self.names(cells)
        post = {self.hobs(o, cells): self.purify(self.obs(o, cells, S, pc)) for o in names}
        vals = [subst(c[1], post) for c in lin]
        if os.environ.get('ADV_INV') == '5':
            print('POST', [(show(a), show(b)) for a, b in post.items()])
            for f in pc: print('     ', show(f))
            print('  def')
            for f in self.defined(tuple(pc) + tuple(post.values())): print('     ', show(f))
        base = tuple(pc) + self.defined(tuple(pc) + tuple(post.values()))
        cs = [c for c in cases(base)]
        sols = [solved(c) for c in cs]
        rows = [{} for c in lin]
        more = {}
        def refine(i):
            if i not in more:
                cc2 = cases(cs[i] + self.triggers(cs[i] + tuple(post.values())))
                more[i] = (cc2, [solved(x) for x in cc2])
            return more[i]
        for i, s in enumerate(sols):
            rs = [TM.P(reduce_by(v, s)) for v in vals]
            if not any(rs): continue
            for j, s in enumerate(refine(i)[1]):
                for r, v in zip(rows, vals):
                    for m, q in TM.P(reduce_by(v, s)).items(): r[(i, j, m)] = q
        keep = []
        if os.environ.get('ADV_INV') == '3': print('SIFT', [show(c[1]) for c in lin], [show(v) for v in vals], rows)
        if all(not r for r in rows): keep = lin
        else:
            for lam in left_null(rows):
                keep.append(('lin', add(*[scale(c[1], q) for c, q in zip(lin, lam) if q])))
            # clear denominators
            keep = [('lin', integral(e[1])) for e in keep]
        known = {}
        for c in cand:
            if time.time() - T0 > LIMIT: raise Give('time limit of the invariant search')
            if c[0] == 'lin': continue
            if c[0] == 'ge':
                g = sub(add(*[scale(self.hobs(o, cells), k) for o, k in zip(c[1], c[2])]), c[3])
                v = subst(g, post)
                if not any(a in self.trees or True for a in v.fs) and const(v) is not None:
                    if const(v) >= 0: keep.append(c)
                    continue
                if v not in known:
                    ok = True
                    for i, (cc, so) in enumerate(zip(cs, sols)):
                        if self.ge_in(cc, so, v): continue
                        if not all(self.ge_in(x, y, v) for x, y in zip(*refine(i))): ok = False; break
                    known[v] = ok
                if known[v]: keep.append(c)
                continue
            if self.holds(c, cells, lambda q: S, pc, None): keep.append(c)
        return keep
    def ge_in(self, case, so, v):
        g = reduce_by(v, so)
        if const(g) is not None: return const(g) >= 0
        if nonneg(g): return True
        return holds_in(case, TM.ge0(g))
    def obs(self, o, cells, S, pc):
        if o[0] == 's': return self.value(cells, (o[1], o[2]), S, pc)
        return simplify(self.top(cells, o[1], o[2], S, pc), pc)
    def hobs(self, o, cells):
        c = cells[o[1]]
        return c.scal[o[2]] if o[0] == 's' else self.htop(c, o[2])
    def formula(self, c, get):
        if c[0] == 'lin': return TM.eq0(c[1])
        if c[0] in ('eq', 'ge'):
            e = sub(add(*[scale(get(o), k) for o, k in zip(c[1], c[2])]), c[3])
            return TM.eq0(e) if c[0] == 'eq' else TM.ge0(e)
        if c[0] == 'imp': return or_(lt(ZERO, get(c[1])), le(get(c[2]), num(c[3])))
        if c[0] == 'impp': return or_(lt(ZERO, get(c[1])), le(c[2], num(c[3])))
    def facts(self, cells, cand):
        out = []
        for c in cand:
            if c[0] in ('lin', 'eq', 'ge', 'imp', 'impp'): out.append(self.formula(c, lambda o: self.hobs(o, cells)))
        for k, c in cells.items():
            if c.kind == 'opt': out.append(le(c.scal['g'], add(self.N, ONE)))
        fs = []
        for f in out:
            for l in lits(f):
                if l is not TRUE and l not in fs: fs.append(l)
        # fewer facts: equalities are solved, of parallel bounds the tightest is kept
        sol = {}; eqs = []
        def red(p):
            return subst(p, sol) if sol else p
        for f in [f for f in fs if f.op == 'eq0']:
            p = red(f.args[0]); d = TM.P(p)
            vs = [(m[0][0], c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym']
            if not vs:
                if const(p) != 0: eqs.append(f)
                continue
            v, c = max(vs, key=lambda x: x[0].id)
            e = scale(sub(p, scale(v, c)), Fr(-1) / c)
            for k in list(sol): sol[k] = subst(sol[k], {v: e})
            sol[v] = e; eqs.append(f)
        best = {}; ors = []
        for f in fs:
            if f.op == 'ge0':
                p = red(f.args[0]); d = dict(TM.P(p)); c = d.pop((), Fr(0))
                if not d:
                    if c < 0: return [FALSE]
                    continue
                if nonneg(p): continue
                k = frozenset(d.items())
                if k not in best or best[k][0] > c: best[k] = (c, TM.ge0(p))
            elif f.op == 'or':
                g = subst(f, sol) if sol else f
                if g is not TRUE and g not in ors: ors.append(g)
            elif f.op != 'eq0': ors.append(f)
        lin = eqs + [f for c, f in best.values()]
        base = tuple(lin)
        ors = [g for g in ors if not (g.op == 'or' and any(decide(d, base) is True for d in g.args[0]))]
        # of implications with the same premise the strongest
        return lin + ors
    def implied(self, c, cells, hf):
        f = self.formula(c, lambda o: self.hobs(o, cells))
        b = tuple(x for x in hf if x.op != 'or')
        return f is TRUE or (f.op == 'or' and any(decide(d, b) is True for d in f.args[0])) or unsat(b + lits(not_(f)), 2)
    def holds(self, c, cells, Sof, pc, head):
        S = Sof(c)
        if c[0] in ('eq', 'ge', 'imp', 'impp'):
            return self.proves(pc, self.formula(c, lambda o: self.obs(o, cells, S, pc)))
        k = c[1]; cell = cells[k]
        v = simplify(loops.get(S[k[0]], k[1]), pc)
        return all(self.holds_list(c, cell, w, p) for p, w in self.flat(v, tuple(pc)))
    def flat(self, v, pc, depth=6):
        """cases of a conditional list"""
        base = tuple(f for f in pc if f.op != 'or')
        v = simplify(v, base)
        cs = []; theory.conds(v, cs, set())
        cs = [c for c in cs if decide(c, base) is None]
        if not cs or depth == 0: return [(pc, v)]
        out = []
        for l in (cs[0], not_(cs[0])):
            p = pc + lits(l)
            if inconsistent(tuple(f for f in p if f.op != 'or')): continue
            out += self.flat(v, p, depth - 1)
        return out
    def holds_list(self, c, cell, v, pc):
        L = self.purify(simplify(length(v), pc))
        if c[0] == 'first': return self.proves(pc + lits(lt(ZERO, L)), ieq(cell.elem(v, ZERO, c[2], pc + lits(lt(ZERO, L))), c[3]))
        q = fresh('q', 'nat')
        p2 = pc
        if c[0] == 'asc':
            p2 += lits(lt(add(q, ONE), L))
            return self.proves(p2, lt(cell.elem(v, q, c[2], p2), cell.elem(v, add(q, ONE), c[2], p2)))
        if c[0] == 'same':
            p2 += lits(lt(q, L))
            return self.proves(p2, ieq(cell.elem(v, q, c[2], p2), cell.elem(v, q, c[3], p2)))
