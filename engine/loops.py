"""Loop summaries: closed forms of the recurrences of the locations a loop modifies.

The body is walked symbolically with the modified locations ("leaves") generalised to symbols; the
recurrence leaf' = f(k, leaf, ...) of every leaf is then matched against a fixed set of solvable
shapes (induction variables, sums, appends, pointwise writes, scatter-adds, previous values).  What
remains is represented exactly by a joint `fold` term.  A loop whose exit cannot be bounded this way
turns the modified leaves into unknowns."""
from terms import *
import terms as TM
from theory import decide, lits, simplify, entails_ge, inconsistent
from interp import *
import interp as I

IT = '@it'

def shape_op(f):
    h = TM.fold_shape(f)
    return h.op if h is not None else None

class Leaf:
    def __init__(self, it, loc, path, init, ty, general=False):
        self.it = it; self.loc = loc; self.path = path; self.init = init
        self.ty = ty if isinstance(ty, tuple) else None
        self.sort = ty if isinstance(ty, str) else None
        if self.ty is not None:
            s = it.p.sort(self.ty)
            self.sort = s if s != 'any' else None
        self.general = general
        self.sol = None            # function of k
        self.post = None
        self.fixed = frozenset()   # components of structured elements the loop leaves alone
        self.make()
    def make(self):
        i = self.init
        if not self.general and i.op in ('arr', 'concat', 'fseq', 'bigcat', 'slice') or (not self.general and i.op == 'fold' and shape_op(i) == 'arr') or (not self.general and i.op in ('sym', 'app', 'fld', 'sel') and seq_sort(i)):
            s = self.sort if self.sort and self.sort.startswith('seq:') else (seq_sort(i) and 'seq:' + seq_sort(i)) or 'seq:any'
            self.mu = fresh('mu', s)
            mu = self.mu
            ety = None
            if self.ty is not None:
                t = self.it.p.strip(self.ty)
                if t[0] == 'adt' and t[1] in I.SEQS: ety = self.it.p.strip(t[2][0])
                elif t[0] in ('slice', 'array'): ety = self.it.p.strip(t[1])
                if ety is not None and not (ety[0] == 'tuple' or (ety[0] == 'adt' and ety[1] in self.it.p.adt)): ety = None
            self.ety = ety
            def cell(j):
                c = mk('sel', mu, j)
                if ety is None: return c
                c = self.it.p.shape(c, ety)
                if self.fixed: c = mk('st', *c.args[:2], *[fld(at(i, j), n, x.args[2] if x.op == 'fld' else 'any') if n in self.fixed else x for n, x in enumerate(c.args[2:])])
                return c
            self.cell = cell
            self.val = mk('arr', length(i), lam(self.cell))
            self.kind = 'seq'
        elif not self.general and (i.op == 'mat' or (i.op == 'fold' and shape_op(i) == 'mat')):
            self.mu = fresh('mu', 'mat'); mu = self.mu
            ety = None
            if self.ty is not None and ncols(i) is ONE:
                t = self.it.p.strip(self.ty)
                if t[0] == 'adt' and t[1] == 'nalgebra::base::matrix::Matrix':
                    ety = self.it.p.strip(t[2][0])
                    if not (ety[0] == 'tuple' or (ety[0] == 'adt' and ety[1] in self.it.p.adt)): ety = None
            self.ety = ety
            def cell(j):
                c = mk('msel', mu, j, ZERO)
                if ety is None: return c
                c = self.it.p.shape(c, ety)
                if self.fixed: c = mk('st', *c.args[:2], *[fld(mat_at(i, j, ZERO), n, x.args[2] if x.op == 'fld' else 'any') if n in self.fixed else x for n, x in enumerate(c.args[2:])])
                return c
            self.cell = cell
            self.val = mat(nrows(i), ncols(i), (lambda a, b: cell(a)) if ety is not None else (lambda a, b: mk('msel', mu, a, b)))
            self.kind = 'mat'
        else:
            s = self.sort or 'any'
            if s == 'any' and TM.P(i) is not None and i.op == 'poly': s = 'real'
            self.mu = fresh('mu', s); self.val = self.mu
            self.kind = 'gen'

def get(v, path):
    for i in path: v = v.args[2 + i]
    return v
def put(v, path, x):
    if not path: return x
    a = list(v.args); a[2 + path[0]] = put(v.args[2 + path[0]], path[1:], x)
    return mk('st', *a)

def diff(old, new, path=()):
    if old is new: return
    if old.op == 'st' and new.op == 'st' and old.args[:2] == new.args[:2] and len(old.args) == len(new.args) and len(old.args) > 2:
        for i, (a, b) in enumerate(zip(old.args[2:], new.args[2:])):
            if isinstance(a, T): yield from diff(a, b, path + (i,))
    else: yield path

def leaf_sort(it, loc, path, init):
    ty = it.locty.get(loc)
    v = it.loop0.get(loc)
    for i in path:
        if v is None: break
        if v.op == 'st' and v.args[0] == IT:
            return 'nat' if i == 1 else None
        if ty is not None: ty = it.p.strip(ty)
        if v.op == 'st' and v.args[0] == '()' and ty is not None and ty[0] == 'tuple' and i < len(ty[1]): ty = ty[1][i]
        elif v.op == 'st' and ty is not None and ty[0] == 'adt' and ty[1] in it.p.adt and v.args[0] == ty[1]:
            a = it.p.adt[ty[1]]
            env = dict(zip(a['generics'], ty[2]))
            ty = it.p.rt(a['variants'][v.args[1]]['fields'][i][1], env)
        elif v.op == 'st' and v.args[0].startswith('core::ops::range::') and ty is not None and ty[0] == 'adt' and ty[2]: ty = ty[2][0]
        elif v.op == 'st' and v.args[0] in (OPT, RES) and ty is not None and ty[0] == 'adt' and ty[2]: ty = ty[2][0]
        else: ty = None
        v = v.args[2 + i] if v.op == 'st' else None
    return ty

def run(it, e, fr):
    labs = list(fr.labels.get('cur', [])[-2:])
    ex = []; cont = []
    tgt = {'brk': ex, 'cont': cont}
    old = {l: fr.labels.get(l) for l in labs}
    for l in labs: fr.labels[l] = tgt
    def step():
        it.ev(e['e'], fr)
    step.id = id(e)
    try:
        return loop(it, step, ex, cont, fr)
    finally:
        for l in labs: fr.labels[l] = old[l]

def consume(it, m, s, a, rty, sp):
    """internal iteration: for_each, fold, try_fold"""
    if m in ('find', 'position', 'find_map', 'reduce'): return unk('iterator ' + m)
    ref = mk('mref', it.new(st(IT, 0, s, ZERO)), ())
    ex = []
    acc = None
    if m in ('fold', 'try_fold'):
        acc = it.new(a[1])
        if rty is not None: it.locty[acc] = rty if m == 'fold' else ('any',)
    if m == 'try_fold': return unk('try_fold')
    import lib
    def step():
        o = lib.nxt(it, ref, sp)
        def some_():
            x = fld(o, 0, 'any', 1)
            if acc is None: it.call_closure(a[1], [x])
            else: it.store[acc] = it.call_closure(a[2], [it.store[acc], x])
            return UNIT
        def none_():
            ex.append((it.pc, it.store, UNIT)); raise Diverge()
        it.branch([(isv(o, OPT, 1), some_), (TRUE, none_)])
    step.id = ('consume', m, str(sp))
    loop(it, step, ex, [], it.stack[-1])
    return UNIT if acc is None else it.store[acc]

def once(it, step, ex, cont, fr, store, pc):
    """one symbolic iteration; returns (cont state or None, exits, returns)"""
    del ex[:]; del cont[:]
    nr = len(fr.rets)
    for l, g in (it.filters or {}).items(): it.filters[l] = g[:2]
    it.store = dict(store); it.pc = pc
    outs = []
    try:
        step()
        outs.append((it.pc, it.store, UNIT))
    except Diverge: pass
    outs += list(cont)
    exits = [('brk',) + x for x in ex] + [('ret',) + x for x in fr.rets[nr:]]
    del fr.rets[nr:]; del ex[:]; del cont[:]
    st1 = None
    if outs:
        it.join_exits(pc, outs)
        st1 = (it.pc, it.store)
    return st1, exits

MAXROUNDS = 40
def loop(it, step, ex, cont, fr):
    S0 = dict(it.store); pc0 = it.pc
    np0, ne0 = len(it.panics), len(it.events)
    it.in_loop += 1
    save_filters = it.filters
    saved0 = getattr(it, 'loop0', None)
    it.loop0 = S0
    it.filters = dict(save_filters or {})
    for l, v in S0.items():
        if v.op == 'st' and v.args[0] == IT and v.args[2].op == 'fseq': it.filters[l] = (v.args[2], v.args[3])
    try:
        if it.inv is not None: return it.inv.loop(it, step, ex, cont, fr, S0, pc0)
        if it.unroll:
            r = concrete(it, step, ex, cont, fr, S0, pc0)
            if r is not None:
                it.store, it.pc = S0, pc0
                return leave(it, pc0, r, fr)
            del it.panics[np0:]; del it.events[ne0:]
            it.store, it.pc = dict(S0), pc0
        return _loop(it, step, ex, cont, fr, S0, pc0, np0, ne0)
    finally:
        it.in_loop -= 1
        used = [l for l, g in it.filters.items() if len(g) == 3]
        it.filters = save_filters
        if save_filters and any(l in save_filters for l in used): raise Give('filtered sequence advanced by an inner loop')
        it.loop0 = saved0

def concrete(it, step, ex, cont, fr, S0, pc0):
    """exits of a loop that provably ends within it.unroll iterations"""
    S, pc, out = S0, pc0, []
    for t in range(it.unroll + 1):
        nxt, exits = once(it, step, ex, cont, fr, S, pc)
        out += exits
        if nxt is None: return out
        if any(TM.poisoned(x) for x in nxt[0] if x not in pc): return None   # steered by something outside the analysis
        pc, S = nxt
        if len(out) > 6: return None
    return None

def prefix(p, q): return q[:len(p)] == p

def _loop(it, step, ex, cont, fr, S0, pc0, np0, ne0):
    leaves = {}
    k = fresh('k', 'nat')
    n = None; main = None
    rounds = 0
    while True:
        rounds += 1
        if rounds > MAXROUNDS: return give(it, S0, pc0, leaves, 'no summary', fr, [])
        del it.panics[np0:]; del it.events[ne0:]
        S = dict(S0)
        for (l, p), lf in leaves.items():
            S[l] = put(S[l], p, lf.sol(k) if lf.sol else lf.val)
        pc = pc0
        if n is not None: pc = pc + tuple(x for x in lits(lt(k, n)) if x not in pc)
        if n is not None and inconsistent_q(pc):
            # zero iterations
            st1, exits = None, []
        else:
            st1, exits = once(it, step, ex, cont, fr, S, pc)
        if st1 is None and n is None and rounds == 1:
            # the body never continues
            if not exits: raise Diverge()
            return leave(it, pc0, exits, fr)
        if st1 is None: break
        pc1, S1 = st1
        # newly modified leaves
        changed = False
        guard = TRUE
        for l, g in (it.filters or {}).items():
            v = S0.get(l)
            if v is not None and v.op == 'st' and v.args[0] == IT and v.args[2].op == 'fseq' and g[0] is v.args[2] and len(g) == 3:
                guard = and_(guard, app_lam(g[0].args[1], g[1]))
        for l in S0:
            a, b = S.get(l), S1.get(l)
            if b is None or a is b: continue
            for p in list(diff(a, b)):
                if (l, p) in leaves: continue
                # inside an existing leaf?
                sup = [q for (l2, q) in leaves if l2 == l and len(q) < len(p) and prefix(q, p)]
                if sup: continue
                for q in [q for (l2, q) in leaves if l2 == l and len(q) > len(p) and prefix(p, q)]: del leaves[(l, q)]
                init = get(S0[l], p)
                leaves[(l, p)] = Leaf(it, l, p, init, leaf_sort(it, l, p, init))
                changed = True
        if changed:
            for lf in leaves.values(): lf.sol = None
            n = None; main = None
            continue
        # posts
        esc = False
        for (l, p), lf in leaves.items():
            post = get(S1[l], p)
            if lf.sol is None:
                if not shape_kept(it, lf, post, pc1):
                    lf.general = True; lf.make(); esc = True; continue
            post = simplify(post, pc1)
            if guard is not TRUE and not (S0[l].op == 'st' and S0[l].args[0] == IT):
                post = ite(guard, post, lf.sol(k) if lf.sol else lf.val)
            lf.post = post
            if lf.kind in ('seq', 'mat') and lf.sol is None and lf.ety is not None:
                j = fresh('j', 'nat')
                own = lf.cell(j)
                if own.op == 'st':
                    E = simplify(at(post, j), pc1 + (lt(j, length(lf.init)),)) if lf.kind == 'seq' else simplify(mat_at(post, j, ZERO), pc1 + (lt(j, nrows(lf.init)),))
                    same = {n for n, o in enumerate(own.args[2:]) if simplify(fld(E, n, o.args[2] if o.op == 'fld' else 'any'), pc1) is o}
                    if lf.fixed - same: lf.general = True; lf.make(); esc = True
                    elif same - lf.fixed and len(same) < len(own.args) - 2: lf.fixed = frozenset(same); lf.make(); esc = True
        if esc:
            for lf in leaves.values(): lf.sol = None
            n = None; main = None
            continue
        # solve
        progress = False
        for lf in leaves.values():
            if lf.sol is None:
                U = {x.mu for x in leaves.values() if x.sol is None}
                s = solve(it, lf, k, U, pc1)
                if s is not None:
                    lf.sol = s; progress = True
                    sub_solved(leaves, lf, k)
        if n is None:
            m = {lf.mu: solval(lf, k) for lf in leaves.values() if lf.sol is not None}
            r = trip(it, exits, m, k, leaves, pc0)
            if r is not None:
                main, n = r; progress = True
        if not progress and n is not None: progress = stage(leaves, k)
        if not progress: break
    # ---- final state
    if n is None:
        return give(it, S0, pc0, leaves, 'unbounded loop', fr, exits)
    unsolved = [lf for lf in leaves.values() if lf.sol is None]

    alias, ren = aliases(unsolved)
    if ren:
        for lf in leaves.values():
            if lf.post is not None: lf.post = subst(lf.post, ren)
    unsolved = [lf for lf in unsolved if lf not in alias]
    exits = [x for x in exits if x is main or not fixpoint_exit(it, x, leaves, unsolved, alias, ren, k, pc0, S0)]
    if unsolved:
        # only what a component depends on takes part in its fold
        deps = depends(unsolved)
        for lf in unsolved:
            grp = [u for u in unsolved if u in deps[lf]]
            accs = [u.mu for u in grp]; bodies = [u.post for u in grp]; inits = [u.init for u in grp]
            idx = grp.index(lf)
            lf.fsol = lambda kk, accs=accs, bodies=bodies, inits=inits, idx=idx: fold(kk, accs, k, bodies, inits, idx)
        for b, a in alias.items(): b.fsol = a.fsol
    # within the body the unsolved symbols are the folds up to k
    X = lambda lf, kk: (lf.sol or lf.fsol)(kk)
    early = [x for x in exits]
    kind, epc, es, ev = main
    def close(t, kk, m):
        return subst(t, m)
    mN = {lf.mu: X(lf, n) for lf in leaves.values()}
    mN[k] = n
    mK = {lf.mu: X(lf, k) for lf in leaves.values()}
    for i in range(np0, len(it.panics)):
        ppc, why, key, sp = it.panics[i]
        it.panics[i] = (tuple(subst(x, {a: b for a, b in mK.items()}) for x in ppc), why, key, sp)
    final = {}
    for l, v in es.items():
        final[l] = simplify(subst(v, mN), pc0) if l in S0 or is_loc_ref(l) else v
    fpc = pc0 + tuple(y for x in epc if x not in pc0 for y in lits(simplify(subst(x, mN), pc0)) if y is not TRUE and y not in pc0)
    outs = []
    if early:
        r = early_exits(it, early, k, n, mK, leaves, S0, pc0, final, fr)
        if r is False: return give(it, S0, pc0, leaves, 'early exit', fr, exits)
        neg = ()
        for c, kind2, s2, v2 in r:
            if kind2 == 'ret':
                fr.rets.append((pc0 + neg + lits(c), s2, v2))
            else: outs.append((pc0 + neg + lits(c), s2, v2))
            neg = neg + lits(not_(c))
        fpc = fpc + neg
    value = subst(ev, mN)
    if kind == 'ret':
        fr.rets.append((fpc, final, value))
        if not outs: raise Diverge()
    else: outs.append((fpc, final, value))
    return it.join_exits(pc0, outs)

def fixpoint_exit(it, x, leaves, unsolved, alias, ren, k, pc0, S0):
    """the loop is left because a step changes nothing: all remaining steps would change nothing either"""
    from theory import Cmp
    kind, pc, s, v = x
    if kind != 'brk' or v is not UNIT or not unsolved: return False
    same = lambda a, b: a is b or (a.op == b.op or numericish(a) or numericish(b)) and Cmp(2000).eq(a, b, ()) is True
    ls = [subst(l, ren) for l in pc if l not in pc0]
    # eqs: (a, b) known equal on this exit
    eqs = []
    for l in ls:
        if l.op == 'eqv': eqs.append((l.args[0], l.args[1]))
    for lf in unsolved:
        if k in lf.post.fs: return False
        okk = False
        for a, b in eqs:
            for p, q in ((a, b), (b, a)):
                if same(q, lf.val) and same(p, lf.post): okk = True
        if not okk:
            if lf.kind == 'gen' and any(l.op in ('feq0', 'eq0') and (same(l.args[0], sub(lf.post, lf.val)) or same(l.args[0], sub(lf.val, lf.post))) for l in ls): okk = True
        if not okk: return False
    for (l, p), lf in leaves.items():
        e = subst(get(s[l], p), ren)
        if lf in unsolved or lf in alias:
            a = alias.get(lf, lf)
            if not (same(e, a.post) or same(e, a.val)): return False
        else:
            if S0[l].op == 'st' and S0[l].args[0] in (IT, 'core::ops::range::Range'): continue
            if k in e.fs or not lf.sol: return False
            if lf.post is not None and k in lf.post.fs: return False
    return True

def depends(unsolved):
    """unsolved recurrences each one depends on, including itself"""
    deps = {lf: {u for u in unsolved if u.mu in lf.post.fs} | {lf} for lf in unsolved}
    ch = True
    while ch:
        ch = False
        for lf in unsolved:
            new = set().union(*[deps[d] for d in deps[lf]])
            if new != deps[lf]: deps[lf] = new; ch = True
    return deps
def aliases(unsolved):
    """recurrences that always agree with another one"""
    alias = {}; ren = {}
    for i, b in enumerate(unsolved):
        for a in unsolved[:i]:
            if a in alias or a.init is not b.init or a.kind != b.kind: continue
            if subst(a.post, {b.mu: a.mu}) is subst(b.post, {b.mu: a.mu}):
                alias[b] = a; ren[b.mu] = a.mu; break
    return alias, ren
def stage(leaves, k):
    """recurrences that others build on, but that depend on themselves only, become folds"""
    unsolved = [lf for lf in leaves.values() if lf.sol is None]
    deps = depends(unsolved)
    alias, _ = aliases(unsolved)
    for lf in unsolved:
        grp = [u for u in unsolved if u in deps[lf]]
        if any(alias.get(o, o) is lf or alias.get(lf, lf) is o for o in unsolved if o is not lf): continue
        if all(deps[u] == deps[lf] for u in grp) and any(lf in deps[o] and o not in grp for o in unsolved):
            accs = [u.mu for u in grp]; bodies = [u.post for u in grp]; inits = [u.init for u in grp]
            for idx, u in enumerate(grp): u.sol = lambda kk, idx=idx: fold(kk, accs, k, bodies, inits, idx)
            for u in grp: sub_solved(leaves, u, k)
            return True
    return False

def is_loc_ref(l): return True

def solval(lf, k): return lf.sol(k)

def sub_solved(leaves, lf, k):
    m = {lf.mu: lf.sol(k)}
    for o in leaves.values():
        if o.post is not None and lf.mu in o.post.fs: o.post = subst(o.post, m)

def leave(it, pc0, exits, fr):
    outs = []
    for kind, pc, s, v in exits:
        if kind == 'ret': fr.rets.append((pc, s, v))
        else: outs.append((pc, s, v))
    if not outs: raise Diverge()
    return it.join_exits(pc0, outs)

def give(it, S0, pc0, leaves, why, fr, exits):
    it.notes.append('loop in %s: %s' % (fr.key, why))
    for (l, p), lf in leaves.items():
        S0[l] = put(S0[l], p, unk(why))
    it.store = S0; it.pc = pc0
    # results leaving through return are unknown as well
    if any(x[0] == 'ret' for x in exits):
        c = unk(why, 'bool')
        fr.rets.append((pc0 + (c,), dict(S0), unk(why)))
        it.pc = pc0 + (not_(c),)
    return unk(why)

def shape_kept(it, lf, post, pc):
    if lf.kind == 'seq':
        n = length(post) if post.op in ('arr', 'concat', 'ite', 'slice', 'fold', 'fseq', 'bigcat') else None
        if n is None: return False
        n = simplify(n, pc)
        return n is length(lf.init) or it.decide_in(ieq(n, length(lf.init)), pc)
    if lf.kind == 'mat':
        if post.op not in ('mat', 'ite', 'fold'): return False
        a, b = simplify(nrows(post), pc), simplify(ncols(post), pc)
        return (a is nrows(lf.init) or it.decide_in(ieq(a, nrows(lf.init)), pc)) and (b is ncols(lf.init) or it.decide_in(ieq(b, ncols(lf.init)), pc))
    return True

# ---------------------------------------------------------------- trip count
def trip(it, exits, m, k, leaves, pc0):
    """(main exit, number of completed iterations)"""
    U = {lf.mu for lf in leaves.values() if lf.sol is None}
    for x in exits:
        kind, pc, s, v = x
        ls = [l for l in pc if l not in pc0]
        ls = [simplify(subst(l, m), pc0) for l in ls]
        ls = [y for l in ls for y in lits(l) if y is not TRUE]
        bound = None; okk = True
        for l in ls:
            if k not in l.fs:
                # a condition that never changes: only if it is implied
                okk = False; break
            r = linear_bound(it, l, k, U, pc0)
            if r is None: okk = False; break
            if bound is not None and bound is not r: okk = False; break
            bound = r
        if okk and bound is not None: return x, bound
    # a search bounded by another exit condition split over several literals
    return None

def linear_bound(it, l, k, U, pc0):
    """l(k) <=> k >= r (r free of k); returns max(r, 0)"""
    if any(u in l.fs for u in U): return None
    if l.op == 'ge0':
        p = l.args[0]
        d = P(p)
        ck = None
        for mo, c in d.items():
            if mo == ((k, Fr(1)),): ck = c
            elif any(k in a.fs for a, e in mo): return None
        if ck is None or ck <= 0: return None
        rest = mkpoly({mo: c for mo, c in d.items() if mo != ((k, Fr(1)),)})
        r = neg(rest)
        if ck != 1:
            if ck.denominator != 1: return None
            r = fdiv(add(r, num(ck - 1)), num(ck))
            return r if nonneg(r) else None
        return clamp0(it, r, pc0)
    if l.op == 'eq0':
        p = l.args[0]
        d = P(p)
        ck = d.get(((k, Fr(1)),))
        if ck is None or abs(ck) != 1: return None
        rest = mkpoly({mo: c for mo, c in d.items() if mo != ((k, Fr(1)),)})
        if k in rest.fs: return None
        r = scale(rest, Fr(-1) / ck)
        if entails_ge(pc0, r): return r
    return None
def clamp0(it, r, pc0):
    if nonneg(r): return r
    d = decide(ge0(r), pc0)
    if d is True: return r
    if d is False: return ZERO
    return ite(ge0(r), r, ZERO)

def hit(c, k):
    """the only k that satisfies c, if c says so"""
    for l in lits(c):
        if l.op == 'eq0':
            for x, e in solve_atoms(l.args[0]):
                if x is k and k not in e.fs and all(cc == int(cc) for cc in P(e).values()): return e
    return None

def early_exits(it, exits, k, n, mK, leaves, S0, pc0, final, fr):
    """searches: exits whose value and state do not depend on the iteration"""
    out = []
    for kind, pc, s, v in exits:
        c = and_(*[l for l in pc if l not in pc0 and l not in lits(lt(k, n))])
        c = subst(c, mK)
        v2 = subst(v, mK)
        if any(u in c.fs for u in [lf.mu for lf in leaves.values()]): return False
        if len(exits) > 1 and k in c.fs: return False   # which of them comes first is not known
        at_ = hit(c, k)
        if at_ is not None:
            # only one iteration can leave the loop here
            out.append((and_(ge0(at_), lt(at_, n), subst(c, {k: at_})), kind, {l: subst(x, {k: at_}) for l, x in ((l, subst(x, mK)) for l, x in s.items() if l in S0)}, subst(v2, {k: at_})))
            continue
        if k in v2.fs: return False
        s2 = {}
        for l, x in s.items():
            if l not in S0: continue
            y = subst(x, mK)
            if k in y.fs:
                # position of the iterator and temporaries may differ, nobody reads them afterwards
                if S0[l].op == 'st' and S0[l].args[0] in (IT, 'core::ops::range::Range'): y = unk('iterator after early exit')
                else: return False
            s2[l] = y
        cond = mk('app', 'exists', 'bool', mk('arr', n, lam_over(k, c))) if k in c.fs else and_(lt(ZERO, n), c)
        out.append((cond, kind, s2, v2))
    return out

# ---------------------------------------------------------------- recurrences
def nofree(t, U): return not any(u in t.fs for u in U)

def prev(lf, post, k):
    """X(0) = init, X(k) = post(k-1)"""
    return lambda kk: ite(ge0(sub(kk, ONE)), subst(post, {k: sub(kk, ONE)}), lf.init)

def solve(it, lf, k, U, pc):
    post, mu = lf.post, lf.mu
    if post is lf.val: return lambda kk: lf.init
    if lf.kind == 'gen': return solve_gen(it, lf, k, U, pc)
    others = U - {mu}
    if lf.kind == 'seq':
        j = fresh('j', 'nat')
        n = length(lf.init)
        E = simplify(at(post, j), pc + (lt(j, n),))
        own = lf.cell(j)
        if own.op == 'st':
            f = solve_struct(it, lf, E, own, j, k, U, pc + (lt(j, n),))
            if f is None: return None
            return lambda kk: mk('arr', n, lam_over(j, f(kk)))
        f = solve_elem(it, lf, E, (j,), lambda *ix: mk('sel', mu, *ix), lambda ix: at(lf.init, ix[0]), k, U, pc + (lt(j, n),))
        if f is None: return None
        return lambda kk: mk('arr', n, lam_over(j, f(kk)))
    i = fresh('i', 'nat'); j = fresh('j', 'nat')
    R, C = nrows(lf.init), ncols(lf.init)
    if lf.ety is not None:
        own = lf.cell(j)
        if own.op == 'st':
            E = simplify(mat_at(post, j, ZERO), pc + (lt(j, R),))
            f = solve_struct(it, lf, E, own, j, k, U, pc + (lt(j, R),), lambda ix: mat_at(lf.init, ix[0], ZERO))
            if f is None: return None
            return lambda kk: mk('mat', R, C, lam_over(j, lam_over(i, f(kk))))
    ii = ZERO if R is ONE else i
    jj = ZERO if C is ONE else j
    fct = pc + (lt(i, R), lt(j, C))
    E = simplify(mat_at(post, ii, jj), fct)
    f = solve_elem(it, lf, E, (ii, jj), lambda *ix: mk('msel', mu, *ix), lambda ix: mat_at(lf.init, *ix), k, U, fct)
    if f is None: return None
    def sol(kk):
        b = f(kk)
        return mk('mat', R, C, lam_over(i, lam_over(j, b)))
    return sol

def solve_gen(it, lf, k, U, pc):
    post, mu = lf.post, lf.mu
    if nofree(post, U): return prev(lf, post, k)
    if not nofree(post, U - {mu}): return None
    # appends
    r = appended(post, mu)
    if r is not None:
        side, s = r
        if nofree(s, U):
            if side == 'back': return lambda kk: concat(lf.init, bigcat_l(kk, lam_over(k, s)))
            return lambda kk: concat(bigcat(kk, lambda q: subst(s, {k: sub(sub(kk, ONE), q)})), lf.init)
    # removal at the ends
    if post.op == 'slice' and post.args[0] is mu:
        lo, hi = post.args[1], post.args[2]
        c0, c1 = const(lo), const(sub(mk('len', mu), hi))
        if c0 is not None and c1 is not None:
            L = length(lf.init)
            return lambda kk: seq_slice(lf.init, scale(kk, c0), sub(L, scale(kk, c1)))
    if not numericish(post): return None
    d = delta(post, mu)
    if d is not None and nofree(d, U):
        c = const(d)
        if c is not None: return lambda kk: add(lf.init, scale(kk, c))
        if k not in d.fs: return lambda kk: add(lf.init, mul(kk, d))
        return lambda kk: add(lf.init, sum_l(kk, lam_over(k, d)))
    # boolean accumulation
    if is_bool(post): 
        return None
    return None

def numericish(t):
    return t.op in ('poly', 'ite', 'sym', 'fn', 'sel', 'msel', 'fld', 'app') and not is_bool(t)

def delta(post, mu):
    """post - mu through conditionals, None if mu does not cancel"""
    if post.op == 'ite':
        if mu in post.args[0].fs: return None
        a, b = delta(post.args[1], mu), delta(post.args[2], mu)
        return None if a is None or b is None else ite(post.args[0], a, b)
    d = sub(post, mu)
    if mu in d.fs:
        # mu inside one conditional summand
        for mo, c in P(d).items():
            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'ite' and mu in mo[0][0].fs:
                t = mo[0][0]
                if mu in t.args[0].fs: return None
                rest = sub(post, scale(t, c))
                a, b = delta(add(rest, scale(t.args[1], c)), mu), delta(add(rest, scale(t.args[2], c)), mu)
                return None if a is None or b is None else ite(t.args[0], a, b)
        return None
    return d

def appended(post, mu):
    if post is mu: return 'back', EMPTY
    if post.op == 'concat':
        if post.args[0][0] is mu and all(mu not in x.fs for x in post.args[0][1:]): return 'back', concat(*post.args[0][1:])
        if post.args[0][-1] is mu and all(mu not in x.fs for x in post.args[0][:-1]): return 'front', concat(*post.args[0][:-1])
        return None
    if post.op == 'ite':
        if mu in post.args[0].fs: return None
        a, b = appended(post.args[1], mu), appended(post.args[2], mu)
        if a is None or b is None: return None
        sides = {x[0] for x in (a, b) if x[1] is not EMPTY}
        if len(sides) > 1: return None
        return (sides.pop() if sides else 'back'), ite(post.args[0], a[1], b[1])
    return None

def solve_struct(it, lf, E, own, j, k, U, pc, init=None):
    """elements that are structures: every component is a recurrence of its own"""
    init = init or (lambda ix: at(lf.init, ix[0]))
    fs = []
    for i, o in enumerate(own.args[2:]):
        sort = o.args[2] if o.op == 'fld' else 'any'
        Ei = simplify(fld(E, i, sort), pc)
        ini = lambda ix, i=i, sort=sort: fld(init(ix), i, sort)
        f = solve_elem(it, lf, Ei, (j,), None, ini, k, U, pc, own=o, whole=init)
        if f is None: return None
        fs.append(f)
    return lambda kk: st(own.args[0], own.args[1], *[f(kk) for f in fs])

def solve_elem(it, lf, E, ix, cell, init, k, U, pc, own=None, whole=None):
    """element recurrence E(ix) of an array or matrix"""
    mu = lf.mu
    if own is None: own = cell(*ix)
    whole = whole or init
    if E is own: return lambda kk: init(ix)
    if nofree(E, U): 
        return lambda kk: ite(ge0(sub(kk, ONE)), subst(E, {k: sub(kk, ONE)}), init(ix))
    if not nofree(E, U - {mu}): return None
    # additive: E = own + d
    d = delta_cell(E, own)
    if d is not None and nofree(d, U):
        return lambda kk: add(init(ix), sum_l(kk, lam_over(k, d)))
    # E = ite(hit, w, own), hit pins one index to an injective function of k
    r = hit_write(E, own)
    if r is not None:
        c, w = r
        for q, l in [(q, l) for l in lits(c) for q in ix if q is not ZERO and l.op == 'eq0' and q in l.fs]:
            for z, e in solve_atoms(l.args[0]):
                if z is k and mu not in e.fs and k not in e.fs:
                    # k = e(q) : iteration e writes this cell
                    sl = q_slope(l.args[0], q, k)
                    if sl is None: continue
                    rest = and_(*[o for o in lits(c) if o is not l])
                    if mu in rest.fs: continue
                    # own old value is still the initial one
                    w2 = replace_cell(w, mu, ix, lits(c), whole, pc)
                    if w2 is None or not nofree(w2, U): continue
                    wk = subst(w2, {k: e}); ck = subst(rest, {k: e})
                    return lambda kk: ite(and_(ge0(e), lt(e, kk), ck), wk, init(ix))
    # scatter: E = ite(idx == q, own-like cell + d, own) handled by delta_cell; overwrites with data-dependent index stay folds
    return None

def q_slope(p, q, k):
    d = P(p)
    a, b = d.get(((q, Fr(1)),)), d.get(((k, Fr(1)),))
    if a is None or b is None or abs(a) != abs(b): return None
    return -Fr(a) / b

def replace_cell(w, mu, ix, l, init, pc):
    """reads of the written cell inside w are its initial value"""
    if mu not in w.fs: return w
    # cells of mu occurring in w
    cells = set()
    def walk(t, seen):
        if t in seen or mu not in t.fs: return True
        seen.add(t)
        if t.op in ('sel', 'msel') and t.args[0] is mu:
            cells.add(t); return all(walk(x, seen) for x in t.args[1:])
        if t.op == 'lam': return False
        if t is mu: return False
        return all(walk(x, seen) for x in TM._kids(t.op, t.args))
    if not walk(w, set()): return None
    m = {}
    for c in cells:
        idx = c.args[1:]
        same = True
        for a, b in zip(idx, ix):
            if a is b: continue
            if decide(ieq(a, b), tuple(pc) + tuple(l)) is not True: same = False
        if not same: return None
        m[c] = init(ix)
    return subst(w, m)

def hit_write(E, own):
    """E = ite(c, w, own)"""
    if E.op != 'ite': return None
    def hit(t):
        if t is own: return FALSE, None
        if t.op != 'ite': return TRUE, t
        c, a, b = t.args
        (ca, wa), (cb, wb) = hit(a), hit(b)
        if ca is FALSE and cb is FALSE: return FALSE, None
        cc = ca if ca is cb else bite(c, ca, cb)
        return cc, wb if ca is FALSE else wa if cb is FALSE else ite(c, wa, wb)
    c, w = hit(E)
    return None if c in (TRUE, FALSE) else (c, w)

def delta_cell(E, own):
    """E - own through conditionals; reads of the own cell under an index equation count as own"""
    if E.op == 'ite':
        c, a, b = E.args
        a2 = norm_cell(a, own, lits(c)); b2 = norm_cell(b, own, lits(not_(c)))
        x, y = delta_cell(a2, own), delta_cell(b2, own)
        return None if x is None or y is None else ite(c, x, y)
    d = sub(E, own)
    if own in [a for mo, c in P(d).items() for a, e in mo]: return None
    return d
def norm_cell(t, own, facts):
    """rewrite reads of cells that are the own cell under the facts"""
    base = own.args[0] if own.op == 'fld' else own
    if base.op not in ('sel', 'msel'): return t
    mu = base.args[0]
    m = {}
    def walk(x, seen):
        if x in seen or mu not in x.fs: return
        seen.add(x)
        if x.op == base.op and x.args[0] is mu and x is not base:
            if all(a is b or decide(ieq(a, b), tuple(facts)) is True for a, b in zip(x.args[1:], base.args[1:])): m[x] = base
        if x.op == 'lam': return
        for y in TM._kids(x.op, x.args): walk(y, seen)
    walk(t, set())
    return subst(t, m) if m else t
