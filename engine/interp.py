"""Abstract interpreter over the dumped type-checked program (THIR).

It computes a gated value graph: every expression is mapped to a term (terms.py), states are
joined at control-flow merges with gating conditions, and loops are summarised by solving the
recurrences of the locations they modify (loops.py).  Nothing is executed and no path is enumerated
to a solver: a function is walked once per (partitioned) abstract input."""
import json, os, sys
from terms import *
import terms as TM
from theory import decide, lits, inconsistent, simplify, entails_ge

class Diverge(Exception): pass
class Give(Exception):
    """the analysis cannot represent a construct"""

UNKS = TM.UNKS
def unk(why, sort='any'):
    t = fresh('?unk', sort)
    UNKS[t] = why
    return t
def is_unk(t): return t in UNKS
_hu = {}
def has_unk(t):
    if not t.fs and t.op not in ('mref',): pass
    return any(x in UNKS for x in t.fs)

PARITY = {'f': 2, 'i': 1, 'm': 2, 'l': 1, 'sub': 2, 'col': 1, 'row': 1}

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.crate = d['crate']
        self.types = d['types']; self.defs = d['defs']
        self.keys = [x['key'] for x in d['defs']]
        self.body = {}; self.bykey = {}
        for b in d['bodies']:
            self.body[b['def']] = b
            self.bykey[self.keys[b['def']]] = b
        self.item = {}
        for it in d['items']:
            self.item[self.keys[it['def']]] = it
        self.adt = {a['path']: a for a in d['adts']}
        for a in d['adts']:
            if a['kind'] in ('Enum', 'Struct'): TM.NVARIANTS[a['path']] = len(a['variants'])
        self.impls = d['impls']
        self.defkey = {k: i for i, k in enumerate(self.keys)}
        self._tmemo = {}

    def key(self, i): return self.keys[i]

    # ---- types
    def rt(self, i, env=None):
        """resolved type"""
        t = self.types[i]; k = t['k']
        if k in ('int', 'uint', 'float'): return (k, t['name'])
        if k == 'param':
            if env and t['name'] in env: return env[t['name']]
            return ('param', t['name'])
        if k == 'adt': return ('adt', t['path'], tuple(self.rt(a, env) for a in t['args']))
        if k == 'ref': return ('ref', t['mut'], self.rt(t['t'], env))
        if k == 'ptr': return ('ptr', t['mut'], self.rt(t['t'], env))
        if k == 'slice': return ('slice', self.rt(t['t'], env))
        if k == 'array': return ('array', self.rt(t['t'], env), t['len'])
        if k == 'tuple': return ('tuple', tuple(self.rt(a, env) for a in t['ts']))
        if k == 'alias':
            if 'norm' in t: return self.rt(t['norm'], env)
            return ('alias', t['s'], tuple(self.rt(a, env) for a in t['args']))
        if k == 'dyn': return ('dyn', t['s'])
        if k == 'fn': return ('fn', i, env_key(env))
        if k == 'closure': return ('closure', t['def'])
        return (k,)

    def strip(self, ty):
        while ty[0] in ('ref', 'ptr') or (ty[0] == 'adt' and ty[1] in BOXES):
            ty = ty[2] if ty[0] in ('ref', 'ptr') else ty[2][0]
        return ty

    def sort(self, ty):
        ty = self.strip(ty)
        k = ty[0]
        if k == 'bool': return 'bool'
        if k == 'uint': return 'nat'
        if k == 'int': return 'int'
        if k == 'float': return 'real'
        if k in ('slice', 'array'): return 'seq:' + self.sort(ty[1])
        if k == 'adt':
            if ty[1] in SEQS: return 'seq:' + self.sort(ty[2][0])
            if ty[1] == 'nalgebra::base::matrix::Matrix': return 'mat'
            if ty[1] in TRANSPARENT: return self.sort(ty[2][0])
        return 'any'

    def shape(self, t, ty):
        """expand an opaque term of struct type into its fields"""
        ty0 = self.strip(ty)
        if ty0[0] == 'adt' and ty0[1] in self.adt and t.op != 'st':
            a = self.adt[ty0[1]]
            if len(a['variants']) == 1 and a['kind'] == 'Struct':
                env = dict(zip(a['generics'], ty0[2]))
                fs = []
                for i, (n, ft) in enumerate(a['variants'][0]['fields']):
                    fty = self.rt(ft, env)
                    fs.append(self.shape(fld(t, i, self.sort(fty)), fty))
                return st(ty0[1], 0, *fs)
        if ty0[0] == 'tuple' and t.op != 'st':
            return tup(*[self.shape(fld(t, i, self.sort(x)), x) for i, x in enumerate(ty0[1])])
        return self.dims(t, ty0)
    def dims(self, t, ty0):
        """static dimensions of matrices"""
        if ty0[0] == 'adt' and ty0[1] == 'nalgebra::base::matrix::Matrix' and t.op in ('sym', 'app', 'fld', 'sel'):
            if is_vec_ty(ty0):
                return vecm(nrows(t), lambda i: mk('msel', t, i, ZERO))
        return t
    def symval(self, name, ty, sort=None):
        """fresh symbolic value of a type"""
        ty0 = self.strip(ty)
        if ty0[0] == 'adt' and ty0[1] in self.adt:
            a = self.adt[ty0[1]]
            if len(a['variants']) == 1 and a['kind'] == 'Struct':
                env = dict(zip(a['generics'], ty0[2]))
                return st(ty0[1], 0, *[self.symval(name + '.' + n, self.rt(ft, env)) for n, ft in a['variants'][0]['fields']])
        if ty0[0] == 'tuple':
            return tup(*[self.symval('%s.%d' % (name, i), x) for i, x in enumerate(ty0[1])])
        return self.dims(sym(name, sort or self.sort(ty)), ty0)

    def nonfreeze(self, ty, depth=0):
        k = ty[0]
        if k == 'adt':
            if ty[1] in NONFREEZE: return True
            if ty[1] in ('alloc::sync::Arc', 'alloc::rcs::arc::Arc', 'alloc::rc::Rc'): return False
            if ty[1] in self.adt and depth < 6:
                a = self.adt[ty[1]]
                env = dict(zip(a['generics'], ty[2]))
                return any(self.nonfreeze(self.rt(ft, env), depth + 1) for v in a['variants'] for n, ft in v['fields'])
            return any(self.nonfreeze(x, depth + 1) for x in ty[2]) if depth < 6 and ty[1] in BOXES | SEQS | {OPT} else False
        if k in ('slice', 'array'): return self.nonfreeze(ty[1], depth + 1)
        if k == 'tuple': return any(self.nonfreeze(x, depth + 1) for x in ty[1])
        return False

    # ---- trait resolution
    def find_impl(self, trait, selfty, targs=None):
        """local impl of trait for a type; returns (impl, generic bindings)"""
        for im in self.impls:
            if im['trait'] != trait: continue
            b = {}
            pats = [self.rt(x) for x in im['targs']]
            if not self.unify(pats[0], selfty, b): continue
            if targs is not None and len(pats) > 1:
                if not all(self.unify(p, a, b) for p, a in zip(pats[1:], targs)): continue
            return im, b
        return None
    def unify(self, p, t, b):
        if p[0] == 'param':
            if p[1] in b: return b[p[1]] == t
            b[p[1]] = t; return True
        if p[0] != t[0]: return t[0] in ('alias', 'param') and False
        if p[0] in ('int', 'uint', 'float'): return p == t or t[1] == 'S' and False
        if p[0] == 'adt':
            return p[1] == t[1] and len(p[2]) == len(t[2]) and all(self.unify(x, y, b) for x, y in zip(p[2], t[2]))
        if p[0] == 'ref': return p[1] == t[1] and self.unify(p[2], t[2], b)
        if p[0] == 'slice': return self.unify(p[1], t[1], b)
        if p[0] == 'tuple': return len(p[1]) == len(t[1]) and all(self.unify(x, y, b) for x, y in zip(p[1], t[1]))
        return p == t

def env_key(env): return tuple(sorted(env.items())) if env else ()

BOXES = {'alloc::boxed::Box', 'core::mem::manually_drop::ManuallyDrop', 'core::pin::Pin'}
SEQS = {'alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'}
TRANSPARENT = {'std::sync::poison::mutex::Mutex', 'std::sync::poison::rwlock::RwLock', 'core::cell::Cell', 'core::cell::RefCell', 'core::mem::maybe_uninit::MaybeUninit'}
NONFREEZE = {'std::sync::poison::mutex::Mutex', 'core::cell::Cell', 'core::cell::RefCell', 'core::cell::UnsafeCell', 'core::sync::atomic::Atomic',
             'core::sync::atomic::AtomicUsize', 'std::sync::poison::rwlock::RwLock', 'lazy_static::lazy::Lazy', 'std::sync::once_lock::OnceLock', 'std::sync::lazy_lock::LazyLock', 'core::cell::once::OnceCell', 'core::cell::lazy::LazyCell'}
def is_vec_ty(ty):
    """matrix type with a single column"""
    if len(ty[2]) < 3: return False
    c = ty[2][2]
    return c[0] == 'adt' and c[1].endswith('Const')

class Frame:
    __slots__ = ('body', 'env', 'vars', 'rets', 'labels', 'key', 'clo', 'caps')
    def __init__(self, body, env, key):
        self.body = body; self.env = env; self.vars = {}; self.rets = []; self.labels = {}; self.key = key
        self.clo = None; self.caps = None

class V:
    """a value that is not stored anywhere (temporary or snapshot)"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
class Place:
    __slots__ = ('loc', 'path')
    def __init__(self, loc, path=()): self.loc = loc; self.path = tuple(path)

class Interp:
    def __init__(self, prog, summaries=None):
        self.finite = False        # real numbers are finite (no not-a-number or infinity)
        self.split = 0             # how parallel iterators are split (small sequences)
        self.unroll = 0            # iterations up to which loops are walked one by one
        self.unfold = 3            # depth to which recursive calls of different instances are walked
        self.p = prog
        self.store = {}
        self.pc = ()
        self.panics = []
        self.stack = []
        self.summaries = summaries or {}
        self.events = []
        self.notes = []
        self.visited = {}
        self.sites = 0
        self._nloc = 0
        self.objty = {}
        self.in_loop = 0
        self.filters = None
        self.locty = {}
        self.loop0 = {}
        self.on_lock = None
        self.dead = set()          # shared objects without owners
        self.inv = None            # invariant inference instead of closed forms
        self.on_write = None

    # ---------------------------------------------------------------- store
    def new(self, val):
        self._nloc += 1
        l = self._nloc
        self.store[l] = val
        return l
    def root(self, loc):
        v = self.store.get(loc)
        if v is None:
            v = self.lazy(loc)
            self.store[loc] = v
        return v
    def lazy(self, loc):
        if isinstance(loc, tuple) and loc[0] == 'obj':
            ty = self.objty.get(loc)
            base = mk('app', 'obj', 'any', loc[1])
            return self.p.shape(base, ty) if ty else base
        if isinstance(loc, tuple) and loc[0] == 'static':
            return sym('static:' + loc[1], 'any')
        raise Give('uninitialised location %r' % (loc,))
    def get_path(self, v, path):
        i = 0
        while i < len(path):
            k = path[i]
            a = path[i + 1:i + 1 + PARITY[k]]
            i += 1 + PARITY[k]
            v = self.proj(v, k, a)
        return v
    def proj(self, v, k, a):
        if is_unk(v): return unk(UNKS[v])
        if k == 'f': return fld(v, a[0], self.fsort(v, a[0], a[1]), a[1])
        if k == 'i': return at(v, a[0])
        if k == 'm': return mat_at(v, a[0], a[1])
        if k == 'l': return mat_lin(v, a[0])
        if k == 'sub': return seq_slice(v, a[0], a[1])
        if k == 'col': return mat(nrows(v), ONE, lambda i, j: mat_at(v, i, a[0]))
        if k == 'row': return mat(ONE, ncols(v), lambda i, j: mat_at(v, a[0], j))
        raise Give('projection ' + k)
    def fsort(self, v, i, var):
        return getattr(self, '_fsort', None) or 'any'
    def set_path(self, v, path, val):
        if not path: return val
        k = path[0]; n = 1 + PARITY[k]
        a = path[1:n]; rest = path[n:]
        if v is None: v = unk('uninitialised')
        inner = self.set_path(self.proj(v, k, a), rest, val) if rest else val
        if k == 'f':
            if v.op == 'ite': return ite(v.args[0], self.set_path(v.args[1], path, val), self.set_path(v.args[2], path, val))
            if v.op != 'st': return unk('partial update of an opaque value')
            fs = list(v.args); fs[2 + a[0]] = inner
            return mk('st', *fs)
        if k == 'i': return upd(v, a[0], inner)
        if k == 'm': return mat_upd(v, a[0], a[1], inner)
        if k == 'l': return mat_lin_upd(v, a[0], inner)
        if k == 'sub':
            lo, hi = a
            return arr(length(v), lambda j: ite(and_(le(lo, j), lt(j, hi)), at(inner, sub(j, lo)), at(v, j)))
        if k == 'col':
            return mat(nrows(v), ncols(v), lambda i, j: ite(ieq(j, a[0]), mat_at(inner, i, ZERO), mat_at(v, i, j)))
        if k == 'row':
            return mat(nrows(v), ncols(v), lambda i, j: ite(ieq(i, a[0]), mat_at(inner, ZERO, j), mat_at(v, i, j)))
        raise Give('update ' + k)
    def read(self, pl):
        if isinstance(pl, V): return pl.t
        return self.get_path(self.root(pl.loc), pl.path)
    def write(self, pl, val):
        if isinstance(pl, V):
            t = pl.t
            raise Give('write to a temporary')
        if pl.loc == 'multi':
            for c, p in pl.path:
                old = self.read(p)
                self.write(p, ite(c, val, old))
            return
        if not pl.path: self.store[pl.loc] = val
        else: self.store[pl.loc] = self.set_path(self.root(pl.loc), pl.path, val)
        if self.on_write is not None: self.on_write(self, val)
    def mref(self, pl): return mk('mref', pl.loc, pl.path)
    def deref(self, v):
        """place a reference value points to"""
        if v.op == 'mref': return Place(v.args[0], v.args[1])
        if v.op == 'arc': return Place(v.args[0])
        if v.op == 'ite' and self.has_ref(v):
            # join of references: conditional place
            c = v.args[0]
            ps = []
            for cond, w in ((c, v.args[1]), (not_(c), v.args[2])):
                ps.append((cond, self.deref(w)))
            return Multi(ps)
        return V(v)
    def has_ref(self, v):
        return v.op in ('mref', 'arc') or (v.op == 'ite' and (self.has_ref(v.args[1]) or self.has_ref(v.args[2])))
    def val(self, v):
        """look through references"""
        n = 0
        while v.op in ('mref', 'arc') or (v.op == 'ite' and self.has_ref(v)):
            v = self.read(self.deref(v)); n += 1
            if n > 20: raise Give('reference cycle')
        return v

    def slot(self, v):
        """place of a &mut argument; a detached temporary if it is a plain value"""
        p = self.deref(v)
        if isinstance(p, V): p = Place(self.new(v))
        return p

    # ---------------------------------------------------------------- control
    def decide(self, c):
        if c is TRUE or c is FALSE: return c is TRUE
        return decide(c, self.pc)
    def decide_in(self, c, pc): return c is TRUE or (c is not FALSE and decide(c, pc) is True)
    def simp(self, t): return simplify(t, self.pc)
    def assume(self, c):
        self.pc = self.pc + tuple(x for x in lits(c) if x not in self.pc)
    def panic(self, why, sp=''):
        self.panics.append((self.pc, why, self.stack[-1].key if self.stack else '', sp))
        raise Diverge()
    def may_panic(self, ok, why, sp=''):
        """the statement panics unless ok"""
        d = self.decide(ok)
        if d is True: return
        if d is False: self.panic(why, sp)
        self.panics.append((self.pc + lits(not_(ok)), why, self.stack[-1].key if self.stack else '', sp))
        self.assume(ok)

    def branch(self, alts, exhaustive=True):
        """alts: [(cond, thunk)], evaluated in order (if / else if ...)"""
        base_pc, base = self.pc, self.store
        outs = []
        neg = ()
        for n, (c, th) in enumerate(alts):
            c = simplify(c, base_pc + neg) if c not in (TRUE, FALSE) else c
            d = True if c is TRUE else False if c is FALSE else decide(c, base_pc + neg)
            if d is None and self.inv is not None: d = self.inv.settle(base_pc + neg, c)
            if d is False: continue
            if d is None and inconsistent_q(base_pc + neg + lits(c)): continue
            self.pc = base_pc + neg + (() if d else tuple(x for x in lits(c) if x not in base_pc))
            self.store = dict(base)
            try:
                v = th()
                outs.append((c if not d else TRUE, self.store, v, self.pc))
            except Diverge:
                pass
            if d is True: break
            neg = neg + lits(not_(c))
        if not outs:
            self.pc, self.store = base_pc, base
            raise Diverge()
        return self.join(base_pc, outs)

    def join(self, base_pc, outs):
        if len(outs) == 1:
            _, self.store, v, self.pc = outs[0]
            return v
        c, s, v, pc = outs[-1]
        s = dict(s); common = set(pc)
        for c1, s1, v1, pc1 in reversed(outs[:-1]):
            common &= set(pc1)
            r = {}
            for l in set(s) | set(s1):
                a, b = s1.get(l), s.get(l)
                if a is None: r[l] = b if not self.lazyloc(l) else ite(c1, self.lazy(l), b)
                elif b is None: r[l] = a if not self.lazyloc(l) else ite(c1, a, self.lazy(l))
                else: r[l] = a if a is b else self.inv.purify(ite(c1, a, b)) if self.inv is not None else ite(c1, a, b)
            s = r
            v = v1 if v1 is v else (ite(c1, v1, v) if v is not None and v1 is not None else v or v1)
        self.store = s
        self.pc = tuple(x for x in outs[0][3] if x in common)
        if self.pc[:len(base_pc)] != base_pc:
            self.pc = base_pc + tuple(x for x in self.pc if x not in base_pc)
        return v
    def lazyloc(self, l): return isinstance(l, tuple) and l[0] in ('obj', 'static')

    def join_exits(self, base_pc, exits):
        """mutually exclusive exits (pc, store, value)"""
        if not exits: raise Diverge()
        if len(exits) == 1:
            self.pc, self.store = exits[0][0], exits[0][1]
            return exits[0][2]
        bs = set(base_pc)
        outs = []
        for pc, s, v in exits:
            outs.append((and_(*[l for l in pc if l not in bs]), s, v, pc))
        return self.join(base_pc, outs)

    # ---------------------------------------------------------------- calls
    def call_body(self, body, args, env, clo=None, caps=None):
        key = self.p.key(body['def'])
        if len(self.stack) > 60: raise Give('call depth at ' + key)
        self.visited[key] = self.visited.get(key, 0) + 1
        fr = Frame(body, env, key)
        fr.clo = clo; fr.caps = caps
        self.stack.append(fr)
        base_pc = self.pc
        try:
            ps = body['params']
            if body['kind'] == 'Closure': ps = ps[1:]
            for p, a in zip(ps, args):
                if p['pat'] is not None: self.bind(p['pat'], V(a), fr)
            try:
                v = self.ev(body['value'], fr)
                fr.rets.append((self.pc, self.store, v))
            except Diverge:
                pass
            return self.join_exits(base_pc, fr.rets)
        finally:
            self.stack.pop()

    def call_closure(self, f, args):
        """f: closure value or mref to one; args: list of terms"""
        pl = None
        if f.op in ('mref', 'arc'):
            pl = self.deref(f); c = self.read(pl)
            while c.op in ('mref', 'arc'):
                pl = self.deref(c); c = self.read(pl)
        else: c = f
        if c.op == 'st' and isinstance(c.args[0], str) and c.args[0].startswith('clo:'):
            d = int(c.args[0][4:].split('/')[0])
            body = self.p.body[d]
            if pl is None: pl = Place(self.new(c))
            caps, env = CLOS[c.args[0]]
            return self.call_body(body, args, env, clo=pl, caps=caps)
        if c.op == 'fnitem':
            return self.call_fn(FNS[c.args[0]][0], FNS[c.args[0]][1], args, '')
        if c.op == 'ctor':
            return st(c.args[0], c.args[1], *args)
        if c.op in ('pyfn',):
            return PYFNS[c.args[0]](self, *args)
        if c.op == 'ite':
            return self.branch([(c.args[0], lambda: self.call_closure(c.args[1], args)), (TRUE, lambda: self.call_closure(c.args[2], args))])
        if is_unk(c): return unk('call of unknown function')
        # opaque function value: an uninterpreted, pure function of its arguments
        return mk('app', 'call', 'any', c, *[self.val(a) for a in args])

    def fn_ty(self, e):
        while e['k'] in ('scope',): e = e['e']
        return e

    def call_fn(self, t, env, args, sp, rty=None):
        """t: fn type entry"""
        p = self.p
        self.sites += 1
        d = p.defs[t['def']]
        targs = [p.rt(a, env) for a in t['args']]
        key = d['key']
        cand = None
        if d.get('trait', '').startswith('core::ops::function::Fn') and len(args) == 2:
            return self.call_closure(args[0], list(self.val(args[1]).args[2:]))
        if 'rdef' in t:
            rk = p.key(t['rdef'])
            cand = (t['rdef'], [p.rt(a, env) for a in t['rargs']])
        if 'trait' in d:
            if cand is None or t['rdef'] not in p.body:
                r = self.resolve(d, targs, args)
                if r is not None:
                    return self.invoke(r[0], r[1], args, sp, key, targs, rty)
        if cand is not None and cand[0] in p.body:
            b = p.body[cand[0]]
            return self.invoke(b, self.bind_generics(b, cand[1]), args, sp, key, targs, rty)
        if t['def'] in p.body and 'trait' not in d:
            b = p.body[t['def']]
            return self.invoke(b, self.bind_generics(b, targs), args, sp, key, targs, rty)
        if t['def'] in p.body and 'trait' in d:
            # provided method of a trait on an opaque receiver
            b = p.body[t['def']]
            return self.invoke(b, self.bind_generics(b, targs), args, sp, key, targs, rty)
        rkey = p.key(t['rdef']) if 'rdef' in t else None
        s = self.summaries.get(key)
        if s is not None:
            r = s(self, key, env, args)
            if r is not NotImplemented: return r
        import lib
        return lib.call(self, key, rkey, targs, args, rty, sp)

    def bind_generics(self, b, targs):
        names = b['generics']
        return {n: t for n, t in zip(names, targs) if n}

    def resolve(self, d, targs, args):
        """local impl method for a trait call, by type or by the shape of the receiver"""
        p = self.p
        name, trait = d['name'], d['trait']
        selfty = targs[0]
        hit = p.find_impl(trait, selfty, targs[1:])
        if hit is None:
            st0 = selfty
            while st0[0] == 'ref' or (st0[0] == 'adt' and st0[1] in BOXES):
                st0 = st0[2] if st0[0] == 'ref' else st0[2][0]
                hit = p.find_impl(trait, st0, targs[1:]) if trait.startswith(p.crate) else None
                if hit: break
        if hit is None and args and trait.startswith(p.crate):
            v = self.val(args[0])
            if v.op == 'ite' and self.heads(v): return self.multi_resolve(d, targs, args, v)
            if v.op == 'st' and v.args[0] in p.adt:
                a = p.adt[v.args[0]]
                for im in p.impls:
                    if im['trait'] != trait: continue
                    h = p.rt(im['targs'][0])
                    if h[0] == 'adt' and h[1] == v.args[0]:
                        hit = (im, {}); break
        if hit is None: return None
        im, b = hit
        for n, di in im['items']:
            if n == name and di in p.body:
                body = p.body[di]
                env = dict(b)
                own = [g for g in body['generics'] if g not in env]
                rest = targs[-len(own):] if own and len(targs) > 1 else []
                env.update(zip(own, rest))
                return body, env
        # provided method of a local trait, Self = the implementing type
        di = p.defkey.get(trait + '::' + name)
        if di in p.body:
            body = p.body[di]
            return body, self.bind_generics(body, [selfty] + targs[1:])
        return None
    def heads(self, v): return False
    def multi_resolve(self, d, targs, args, v): return None

    def invoke(self, body, env, args, sp, key, targs, rty=None):
        bk = self.p.key(body['def'])
        for k in (bk, key):
            s = self.summaries.get(k)
            if s is not None:
                r = s(self, bk, env, args)
                if r is not NotImplemented: return r
        depth = sum(1 for f in self.stack if f.key == bk)
        if depth > self.unfold or (self.unfold == 3 and any(f.key == bk and (f.env == env or env_key(f.env) == env_key(env)) for f in self.stack)):
            it = self.p.item.get(bk)
            ty = self.p.rt(it['output'], env) if it else None
            r = mk('app', 'rec:' + bk, self.p.sort(ty) if ty else 'any', *[self.val(a) for a in args])
            if any(self.mutable_arg(a) for a in args): raise Give('recursive call with mutable argument: ' + bk)
            return r
        return self.call_body(body, args, env)
    def mutable_arg(self, a): return a.op == 'mref'

    def opaque_call(self, key, args, rty):
        """uninterpreted pure function"""
        vs = [self.val(a) for a in args]
        s = self.p.sort(rty) if rty else 'any'
        t = mk('app', key, s, *vs)
        return self.p.shape(t, rty) if rty else t

    # ---------------------------------------------------------------- types of expressions
    def ety(self, e, fr):
        while e is not None and 'ty' not in e:
            if e['k'] == 'scope': e = e['e']
            else: return None
        return self.p.rt(e['ty'], fr.env) if e else None

    # ---------------------------------------------------------------- places
    def place(self, e, fr):
        k = e['k']
        if k == 'scope': return self.place(e['e'], fr)
        if k == 'var':
            l = fr.vars.get(e['v'])
            if l is None: raise Give('variable without location')
            if isinstance(l, (Place, V)): return l
            return Place(l)
        if k == 'upvar': return self.upvar(e, fr)
        if k == 'field':
            b = self.place(e['e'], fr)
            bt = self.ety(e['e'], fr)
            v0 = None
            if isinstance(b, V):
                if b.t.op in ('mref', 'arc'): b = self.deref(b.t)
            if isinstance(b, V):
                return V(fld(b.t, e['i'], self.p.sort(self.ety(e, fr)), e.get('v') or 0) if not is_unk(b.t) else unk(UNKS[b.t]))
            return self.sub_place(b, 'f', e['i'], e.get('v') or 0)
        if k == 'deref':
            x = e['e']
            while x['k'] == 'scope': x = x['e']
            if x['k'] == 'static': return Place(('static', self.p.key(x['def'])))
            ty = self.ety(e['e'], fr)
            if ty and ty[0] == 'adt' and ty[1] in BOXES:
                b = self.place(e['e'], fr)
                if isinstance(b, Place):
                    v = self.read(b)
                    if v.op in ('mref', 'arc'): return self.deref(v)
                return b
            v = self.ev(e['e'], fr)
            if v.op == 'arc' and ty and ty[0] == 'ref' and ty[2][0] == 'adt':
                import lib
                if ty[2][1] in lib.ARCS: return V(v)
            return self.deref(v)
        if k == 'index':
            b = self.place(e['e'], fr)
            i = self.val(self.ev(e['i'], fr))
            if isinstance(b, V) and b.t.op in ('mref', 'arc'): b = self.deref(b.t)
            s = self.read(b)
            if not is_unk(s): self.may_panic(lt(i, length(s)), 'index out of bounds', e.get('sp', ''))
            if isinstance(b, V): return V(at(s, i) if not is_unk(s) else unk(UNKS[s]))
            return self.sub_place(b, 'i', i)
        if k == 'static':
            return Place(('static', self.p.key(e['def'])))
        if k == 'block' and not e['stmts'] and e['e'] is not None and False:
            return self.place(e['e'], fr)
        return V(self.ev(e, fr))
    def sub_place(self, b, *pr):
        if isinstance(b, Multi): return Multi([(c, self.sub_place(x, *pr)) for c, x in b.ps])
        if isinstance(b, V): return V(self.proj(b.t, pr[0], pr[1:]))
        return Place(b.loc, b.path + tuple(pr))
    def upvar(self, e, fr):
        i = fr.caps.get(e['v'])
        if i is None:
            # captured by an enclosing closure frame
            raise Give('unresolved capture')
        pl = Place(fr.clo.loc, fr.clo.path + ('f', i, 0)) if isinstance(fr.clo, Place) else self.sub_place(fr.clo, 'f', i, 0)
        v = self.read(pl)
        if v.op == 'capref': return Place(v.args[0], v.args[1])
        return pl

    # ---------------------------------------------------------------- patterns
    def test(self, p, pl, fr):
        """condition under which the pattern matches"""
        k = p['k']
        if k in ('wild', 'never'): return TRUE
        if k == 'bind': return self.test(p['sub'], pl, fr) if p.get('sub') else TRUE
        if k == 'deref': return self.test(p['sub'], self.pderef(pl), fr)
        if k == 'variant':
            v = self.read(self.through(pl)); v = self.val(v)
            if is_unk(v): return unk(UNKS[v], 'bool')
            c = isv(v, p['path'], p['v'])
            if c is FALSE: return FALSE
            return and_(c, *[self.test(q, self.pfield(pl, i, p['v'], q), fr) for i, q in p['fs']])
        if k == 'leaf':
            return and_(*[self.test(q, self.pfield(pl, i, 0, q), fr) for i, q in p['fs']])
        if k == 'const':
            v = self.val(self.read(self.through(pl)))
            s = p['v']
            ty = self.p.rt(p['ty'], fr.env)
            if s in ('true', 'false'): return v if s == 'true' else not_(v)
            c = parse_const(s)
            if c is None: return unk('constant pattern ' + s, 'bool')
            if ty[0] == 'float': return feq(v, num(c))
            return ieq(v, num(c))
        if k == 'or':
            return or_(*[self.test(q, pl, fr) for q in p['ps']])
        if k == 'range':
            v = self.val(self.read(self.through(pl)))
            s = p['v']
            try:
                inc = '..=' in s
                lo, hi = s.split('..=' if inc else '..')
                cs = []
                lo, hi = parse_const(lo.strip()), parse_const(hi.strip())
                if lo is not None: cs.append(le(num(lo), v))
                if hi is not None: cs.append(le(v, num(hi)) if inc else lt(v, num(hi)))
                return and_(*cs)
            except Exception:
                return unk('range pattern', 'bool')
        if k == 'slice':
            s = self.val(self.read(self.through(pl)))
            n = length(s)
            m = len(p['pre']) + len(p['suf'])
            c = le(num(m), n) if p['mid'] else ieq(n, num(m))
            cs = [c]
            for i, q in enumerate(p['pre']): cs.append(self.test(q, self.pidx(pl, num(i)), fr))
            for i, q in enumerate(p['suf']): cs.append(self.test(q, self.pidx(pl, sub(n, num(len(p['suf']) - i))), fr))
            return and_(*cs)
        return unk('pattern ' + k, 'bool')
    def through(self, pl):
        if isinstance(pl, V) and pl.t.op in ('mref', 'arc'): return self.deref(pl.t)
        if isinstance(pl, Place):
            v = self.read(pl)
            if v.op in ('mref', 'arc'): return self.deref(v)
        return pl
    def pderef(self, pl):
        v = self.read(pl)
        if v.op in ('mref', 'arc') or (v.op == 'ite' and self.has_ref(v)): return self.deref(v)
        return pl
    def pfield(self, pl, i, v, q):
        pl = self.through(pl)
        if isinstance(pl, V):
            if is_unk(pl.t): return V(unk(UNKS[pl.t]))
            return V(fld(pl.t, i, self.p.sort(self.p.rt(q['ty'], {}) if 'ty' in q else ('any',)), v))
        if isinstance(pl, Multi): return self.sub_place(pl, 'f', i, v)
        return Place(pl.loc, pl.path + ('f', i, v))
    def pidx(self, pl, i):
        pl = self.through(pl)
        if isinstance(pl, V): return V(at(pl.t, i))
        return self.sub_place(pl, 'i', i)
    def bind(self, p, pl, fr):
        k = p['k']
        if k == 'bind':
            if p['by'] == 'val':
                l = fr.vars[p['v']] = self.new(self.read(pl))
                self.locty[l] = self.p.rt(p['ty'], fr.env)
            elif p['by'] == 'ref': fr.vars[p['v']] = self.new(self.shared(pl, self.p.rt(p['ty'], fr.env)))
            else:
                q = pl
                if isinstance(q, V): q = Place(self.new(q.t)) if q.t.op not in ('mref', 'arc') else self.deref(q.t)
                fr.vars[p['v']] = self.new(self.place_ref(q))
            if p.get('sub'): self.bind(p['sub'], pl, fr)
        elif k == 'deref': self.bind(p['sub'], self.pderef(pl), fr)
        elif k == 'variant':
            for i, q in p['fs']: self.bind(q, self.pfield(pl, i, p['v'], q), fr)
        elif k == 'leaf':
            for i, q in p['fs']: self.bind(q, self.pfield(pl, i, 0, q), fr)
        elif k == 'or':
            # alternatives bind the same variables; choose by the test
            q0 = p['ps']
            cs = [self.test(q, pl, fr) for q in q0]
            for q in q0: self.bind(q, pl, fr)
            if any(vars_of(q) for q in q0): raise Give('or-pattern with bindings')
        elif k == 'slice':
            s = self.val(self.read(self.through(pl))); n = length(s)
            for i, q in enumerate(p['pre']): self.bind(q, self.pidx(pl, num(i)), fr)
            for i, q in enumerate(p['suf']): self.bind(q, self.pidx(pl, sub(n, num(len(p['suf']) - i))), fr)
            if p['mid']:
                t = self.through(pl)
                lo, hi = num(len(p['pre'])), sub(n, num(len(p['suf'])))
                self.bind(p['mid'], V(seq_slice(s, lo, hi)) if isinstance(t, V) else self.sub_place(t, 'sub', lo, hi), fr)
    def place_ref(self, pl):
        if isinstance(pl, Multi):
            (c, a), (c2, b) = pl.ps
            return ite(c, self.place_ref(a), self.place_ref(b))
        return mk('mref', pl.loc, pl.path)
    def shared(self, pl, refty):
        """value of a shared borrow: a snapshot, or the place itself if it is interior mutable"""
        if isinstance(pl, Multi): return self.place_ref(pl) if False else self.read(pl)
        if isinstance(pl, V): return pl.t
        if isinstance(pl.loc, tuple) and pl.loc[0] == 'static': return self.mref(pl)
        inner = refty[2] if refty and refty[0] in ('ref', 'ptr') else None
        if inner is not None and self.p.nonfreeze(inner): return self.mref(pl)
        if inner is not None and inner[0] in ('closure', 'dyn', 'param'):
            v = self.read(pl)
            if v.op == 'st' and isinstance(v.args[0], str) and v.args[0].startswith('clo:'): return self.mref(pl)
        return self.read(pl)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, fr):
        v = getattr(self, 'e_' + e['k'], self.e_other)(e, fr)
        if self.inv is not None and v is not None: v = self.inv.purify(v)
        return v
    def e_other(self, e, fr): return unk('expression kind ' + e['k'])
    def e_scope(self, e, fr):
        lab = e['scope']
        # targets of labelled blocks are registered by block / loop themselves
        fr.labels.setdefault('cur', []).append(lab)
        try: return self.ev(e['e'], fr)
        finally: fr.labels['cur'].pop()

    def e_block(self, e, fr):
        if e.get('target'):
            labs = [e['scope']] + list(fr.labels.get('cur', [])[-2:])
            ex = []
            base_pc = self.pc
            old = {l: fr.labels.get(l) for l in labs}
            for l in labs: fr.labels[l] = ex
            try:
                v = self.block(e, fr)
                ex.append((self.pc, self.store, v))
            except Diverge: pass
            for l in labs: fr.labels[l] = old[l]
            return self.join_exits(base_pc, ex)
        return self.block(e, fr)
    def block(self, e, fr):
        for s in e['stmts']:
            if s['k'] == 'expr': self.ev(s['e'], fr)
            else:
                if s['e'] is None:
                    self.declare(s['p'], fr); continue
                pl = self.scrut(s['e'], fr)
                if s['else'] is not None:
                    c = self.test(s['p'], pl, fr)
                    def els():
                        self.block(s['else'], fr) if s['else']['k'] == 'block' else self.ev(s['else'], fr)
                        raise Diverge()
                    self.branch([(c, lambda: self.bind(s['p'], pl, fr)), (TRUE, els)])
                else:
                    self.bind(s['p'], pl, fr)
        if e['e'] is None: return UNIT
        return self.ev(e['e'], fr)
    def declare(self, p, fr):
        if p['k'] == 'bind':
            l = fr.vars[p['v']] = self.new(mk('absent'))
            self.locty[l] = self.p.rt(p['ty'], fr.env)
        elif p['k'] == 'leaf':
            for _, q in p['fs']: self.declare(q, fr)
    def scrut(self, e, fr):
        x = e
        while x['k'] == 'scope': x = x['e']
        if x['k'] in ('var', 'upvar', 'field', 'deref', 'index'): 
            pl = self.place(x, fr)
            return pl
        return V(self.ev(e, fr))

    def cond(self, e, fr):
        """evaluates a condition; returns (term, binder) where binder introduces pattern bindings"""
        x = e
        while x['k'] == 'scope': x = x['e']
        if x['k'] == 'letcond':
            pl = self.scrut(x['e'], fr)
            c = self.test(x['p'], pl, fr)
            return c, (lambda: self.bind(x['p'], pl, fr))
        return self.ev(e, fr), (lambda: None)

    def e_if(self, e, fr):
        return self.if_chain(self.conjuncts(e['c']), lambda: self.ev(e['t'], fr),
                             (lambda: self.ev(e['f'], fr)) if e['f'] is not None else (lambda: UNIT), fr)
    def conjuncts(self, c):
        x = c
        while x['k'] == 'scope': x = x['e']
        if x['k'] == 'logic' and x['op'] == 'And' and self.has_let(x):
            return self.conjuncts(x['l']) + self.conjuncts(x['r'])
        return [c]
    def has_let(self, x):
        while x['k'] == 'scope': x = x['e']
        if x['k'] == 'letcond': return True
        return x['k'] == 'logic' and (self.has_let(x['l']) or self.has_let(x['r']))
    def if_chain(self, cs, th, el, fr):
        c, b = self.cond(cs[0], fr)
        def yes():
            b()
            return th() if len(cs) == 1 else self.if_chain(cs[1:], th, el, fr)
        return self.branch([(c, yes), (TRUE, el)])

    def e_letcond(self, e, fr):
        pl = self.scrut(e['e'], fr)
        return self.test(e['p'], pl, fr)

    def e_logic(self, e, fr):
        l = self.ev(e['l'], fr)
        if e['op'] == 'And':
            return self.branch([(l, lambda: self.ev(e['r'], fr)), (TRUE, lambda: FALSE)])
        return self.branch([(l, lambda: TRUE), (TRUE, lambda: self.ev(e['r'], fr))])

    def e_match(self, e, fr):
        pl = self.scrut(e['e'], fr)
        if e['src'].startswith('ForLoop') and len(e['arms']) == 1:
            pass
        alts = []
        for a in e['arms']:
            c = self.test(a['p'], pl, fr)
            if a['g'] is not None:
                # guards are evaluated with the bindings in scope
                try:
                    save = (self.pc, self.store)
                    self.assume(c); self.store = dict(self.store)
                    self.bind(a['p'], pl, fr)
                    g, gb = self.cond(a['g'], fr)
                    self.pc, self.store = save[0], {**{k: v for k, v in self.store.items() if k not in save[1]}, **save[1]}
                    c = and_(c, g)
                except Diverge:
                    self.pc, self.store = save
                    c = FALSE
            alts.append((c, lambda a=a: (self.bind(a['p'], pl, fr), self.ev(a['e'], fr))[1]))
        if not alts: raise Diverge()
        # matches are exhaustive: the last arm that can match needs no condition
        lc, lt_ = alts[-1]
        alts[-1] = (TRUE if lc is not FALSE else FALSE, lt_)
        if lc is FALSE:
            live = [i for i, (c, t) in enumerate(alts) if c is not FALSE]
            if live: alts[live[-1]] = (TRUE, alts[live[-1]][1])
        return self.branch(alts)

    def e_call(self, e, fr):
        f = self.fn_ty(e['f'])
        t = self.p.types[f['ty']] if f['k'] == 'zst' else None
        rty = self.ety(e, fr)
        if t is not None and t['k'] == 'fn':
            key = self.p.key(t['def'])
            if rty and rty[0] == 'never' or PANICKY(key):
                self.panic(key, e.get('sp', ''))
            args = [self.ev(a, fr) for a in e['a']]
            if t['def'] in CTORS(self.p):
                path, v = CTORS(self.p)[t['def']]
                return st(path, v, *args)
            return self.call_fn(t, fr.env, args, e.get('sp', ''), rty)
        fv = self.ev(e['f'], fr)
        args = [self.ev(a, fr) for a in e['a']]
        return self.call_closure(fv, args)

    def e_zst(self, e, fr):
        t = self.p.types[e['ty']]
        if t['k'] == 'fn':
            if t['def'] in CTORS(self.p): return mk('ctor', *CTORS(self.p)[t['def']])
            i = len(FNS); FNS[i] = (t, dict(fr.env))
            return mk('fnitem', i)
        if t['k'] == 'closure':
            return mk('st', 'clo:%d' % t['def'], 0)
        return UNIT
    def e_closure(self, e, fr):
        ups = []
        caps = {}
        for cap, u in zip(e['caps'], e['up']):
            v = cap['v']
            if v in caps: continue
            caps[v] = len(ups)
            root = fr.vars.get(v)
            if root is None and fr.caps and v in fr.caps:
                pl = self.upvar({'v': v}, fr)
            elif isinstance(root, (Place, V)): pl = root
            else: pl = Place(root)
            if cap['ref']:
                val = self.read(pl)
                if cap['mutref'] or (val.op == 'st' and str(val.args[0]).startswith('clo:')):
                    ups.append(mk('capref', pl.loc, pl.path))
                else: ups.append(val)
            else: ups.append(self.read(pl))
        name = 'clo:%d' % e['def']
        prev = CLOS.get(name)
        rec = (caps, dict(fr.env))
        n = 0
        while name in CLOS and CLOS[name] != rec:
            n += 1; name = 'clo:%d/%d' % (e['def'], n)
        CLOS[name] = rec
        TM.NVARIANTS[name] = 1
        return mk('st', name, 0, *ups)

    def e_deref(self, e, fr): return self.read(self.place(e, fr))
    e_field = e_deref
    e_index = e_deref
    e_static = e_deref
    def e_var(self, e, fr): return self.read(self.place(e, fr))
    e_upvar = e_var

    def e_borrow(self, e, fr):
        pl = self.place(e['e'], fr)
        if e['b'].startswith('Mut'):
            if isinstance(pl, V):
                if pl.t.op in ('mref', 'arc') and self.is_ref_expr(e['e'], fr): 
                    pl = Place(self.new(pl.t))
                else: pl = Place(self.new(pl.t))
            return self.place_ref(pl)
        return self.shared(pl, self.ety(e, fr))
    def is_ref_expr(self, e, fr):
        t = self.ety(e, fr)
        return bool(t) and t[0] == 'ref'
    def e_rawborrow(self, e, fr):
        pl = self.place(e['e'], fr)
        if isinstance(pl, V): pl = Place(self.new(pl.t))
        return self.place_ref(pl)

    def e_lit(self, e, fr):
        t = e['t']
        if t == 'int': v = num(int(e['v']))
        elif t == 'float': v = num(Fr(e['v']))
        elif t == 'bool': return boolc(e['v'])
        else: return mk('str', str(e['v']))
        return neg(v) if e['neg'] else v
    def e_nonhir(self, e, fr): return unk('const')
    def e_const(self, e, fr):
        import lib
        d = self.p.defs[e['def']]
        b = self.p.body.get(e['def'])
        if b is not None: return self.call_body(b, [], fr.env)
        return lib.constant(self, d['key'], self.ety(e, fr))
    def e_constblock(self, e, fr):
        b = self.p.body.get(e['def'])
        if b is not None: return self.call_body(b, [], fr.env)
        return unk('const block')

    def e_tuple(self, e, fr): return tup(*[self.ev(a, fr) for a in e['es']])
    def e_array(self, e, fr): return seq_lit(*[self.ev(a, fr) for a in e['es']])
    def e_repeat(self, e, fr):
        v = self.ev(e['e'], fr)
        return arr(num(e['n']), lambda i: v) if e['n'] is not None else unk('array length')
    def e_adt(self, e, fr):
        fs = [None] * e['nf']
        for i, x in e['fs']: fs[i] = self.ev(x, fr)
        if e['base'] is not None:
            if e['base'] == 'defaults': return unk('default fields')
            b = self.ev(e['base'], fr)
            for i in range(len(fs)):
                if fs[i] is None: fs[i] = fld(b, i)
        if e['path'] == 'core::ops::range::RangeInclusive': return st(e['path'], 0, *fs)
        return st(e['path'], e['v'], *fs)

    def e_never(self, e, fr):
        self.ev(e['e'], fr)
        raise Diverge()
    def e_coerce(self, e, fr): return self.ev(e['e'], fr)
    def e_cast(self, e, fr):
        import lib
        v = self.ev(e['e'], fr)
        return lib.cast(self, v, self.ety(e['e'], fr), self.ety(e, fr))
    def e_un(self, e, fr):
        v = self.val(self.ev(e['e'], fr))
        if e['op'] == 'Not':
            ty = self.ety(e, fr)
            return not_(v) if ty and ty[0] == 'bool' else mk('app', 'bitnot', 'nat', v)
        return neg(v)
    def e_bin(self, e, fr):
        import lib
        l = self.ev(e['l'], fr); r = self.ev(e['r'], fr)
        return lib.binop(self, e['op'], self.val(l), self.val(r), self.ety(e['l'], fr), e.get('sp', ''))
    def e_assign(self, e, fr):
        v = self.ev(e['r'], fr)
        self.assign(self.place(e['l'], fr), v)
        return UNIT
    def e_assignop(self, e, fr):
        import lib
        # primitive operands: the right side is evaluated first
        r = self.val(self.ev(e['r'], fr))
        pl = self.place(e['l'], fr)
        old = self.val(self.read(pl))
        v = lib.binop(self, e['op'].replace('Assign', ''), old, r, self.ety(e['l'], fr), e.get('sp', ''))
        self.assign(pl, v)
        return UNIT
    def assign(self, pl, v):
        if isinstance(pl, Multi):
            for c, p in pl.ps: self.assign(p, ite(c, v, self.read(p)))
            return
        if isinstance(pl, V):
            if pl.t.op in ('mref', 'arc'): pl = self.deref(pl.t)
            else: raise Give('assignment to a temporary')
        self.write(pl, v)

    def e_return(self, e, fr):
        v = self.ev(e['e'], fr) if e['e'] is not None else UNIT
        fr.rets.append((self.pc, self.store, v))
        raise Diverge()
    def e_break(self, e, fr):
        v = self.ev(e['e'], fr) if e['e'] is not None else UNIT
        ex = fr.labels.get(e['label'])
        if ex is None: raise Give('break target')
        (ex['brk'] if isinstance(ex, dict) else ex).append((self.pc, self.store, v))
        raise Diverge()
    def e_continue(self, e, fr):
        ex = fr.labels.get(e['label'])
        if not isinstance(ex, dict): raise Give('continue target')
        ex['cont'].append((self.pc, self.store, UNIT))
        raise Diverge()
    def e_loop(self, e, fr):
        import loops
        return loops.run(self, e, fr)

class Multi(Place):
    """one of several places, by condition"""
    __slots__ = ('ps',)
    def __init__(self, ps): self.ps = ps; self.loc = 'multi'; self.path = tuple(ps)

_read0 = Interp.read
def _read(self, pl):
    if isinstance(pl, Multi):
        (c, a), (c2, b) = pl.ps
        return ite(c, self.read(a), self.read(b))
    return _read0(self, pl)
Interp.read = _read

CLOS = {}
FNS = {}
PYFNS = {}
def pyfn(f):
    i = len(PYFNS); PYFNS[i] = f
    return mk('pyfn', i)

_inc = {}
def inconsistent_q(facts):
    k = frozenset(facts)
    r = _inc.get(k)
    if r is None: r = _inc[k] = inconsistent(facts)
    return r

def PANICKY(key):
    return key.startswith('core::panicking') or key.startswith('std::panicking') or key in ('std::process::abort', 'std::process::exit')

_ct = {}
def CTORS(p):
    """tuple-struct / tuple-variant constructors used as functions"""
    m = _ct.get(id(p))
    if m is None:
        m = {}
        std = {'core::option::Option::Some': (OPT, 1), 'core::result::Result::Ok': (RES, 0), 'core::result::Result::Err': (RES, 1)}
        for i, d in enumerate(p.defs):
            if d.get('kind', '').startswith('Ctor'):
                k = d['key']
                hit = None
                for s, v in std.items():
                    if k.startswith(s): hit = v
                if hit is None:
                    for a in p.d['adts']:
                        for vi, va in enumerate(a['variants']):
                            if k in (a['path'] + '::{{constructor}}', a['path'] + '::' + va['name'] + '::{{constructor}}', a['path'] + '::{ctor}'):
                                hit = (a['path'], vi)
                if hit: m[i] = hit
        _ct[id(p)] = m
    return m

def parse_const(s):
    s = s.strip()
    if not s: return None
    import re
    m = re.match(r'^(-?[0-9_]+(\.[0-9]+)?)(_?(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|f32|f64|u128|i128))?$', s)
    if m: return Fr(m.group(1).replace('_', ''))
    return None

def vars_of(p):
    if p['k'] == 'bind': return [p['v']]
    r = []
    for x in p.get('fs', []): r += vars_of(x[1])
    if isinstance(p.get('sub'), dict): r += vars_of(p['sub'])
    for x in p.get('ps', []): r += vars_of(x)
    return r

def mat_lin(m, i):
    if ncols(m) is ONE: return mat_at(m, i, ZERO)
    if nrows(m) is ONE: return mat_at(m, ZERO, i)
    return mat_at(m, fmod(i, nrows(m)), fdiv(i, nrows(m)))
def mat_lin_upd(m, i, v):
    if ncols(m) is ONE: return mat_upd(m, i, ZERO, v)
    if nrows(m) is ONE: return mat_upd(m, ZERO, i, v)
    return mat_upd(m, fmod(i, nrows(m)), fdiv(i, nrows(m)), v)
