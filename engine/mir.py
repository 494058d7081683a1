"""Call graph, drop effects and lock sets over MIR."""
from common import *
from p_ctx import contained

GUARDS = ('MutexGuard', 'MappedMutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'MappedRwLockReadGuard', 'MappedRwLockWriteGuard', 'ReentrantLockGuard')
NODROP = {'Weak', 'PhantomData', 'ManuallyDrop', 'MaybeUninit', 'NonNull', 'AtomicPtr'}
STD = ('core', 'std', 'alloc')
def external(p, names): return p.split('::')[0] in STD and last(p) in names
BORROWING = ('Iter', 'IterMut', 'Keys', 'Values', 'ValuesMut', 'Ref', 'RefMut', 'Windows', 'Chunks', 'ChunksExact', 'ChunksMut', 'MatrixIter', 'MatrixIterMut', 'Chars')
# external functions that pass their owned arguments on (to the result, a closure or a container)
PASSING = {'unwrap', 'expect', 'map', 'map_err', 'and_then', 'ok', 'ok_or', 'ok_or_else', 'into', 'from', 'new', 'branch', 'from_output', 'from_residual', 'transpose', 'zip', 'into_iter', 'push', 'insert',
           'push_back', 'push_front', 'into_inner', 'deref', 'unwrap_or_else', 'map_or_else', 'unwrap_unchecked', 'into_boxed_slice', 'pin', 'cloned', 'collect', 'chain', 'from_vec', 'enumerate', 'rev', 'by_ref', 'or_insert', 'or_insert_with', 'entry', 'downgrade', 'clone', 'box_new', 'write'}
DROPPING = {'clear', 'truncate', 'retain', 'retain_mut', 'dedup', 'dedup_by', 'dedup_by_key', 'resize', 'resize_with', 'drain', 'fill', 'fill_with', 'clone_from', 'clone_from_slice', 'extract_if', 'clone_into', 'set'}
FORGET = {'mem::forget', 'Box::leak', 'ManuallyDrop::new', 'Box::into_raw', 'Arc::into_raw'}
FN_TRAITS = {'core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn'}
USER = 'caller-supplied code'

def last(p): return p.split('::')[-1]

class Graph:
    def __init__(self, prog):
        self.p = prog
        d = prog.d
        self.mir = {m['def']: m for m in d['mir']}
        self.bykey = {prog.keys[m['def']]: m for m in d['mir']}
        self.gens = {b['def']: b['generics'] for b in d['bodies']}
        self.upvars = {}
        for i, t in enumerate(d['types']):
            if t['k'] == 'closure': self.upvars.setdefault(t['def'], t['upvars'])
        self.dropimpl = {}
        for im in d['impls']:
            if im['trait'] == 'core::ops::drop::Drop':
                t = prog.rt(im['targs'][0])
                for n, df in im['items']: self.dropimpl[t[1]] = df
        self.localtraits = {im['trait'] for im in d['impls'] if im['trait'].split('::')[0] == prog.crate}
        self.edges_ = {}; self.unknown = []
        self.nsites = 0

    # ---- types
    def rt(self, i, env):
        """resolved type with function and closure types kept"""
        t = self.p.types[i]; k = t['k']
        r = lambda j: self.rt(j, env)
        if k == 'fn': return ('fn', t['def'], tuple(r(a) for a in t['args']), t.get('rdef'), tuple(r(a) for a in t.get('rargs', ())), t.get('rself'), tuple((q, r(s)) for q, s in t.get('preds', ())))
        if k == 'closure': return ('closure', t['def'], env)
        if k == 'param':
            return dict(env).get(t['name'], ('param', t['name']))
        if k == 'adt': return ('adt', t['path'], tuple(r(a) for a in t['args']))
        if k in ('ref', 'ptr'): return (k, t['mut'], r(t['t']))
        if k == 'slice': return ('slice', r(t['t']))
        if k == 'array': return ('array', r(t['t']), t['len'])
        if k == 'tuple': return ('tuple', tuple(r(a) for a in t['ts']))
        if k == 'alias':
            if 'norm' in t: return r(t['norm'])
            return ('alias', t['s'], tuple(r(a) for a in t['args']))
        if k == 'dyn': return ('dyn', t['s'])
        if k in ('int', 'uint', 'float'): return (k, t['name'])
        return (k,)

    def components(self, ty, seen=None):
        """owned component types, including itself"""
        seen = set() if seen is None else seen
        if ty in seen: return
        seen.add(ty)
        yield ty
        k = ty[0]
        if k == 'adt':
            p = ty[1]
            if external(p, NODROP) or last(p) in GUARDS: return
            a = self.p.adt.get(p)
            if a:
                env = tuple(zip(a['generics'], ty[2]))
                for v in a['variants']:
                    for n, ft in v['fields']: yield from self.components(self.rt(ft, env), seen)
            elif last(p) not in BORROWING:
                for x in ty[2]: yield from self.components(x, seen)
        elif k in ('slice', 'array'): yield from self.components(ty[1], seen)
        elif k == 'tuple':
            for x in ty[1]: yield from self.components(x, seen)
        elif k == 'dyn':
            for im in self.p.impls:
                if 'dyn ' + im['trait'] == ty[1] and im['trait'] in self.localtraits:
                    t = self.rt(im['targs'][0], ())
                    if t[0] == 'adt': yield from self.components(t, seen)
        elif k == 'closure':
            for u in self.upvars.get(ty[1], ()): yield from self.components(self.rt(u, ty[2]), seen)

    def guard(self, ty):
        """content type of a lock guard owned by a value of this type"""
        for c in self.components(ty):
            if c[0] == 'adt' and last(c[1]) in GUARDS: return c[2][0] if c[2] else ('?',)
        return None

    def drops(self, ty):
        """what destroying a value may run"""
        out = set()
        for c in self.components(ty):
            if c[0] == 'adt' and c[1] in self.dropimpl:
                df = self.dropimpl[c[1]]
                g = self.gens.get(df, [])
                out.add((df, tuple(zip(g, c[2]))))
            elif c[0] == 'dyn':
                tr = c[1].replace('dyn ', '')
                if tr in self.localtraits or last(tr) in ('Fn', 'FnMut', 'FnOnce'): out.add(USER)
            elif c[0] == 'param': out.add(USER)
        return out

    def mentions(self, ty, depth=0):
        """every type occurring in a type, borrowed ones included"""
        yield ty
        if depth > 8: return
        k = ty[0]
        subs = ()
        if k == 'adt': subs = ty[2]
        elif k in ('ref', 'ptr'): subs = (ty[2],)
        elif k in ('slice', 'array'): subs = (ty[1],)
        elif k == 'tuple': subs = ty[1]
        elif k == 'alias': subs = ty[2]
        elif k == 'fn': subs = ty[2]
        for x in subs: yield from self.mentions(x, depth + 1)

    # ---- calls
    def inst(self, df, args):
        g = [x for x in self.gens.get(df, ())]
        return (df, tuple(zip(g, args)))
    def impl_methods(self, trait, selfty, name=None):
        out = set()
        for im in self.p.impls:
            if im['trait'] != trait: continue
            pat = self.p.rt(im['targs'][0])
            b = {}
            if selfty is not None and not self.p.unify(pat, selfty, b): continue
            names = set()
            for n, df in im['items']:
                names.add(n)
                if df in self.mir and (name is None or n == name):
                    g = self.gens.get(df, ())
                    out.add((df, tuple((x, b[x]) for x in g if x in b)))
        return out
    def called(self, f, trace=False):
        """instances a value of function type runs when it is called; USER for unknown code"""
        if f[0] == 'closure': return {(f[1], f[2])} if f[1] in self.mir else set()
        if f[0] in ('ref', 'ptr'): return self.called(f[2])
        if f[0] == 'adt' and f[1] == 'alloc::boxed::Box': return self.called(f[2][0])
        if f[0] == 'fn':
            t, e = self.targets(f)
            return t | e
        if f[0] in ('param', 'dyn', 'fnptr'): return {USER}
        return set()
    def targets(self, f):
        """(local instances or USER, instances run by an external callee)"""
        _, df, args, rdef, rargs, rself, preds = f
        d = self.p.defs[df]
        if df in self.mir and 'trait' not in d: return {self.inst(df, args)}, set()
        if rdef is not None and rdef in self.mir:
            if self.p.defs[rdef]['kind'] == 'Closure': return {(rdef, self.closure_env(args))}, set()
            return {self.inst(rdef, rargs)}, set()
        tr = d.get('trait')
        if tr in FN_TRAITS: return self.called(args[0]), set()
        out = set(); ext = set()
        if tr is not None and rdef is None:
            st_ = args[0] if args else ('?',)
            base = st_
            while base[0] in ('ref', 'ptr') or (base[0] == 'adt' and base[1] == 'alloc::boxed::Box'): base = base[2] if base[0] != 'adt' else base[2][0]
            if tr in self.localtraits or tr.split('::')[0] == self.p.crate:
                if base[0] in ('param', 'dyn', 'alias'):
                    out |= self.impl_methods(tr, None, d['name']) | {USER}
                else: out |= self.impl_methods(tr, base, d['name'])
                if df in self.mir: out.add(self.inst(df, args))
                return out, ext
            if base[0] in ('param', 'alias', 'adt'):
                # arithmetic, conversions and comparisons of the number type: primitives or the library's own scalars
                ext |= self.impl_methods(tr, None if base[0] != 'adt' else base, d['name'])
                if base[0] == 'param' and last(tr) in ('Iterator', 'IntoIterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'Extend', 'FromIterator', 'Future', 'Error', 'Any', 'Hash', 'Drop'): out.add(USER)
        # external: closures and functions among its type arguments, and trait implementations its bounds ask for
        for a in list(args) + list(rargs):
            for m in self.mentions(a):
                if m[0] == 'closure' and m[1] in self.mir: ext.add((m[1], m[2]))
                elif m[0] == 'fn': t, e = self.targets(m); ext |= t | e
        for q, st_ in preds:
            if q in FN_TRAITS:
                ext |= self.called(st_); continue
            if q == 'core::marker::Sized' or q.startswith('core::marker::'): continue
            for m in self.mentions(st_):
                if m[0] == 'adt' and m[1] in self.p.adt: ext |= self.impl_methods(q, m)
                elif m[0] == 'param': ext |= self.impl_methods(q, None)
        return out, ext
    def closure_env(self, args):
        for a in args:
            for m in self.mentions(a):
                if m[0] == 'closure': return m[2]
        return ()

    # ---- bodies
    def label(self, inst):
        if inst == USER: return USER
        return self.p.keys[inst[0]]
    def acquisition(self, t, env, body):
        """(content type, waits) if this call takes a lock itself"""
        f = self.fun(t, env)
        if f is None: return None
        ty = self.rt(t['pt'], env)
        d = self.p.defs[f[1]]
        key = d['key']
        nm = last(key)
        if not d['local'] and key.split('::')[0] in ('std', 'core', 'alloc', 'parking_lot', 'lock_api', 'spin'):
            if nm in ('wait', 'wait_while', 'wait_timeout', 'wait_timeout_while', 'recv', 'recv_timeout', 'join', 'park', 'scope') and ('sync' in key or 'thread' in key): return (('blocking', key), True)
            g = self.guard(ty)
            if g is not None and not any(self.guard(self.rt(a, env)) is not None for a in t['at']): return (g, not nm.startswith('try_'))
        return None
    def fun(self, t, env):
        f = t['f']
        if f['k'] == 'const':
            ty = self.rt(f['ty'], env)
            return ty if ty[0] == 'fn' else None
        return None
    def edges(self, inst):
        """[(site, kind, set of instances / USER)] and acquisitions"""
        r = self.edges_.get(inst)
        if r is not None: return r
        df, env = inst
        m = self.mir[df]
        out = []
        for bi, b in enumerate(m['blocks']):
            t = b['t']
            if t['k'] == 'drop':
                s = self.drops(self.rt(t['ty'], env))
                if s: out.append((bi, 'drop', s, self.show(self.rt(t['ty'], env)), t.get('sp', '')))
            elif t['k'] == 'call':
                self.nsites += 1
                f = self.fun(t, env)
                acq = self.acquisition(t, env, m)
                if acq is not None: out.append((bi, 'acquire', acq, self.show(acq[0]), t.get('sp', '')))
                if f is None:
                    out.append((bi, 'call', {USER}, 'function pointer', t.get('sp', ''))); continue
                key = self.p.keys[f[1]]
                loc, ext = self.targets(f)
                if loc | ext: out.append((bi, 'call', loc | ext, key, t.get('sp', '')))
                if not loc and not self.p.defs[f[1]]['local']:
                    owned = set()
                    nm = last(key)
                    for a, at_ in zip(t['a'], t['at']):
                        ty = self.rt(at_, env)
                        if a['k'] in ('move', 'const') and nm not in PASSING: owned |= self.drops(ty)
                        if ty[0] == 'ref' and ty[1] and nm in DROPPING: owned |= self.drops(ty[2])
                    if owned: out.append((bi, 'drop', owned, 'arguments of ' + key, t.get('sp', '')))
        self.edges_[inst] = out
        return out
    def show(self, ty):
        if ty[0] == 'adt': return last(ty[1]) + ('<%s>' % ','.join(self.show(x) for x in ty[2][:2]) if ty[2] else '')
        if ty[0] in ('ref', 'ptr'): return '&' + self.show(ty[2])
        if ty[0] == 'closure': return 'closure in ' + self.p.keys[ty[1]]
        if ty[0] in ('int', 'uint', 'float', 'param', 'dyn', 'blocking'): return str(ty[1])
        if ty[0] == 'tuple': return '(%s)' % ','.join(self.show(x) for x in ty[1])
        return ty[0]

    def reach(self, roots, limit=6000):
        seen = set(); todo = list(roots)
        while todo:
            i = todo.pop()
            if i == USER or i in seen or i[0] not in self.mir: continue
            seen.add(i)
            if len(seen) > limit: raise Give('too many instances')
            for e in self.edges(i):
                if e[1] != 'acquire': todo.extend(e[2])
        return seen
    def roots(self):
        out = []
        for k, it in self.p.item.items():
            if it['kind'] != 'fn' or it['def'] not in self.mir: continue
            d = self.p.defs[it['def']]
            if it.get('reachable') or it.get('exported') or 'impl_trait' in d or 'trait' in d: out.append((it['def'], ()))
        return out

    def summaries(self, insts):
        """instance -> witness chain to something that waits or is unknown"""
        waits = {}; users = {}
        for i in insts:
            for bi, kind, x, what, sp in self.edges(i):
                if kind == 'acquire' and x[1]: waits.setdefault(i, (('takes the lock on ' + what) if x[0][0] != 'blocking' else 'waits in ' + what,))
                elif kind != 'acquire' and USER in x: users.setdefault(i, ('%s: %s' % (USER, what),))
        for table in (waits, users):
            ch = True
            while ch:
                ch = False
                for i in insts:
                    if i in table: continue
                    for bi, kind, x, what, sp in self.edges(i):
                        if kind == 'acquire': continue
                        for j in x:
                            if j != USER and j in table:
                                table[i] = (self.label(j),) + table[j]; ch = True; break
                        if i in table: break
        return waits, users

    # ---- lock sets
    def scan(self, inst, waits, users):
        """points of an instance reached with a lock held; yields problems"""
        df, env = inst
        m = self.mir[df]
        locty = [self.rt(t, env) for t in m['locals']]
        gl = [self.guard(t) for t in locty]
        if not any(g is not None for g in gl): return [], 0
        probs = []; npts = set()
        start = (frozenset(i for i in range(1, m['argc'] + 1) if gl[i] is not None), frozenset())
        seen = {}
        todo = [(0, start)]
        ed = {}
        for e in self.edges(inst): ed.setdefault(e[0], []).append(e)
        # blocks on a cycle
        succ = {i: self.succs(b['t']) for i, b in enumerate(m['blocks'])}
        def cyclic(i):
            st_ = list(succ[i]); v = set()
            while st_:
                x = st_.pop()
                if x == i: return True
                if x in v: continue
                v.add(x); st_.extend(succ[x])
            return False
        def src(o): return o['p'] if o['k'] in ('move',) else None
        steps = 0
        while todo:
            bi, state = todo.pop()
            if state in seen.setdefault(bi, set()): continue
            if len(seen[bi]) > 400: raise Give('too many states')
            seen[bi].add(state)
            steps += 1
            held, flags = set(state[0]), dict(state[1])
            b = m['blocks'][bi]
            for x in b['s']:
                if x['k'] == 'dead':
                    held.discard(x['l']); flags.pop(x['l'], None)
                elif x['k'] == 'assign':
                    l = x['p'][0]; r = x['r']
                    mv = [o['p'][0] for o in self.operands(r) if o['k'] == 'move' and o['p'][0] in held and self.moves_guard(o['p'], locty)]
                    for q in mv: held.discard(q)
                    if mv and gl[l] is not None: held.add(l)
                    if len(x['p']) == 1:
                        flags.pop(l, None)
                        if r['k'] == 'use' and r['o']['k'] == 'const' and r['o'].get('v') in ('true', 'false', 'const true', 'const false'): flags[l] = 'true' in r['o']['v']
                        elif r['k'] == 'use' and r['o']['k'] in ('copy', 'move') and len(r['o']['p']) == 1 and r['o']['p'][0] in flags: flags[l] = flags[r['o']['p'][0]]
            t = b['t']
            after = None
            if held: npts.add(bi)
            if t['k'] == 'call':
                mv = [o['p'][0] for o in t['a'] if o['k'] == 'move' and o['p'][0] in held and self.moves_guard(o['p'], locty)]
                f = self.fun(t, env)
                local = f is not None and self.p.defs[f[1]]['local']
                during = held - set(mv) if local else set(held)
                if during: probs += self.check(inst, bi, ed.get(bi, ()), during, gl, waits, users, cyclic, locty)
                if mv and f is not None and '::'.join(self.p.keys[f[1]].split('::')[-2:]) in FORGET: probs.append((bi, 'the lock on %s is never released' % self.show(gl[mv[0]]), t.get('sp', '')))
                for q in mv: held.discard(q)
                unwound = set(held)
                dl = t['p'][0]
                if gl[dl] is not None and self.guard(self.rt(t['pt'], env)) is not None:
                    if not (f is not None and not local and not mv and self.acquisition(t, env, m) is None and not ed.get(bi)): held.add(dl)
                for s_, cl in self.succ_kinds(t):
                    h = unwound if cl else held
                    todo.append((s_, (frozenset(h), frozenset(flags.items()))))
                continue
            if t['k'] == 'drop':
                l = t['p'][0]
                if len(t['p']) == 1 and l in held: held.discard(l)
                elif l in held and self.guard(self.rt(t['ty'], env)) is not None: held.discard(l)
                if held: probs += self.check(inst, bi, ed.get(bi, ()), held, gl, waits, users, cyclic, locty)
            if t['k'] == 'switch' and t['d']['k'] in ('copy', 'move') and len(t['d']['p']) == 1 and t['d']['p'][0] in flags:
                v = '1' if flags[t['d']['p'][0]] else '0'
                tg = next((x for val, x in t['ts'] if val == v), None)
                if tg is None: tg = next(x for val, x in t['ts'] if val is None)
                todo.append((tg, (frozenset(held), frozenset(flags.items())))); continue
            for s_, cl in self.succ_kinds(t): todo.append((s_, (frozenset(held), frozenset(flags.items()))))
        return probs, len(npts)
    def moves_guard(self, place, locty):
        return True
    def operands(self, r):
        for k in ('o', 'l', 'r'):
            if k in r and isinstance(r[k], dict): yield r[k]
        for o in r.get('os', ()): yield o
    def succs(self, t): return [s for s, c in self.succ_kinds(t)]
    def succ_kinds(self, t):
        out = []
        if t['k'] == 'switch': out = [(x, False) for v, x in t['ts']]
        elif t.get('t') is not None: out = [(t['t'], False)]
        if t.get('u') is not None: out.append((t['u'], True))
        return out
    def check(self, inst, bi, edges, held, gl, waits, users, cyclic, locty):
        names = ', '.join(sorted({self.show(gl[h]) for h in held if gl[h] is not None}))
        out = []
        for _, kind, x, what, sp in edges:
            if kind == 'acquire':
                if x[1] or cyclic(bi): out.append((bi, 'while holding the lock on %s it %s' % (names, ('takes the lock on ' if x[0][0] != 'blocking' else 'waits in ') + what), sp))
                continue
            verb = 'destroys %s, which' if kind == 'drop' else 'calls %s, which'
            if USER in x: out.append((bi, 'while holding the lock on %s it runs %s (%s)' % (names, USER, what), sp))
            for j in sorted((j for j in x if j != USER), key=str):
                for table in (waits, users):
                    if j in table: out.append((bi, 'while holding the lock on %s it %s %s' % (names, verb % what, ' -> '.join((self.label(j),) + table[j]) if kind == 'drop' or self.label(j) != what else ' -> '.join(table[j])), sp))
        return out

def c08(ck, prog):
    contained(ck, 'lock sets', 'advantage', lambda: locks(ck, prog))

def locks(ck, prog):
    ck.rules.append('no lock is waited for, no caller-supplied code runs and no value whose destruction takes a lock is destroyed at a program point (unwinding included) where a lock guard may be alive')
    g = Graph(prog)
    for k in ('advantage::acontext::AContext::new', 'advantage::acontext::AContext::from_cid', 'advantage::acontext::AContext::record', 'advantage::acontext::AContext::tape'):
        ck.anchor(k in g.bykey, k)
    roots = g.roots()
    insts = g.reach(roots)
    waits, users = g.summaries(insts)
    pts = 0; seen = set(); per = {}
    for i in insts: per.setdefault(g.label(i), []).append(i)
    for k in sorted(per):
        n = 0; probs = []; takes = False
        for i in per[k]:
            try: q, c = g.scan(i, waits, users)
            except Give as e: ck.undecided('lock sets', k, str(e)); continue
            n += c; probs += q; takes |= any(e[1] == 'acquire' for e in g.edges(i))
        pts += n
        if (n or takes) and not probs: ck.ok('no wait under a lock', k, '%d blocks with a lock held' % n)
        for bi, why, sp in probs:
            if why in seen: continue
            seen.add(why); ck.violation('wait under a lock', k, '%s (%s)' % (why, sp))
        ck.visited[k] = ck.visited.get(k, 0) + 1
    for df, env in roots:
        it = prog.item[prog.keys[df]]
        if not it.get('reachable'): continue
        ty = g.rt(it['output'], ())
        if g.guard(ty) is not None: ck.violation('lock handed to the caller', prog.keys[df], 'the result contains a guard of the lock on ' + g.show(g.guard(ty)))
    ck.sites += g.nsites
    acq = sorted({'%s takes the lock on %s' % (g.label(i), e[3]) for i in insts for e in g.edges(i) if e[1] == 'acquire'})
    ck.notes.extend(acq)
    ck.extra.update({'instances': len(insts), 'acquisitions': len(acq), 'blocks_with_lock_held': pts})
    if not acq: ck.notes.append('no lock is taken anywhere')
