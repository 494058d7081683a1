"""C27: no state outlives a call, nothing depends on a schedule. Effects over MIR and the call graph."""
from common import *
from p_ctx import contained
from mir import Graph, USER, last
import json

CELLS = {'Mutex', 'RwLock', 'ReentrantLock', 'Cell', 'RefCell', 'UnsafeCell', 'SyncUnsafeCell', 'OnceCell', 'OnceLock', 'Condvar', 'Exclusive'}
HOLDERS = {'IterMut', 'MatrixIterMut', 'ColumnIterMut', 'RowIterMut', 'ChunksMut', 'ChunksExactMut', 'ViewStorageMut', 'SliceStorageMut', 'Zip', 'Enumerate', 'Drain', 'Entry'}
ONCE = {'OnceCell', 'OnceLock'}
LAZY = {'Lazy', 'LazyLock', 'LazyCell'}
EXT = ('core', 'std', 'alloc', 'spin', 'lazy_static', 'parking_lot', 'once_cell', 'lock_api')
WRITES = {'store', 'set', 'fill', 'clear'}
KILLS = {'clear', 'fill', 'fill_with', 'copy_from', 'copy_from_slice', 'clone_from', 'clone_from_slice', 'set_zero', 'take', 'replace', 'set'}
UNORDERED = {'par_bridge', 'find_any', 'find_map_any', 'position_any', 'try_reduce_with_any'}
APPENDS = {'push', 'push_back', 'push_front', 'extend', 'append', 'extend_from_slice', 'send', 'push_str'}
SORTS = ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'par_sort', 'par_sort_by', 'par_sort_by_key', 'par_sort_unstable', 'par_sort_unstable_by', 'par_sort_unstable_by_key')
HASHITER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'drain', 'into_keys', 'into_values', 'next'}
HASHES = {'HashMap', 'HashSet'}
ENVIRON = ('std::time::', 'std::env::', 'std::process::id', 'std::thread::current', 'std::thread::functions::current', 'core::time::', 'rand::', 'std::hash::random', 'std::collections::hash::map::RandomState', 'std::fs::', 'std::net::', 'std::thread::id::', 'rayon_core::current_thread_index', 'std::io::stdin')
COUNTS = ('current_num_threads', 'available_parallelism', 'max_num_threads')
REORDERING = {'sum', 'product', 'reduce', 'reduce_with', 'try_reduce', 'fold', 'try_fold', 'fold_with'}
PARALLEL = ('rayon', 'rayon_core', 'std::thread', 'crossbeam')

def base_api():
    with open(os.path.join(VERIF, 'witness', 'entry_points.json')) as f: return json.load(f)

class Effects:
    def __init__(self, prog):
        self.p = prog; self.g = Graph(prog)
        self.find_state()
        self.taints = {}
    # ---- shared mutable state
    def cellname(self, t):
        if t[0] != 'adt' or t[1].split('::')[0] not in EXT: return None
        n = last(t[1])
        if n in CELLS or n.startswith('Atomic') or n in LAZY: return n
        return None
    def outer_cells(self, ty, depth=0, seen=None):
        """outermost interior-mutable containers in a type (through local structures)"""
        seen = set() if seen is None else seen
        if ty in seen or depth > 10: return
        seen.add(ty)
        n = self.cellname(ty)
        if n is not None and n not in LAZY:
            yield ty; return
        k = ty[0]
        if k == 'adt':
            a = self.p.adt.get(ty[1])
            if a:
                env = tuple(zip(a['generics'], ty[2]))
                for v in a['variants']:
                    for _, ft in v['fields']: yield from self.outer_cells(self.g.rt(ft, env), depth + 1, seen)
            for x in ty[2]: yield from self.outer_cells(x, depth + 1, seen)
        elif k in ('slice', 'array'): yield from self.outer_cells(ty[1], depth + 1, seen)
        elif k == 'tuple':
            for x in ty[1]: yield from self.outer_cells(x, depth + 1, seen)
        elif k in ('ref', 'ptr'): yield from self.outer_cells(ty[2], depth + 1, seen)
    def registry(self, ty):
        """part of the registry of recording contexts"""
        return any(m[0] == 'adt' and m[1].startswith('advantage::acontext::') for m in self.g.mentions(ty))
    def find_state(self):
        self.state = {}      # container type -> where it lives
        self.mutstatics = {}
        self.static_seeds = {}
        self.kept = []
        for it in self.p.d['items']:
            if it['kind'] != 'static': continue
            k = self.p.keys[it['def']]
            ty = self.g.rt(it['ty'], ())
            if it['mut'] and not it['thread_local'] and 'lazy' not in k.lower():
                self.mutstatics[it['def']] = k; continue
            for c in self.outer_cells(ty):
                if self.registry(c) or (k.startswith('advantage::acontext::') and last(c[1]).startswith('Atomic')): self.kept.append(k); continue
                if last(c[1]) == 'UnsafeCell' and it['thread_local']: continue
                if ty == c and not it['thread_local']: self.static_seeds[it['def']] = k
                else: self.state.setdefault(c, k)
        for path, a in self.p.adt.items():
            if not path.startswith('advantage::'): continue
            for v in a['variants']:
                for fname, ft in v['fields']:
                    for c in self.outer_cells(self.g.rt(ft, ())):
                        if self.registry(c): self.kept.append(path + '.' + str(fname)); continue
                        self.state.setdefault(c, path + '.' + str(fname))
        # cells that are only ever initialised to a constant
        for c in [c for c in self.state if last(c[1]) in ONCE]:
            if self.constant_once(c): self.kept.append(self.state.pop(c) + ' (initialised to a constant)')
    def calls_on(self, c):
        """(body, call, key) with a receiver of container type c"""
        for df, m in self.g.mir.items():
            for b in m['blocks']:
                t = b['t']
                if t['k'] != 'call' or not t['at'] or b['cleanup']: continue
                ty = self.g.rt(t['at'][0], ())
                if ty[0] in ('ref', 'ptr') and ty[2] == c:
                    f = self.g.fun(t, ())
                    if f is not None: yield m, t, f
    def constant_once(self, c):
        n = 0
        for m, t, f in self.calls_on(c):
            nm = last(self.p.keys[f[1]])
            if nm in ('get', 'wait', 'fmt'): continue
            if nm not in ('get_or_init',): return False
            ct = self.g.rt(t['at'][1], ())
            if ct[0] == 'closure' and self.closure_constant(ct): n += 1; continue
            if ct[0] == 'closure' and self.memo_of_fixed(ct): n += 1; continue
            if ct[0] == 'fn': n += 1; continue
            return False
        return n > 0
    def closure_constant(self, ct): return not self.g.upvars.get(ct[1])
    def memo_of_fixed(self, ct):
        """the closure reads only fields nobody ever changes"""
        ups = [self.g.rt(u, ct[2]) for u in self.g.upvars.get(ct[1], ())]
        for u in ups:
            x = u
            while x[0] == 'ref': x = x[2]
            if x[0] not in ('adt', 'param', 'dyn') or x[0] == 'adt' and x[1] not in self.p.adt: return False
        # everything the closure may read through accessors that have a mutable counterpart
        names = set()
        for i in self.g.reach([(ct[1], ct[2])]): names.add(last(self.p.keys[i[0]]))
        return not any(n in names for n in ('values', 'x', 'y', 'z')) and all(x for x in ups)

    # ---- taint inside one body
    def body(self, inst):
        """does the result of an instance depend on shared mutable state of its own?"""
        if inst in self.taints: return self.taints[inst]
        self.taints[inst] = None   # recursion: assume not, iterated by the caller
        r = self.analyse(inst)
        self.taints[inst] = r
        return r
    def analyse(self, inst):
        df, env = inst
        m = self.g.mir[df]
        locty = [self.g.rt(t, env) for t in m['locals']]
        taint = {}       # local -> reason
        borrows = {}     # holder local -> bases it may write
        def reason(l): return taint.get(l)
        for l, ty in enumerate(locty):
            x = ty
            while x[0] in ('ref', 'ptr'):
                x = x[2]
            if x in self.state and ty[0] in ('ref', 'ptr') and not self.from_static(m, l) and not self.killed(m, l, locty, env): taint[l] = self.state[x]
        seeds = {}
        for b in m['blocks']:
            for x in b['s']:
                if x['k'] == 'assign' and len(x['p']) == 1:
                    for o in self.g.operands(x['r']):
                        if o['k'] == 'const' and o.get('static') in self.static_seeds and not self.killed(m, x['p'][0], locty, env): seeds[o['static']] = self.static_seeds[o['static']]
        edges = {}
        for e in self.g.edges(inst): edges.setdefault(e[0], []).append(e)
        blocks = m['blocks']
        pd = None
        changed = True
        def op_taint(o):
            if o['k'] in ('copy', 'move'):
                for l in self.locals_of(o['p']):
                    if l in taint: return taint[l]
            if o['k'] == 'const' and 'static' in o:
                return self.mutstatics.get(o['static']) or seeds.get(o['static'])
            return None
        def put(p, why):
            nonlocal changed
            l = p[0]
            if locty[l][0] == 'tuple' and not locty[l][1] and len(p) == 1: return
            if locty[l][0] == 'never': return
            if l not in taint: taint[l] = why; changed = True
            for b in borrows.get(l, ()):
                if b not in taint: taint[b] = why; changed = True
        while changed:
            changed = False
            for bi, b in enumerate(blocks):
                if b['cleanup']: continue
                for x in b['s']:
                    if x['k'] != 'assign': continue
                    r = x['r']
                    d = x['p'][0]
                    if r['k'] == 'ref' and r.get('mut'):
                        s_ = borrows.setdefault(d, set()); new = {r['p'][0]} | borrows.get(r['p'][0], set())
                        if not new <= s_: s_ |= new; changed = True
                    for o in self.g.operands(r):
                        if o['k'] in ('copy', 'move'):
                            new = borrows.get(o['p'][0], set())
                            if new and not new <= borrows.setdefault(d, set()): borrows[d] |= new; changed = True
                        w = op_taint(o)
                        if w: put(x['p'], w)
                    if r['k'] in ('ref', 'discr') or 'p' in r:
                        for l in self.locals_of(r['p']):
                            if l in taint: put(x['p'], taint[l])
                t = b['t']
                if t['k'] == 'call':
                    f = self.g.fun(t, env)
                    nm = last(self.p.keys[f[1]]) if f else ''
                    ws = [w for w in (op_taint(o) for o in t['a']) if w]
                    d = t['p'][0]
                    if any(q[0] == 'ref' and q[1] or q[0] == 'adt' and last(q[1]) in HOLDERS for q in self.g.mentions(locty[d])):
                        for o in t['a']:
                            if o['k'] in ('copy', 'move'):
                                new = borrows.get(o['p'][0], set())
                                if new and not new <= borrows.setdefault(d, set()): borrows[d] |= new; changed = True
                    for e in edges.get(bi, ()):
                        if e[1] == 'acquire': continue
                        for j in e[2]:
                            if j != USER and j[0] in self.g.mir:
                                w = self.body(j)
                                if w and e[1] == 'call': ws.append(w)
                    if ws and nm not in WRITES:
                        put(t['p'], ws[0])
                        for o in t['a']:
                            if o['k'] in ('copy', 'move'):
                                for l in [o['p'][0]]:
                                    for bs in borrows.get(l, ()):
                                        if bs not in taint: taint[bs] = ws[0]; changed = True
                                    if locty[l][0] == 'ref' and locty[l][1] and 1 <= l <= m['argc'] and l not in taint: taint[l] = ws[0]; changed = True
                if t['k'] == 'switch':
                    w = op_taint(t['d'])
                    if w:
                        if pd is None: pd = self.postdominators(m)
                        for rb in self.region(m, bi, pd):
                            for x in blocks[rb]['s']:
                                if x['k'] == 'assign': put(x['p'], w)
                            if blocks[rb]['t']['k'] == 'call': put(blocks[rb]['t']['p'], w)
        if 0 in taint: return taint[0]
        # results written through mutable references
        for bi, b in enumerate(blocks):
            if b['cleanup']: continue
            for x in b['s']:
                if x['k'] != 'assign' or '*' not in x['p']: continue
                l = x['p'][0]
                ty = locty[l]
                for base in {l} | borrows.get(l, set()):
                    if 1 <= base <= m['argc'] and (locty[base][0] == 'ref' and locty[base][1] or m_is_closure(self.p, df) and base == 1):
                        ws = [taint[q] for o in self.g.operands(x['r']) if o['k'] in ('copy', 'move') for q in self.locals_of(o['p']) if q in taint]
                        if ws and not self.own_state(locty[base]): return ws[0]
        for l in range(1, m['argc'] + 1):
            if l in taint and locty[l][0] == 'ref' and locty[l][1] and not self.own_state(locty[l]): return taint[l]
        return None
    def from_static(self, m, l):
        """only ever assigned the address of a static"""
        n = 0
        for b in m['blocks']:
            for x in b['s']:
                if x['k'] == 'assign' and x['p'] == [l]:
                    if not any(o['k'] == 'const' and 'static' in o for o in self.g.operands(x['r'])): return False
                    n += 1
            if b['t']['k'] == 'call' and b['t']['p'] == [l]: return False
        return n > 0
    def own_state(self, ty):
        return any(x in self.state for x in self.g.mentions(ty))
    def locals_of(self, p):
        out = [p[0]]
        for e in p[1:]:
            if isinstance(e, str) and e.startswith('[_'): out.append(int(e[2:-1]))
        return out
    def killed(self, m, l, locty, env):
        """every use of the state's content comes after the content has been overwritten"""
        derived = {l}
        uses = []; kills = []
        blocks = m['blocks']
        ch = True
        while ch:
            ch = False
            for b in blocks:
                if b['cleanup']: continue
                for x in b['s']:
                    if x['k'] == 'assign':
                        r = x['r']
                        src = [r['p'][0]] if 'p' in r else [o['p'][0] for o in self.g.operands(r) if o['k'] in ('copy', 'move')]
                        if any(s in derived for s in src) and (r['k'] in ('ref', 'cast') or r['k'] == 'use' and locty[x['p'][0]][0] in ('ref', 'adt', 'ptr')) and x['p'][0] not in derived: derived.add(x['p'][0]); ch = True
                t = b['t']
                if t['k'] == 'call' and any(o['k'] in ('copy', 'move') and o['p'][0] in derived for o in t['a']):
                    f = self.g.fun(t, env)
                    nm = last(self.p.keys[f[1]]) if f else ''
                    if nm in ('lock', 'try_lock', 'borrow_mut', 'write', 'unwrap', 'expect', 'deref', 'deref_mut', 'unwrap_or_else', 'as_mut', 'get_mut', 'as_mut_slice', 'index_mut', 'borrow'):
                        if t['p'][0] not in derived: derived.add(t['p'][0]); ch = True
        for bi, b in enumerate(blocks):
            if b['cleanup']: continue
            for si, x in enumerate(b['s']):
                if x['k'] != 'assign': continue
                r = x['r']
                src = [r['p'][0]] if 'p' in r else [o['p'][0] for o in self.g.operands(r) if o['k'] in ('copy', 'move')]
                if x['p'][0] in derived and '*' in x['p'] and len([q for q in x['p'][1:] if q != '*']) == 0: kills.append((bi, si))
                elif any(s in derived for s in src) and x['p'][0] not in derived: uses.append((bi, si))
            t = b['t']
            if t['k'] == 'call' and any(o['k'] in ('copy', 'move') and o['p'][0] in derived for o in t['a']) and t['p'][0] not in derived:
                f = self.g.fun(t, env)
                nm = last(self.p.keys[f[1]]) if f else ''
                at0 = self.g.rt(t['at'][0], env)
                if nm in KILLS and nm not in ('take', 'replace', 'set') and t['a'] and t['a'][0]['k'] in ('copy', 'move') and t['a'][0]['p'][0] in derived: kills.append((bi, len(b['s'])))
                else: uses.append((bi, len(b['s'])))
        if not kills or not uses: return False
        dom = self.dominators(m)
        return all(any((kb == ub and ks < us) or (kb != ub and kb in dom[ub]) for kb, ks in kills) for ub, us in uses)
    def flow(self, m):
        return {i: [s for s, c in self.g.succ_kinds(b['t']) if not c and not m['blocks'][s]['cleanup']] for i, b in enumerate(m['blocks'])}
    def dominators(self, m, succ=None, entry=0):
        succ = succ or self.flow(m)
        nodes = set(); st_ = [entry]
        while st_:
            x = st_.pop()
            if x in nodes: continue
            nodes.add(x); st_.extend(succ.get(x, ()))
        pred = {n: set() for n in nodes}
        for a in nodes:
            for b in succ.get(a, ()):
                if b in nodes: pred[b].add(a)
        dom = {n: set(nodes) for n in nodes}; dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for n in nodes:
                if n == entry: continue
                ps = [dom[q] for q in pred[n]]
                new = (set.intersection(*ps) if ps else set()) | {n}
                if new != dom[n]: dom[n] = new; ch = True
        for i in range(len(m['blocks']) if hasattr(m, 'get') else 0): dom.setdefault(i, {i})
        return dom
    def postdominators(self, m):
        succ = self.flow(m)
        rev = {i: set() for i in range(len(m['blocks']))}
        ex = -1; rev[ex] = set()
        for a, bs in succ.items():
            if not bs and m['blocks'][a]['t']['k'] == 'return': rev[ex].add(a)
            for b in bs: rev[b].add(a)
        return self.dominators(m, {k: list(v) for k, v in rev.items()}, ex)
    def region(self, m, bi, pd):
        """blocks whose execution depends on the branch at bi"""
        succ = self.flow(m)
        stop = pd.get(bi, {bi}) - {bi}
        out = set(); st_ = list(succ[bi])
        while st_:
            x = st_.pop()
            if x in out or x in stop: continue
            out.add(x); st_.extend(succ[x])
        return out

    # ---- schedule and environment
    def constructs(self, inst):
        """constructs of one instance whose outcome is not a function of the arguments: (kind, verdict, text)"""
        df, env = inst
        m = self.g.mir[df]
        locty = [self.g.rt(t, env) for t in m['locals']]
        names = []
        for b in m['blocks']:
            if b['t']['k'] == 'call' and not b['cleanup']:
                f = self.g.fun(b['t'], env)
                if f: names.append(self.p.keys[f[1]])
        sorts = any(last(n) in SORTS or 'BTree' in n or 'BinaryHeap' in n for n in names)
        for bi, b in enumerate(m['blocks']):
            t = b['t']
            if b['cleanup']: continue
            for x in b['s']:
                if x['k'] == 'assign' and x['r']['k'] == 'cast' and 'PointerExpose' in x['r']['c']: yield ('address', False, 'the address of a value is used as a number')
            if t['k'] != 'call': continue
            f = self.g.fun(t, env)
            if f is None: continue
            key = self.p.keys[f[1]]; nm = last(key)
            d = self.p.defs[f[1]]
            if d['local']: continue
            at = [self.g.rt(a, env) for a in t['at']]
            recv = at[0] if at else ('?',)
            while recv[0] == 'ref': recv = recv[2]
            if key.startswith('rayon') or any(key.startswith(q) for q in PARALLEL):
                if nm in UNORDERED:
                    keyed = any(q[0] == 'adt' and last(q[1]) == 'Vec' and q[2] and q[2][0][0] == 'tuple' and q[2][0][1] and q[2][0][1][0][0] == 'uint' for ty in locty for q in self.g.mentions(ty))
                    yield ('order', sorts or keyed and nm == 'par_bridge', '%s yields items in the order in which threads finish' % nm)
                if nm in REORDERING:
                    if nm in ('sum', 'product'):
                        if self.number(self.g.rt(t['pt'], env)): yield ('order', False, 'parallel %s of floating-point numbers depends on how the work is split' % nm)
                    else:
                        for a in at[1:]:
                            for q in self.g.mentions(a):
                                if q[0] == 'closure' and self.combines_reals(q): yield ('order', False, 'parallel %s combines floating-point numbers in an order that depends on how the work is split' % nm); break
                for a in at:
                    for q in self.g.mentions(a):
                        if q[0] == 'closure': yield from self.crossing(q, sorts)
            if any(key.startswith(e) for e in ENVIRON) and not key.startswith('std::thread::local') :
                yield ('environment', False, 'it reads ' + key)
            if nm in COUNTS: yield ('environment', True, 'it reads the number of threads')
            if nm in HASHITER and recv[0] == 'adt' and last(recv[1]) in HASHES and not self.registry(recv):
                if not sorts and self.ordered_use(m, bi, env): yield ('order', False, 'it iterates over a hash table, in an order that differs between runs')
                else: yield ('order', True, 'it iterates over a hash table')
    def real(self, ty): return any(q == ('float', 'f64') or q == ('float', 'f32') or q[0] == 'adt' and last(q[1]) in ('AFloat', 'Matrix') for q in self.g.mentions(ty)) and last(str(ty[1] if len(ty) > 1 else '')) != 'Vec'
    def number(self, ty):
        while ty[0] == 'ref': ty = ty[2]
        return ty[0] == 'float' or ty[0] == 'adt' and last(ty[1]) == 'AFloat'
    def combines_reals(self, ct):
        if ct[1] not in self.g.mir: return False
        for i in self.g.reach([(ct[1], ct[2])]):
            m = self.g.mir[i[0]]
            lt_ = [self.g.rt(t, i[1]) for t in m['locals']]
            for b in m['blocks']:
                for x in b['s']:
                    if x['k'] == 'assign' and x['r']['k'] == 'bin' and x['r']['op'] in ('Add', 'Sub', 'Mul', 'Div'):
                        for o in self.g.operands(x['r']):
                            if o['k'] in ('copy', 'move') and self.optype(o, lt_)[0] == 'float' or o['k'] == 'const' and self.g.rt(o['ty'], i[1])[0] == 'float': return True
                t = b['t']
                if t['k'] == 'call':
                    f = self.g.fun(t, i[1])
                    if f and last(self.p.keys[f[1]]) in ('add', 'sub', 'mul', 'div', 'add_assign', 'sub_assign', 'mul_assign', 'axpy', 'gemm') and any(self.number(self.g.rt(a, i[1])) for a in t['at']): return True
        return False
    def optype(self, o, locty):
        ty = locty[o['p'][0]]
        for e in o['p'][1:]:
            if e == '*' and ty[0] in ('ref', 'ptr'): ty = ty[2]
            elif isinstance(e, int) and ty[0] == 'tuple': ty = ty[1][e]
            elif isinstance(e, int) and ty[0] == 'adt' and ty[1] in self.p.adt:
                a = self.p.adt[ty[1]]; ty = self.g.rt(a['variants'][0]['fields'][e][1], tuple(zip(a['generics'], ty[2])))
            else: return ('?',)
        return ty
    def crossing(self, ct, sorts):
        """what a closure run in parallel does to state it shares with the others"""
        ups = [self.g.rt(u, ct[2]) for u in self.g.upvars.get(ct[1], ())]
        shared = set()
        for u in ups:
            x = u
            while x[0] == 'ref': x = x[2]
            for c in self.outer_cells(u): shared.add(c)
            if x[0] == 'adt' and last(x[1]) in ('Sender', 'SyncSender'): shared.add(x)
        if not shared or ct[1] not in self.g.mir: return
        for i in self.g.reach([(ct[1], ct[2])]):
            m = self.g.mir[i[0]]
            if not (self.p.keys[i[0]].startswith(self.p.keys[ct[1]]) or i[0] == ct[1]): continue
            locty = [self.g.rt(t, i[1]) for t in m['locals']]
            guards = [l for l, ty in enumerate(locty) if self.g.guard(ty) is not None and not self.registry(ty)]
            for b in m['blocks']:
                if b['cleanup']: continue
                for x in b['s']:
                    if guards and x['k'] == 'assign' and '*' in x['p'] and x['r']['k'] == 'bin' and x['r']['op'] in ('Add', 'Sub', 'Mul', 'Div') and self.optype({'p': x['p']}, locty)[0] == 'float':
                        yield ('order', False, 'tasks add to a shared floating-point number in the order in which they finish')
                t = b['t']
                if t['k'] != 'call': continue
                f = self.g.fun(t, i[1])
                if f is None: continue
                nm = last(self.p.keys[f[1]])
                at = [self.g.rt(a, i[1]) for a in t['at']]
                if nm in APPENDS and len(at) == 2 and (guards or at[0][0] == 'ref' and at[0][2] in shared):
                    el = at[1]
                    while el[0] == 'adt' and last(el[1]) in ('Vec', 'Option', 'IntoIter') and el[2]: el = el[2][0]
                    if el[0] == 'ref' and el[2][0] == 'adt' and last(el[2][1]) == 'Vec': el = el[2][2][0]
                    keyed = el[0] == 'tuple' and el[1] and el[1][0][0] == 'uint'
                    if at[0][0] == 'ref' and at[0][2][0] == 'adt' and last(at[0][2][1]) in ('Vec', 'VecDeque', 'String', 'Sender', 'SyncSender', 'LinkedList', 'Mutex'):
                        yield ('order', bool(sorts or keyed), 'tasks append to a shared list in the order in which they finish')
                if nm in ('add_assign', 'sub_assign', 'mul_assign', 'axpy') and guards and any(self.real(a) for a in at): yield ('order', True, 'tasks add to a shared matrix in the order in which they finish')
                if nm.startswith('fetch_') and self.used(m, t['p'][0]): yield ('order', True, 'tasks draw numbers from a shared counter')
    def used(self, m, l):
        for b in m['blocks']:
            for x in b['s']:
                if x['k'] == 'assign':
                    if any(o['k'] in ('copy', 'move') and l in self.locals_of(o['p']) for o in self.g.operands(x['r'])): return True
            t = b['t']
            if t['k'] == 'call' and any(o['k'] in ('copy', 'move') and o['p'][0] == l for o in t['a']): return True
            if t['k'] == 'switch' and t['d']['k'] in ('copy', 'move') and t['d']['p'][0] == l: return True
        return False
    def ordered_use(self, m, bi, env):
        """is the order of the items that follow kept?"""
        for b in m['blocks']:
            t = b['t']
            if t['k'] == 'call' and not b['cleanup']:
                f = self.g.fun(t, env)
                if not f: continue
                key = self.p.keys[f[1]]; nm = last(key)
                if nm in ('collect', 'extend', 'push', 'append', 'from_iter', 'from_iterator', 'fold', 'sum', 'product', 'next', 'find', 'position', 'last', 'nth', 'zip', 'enumerate', 'next_back', 'chain', 'reduce', 'max_by', 'min_by'):
                    ty = self.g.rt(t['pt'], env)
                    if nm in ('collect', 'from_iter') and ty[0] == 'adt' and last(ty[1]) in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'BinaryHeap'): continue
                    if nm in ('sum', 'product') and ty[0] in ('int', 'uint'): continue
                    return True
        return False

def m_is_closure(p, df): return p.defs[df]['kind'] == 'Closure'

def c27(ck, prog):
    contained(ck, 'effects', 'advantage', lambda: effects(ck, prog))

def effects(ck, prog):
    ck.rules.append('no result of an entry point depends on state shared between calls (statics, thread-locals and interior-mutable fields other than the registry), on the environment, or on the order in which parallel tasks finish; no value behind a shared reference is written through a raw pointer')
    e = Effects(prog); g = e.g
    entries = []
    for k in base_api():
        if not k.startswith('advantage::ffi'):
            m = g.bykey.get(k)
            if m is not None: entries.append((k, (m['def'], ())))
    for k in ('advantage::tape::Tape::first_order_forward', 'advantage::tape::Tape::first_order_reverse', 'advantage::tape::Tape::zero_order', 'advantage::drivers::jacobian::jacobian_forward', 'advantage::drivers::jacobian::jacobian_reverse', 'advantage::function::Function::tape'):
        ck.anchor(k in g.bykey, k)
    reported = set()
    insts = g.reach([i for _, i in entries])
    # taint to a fixpoint over recursion
    for _ in range(3):
        before = dict(e.taints); e.taints = {k: v for k, v in e.taints.items() if v}
        for i in insts: e.body(i)
        if {k: v for k, v in before.items() if v} == {k: v for k, v in e.taints.items() if v}: break
    bad = {}
    for i in sorted(insts, key=str):
        k = g.label(i)
        ck.visited[k] = ck.visited.get(k, 0) + 1
        for kind, quiet, text in e.constructs(i):
            if (k, text) in reported: continue
            reported.add((k, text))
            if quiet: ck.undecided('depends on nothing but its arguments', k, text)
            else: ck.violation('depends on nothing but its arguments', k, text); bad[k] = 1
        for text in raw_writes(g, i):
            if (k, text) in reported: continue
            reported.add((k, text)); ck.violation('shared references are not written through', k, text); bad[k] = 1
    for k, i in entries:
        w = e.body(i)
        if w: ck.violation('depends on nothing but its arguments', k, 'the result depends on %s, which outlives the call' % w)
        elif k not in bad: ck.ok('depends on nothing but its arguments', k, 'reaches %d functions' % len(g.reach([i])))
    # entry points that may change what they are given
    for k, i in entries:
        it = prog.item.get(k)
        if not it: continue
        muts = [g.rt(x, ()) for x in it['inputs']]
        tapes = [t for t in muts if t[0] == 'ref' and not t[1] and any('Tape' in str(q[1]) for q in g.mentions(t) if q[0] in ('adt', 'dyn', 'param') and len(q) > 1)]
        if tapes: ck.ok('takes the tape by shared reference', k)
    ck.sites += g.nsites
    ck.extra.update({'entry_points': len(entries), 'instances': len(insts), 'shared_state': sorted(set(e.state.values()) | set(e.mutstatics.values()) | set(e.static_seeds.values())), 'registry': sorted(set(e.kept))})

def raw_writes(g, inst):
    """writes through a raw pointer made from a shared reference"""
    m = g.mir[inst[0]]
    locty = [g.rt(t, inst[1]) for t in m['locals']]
    raw = set()
    ch = True
    def shared_src(p):
        ty = locty[p[0]]
        return ty[0] == 'ref' and not ty[1]
    n = 0
    while ch and n < 20:
        ch = False; n += 1
        for b in m['blocks']:
            for x in b['s']:
                if x['k'] != 'assign': continue
                r = x['r']; l = x['p'][0]
                if locty[l][0] != 'ptr' and not (locty[l][0] == 'ref' and locty[l][1]): continue
                src = []
                if r['k'] in ('use', 'cast'): src = [o['p'] for o in g.operands(r) if o['k'] in ('copy', 'move')]
                elif r['k'] == 'ref': src = [r['p']]
                for p in src:
                    if (p[0] in raw or locty[l][0] == 'ptr' and shared_src(p)) and l not in raw: raw.add(l); ch = True
            t = b['t']
            if t['k'] == 'call' and t['a'] and t['a'][0]['k'] in ('copy', 'move'):
                f = g.fun(t, inst[1])
                nm = last(g.p.keys[f[1]]) if f else ''
                p = t['a'][0]['p']
                if nm in ('as_ptr', 'cast_mut', 'cast', 'add', 'offset', 'from_ref', 'get') and locty[t['p'][0]][0] == 'ptr' and (p[0] in raw or shared_src(p)) and t['p'][0] not in raw: raw.add(t['p'][0]); ch = True
                if nm in ('from_raw_parts_mut', 'as_mut') and p[0] in raw and t['p'][0] not in raw: raw.add(t['p'][0]); ch = True
    for b in m['blocks']:
        if b['cleanup']: continue
        for x in b['s']:
            if x['k'] == 'assign' and '*' in x['p'] and x['p'][0] in raw: yield 'it writes through a raw pointer obtained from a shared reference'
        t = b['t']
        if t['k'] == 'call':
            f = g.fun(t, inst[1])
            nm = last(g.p.keys[f[1]]) if f else ''
            if t['a'] and t['a'][0]['k'] in ('copy', 'move') and t['a'][0]['p'][0] in raw and locty[t['a'][0]['p'][0]][0] in ('ptr', 'ref'):
                if nm in ('write', 'write_unaligned', 'write_volatile', 'write_bytes', 'swap', 'replace', 'copy_from_slice', 'fill', 'push', 'clear') or (f and locty[t['a'][0]['p'][0]][0] == 'ref' and locty[t['a'][0]['p'][0]][1]):
                    yield 'it writes through a raw pointer obtained from a shared reference'
