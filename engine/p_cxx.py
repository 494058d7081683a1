"""C24-C26: the C interface and the C++ wrapper."""
from common import *
from p_ctx import contained, Session, observe, live, opaque_ctx, CTX
import cxx, p_float, p_ops
from cxx import Bad, Heap, UNDEF

# ---------------------------------------------------------------- C++ objects
class Explorer:
    """object states reachable through the public operations of the wrapper classes"""
    def __init__(self, ck, link):
        self.ck = ck; self.l = link; self.size = {}
        for c in ('ad', 'ctx'):
            h = Heap(link); self.size[c] = h.call('w_size_' + c, [])
        self.states = {'ad': {}, 'ctx': {}}      # state -> how it was reached; a state is (shape, moved from)
        self.reported = set(); self.count = 0; self.visited = {}; self.calls = 0
    # -- shapes
    def shape(self, h, root):
        """canonical content reachable from an object; also the cells and handles it owns"""
        idx = {root[1]: 0}; order = [root[1]]; cells = {}; hs = {}; hl = []
        k = 0
        while k < len(order):
            o = h.objs[order[k]]; k += 1
            row = []
            for off in sorted(o.data):
                s, v = o.data[off]
                if isinstance(v, tuple) and v[0] == 'ptr':
                    t = h.objs[v[1]]
                    if not t.live: x = 'dangling'
                    elif t.kind == 'global': x = ('global', t.name, v[2])
                    else:
                        if v[1] not in idx: idx[v[1]] = len(order); order.append(v[1])
                        x = ('cell', idx[v[1]], v[2])
                elif isinstance(v, tuple) and v[0] == 'h':
                    q = h.handles[v[1]]
                    if not q['live']: x = 'dangling handle'
                    else:
                        if v[1] not in hs: hs[v[1]] = len(hl); hl.append(v[1])
                        x = ('handle', q['kind'], hs[v[1]])
                elif isinstance(v, tuple) and v[0] == 'fn': x = ('fn', v[1])
                elif isinstance(v, int): x = v
                elif v == UNDEF: x = 'uninitialised'
                elif isinstance(v, T): x = 'number'
                else: raise Give('object content')
                row.append((off, s, x))
            cells[order[k - 1]] = tuple(row)
        return (tuple((h.objs[i].size, cells[i]) for i in order)), order, hl
    def build(self, h, cls, shape, name):
        """fresh object of this shape with symbolic values"""
        ptrs = [h.alloc('root' if i == 0 else 'heap', s) for i, (s, _) in enumerate(shape)]
        hs = {}
        for p, (s, row) in zip(ptrs, shape):
            for off, sz, x in row:
                if isinstance(x, tuple) and x[0] == 'cell': v = ('ptr', ptrs[x[1]][1], x[2])
                elif isinstance(x, tuple) and x[0] == 'handle':
                    if x[2] not in hs: hs[x[2]] = h.handle(x[1], (('in' if x[1] == 'ad' else 'ctx'), name if x[2] == 0 else '%s.%d' % (name, x[2])))
                    v = hs[x[2]]
                elif isinstance(x, tuple) and x[0] == 'global': raise Give('object refers to a global')
                elif x in ('dangling', 'dangling handle'):
                    if x == 'dangling': v = h.alloc('heap', 8); h.objs[v[1]].live = False
                    else: v = h.handle('ad', ('dead',)); h.handles[v[1]]['live'] = False
                elif x == 'uninitialised': v = UNDEF
                elif x == 'number': v = sym('%s.n%d' % (name, off))
                else: v = x
                h.store(('ptr', p[1], off), sz, v)
        return ptrs[0]
    def value(self, h, p):
        """value of a scalar object: that of its only live handle, else what marking it dependent passes on"""
        sh, cells, hl = self.shape(h, p)
        hl = [x for x in hl if h.handles[x]['kind'] == 'ad']
        if len(hl) == 1: return h.handles[hl[0]]['val']
        c = h.alloc('root', self.size['ctx']); h.call('w_ctx_default', [c])
        n = len(h.events); h.call('w_ctx_dep', [c, p])
        ev = [e for e in h.events[n:] if e[0] == 'dep']
        h.call('w_ctx_destroy', [c])
        return ev[0][2] if ev else None
    def identity(self, h, p):
        sh, cells, hl = self.shape(h, p)
        c = [x for x in hl if h.handles[x]['kind'] == 'ctx']
        return h.handles[c[0]]['val'] if len(c) == 1 else None

    # -- one operation
    def problem(self, op, where, kind, msg, tag):
        key = (op, kind, where.split(' < ')[0])
        if key in self.reported: return
        self.reported.add(key)
        self.ck.violation('%s: %s' % (op, kind), tag, '%s%s' % (msg, '; call path ' + where if where else ''))
    def apply(self, op, params, values, moved_in=(), must=True):
        """runs w_<op>; params: list of ('new'|'ad'|'ctx'|'num', index or None). Returns (heap, pointers, result) or None"""
        h = Heap(self.l, WAY.decide)
        ptrs = []
        objs = {}
        for k, (kind, st_, name) in enumerate(params):
            if kind == 'new_ad': p = h.alloc('root', self.size['ad'])
            elif kind == 'new_ctx': p = h.alloc('root', self.size['ctx'])
            elif kind == 'num': p = sym(name)
            else:
                if name not in objs: objs[name] = self.build(h, kind, st_, name)
                p = objs[name]
            ptrs.append(p)
        h.objs0 = objs
        r = None
        h.n0 = h.n
        try: r = h.call('w_' + op, ptrs)
        finally:
            for k, v in h.visited.items(): self.visited[k] = self.visited.get(k, 0) + v
            self.calls += h.calls
        return h, ptrs, r

    def owned(self, h, roots):
        """violations of unique ownership: leaks; and sharing between objects"""
        seenc, seenh = {}, {}
        shared = []
        for name, p in roots.items():
            sh, cells, hl = self.shape(h, p)
            for c in cells[1:]:
                if c in seenc: shared.append((seenc[c], name))
                seenc[c] = name
            for x in hl:
                if x in seenh: shared.append((seenh[x], name))
                seenh[x] = name
            for other, q in roots.items():
                if other != name and q[1] in cells: shared.append((name, other))
        glob = [o for o in h.objs.values() if o.kind == 'global' and o.data]
        reach = set(); rh = set()
        for g in glob:
            sh, cells, hl = self.shape(h, ('ptr', g.id, 0))
            reach |= set(cells); rh |= set(hl)
        leaks = []
        for o in h.objs.values():
            if o.kind == 'heap' and o.live and o.id not in seenc and o.id not in reach: leaks.append('memory allocated by %s' % (o.where or 'an earlier operation'))
        for i, q in h.handles.items():
            if q['live'] and i not in seenh and i not in rh: leaks.append('a library handle (%s) obtained in %s' % ('context' if q['kind'] == 'ctx' else 'scalar', q['where'] or 'an earlier operation'))
        return leaks, shared

CTORS = {'ad_default': ('ad', []), 'ad_value': ('ad', ['num']), 'ad_copy': ('ad', ['const']), 'ad_move': ('ad', ['move']), 'ctx_default': ('ctx', []), 'ctx_move': ('ctx', ['cmove'])}
def operations():
    """name -> (parameters, role of each). roles: new_ad, new_ctx, read, from (moved from), to (assigned to), gone, num, ctx (used), same pairs allowed"""
    O = {}
    O['ad_default'] = ['new_ad']; O['ad_value'] = ['new_ad', 'num']; O['ad_copy'] = ['new_ad', 'read']; O['ad_move'] = ['new_ad', 'from']
    O['ad_copy_assign'] = ['to', 'read']; O['ad_move_assign'] = ['to', 'from']; O['ad_value_assign'] = ['to', 'num']; O['ad_destroy'] = ['gone']
    O['ctx_default'] = ['new_ctx']; O['ctx_move'] = ['new_ctx', 'cfrom']; O['ctx_move_assign'] = ['cto', 'cfrom']; O['ctx_destroy'] = ['cgone']
    O['ctx_indep'] = ['new_ad', 'cuse']; O['ctx_dep'] = ['cuse', 'read']
    for o in ('add', 'sub', 'mul', 'div', 'min', 'max'):
        O[o + '_aa'] = ['new_ad', 'read', 'read']; O[o + '_ad'] = ['new_ad', 'read', 'num']; O[o + '_da'] = ['new_ad', 'num', 'read']
    for o in ('sin', 'cos', 'tan', 'abs', 'exp', 'ln'): O[o + '_a'] = ['new_ad', 'read']
    O['nested'] = ['new_ad', 'read', 'read']
    O['swap'] = ['to2', 'to2']; O['ctx_swap'] = ['cto2', 'cto2']
    return O

def denote(v):
    """mathematical value of a scalar term"""
    if v[0] == 'in': return sym(v[1])
    if v[0] == 'const': return v[1]
    if v[0] == 'indep': return mk('app', 'indep:%s' % (v[1:],), 'real')
    if v[0] == 'op':
        a = [denote(x) for x in v[2:]]
        f = {'add': add, 'sub': sub, 'mul': mul, 'div': div, 'min': fmin, 'max': fmax}.get(v[1])
        return f(*a) if f else fn(v[1], a[0])
    raise Give('value')
def same(ck, name, where, got, want):
    """obligation that two scalar values agree"""
    if got is None: ck.undecided(name, where, 'the value is not held in a library handle'); return
    if got == want: ck.ok(name, where, str(show_val(want))); return
    d = ck_eq(denote(got), denote(want))
    if d is True and WAY.facts: ck.ok(name, where, str(show_val(want))); return
    if d is False: ck.violation(name, where, 'computed %s, required %s' % (show_val(got), show_val(want)))
    else: ck.undecided(name, where, 'computed %s, required %s' % (show_val(got), show_val(want)))
class Fork:
    """the ways a walk can take at comparisons of numbers; the facts of the current way"""
    def __init__(self, facts=()): self.base = tuple(facts); self.plan = []; self.facts = self.base; self.k = 0
    def ways(self, limit=16):
        for _ in range(limit):
            self.facts = self.base; self.k = 0
            yield self
            del self.plan[self.k:]
            while self.plan and self.plan[-1] is False: self.plan.pop()
            if not self.plan: return
            self.plan[-1] = False
        raise Give('too many ways')
    def decide(self, c):
        from theory import decide, inconsistent
        if c[1] == 'not': return not self.decide(c[2])
        if c[1] == 'ord': return True
        l, r = c[2], c[3]
        if l == UNDEF or r == UNDEF or not (isinstance(l, T) and isinstance(r, T)): raise Give('branch on a number: %s' % (c[1],))
        t = {'lt': lambda: flt(l, r), 'gt': lambda: flt(r, l), 'le': lambda: not_(flt(r, l)), 'ge': lambda: not_(flt(l, r)), 'eq': lambda: feq(l, r), 'ne': lambda: not_(feq(l, r))}[c[1]]()
        d = decide(t, self.facts)
        if d is not None: return d
        no = [inconsistent(self.facts + lits(t)), inconsistent(self.facts + lits(not_(t)))]
        if any(no): return bool(no[1])
        if self.k == len(self.plan): self.plan.append(True)
        d = self.plan[self.k]; self.k += 1
        if any(x.op not in ('sym', 'poly') or any(y.op != 'sym' for y in x.fs) or any(sum(e for _, e in m) > 1 for m in TM.P(x)) for x in (l, r)): raise Give('branch on a computed number')
        self.facts = self.facts + lits(t if d else not_(t))
        return d
WAY = Fork()
def ck_eq(a, b):
    c = Cmp(); F = WAY.facts
    if F:
        from theory import decide
        z = {x: ZERO for x in a.fs | b.fs if x.op == 'sym' and decide(feq(x, ZERO), F) is True}
        if z: a, b = subst(a, z), subst(b, z)
        if a is b: return True
        d = decide(feq(a, b), F)
        if d is not None: return d
    try: v = TM.limited(60, lambda: c.eq(a, b, F))
    except (Give, RecursionError, TM.Budget): v = None
    if v is None:
        try:
            if TM.limited(60, lambda: refute(a, b, F)): v = False
        except (Give, RecursionError, TM.Budget): pass
    return v
def show_val(v):
    if v[0] == 'in': return v[1]
    if v[0] == 'const': return short(v[1])
    if v[0] == 'op': return '%s(%s)' % (v[1], ', '.join(show_val(x) for x in v[2:]))
    return '%s' % (v,)

def link(ck):
    try: return cxx.Linked(cxx.compile_all())
    except cxx.CompileError as e:
        ck.violation('the wrapper offers its operations', 'src/cxx', 'a program using every public operation does not compile: %s' % e); return None

def explore(ck, ownership, semantics):
    l = link(ck)
    if l is None: return
    for o in operations(): ck.anchors.append('w_' + o)
    ex = Explorer(ck, l)
    O = operations()
    todo = True; done = set(); nstates = 0
    names = ('a', 'b', 'c')
    while todo:
        todo = False
        if sum(len(v) for v in ex.states.values()) > 40: ck.undecided('reachable states', 'src/cxx', 'more than 40 object states'); break
        for op, roles in O.items():
            for combo in combos(roles, ex.states):
                if (op, combo) in done: continue
                done.add((op, combo)); todo = True
                contained(ck, 'operation ' + op, 'src/cxx', lambda: step(ck, ex, op, roles, combo, ownership, semantics))
    for c in ('ad', 'ctx'):
        if not ex.states[c]: ck.violation('objects can be constructed', 'src/cxx', 'no object of class %s is ever constructed' % c)
    ck.visited.update({l.show(k): v for k, v in ex.visited.items() if not k.startswith('w_')}); ck.sites += ex.calls
    ck.extra['object_states'] = {c: len(s) for c, s in ex.states.items()}
    ck.extra['operations_applied'] = len(done)
    return ex

def cls_of(role): return 'ctx' if role.startswith('c') else 'ad'
def combos(roles, states):
    """assignments of states (and names) to the parameters"""
    out = [()]
    k = 0
    for r in roles:
        if r.startswith('new') or r == 'num': out = [c + (None,) for c in out]; continue
        nxt = []
        for c in out:
            used = [(x[0], x[1]) for x in c if x is not None and x[2] == cls_of(r)]
            for s in list(states[cls_of(r)]): nxt.append(c + ((s, 'abc'[len([x for x in c if x])], cls_of(r)),))
            for s, n in used: nxt.append(c + ((s, n, cls_of(r)),))
        out = nxt
    return out
def describe(op, roles, combo):
    w = []
    for r, c in zip(roles, combo):
        if c is None: continue
        w.append('%s%s' % (c[1], ' (moved from)' if c[0][1] else ''))
    return op + (' on ' + ', '.join(w) if w else '')

def step(ck, ex, op, roles, combo, ownership, semantics):
    global WAY
    WAY = Fork()
    try:
        for _ in WAY.ways(): step1(ck, ex, op, roles, combo, ownership, semantics)
    finally: WAY = Fork()
def step1(ck, ex, op, roles, combo, ownership, semantics):
    where = where_of(op)
    tag = describe(op, roles, combo)
    params = []; ni = 0
    for r, c in zip(roles, combo):
        if r in ('new_ad', 'new_ctx'): params.append((r, None, None))
        elif r == 'num': params.append(('num', None, 'n')); ni += 1
        else: params.append((c[2], c[0][0], c[1]))
    moved = {c[1]: c[0][1] for c in combo if c is not None}
    # which parameters may be in the moved-from state here: targets of assignment and destruction
    tolerant = any(moved[c[1]] and not (r in ('to', 'cto', 'gone', 'cgone')) for r, c in zip(roles, combo) if c is not None)
    selfassign = len({c[1] for c in combo if c}) < len([c for c in combo if c])
    try: h, ptrs, res = ex.apply(op, params, None)
    except Bad as e:
        if e.kind in ('null', 'throws') and tolerant and not (selfassign and 'from' in ''.join(roles)): return
        if ownership: ex.problem(tag, e.where, e.kind, e.msg, where)
        elif semantics and e.kind in ('null', 'throws', 'unreachable'): ex.problem(tag, e.where, e.kind, e.msg, where)
        return
    ex.count += 1
    objs = dict(h.objs0)
    for r, p in zip(roles, ptrs):
        if r in ('new_ad', 'new_ctx'): objs['result'] = p
    gone = {c[1] for r, c in zip(roles, combo) if r in ('gone', 'cgone')}
    live_ = {n: p for n, p in objs.items() if n not in gone}
    if ownership:
        leaks, shared = ex.owned(h, live_)
        for x in leaks: ex.problem(tag, '', 'leak', '%s is owned by no object afterwards' % x, where)
        if shared: sharing(ck, ex, op, roles, params, tag, where, live_, shared)
        if not leaks and not shared: ck.ok('unique ownership after ' + tag, where)
        if shared: return
    # values
    before = {}
    h0 = Heap(ex.l)
    for c in combo:
        if c and c[1] not in before:
            if c[2] == 'ad': before[c[1]] = ('in', c[1])
            else: before[c[1]] = ('ctx', c[1])
    roles_of = {}
    for r, c in zip(roles, combo):
        if c: roles_of.setdefault(c[1], []).append(r)
    nmoved = {}
    val = lambda n: before[n]
    cname = [c[1] if c else None for c in combo]
    expect = {}
    N = ('const', sym('n'))
    if op == 'ad_default': expect['result'] = ('const', ZERO)
    elif op in ('ad_value',): expect['result'] = N
    elif op == 'ad_value_assign': expect[cname[0]] = N
    elif op in ('ad_copy', 'ad_move'): expect['result'] = val(cname[1])
    elif op in ('ad_copy_assign',): expect[cname[0]] = val(cname[1])
    elif op == 'ad_move_assign' and not selfassign: expect[cname[0]] = val(cname[1])
    elif op == 'ctx_move': expect['result'] = val(cname[1])
    elif op == 'ctx_move_assign' and not selfassign: expect[cname[0]] = val(cname[1])
    elif op in ('swap', 'ctx_swap') and not selfassign: expect[cname[0]] = val(cname[1]); expect[cname[1]] = val(cname[0])
    elif op in ('swap', 'ctx_swap'): expect[cname[0]] = val(cname[0])
    from_ = {n for n, rs in roles_of.items() if any(r in ('from', 'cfrom') for r in rs)}
    for n, rs in roles_of.items():
        if n in gone or n in from_ or n in expect: continue
        if any(r in ('read', 'cuse') for r in rs): expect[n] = val(n)
    # states afterwards
    for n, p in live_.items():
        if n == 'result': c = 'ad' if 'new_ad' in roles else 'ctx'
        else: c = next(x[2] for x in combo if x and x[1] == n)
        sh = ex.shape(h, p)[0]
        mv = n in from_
        if n == 'result' or n in {cname[0]} and roles[0] in ('to', 'cto', 'to2', 'cto2') and n not in from_:
            # takes over what its source was
            src = cname[1] if len(cname) > 1 else None
            mv = bool(src and moved.get(src)) if op in ('ad_copy', 'ad_move', 'ad_copy_assign', 'ad_move_assign', 'ctx_move', 'ctx_move_assign', 'swap', 'ctx_swap') else any(moved.values()) and n == 'result'
        elif n not in from_: mv = moved.get(n, False)
        if roles[0] in ('to2', 'cto2') and not selfassign and n == cname[1]: mv = moved.get(cname[0])
        nmoved[n] = mv
        if (sh, mv) not in ex.states[c]: ex.states[c][sh, mv] = tag
    # does anything still in use refer to something released?
    if ownership:
        for n, p in live_.items():
            if nmoved.get(n): continue
            c = 'ad' if n == 'result' and 'new_ad' in roles else 'ctx' if n == 'result' else next(x[2] for x in combo if x and x[1] == n)
            w = expect.get(n)
            if w is None or any(moved.values()): continue
            if op in ('ad_copy', 'ad_move', 'ad_copy_assign', 'ad_move_assign', 'ctx_move', 'ctx_move_assign', 'swap', 'ctx_swap', 'ad_default', 'ad_value', 'ad_value_assign') or n != 'result':
                try: got = ex.value(h, p) if c == 'ad' else ex.identity(h, p)
                except Bad as e: ex.problem(tag, e.where, e.kind, e.msg, where); continue
                if c == 'ctx':
                    if got == w: ck.ok('%s of %s' % (n, tag), where, 'keeps its context')
                    elif got is None and not any(isinstance(x, tuple) and x[0] == 'handle' for s, row in ex.shape(h, p)[0] for o, z, x in row): ex.problem(tag, '', 'context lost', '%s holds no context any more' % n, where)
                    elif got is not None and got[0] == 'ctx': ex.problem(tag, '', 'wrong context', '%s holds another context' % n, where)
                    else: ck.undecided('%s of %s' % (n, tag), where, 'context not identified')
                else: same(ck, 'value of %s after %s' % (n, tag), where, got, w)
    if semantics and not any(moved.values()): meaning(ck, ex, op, roles, cname, h, ptrs, tag, where, before)

def sharing(ck, ex, op, roles, params, tag, where, live_, shared):
    """two objects own the same thing: destroying both must not release it twice"""
    bad = None
    for order in (0, 1):
        try:
            h, ptrs, r = ex.apply(op, params, None)
            objs = dict(h.objs0)
            for ro, p in zip(roles, ptrs):
                if ro in ('new_ad', 'new_ctx'): objs['result'] = p
            x, y = shared[0]
            for n in ((x, y), (y, x))[order]:
                c = 'ctx' if any(k == 'ctx' and m == n for k, s, m in params) or n == 'result' and 'new_ctx' in roles else 'ad'
                h.call('w_%s_destroy' % c, [objs[n]])
        except Bad as e: bad = e; break
    if bad is not None: ex.problem(tag, bad.where, bad.kind, 'afterwards %s and %s own the same handle or memory: destroying both: %s' % (shared[0][0], shared[0][1], bad.msg), where)
    else: ck.undecided('unique ownership after ' + tag, where, 'shared ownership between %s and %s' % shared[0])

def where_of(op):
    b = op.rsplit('_', 1)[0]
    names = {'ad_default': 'ADouble::ADouble()', 'ad_value': 'ADouble::ADouble(double)', 'ad_copy': 'ADouble::ADouble(const ADouble&)', 'ad_move': 'ADouble::ADouble(ADouble&&)', 'ad_copy_assign': 'ADouble::operator=(const ADouble&)', 'ad_move_assign': 'ADouble::operator=(ADouble&&)',
             'ad_value_assign': 'ADouble::operator=(ADouble&&)', 'ad_destroy': 'ADouble::~ADouble()', 'ctx_default': 'AContext::AContext()', 'ctx_move': 'AContext::AContext(AContext&&)', 'ctx_move_assign': 'AContext::operator=(AContext&&)', 'ctx_destroy': 'AContext::~AContext()',
             'ctx_indep': 'AContext::new_independent()', 'ctx_dep': 'AContext::set_dependent(const ADouble&)', 'swap': 'std::swap of two ADouble', 'ctx_swap': 'std::swap of two AContext', 'nested': '2.0 - a * (b - 1.0)'}
    if op in names: return names[op]
    s = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
    k = {'a': 'ADouble', 'd': 'double'}
    if b in s: return 'operator%s(%s)' % (s[b], ', '.join(k[x] for x in op.rsplit('_', 1)[1]))
    return '%s(%s)' % (b, ', '.join(k[x] for x in op.rsplit('_', 1)[1]))

def meaning(ck, ex, op, roles, cname, h, ptrs, tag, where, before):
    """C26: results and effects"""
    base, _, form = op.rpartition('_')
    ev = h.events
    if base in ('add', 'sub', 'mul', 'div', 'min', 'max', 'sin', 'cos', 'tan', 'abs', 'exp', 'ln') and form in ('aa', 'ad', 'da', 'a'):
        arg = [before[c] if c else ('const', sym('n')) for c in cname[1:]]
        same(ck, 'result of ' + tag, where, ex.value(h, ptrs[0]), ('op', base) + tuple(arg))
        if ev: ck.violation('effects of ' + tag, where, 'touches a recording context: %s' % (ev[0],))
        for c in cname[1:]:
            if c: same(ck, 'operand %s of %s' % (c, tag), where, ex.value(h, h.objs0[c]), before[c])
    elif op == 'nested':
        a, b = (before[c] for c in cname[1:])
        same(ck, 'result of ' + tag, where, ex.value(h, ptrs[0]), ('op', 'sub', ('const', num(2)), ('op', 'mul', a, ('op', 'sub', b, ('const', ONE)))))
    elif op == 'ctx_indep':
        v = ex.value(h, ptrs[0])
        if [e[:2] for e in ev] == [('indep', before[cname[1]])] and v == ev[0][2]: ck.ok('independent of ' + tag, where, 'one new independent of the context it is called on')
        else: ck.violation('independent of ' + tag, where, 'effects %s, result %s' % (ev, show_val(v) if v else None))
    elif op == 'ctx_dep':
        if ev == [('dep', before[cname[0]], before[cname[1]])]: ck.ok('dependent of ' + tag, where, 'marks its argument in the context it is called on')
        else: ck.violation('dependent of ' + tag, where, 'effects %s' % (ev,))

def plain(ck, ex):
    """plain-number overloads"""
    a, b = sym('a'), sym('b')
    from theory import decide
    for f in ('sin', 'cos', 'tan', 'abs', 'exp', 'ln', 'min', 'max'):
        two = f in ('min', 'max')
        w = (fmin(a, b) if f == 'min' else fmax(a, b)) if two else fn(f, a)
        hyps = [('a < b', (flt(a, b),)), ('a = b', (feq(a, b),)), ('a > b', (flt(b, a),))] if two else [('a < 0', (flt(a, ZERO),)), ('a = 0', (feq0(a),)), ('a > 0', (fgt0(a),))]
        if f == 'ln': hyps = hyps[2:]
        for hn, fs in hyps:
            facts = tuple(l for x in fs for l in lits(x))
            name = '%s of plain numbers, %s' % (f, hn); where = 'double %s(%s)' % (f, 'double, double' if two else 'double')
            def body():
                fk = Fork(facts); got = []
                for _ in fk.ways():
                    h = Heap(ex.l, fk.decide)
                    try: r = h.call('w_%s_%s' % (f, 'dd' if two else 'd'), [a, b] if two else [a])
                    except Bad as e:
                        ck.violation(name, where, '%s (%s)' % (e.msg, e.where))
                        return
                    got.append((r, fk.facts))
                for r, facts_ in got: check(r, facts_)
            def check(r, facts):
                v = {'min': {'a < b': a, 'a > b': b}, 'max': {'a < b': b, 'a > b': a}, 'abs': {'a < 0': neg(a), 'a > 0': a}}.get(f, {}).get(hn, w)
                if r is not v and ck_eq(r, w) is True: v = r
                ck.equal(name, where, r, v, facts)
            contained(ck, name, where, body)

def c25(ck, prog):
    ck.rules.append('every public operation is run on every reachable pair of object states of the wrapper (aliased arguments included): each live handle and allocation has exactly one owner afterwards, none is used or released after its release')
    contained(ck, 'object states', 'src/cxx', lambda: explore(ck, True, False))
    from p_tape import rules
    rules(ck, prog, ('',), lambda ck, prog: c24(ck, prog, ownership_only=True))

def c26(ck, prog):
    ck.rules.append('the library calls each operator and function performs, on abstract handles, denote the operator on its operands in the order written')
    def body():
        ex = explore(ck, False, True)
        if ex is not None: plain(ck, ex)
    contained(ck, 'operators and functions', 'src/cxx', body)

# ---------------------------------------------------------------- C24
def ctype(prog, t):
    """C declaration type of a Rust parameter or result; None if it has none"""
    k = t[0]
    if k == 'tuple' and not t[1]: return 'void'
    if k in ('float',): return {'f64': 'double', 'f32': 'float'}.get(t[1])
    if k in ('int', 'uint'): return {'usize': 'unsigned long', 'u64': 'unsigned long', 'i32': 'int', 'u32': 'unsigned int', 'i64': 'long', 'u8': 'unsigned char', 'i8': 'signed char'}.get(t[1])
    if k == 'bool': return 'bool'
    if k == 'adt' and t[1] == p_float.AF: return 'adv_adouble'
    if k == 'adt' and t[1] == CTX: return 'adv_acontext'
    if k == 'adt' and t[1] == 'alloc::boxed::Box': return (ctype(prog, t[2][0]) or '?') + '*'
    if k == 'adt' and t[1] == OPT and t[2][0][0] in ('ref', 'adt'): return ctype(prog, t[2][0])
    if k in ('ref', 'ptr'):
        q = ctype(prog, t[2])
        return None if q is None else q + '*'
    return None
def canon(q):
    """C type without const and elaboration"""
    q = q.replace('const', ' ').replace('struct ', ' ').replace('restrict', ' ').replace('size_t', 'unsigned long')
    return ''.join(q.split()).replace('unsignedlong', 'unsigned long').replace('unsignedint', 'unsigned int')

SPEC = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div'}
def c24(ck, prog, ownership_only=False):
    exported = {it['symbol']: (k, it) for k, it in prog.item.items() if it.get('exported') and it['kind'] == 'fn'}
    if not ownership_only:
        ck.rules.append('declaration table (clang) and export table (rustc) agree name by name and parameter by parameter; value graph of every entry point equals the operation it is named after')
        contained(ck, 'declarations', 'src/cxx/ffi.hpp', lambda: tables(ck, prog, exported))
    contained(ck, 'entry points', 'src/ffi.rs', lambda: entries(ck, prog, exported, ownership_only))

def tables(ck, prog, exported):
    try: dec = cxx.declarations()
    except cxx.CompileError as e: ck.violation('declarations', 'src/cxx', 'does not compile: %s' % e); return
    for n in sorted(set(dec) | set(exported)):
        where = 'src/cxx/ffi.hpp: ' + n
        if n not in exported: ck.violation('declared functions are exported', where, 'declared but not exported by the library'); continue
        if n not in dec:
            if n.startswith('adv_'): ck.violation('exported functions are declared', 'src/ffi.rs: ' + n, 'exported but not declared for C')
            continue
        k, it = exported[n]
        if not it['abi'].startswith('C'): ck.violation('calling convention', k, 'exported with ABI ' + it['abi'])
        if len(dec[n]) > 1 and len({(canon(r), tuple(map(canon, ps))) for r, ps in dec[n]}) > 1: ck.violation('one declaration', where, 'declared differently: %s' % sorted(dec[n])); continue
        r, ps = sorted(dec[n])[0]
        rs = [ctype(prog, prog.rt(x)) for x in it['inputs']]; rr = ctype(prog, prog.rt(it['output']))
        if None in rs or rr is None: ck.undecided('parameters of ' + n, where, 'no C type for a Rust parameter'); continue
        if len(rs) != len(ps): ck.violation('parameters of ' + n, where, 'declared with %d parameters, defined with %d' % (len(ps), len(rs))); continue
        badp = [i for i, (x, y) in enumerate(zip(rs, ps)) if canon(x) != canon(y) and not voidptr(x, y)]
        if badp: ck.violation('parameters of ' + n, where, 'parameter %d is declared %s, defined as %s' % (badp[0] + 1, ps[badp[0]], rs[badp[0]]))
        elif canon(rr) != canon(r) and not voidptr(rr, r): ck.violation('result of ' + n, where, 'declared %s, defined as %s' % (r, rr))
        else:
            # a parameter declared const must not be mutable in the definition
            bad = [i for i, (x, y) in enumerate(zip(it['inputs'], ps)) if y.replace(' ', '').startswith('const') and y.count('*') == 1 and prog.rt(x)[0] in ('ref', 'ptr') and prog.rt(x)[1]]
            if bad: ck.violation('parameters of ' + n, where, 'parameter %d is declared const, defined as mutable' % (bad[0] + 1))
            else: ck.ok('parameters and result of ' + n, where, '%s(%s)' % (r, ', '.join(ps)))
    ck.extra['declared'] = len(dec); ck.extra['exported'] = len(exported)
def voidptr(x, y): return canon(y) in ('void*',) and canon(x).endswith('*')

def entries(ck, prog, exported, ownership_only):
    a = p_float.ready(ck, prog) if not ownership_only else p_float.Active(prog)
    if a is None: return
    F64 = {}
    x, y, dx, dy = sym('x'), sym('y'), sym('dx'), sym('dy')
    cid, i1, i2 = sym('cid', 'nat'), sym('i1', 'nat'), sym('i2', 'nat')
    from p_float import k_un, k_op, FL
    for n in sorted(exported):
        key, it_ = exported[n]
        base = n[4:]
        if base.startswith('op_'): base = base[3:]
        if n in ('adv_op_' + base,) and base in SPEC: opkey = k_op('core::ops::arith::' + SPEC[base], base)
        elif len(it_['inputs']) in (2, 3) and n == 'adv_' + base and k_un(FL, base) in prog.bykey: opkey = k_un(FL, base)
        else: opkey = None
        if opkey:
            nargs = len(it_['inputs']) - 1
            pats = [(p, q) for p in (False, True) for q in ((False, True) if nargs == 2 else (False,))] + ([('same', 'same')] if nargs == 2 else [])
            for p1, p2 in pats:
                tag = '%s of %s' % (n, ' and '.join({True: 'attached', False: 'unattached', 'same': 'one and the same variable'}[q] for q in (p1, p2)[:nargs]))
                def body():
                    got = runop(ck, prog, a, key, nargs, p1, p2, True, base)
                    want = runop(ck, prog, a, opkey, nargs, p1, p2, False, base)
                    if isinstance(got, str): ck.violation(tag, key, got); return
                    if isinstance(want, str): return
                    ck.ok(tag + ': stores a new allocation', key) if got['fresh'] else ck.violation(tag + ': stores a new allocation', key, got['why'])
                    if ownership_only: return
                    for q in ('value', 'derivative', 'attachment', 'operations', 'values', 'indeps', 'deps'):
                        if q in got and q in want: ck.equal('%s: %s' % (tag, q), key, got[q], want[q], got['pc'])
                    for q in ('operand 1', 'operand 2'):
                        if q in got: ck.equal('%s: %s unchanged' % (tag, q), key, got[q], got[q + ' before'], got['pc'])
                try: contained(ck, tag, key, body)
                except Diverge: ck.violation(tag, key, 'the call cannot return')
            continue
        def body():
            s = Session(ck, prog); it = s.it
            if n in ('adv_acontext_new', 'adv_adouble_default', 'adv_adouble_from_value', 'adv_adouble_copy', 'adv_acontext_new_independent'):
                for att in ((False, True) if n == 'adv_adouble_copy' else (False,)):
                    s = Session(ck, prog); it = s.it
                    args = []
                    X = a.make(x, dx, (cid, i1) if att else None)
                    rx = s.ref(X)
                    if n == 'adv_adouble_from_value': args = [x]
                    elif n == 'adv_adouble_copy': args = [rx]
                    elif n == 'adv_acontext_new_independent':
                        ref = s.ref(opaque_ctx(prog)); b = observe(s, ref); cidv = it.val(s.call(CTX + '::cid', [ref])); args = [ref]
                    pre = set(it.store); n0 = len(it.panics)
                    z = s.call(key, args, {})
                    r = Res(); r.panics = it.panics[n0:]; r.diverges = False; r.base_pc = it.pc
                    if n != 'adv_acontext_new' and not p_ops.total(ck, n, key, r): return
                    fresh(ck, n, key, it, z, pre)
                    if ownership_only: continue
                    t = it.val(z)
                    if n == 'adv_acontext_new': ck.equal(n + ': an empty context', key, tup(*[observe(s, z)[q] for q in ('values', 'operations', 'indeps', 'deps')]), tup(*[seq_lit()] * 4), it.pc)
                    elif n == 'adv_adouble_default': ck.equal(n, key, tup(a.value(t), a.dvalue(t), a.ctx(t)), tup(ZERO, ZERO, NONE), it.pc)
                    elif n == 'adv_adouble_from_value': ck.equal(n, key, tup(a.value(t), a.dvalue(t), a.ctx(t)), tup(x, ZERO, NONE), it.pc)
                    elif n == 'adv_adouble_copy':
                        ck.equal(n + (' (attached)' if att else ''), key, tup(a.value(t), a.dvalue(t), a.ctx(t)), tup(x, dx, a.ctx(X)), it.pc)
                        ck.equal(n + ': source unchanged' + (' (attached)' if att else ''), key, it.val(rx), X, it.pc)
                    else:
                        o = observe(s, ref); m = length(b['values'])
                        ck.equal(n + ': attached as a new independent', key, tup(a.ctx(t), o['indeps'], o['operations'], o['deps'], length(o['values'])), tup(some(tup(cidv, m)), concat(b['indeps'], seq_lit(m)), b['operations'], b['deps'], add(m, ONE)), it.pc)
                        ck.equal(n + ': value stored', key, tup(at(o['values'], m), a.dvalue(t)), tup(a.value(t), ZERO), it.pc)
                    s.done()
            elif n in ('adv_acontext_free', 'adv_adouble_free'):
                v = opaque_ctx(prog) if n == 'adv_acontext_free' else a.make(x, dx)
                ref = s.ref(v); ne = len(it.events); n0 = len(it.panics)
                s.call(key, [ref], {})
                r = Res(); r.panics = it.panics[n0:]; r.diverges = False; r.base_pc = it.pc
                if not p_ops.total(ck, n, key, r): return
                taken = [e for e in it.events[ne:] if e[0] == 'from_raw']
                kept = [e for e in it.events[ne:] if e[0] in ('leak', 'forget')]
                mine = [e for e in taken if same_place(it, e[1], ref)]
                from theory import inconsistent
                cond = [and_(*[l for l in e[3] if l not in it.pc]) for e in mine]
                never = not_(or_(*cond)) if cond else TRUE
                twice = [1 for i in range(len(mine)) for j in range(i) if not inconsistent(it.pc + lits(cond[i]) + lits(cond[j]))]
                if not mine or len(mine) != len(taken) or twice: ck.violation(n + ': releases its argument once', key, 'takes back %d times' % len(taken))
                elif never is not FALSE and not inconsistent(it.pc + lits(never)):
                    if any(TM.poisoned(c) for c in cond): ck.undecided(n + ': releases its argument once', key, 'released under %s' % show(or_(*cond))[:150])
                    else: ck.violation(n + ': releases its argument once', key, 'released only if %s' % show(or_(*cond))[:150])
                elif kept: ck.violation(n + ': releases its argument once', key, 'the value taken back is leaked again')
                else: ck.ok(n + ': releases its argument once', key)
                s.done()
            elif n == 'adv_acontext_set_dependent':
                if ownership_only: return
                for att in (True, False):
                    s1 = Session(ck, prog); s2 = Session(ck, prog)
                    out = []
                    for s_, k in ((s1, key), (s2, CTX + '::set_dep')):
                        ref = s_.ref(opaque_ctx(prog)); c = s_.it.val(s_.call(CTX + '::cid', [ref]))
                        rx = s_.ref(a.make(x, dx, (c, i1) if att else None))
                        s_.call(k, [ref, rx], {})
                        o = observe(s_, ref)
                        out.append(tup(o['deps'], o['values'], o['operations'], o['indeps'], s_.it.val(rx)))
                    ck.equal('%s of an %s variable' % (n, 'attached' if att else 'unattached'), key, out[0], out[1], s1.it.pc)
                    s1.done(); s2.done()
            else: ck.undecided(n, key, 'no specification for this entry point')
        try: contained(ck, n, key, body)
        except Diverge: ck.violation(n, key, 'the call cannot return')

def same_place(it, p, ref):
    try: q, r = it.deref(p), it.deref(ref)
    except Give: return False
    return getattr(q, 'loc', None) == getattr(r, 'loc', None)
def fresh(ck, n, key, it, z, pre):
    why = notfresh(it, z, pre)
    if why is None: ck.ok(n + ': returns a new allocation', key)
    else: ck.violation(n + ': returns a new allocation', key, why)
def notfresh(it, z, pre):
    if z is None or z.op != 'mref': raise Give('result is not a pointer')
    loc = z.args[0]
    if loc in pre: return 'the result points to an existing object'
    if not any(e[0] == 'leak' and e[1] == loc for e in it.events): return 'the result points to storage that does not outlive the call'
    return None

def runop(ck, prog, a, key, nargs, p1, p2, ffi, base):
    x, y, dx, dy = sym('x'), sym('y'), sym('dx'), sym('dy')
    cid, i1, i2 = sym('cid', 'nat'), sym('i1', 'nat'), sym('i2', 'nat')
    s = Session(ck, prog); it = s.it
    samevar = p1 == 'same'
    X = a.make(x, dx, (cid, i1) if p1 else None); Y = X if samevar else a.make(y, dy, (cid, i2) if p2 else None)
    for f in p_ops.domain({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'sin': 'Sin', 'cos': 'Cos', 'tan': 'Tan', 'ln': 'Ln', 'abs': 'Abs', 'exp': 'Exp'}.get(base, 'Add'), x, x if samevar else y): it.assume(f)
    ref = None
    if p1 or p2:
        ref, c = live(s, cid); before = observe(s, ref)
    out = {}
    n0 = len(it.panics)
    if ffi:
        rx = s.ref(X); ry = rx if samevar else s.ref(Y)
        cell = it.new(sym('slot', 'any')); slot = mk('mref', cell, ())
        pre = set(it.store)
        s.call(key, [rx] + ([ry] if nargs == 2 else []) + [slot], {})
        z = it.store[cell]
        if is_unk(z) or TM.poisoned(z): raise Give('the stored result')
        if z.op != 'mref': return 'no result is stored'
        why = notfresh(it, z, pre); out['fresh'] = why is None; out['why'] = why
        out['operand 1'], out['operand 1 before'] = it.val(rx), X
        if nargs == 2: out['operand 2'], out['operand 2 before'] = it.val(ry), Y
        t = it.val(z)
    else: t = s.call(key, [X] + ([Y] if nargs == 2 else []), {'S': ('float', 'f64')})
    out.update({'value': a.value(t), 'derivative': a.dvalue(t), 'attachment': a.ctx(t), 'pc': it.pc})
    if ref is not None: out.update(observe(s, ref))
    s.done()
    return out
