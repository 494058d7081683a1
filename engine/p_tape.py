"""C09-C12: replay, sweeps and accessors of tapes."""
from common import *
from p_ops import opcodes, op_fields, OPN, OPC, UN, BIN, total
from p_ctx import Session, contained, CTX
import p_ops, lib

TAPE = 'advantage::tape::Tape'
REQ = ('indeps', 'deps', 'values', 'values_mut', 'ops_iter')
PROV = ('num_indeps', 'num_deps', 'num_abs', 'max_id', 'x', 'y', 'zero_order', 'first_order_forward', 'first_order_reverse')

class TapeModel:
    """a tape with opaque content; `self` is a reference to it"""
    def __init__(self, ck, prog, name='tape', wf=False):
        self.prog = prog
        self.N = sym(name + '.size', 'nat')
        self.indeps = self.ids(name + '.indeps'); self.deps = self.ids(name + '.deps')
        self.vals0, _ = p_ops.seqsym(name + '.values', self.N)
        os_ = sym(name + '.ops', 'seq:any')
        self.nops = length(os_)
        self.optype = ('adt', OPN, ())
        self.ops = arr(self.nops, lambda k: prog.shape(mk('sel', os_, k), self.optype))
        if wf: self.ops = arr(self.nops, lambda k: self.with_operand(prog.shape(mk('sel', os_, k), self.optype)))
        self.opsym = os_
        self.value = sym(name, 'any')
    def with_operand(self, o):
        """the same operation, with the presence of its first operand spelt out"""
        if o.op != 'st': return o
        oc = opcodes(self.prog); i = op_fields(self.prog).index('arg1')
        none = or_(*[isv(fld(o, op_fields(self.prog).index('opcode')), OPC, oc[n]) for n in ('Nop', 'Const')])
        a = list(o.args); a[2 + i] = ite(none, a[2 + i], st(NONE.args[0], 1, fld(a[2 + i], 0, 'nat', 1)))
        return mk('st', *a)
    def ids(self, name):
        s = sym(name, 'seq:nat')
        return arr(length(s), lambda j: mk('sel', s, j))
    def summaries(self, own=None):
        """the required accessors; own: recognises calls on this tape"""
        def acc(f):
            def g(it, key, env, args):
                if own is not None and it.val(args[0]) is not self.value: return NotImplemented
                return f(it)
            return g
        m = {'indeps': lambda it: self.indeps, 'deps': lambda it: self.deps, 'values': lambda it: it.store[it.ghost],
             'values_mut': lambda it: mk('mref', it.ghost, ()), 'ops_iter': lambda it: lib.mkit(self.ops)}
        return {TAPE + '::' + k: acc(f) for k, f in m.items()}
    def session(self, ck, prog):
        s = Session(ck, prog, self.summaries())
        s.it.ghost = s.it.new(self.vals0)
        s.self = s.ref(self.value)
        # ids stored on the tape have a value
        return s
    def axioms(self):
        """independent variables are distinct; ids are in range (instantiated for small tapes)"""
        out = []
        I_ = [at(self.indeps, num(i)) for i in range(3)]
        for i in range(3):
            for j in range(i): out.append(not_(ieq(I_[i], I_[j])))
            out.append(lt(I_[i], self.N)); out.append(lt(at(self.deps, num(i)), self.N))
        return [x for x in out if x is not TRUE]

def op_step(ck, prog, tm, meth, v, acc):
    """effect of one recorded operation on the accumulator, by the crate's own rule"""
    def f(op):
        it = Interp(prog, {})
        n = tm.N
        a = arr(n, lambda j: mk('sel', acc, j))
        l = it.new(a)
        args = [op, mk('mref', l, ())] if meth == 'zero_order' else [op, v, mk('mref', l, ())]
        it.call_body(prog.bykey['advantage::operation::Operation::' + meth], args, {})
        r = Res(); r.visited = it.visited; r.sites = it.sites; r.notes = it.notes
        ck.absorb(r)
        return it.store[l]
    return f

def seeded(tm, ids, x, init, additive=False):
    """init with the components of x stored at (added to) the ids, in order"""
    if additive:
        return arr(length(init), lambda j: add(at(init, j), sum_(length(ids), lambda k: ite(ieq(at(ids, k), j), mat_at(x, k, ZERO), ZERO))))
    a = fresh('acc'); k = fresh('k', 'nat')
    A = arr(length(init), lambda j: mk('sel', a, j))
    i = at(ids, k)
    e = at(x, k) if x.op != 'mat' and x.op != 'ite' else mat_at(x, k, ZERO)
    body = upd(A, i, e)
    return fold(length(ids), [a], k, [body], [init], 0)
def swept(ck, prog, tm, meth, v, init, rev=False):
    a = fresh('acc'); k = fresh('k', 'nat')
    kk = sub(sub(tm.nops, ONE), k) if rev else k
    body = op_step(ck, prog, tm, meth, v, a)(at(tm.ops, kk))
    return fold(tm.nops, [a], k, [simplify(body, (lt(k, tm.nops),))], [init], 0)
def gather(ids, v): return vecm(length(ids), lambda i: at(v, at(ids, i)))

def tape_ready(ck, prog, need=PROV):
    ok = ck.anchor(all(TAPE + '::' + m in prog.bykey for m in need), TAPE)
    ok &= p_ops.struct_ok(ck, prog)
    for m in ('zero_order', 'first_order', 'first_order_reverse'):
        ok &= ck.anchor('advantage::operation::Operation::' + m in prog.bykey, 'advantage::operation::Operation::' + m)
    return ok

def overriders(prog, meth):
    """implementations that replace a provided method"""
    out = []
    for im in prog.impls:
        if im['trait'] == TAPE:
            for n, di in im['items']:
                if n == meth: out.append(prog.keys[di])
    return out
def only_default(ck, prog, meths):
    for m in meths:
        for k in overriders(prog, m):
            ck.undecided('replaced ' + m, k, 'this tape type replaces the provided method by its own')

def changed_hook(it):
    """records panics raised after the stored values may have changed"""
    it.late = []
    v0 = it.store[it.ghost]
    p0 = it.panic; m0 = it.may_panic
    def panic(why, sp=''):
        if it.store.get(it.ghost) is not v0: it.late.append((it.pc, why, sp))
        p0(why, sp)
    def may_panic(ok, why, sp=''):
        if it.store.get(it.ghost) is not v0 and it.decide(ok) is not True: it.late.append((it.pc, why, sp))
        m0(ok, why, sp)
    it.panic = panic; it.may_panic = may_panic

def terms_of(ts, pred):
    out, seen, st_ = [], set(), list(ts)
    while st_:
        t = st_.pop()
        if not isinstance(t, T) or t in seen: continue
        seen.add(t)
        if pred(t): out.append(t)
        st_ += list(TM._kids(t.op, t.args))
    return out
def wellformed(prog, o, noabs):
    """clauses true of a recorded operation: its operands are present; its operand is no absolute value (where promised)"""
    oc = opcodes(prog); f = op_fields(prog)
    is_ = lambda n: isv(fld(o, f.index('opcode')), OPC, oc[n])
    has = lambda a: isv(fld(o, f.index(a)), NONE.args[0], 1)
    out = [[is_('Nop'), is_('Const'), has('arg1')], [is_(n) for n in ('Nop', 'Const') + UN] + [has('arg2')]]
    if noabs: out.append([not_(is_('Abs'))])
    return out
def feasible(prog, opsym, pc, noabs):
    """path condition possible for well-formed recorded operations"""
    import itertools
    pc = tuple(pc)
    if inconsistent(pc): return False
    cl = []
    for o in terms_of(pc, lambda t: t.op == 'sel' and t.args[0] is opsym): cl += wellformed(prog, o, noabs)
    for ch in itertools.product(*cl):
        if FALSE in ch: continue
        if not inconsistent(pc + tuple(z for c in ch for z in lits(c))): return True
    return not cl
def nopanic(ck, tag, key, it, n0, tm, noabs=False, allowed=('index out of bounds',)):
    r = Res(); r.panics = [p for p in it.panics[n0:] if feasible(it.p, tm.opsym, p[0], noabs)]; r.diverges = False; r.base_pc = it.pc
    return total(ck, tag, key, r, allowed)

# ---------------------------------------------------------------- tapes of a fixed shape
class SmallTape(TapeModel):
    """a tape whose lists are explicit; the stored values stay symbolic"""
    def __init__(self, ck, prog, shape, name='tape'):
        self.prog = prog
        n, ind, dep, ops = shape
        self.N = num(n); self.shape = shape
        self.indeps = seq_lit(*[num(i) for i in ind]); self.deps = seq_lit(*[num(i) for i in dep])
        s = sym(name + '.values', 'seq:real')
        self.vals0 = seq_lit(*[mk('sel', s, num(i)) for i in range(n)])
        oc = opcodes(prog)
        o = lambda op, vid, *a: p_ops.mkop(prog, st(OPC, oc[op]), num(vid), some(num(a[0])) if len(a) > 0 else NONE, some(num(a[1])) if len(a) > 1 else NONE)
        self.ops = seq_lit(*[o(*x) for x in ops]); self.nops = num(len(ops))
        self.opsym = sym(name + '.ops', 'seq:any')
        self.value = sym(name, 'any')
    def axioms(self): return []
    def replayed(self, v):
        """values after the recorded operations, and the points where every one of them is differentiable"""
        v = list(v); dom = []
        for op, vid, *a in self.shape[3]:
            if op in ('Nop', 'Const'): continue
            x = v[a[0]]; y = v[a[1]] if len(a) > 1 else None
            dom += list(p_ops.domain(op, x, y))
            v[vid] = p_ops.zero_spec(op, x, y)
        return v, [d for d in dom if d is not TRUE]
def small_shapes(noabs):
    out = []
    for op in UN:
        if op == 'Abs' and noabs: continue
        out.append((op, (2, [0], [1], [(op, 1, 0)])))
    for op in BIN:
        out.append((op, (3, [0, 1], [2], [(op, 2, 0, 1)])))
        out.append((op + ' of one operand', (2, [0], [1], [(op, 1, 0, 0)])))
    out += [
        ('two dependents out of order', (4, [0, 1], [3, 2], [('Mul', 2, 0, 1), ('Sin', 3, 2)])),
        ('two dependents in order', (4, [0, 1], [2, 3], [('Mul', 2, 0, 1), ('Sin', 3, 2)])),
        ('independents out of order', (4, [1, 0], [3], [('Div', 2, 0, 1), ('Sub', 3, 2, 0)])),
        ('a dependent listed twice', (3, [0, 1], [2, 2], [('Mul', 2, 0, 1)])),
        ('a dependent that is independent', (3, [0, 1], [0, 2, 1], [('Sub', 2, 0, 1)])),
        ('an unused independent', (4, [0, 1, 2], [3], [('Mul', 3, 0, 2)])),
        ('an operation nothing depends on', (4, [0, 1], [2], [('Mul', 2, 0, 1), ('Exp', 3, 2)])),
        ('an unused dependent', (4, [0, 1], [3, 2], [('Mul', 2, 0, 1), ('Nop', 3)])),
        ('no dependents', (3, [0, 1], [], [('Mul', 2, 0, 1)])),
        ('no independents', (2, [], [1], [('Const', 0), ('Sin', 1, 0)])),
        ('no operations', (2, [0, 1], [1, 0], [])),
        ('constants in between', (5, [0], [4], [('Const', 1), ('Mul', 2, 0, 1), ('Nop', 3), ('Sub', 4, 2, 1)])),
        ('unused ids', (9, [2, 5], [8, 5], [('Mul', 7, 2, 5), ('Add', 8, 7, 7)])),
        ('a diamond', (6, [0, 1], [5, 2], [('Mul', 2, 0, 1), ('Sin', 3, 2), ('Sub', 4, 2, 0), ('Mul', 5, 3, 4)])),
        ('four levels', (6, [0, 1], [5], [('Mul', 2, 0, 1), ('Add', 3, 2, 1), ('Mul', 4, 3, 2), ('Sub', 5, 4, 3)])),
        ('a later independent', (5, [0, 3], [4, 2], [('Mul', 1, 0, 0), ('Sin', 2, 1), ('Mul', 4, 2, 3)])),
        ('a cancelled intermediate', (5, [0, 1], [4], [('Sub', 2, 0, 0), ('Mul', 3, 2, 1), ('Add', 4, 3, 0)])),
    ]
    if not noabs:
        out.append(('absolute values', (5, [0, 1], [4], [('Sub', 2, 0, 1), ('Abs', 3, 2), ('Mul', 4, 3, 0)])))
        out.append(('absolute values of one variable', (5, [0], [4], [('Abs', 1, 0), ('Abs', 2, 0), ('Abs', 3, 1), ('Mul', 4, 2, 3)])))
    return out
def small_tapes(ck, prog, key, mode):
    """the sweep on tapes of fixed shape, against the composed rules"""
    rev = mode == 'reverse'
    for tag, shape in small_shapes(rev):
        name = {'replay': 'replay', 'forward': 'forward sweep', 'reverse': 'reverse sweep'}[mode] + ' of a small tape (' + tag + ')'
        n, ind, dep, ops = shape
        def body():
            tm = SmallTape(ck, prog, shape); s = tm.session(ck, prog); it = s.it; it.unroll = it.unfold = 12
            ids = dep if rev else ind
            xs = sym('x', 'seq:real')
            x = mat(num(len(ids)), ONE, lambda i, j: mk('sel', xs, i))
            xv = [mk('sel', xs, num(i)) for i in range(len(ids))]
            v0 = [at(tm.vals0, num(i)) for i in range(n)]
            if mode == 'replay':
                v = list(v0)
                for i, e in zip(ind, xv): v[i] = e
                want, dom = tm.replayed(v)
            else:
                # the stored values are those of a replay
                v, dom = tm.replayed(v0)
                it.store[it.ghost] = v0 = seq_lit(*v)
                d = [ZERO] * n
                for i, e in zip(ids, xv): d[i] = add(d[i], e) if rev else e
                for op, vid, *a in (reversed(ops) if rev else ops):
                    if op == 'Nop': continue
                    if op == 'Const':
                        if not rev: d[vid] = ZERO
                        continue
                    X = v[a[0]]; Y = v[a[1]] if len(a) > 1 else None
                    if not rev: d[vid] = p_ops.tangent_spec(op, X, Y, d[a[0]], d[a[1]] if len(a) > 1 else None)
                    else:
                        for z, p in zip(a, p_ops.partials(op, X, Y)): d[z] = add(d[z], mul(p, d[vid]))
            for f in dom:
                for l in lits(f): it.assume(l)
            got = s.call(key, [s.self, x])
            r = Res(); r.panics = it.panics; r.diverges = False; r.base_pc = it.pc
            if not total(ck, name, key, r, ()): return
            if mode == 'replay': ck.equal(name, key, it.store[it.ghost], seq_lit(*want), it.pc)
            else:
                out = [d[i] for i in (ind if rev else dep)]
                ck.equal(name, key, it.val(got), mat(num(len(out)), ONE, lambda i, j: at(seq_lit(*out), i)), it.pc)
                ck.equal(name + ' changes nothing stored', key, it.store[it.ghost], v0, it.pc)
            s.done()
        try: contained(ck, name, key, body, seconds=20)
        except Diverge: ck.violation(name + ': returns', key, 'the sweep cannot return')

def c09(ck, prog):
    ck.rules.append('summary of the replay equals: seed the independents in order, then the fold of the elementary value rule over the operations in recorded order; a wrong length panics before the stored values change')
    if not tape_ready(ck, prog): return
    key = TAPE + '::zero_order'
    only_default(ck, prog, ['zero_order'])
    x = prog.symval('x', dvec(prog, key, 1))
    def body():
        tm = TapeModel(ck, prog); s = tm.session(ck, prog); it = s.it
        for l in lits(ieq(nrows(x), length(tm.indeps))): it.assume(l)
        s.call(key, [s.self, x])
        want = swept(ck, prog, tm, 'zero_order', None, seeded(tm, tm.indeps, x, tm.vals0))
        if nopanic(ck, 'replay', key, it, 0, tm):
            ck.equal('replay', key, it.store[it.ghost], want, it.pc, tm.axioms())
        s.done()
    try: contained(ck, 'replay', key, body)
    except Diverge: ck.violation('replay: returns', key, 'the replay cannot return for a matching argument')
    def wrong():
        for tag, f in (('longer', lambda a, b: lt(b, a)), ('shorter', lambda a, b: lt(a, b))):
            tm = TapeModel(ck, prog); s = tm.session(ck, prog); it = s.it
            changed_hook(it)
            it.assume(f(nrows(x), length(tm.indeps)))
            name = 'replay with a %s argument' % tag
            try:
                s.call(key, [s.self, x])
                if TM.poisoned(it.store[it.ghost]): ck.undecided(name + ' panics', key, 'outside the analysis')
                else: ck.violation(name + ' panics', key, 'the replay returns although the argument has the wrong length')
            except Diverge: ck.ok(name + ' panics', key)
            late = [l for l in it.late if not inconsistent(tuple(l[0]))]
            if any(TM.poisoned(z) for l in late for z in l[0]): ck.undecided(name + ': nothing changed before', key, 'outside the analysis')
            elif late: ck.violation(name + ': nothing changed before', key, 'panic (%s) after stored values were overwritten' % late[0][1])
            else: ck.ok(name + ': nothing changed before', key)
            s.done()
    contained(ck, 'wrong length', key, wrong)
    small_tapes(ck, prog, key, 'replay')
    # the rule that is folded
    rules(ck, prog, ('zero order',), p_ops.c01)

def rules(ck, prog, names, f):
    """obligations of the elementary rules that a sweep relies on"""
    sub_ = Checker(ck.prop, ck.tier)
    f(sub_, prog)
    for o in sub_.obl:
        if any(o['obligation'].startswith(n) for n in names) or o['obligation'] == 'anchor':
            ck.obl.append(o)
            if o['verdict'] == 'violated': ck.viol.append(o)
            if o['verdict'] == 'undecided': ck.undec.append(o)
    ck.visited.update(sub_.visited); ck.sites += sub_.sites

def dvec(prog, key, i):
    """type of parameter i of a function"""
    it = prog.item[key]
    return prog.strip(prog.rt(it['inputs'][i], {}))

def sweep(ck, prog, key, rev):
    tag = 'reverse sweep' if rev else 'forward sweep'
    dx = prog.symval('ybar' if rev else 'dx', dvec(prog, key, 1))
    def body():
        tm = TapeModel(ck, prog); s = tm.session(ck, prog); it = s.it
        src, dst = (tm.deps, tm.indeps) if rev else (tm.indeps, tm.deps)
        for l in lits(ieq(nrows(dx), length(src))): it.assume(l)
        zero = arr(tm.N, lambda j: ZERO)
        v = it.store[it.ghost]
        got = s.call(key, [s.self if True else None, dx])
        want = swept(ck, prog, tm, 'first_order_reverse' if rev else 'first_order', v, seeded(tm, src, dx, zero, additive=rev), rev=rev)
        if nopanic(ck, tag, key, it, 0, tm, rev):
            ck.equal(tag, key, it.val(got), gather(dst, want), it.pc, tm.axioms())
        ck.equal(tag + ' changes nothing stored', key, it.store[it.ghost], tm.vals0, it.pc)
        s.done()
    try: contained(ck, tag, key, body)
    except Diverge: ck.violation(tag + ': returns', key, 'the sweep cannot return')

def c10(ck, prog):
    ck.rules.append('summary of the forward sweep equals seed / fold of the tangent rule in recorded order / gather')
    if not tape_ready(ck, prog): return
    only_default(ck, prog, ['first_order_forward'])
    sweep(ck, prog, TAPE + '::first_order_forward', False)
    small_tapes(ck, prog, TAPE + '::first_order_forward', 'forward')
    rules(ck, prog, ('first order',), p_ops.c01)

def c11(ck, prog):
    ck.rules.append('summary of the reverse sweep equals additive seed / fold of the adjoint step in reverse order / gather')
    if not tape_ready(ck, prog): return
    only_default(ck, prog, ['first_order_reverse'])
    sweep(ck, prog, TAPE + '::first_order_reverse', True)
    small_tapes(ck, prog, TAPE + '::first_order_reverse', 'reverse')
    rules(ck, prog, ('reverse step', 'adjoint'), p_ops.c02)

def c12(ck, prog):
    ck.rules.append('value graph of every accessor equals the selection of the recorded lists it is named after')
    if not tape_ready(ck, prog): return
    only_default(ck, prog, [m for m in PROV if m not in ('zero_order', 'first_order_forward', 'first_order_reverse')])
    absc = opcodes(prog)['Abs']
    fi = op_fields(prog).index('opcode'); vi = op_fields(prog).index('vid')
    def spec(tm):
        isabs = lambda o: isv(fld(o, fi), OPC, absc)
        mx = lambda s: ite(lt(ZERO, length(s)), mk('app', 'max', 'nat', s), ZERO)
        return {
            'num_indeps': lambda: length(tm.indeps), 'num_deps': lambda: length(tm.deps),
            'num_abs': lambda: sum_(tm.nops, lambda k: ite(isabs(at(tm.ops, k)), ONE, ZERO)),
            'max_id': lambda: imax(imax(mx(tm.indeps), mx(tm.deps)), mx(arr(tm.nops, lambda k: fld(at(tm.ops, k), vi)))),
            'x': lambda: gather(tm.indeps, tm.vals0), 'y': lambda: gather(tm.deps, tm.vals0),
        }
    for m in ('num_indeps', 'num_deps', 'num_abs', 'max_id', 'x', 'y'):
        key = TAPE + '::' + m
        def body():
            tm = TapeModel(ck, prog); s = tm.session(ck, prog); it = s.it
            got = s.call(key, [s.self])
            if nopanic(ck, m, key, it, 0, tm): ck.equal(m, key, it.val(got), spec(tm)[m](), it.pc, tm.axioms())
            ck.equal(m + ' changes nothing stored', key, it.store[it.ghost], tm.vals0, it.pc)
            s.done()
        try: contained(ck, m, key, body)
        except Diverge: ck.violation(m + ': returns', key, 'the accessor cannot return')
    for tag, shape in small_shapes(False):
        n, ind, dep, ops = shape
        for m in ('num_indeps', 'num_deps', 'num_abs', 'max_id', 'x', 'y'):
            key = TAPE + '::' + m
            name = m + ' of a small tape (' + tag + ')'
            def body():
                tm = SmallTape(ck, prog, shape); s = tm.session(ck, prog); it = s.it; it.unroll = it.unfold = 12
                want = {'num_indeps': num(len(ind)), 'num_deps': num(len(dep)), 'num_abs': num(sum(o[0] == 'Abs' for o in ops)),
                        'max_id': num(max(ind + dep + [o[1] for o in ops] + [0])), 'x': gather(tm.indeps, tm.vals0), 'y': gather(tm.deps, tm.vals0)}[m]
                got = s.call(key, [s.self])
                r = Res(); r.panics = it.panics; r.diverges = False; r.base_pc = it.pc
                if total(ck, name, key, r, ()): ck.equal(name, key, it.val(got), want, it.pc)
                s.done()
            try: contained(ck, name, key, body)
            except Diverge: ck.violation(name + ': returns', key, 'the accessor cannot return')
    # the tape taken from a context
    import p_ctx
    key = CTX + '::tape'
    def body():
        s = Session(ck, prog); it = s.it
        ref = s.ref(p_ctx.opaque_ctx(prog))
        b = p_ctx.observe(s, ref)
        t = it.val(s.call(key, [ref]))
        got = p_ctx.tape_obs(s, t, s.ref(t))
        if got is None: ck.undecided('tape of a context', key, 'the tape type has no analysable accessors'); return
        for q in p_ctx.OBS: ck.equal('tape of a context: ' + q, key, got[q], b[q], it.pc)
        name = '<%s as %s>::' % (t.args[0], TAPE)
        r = s.call(name + 'ops_iter', [s.ref(t)])
        rv = lib.rest(it, lib.iterator(it, 'rev', [r], [], None, ''))
        ck.equal('iterating backwards', name + 'ops_iter', rv, seq_rev(b['operations']), it.pc)
        # mutable values
        tr = s.ref(t)
        vm = s.call(name + 'values_mut', [tr])
        pl = it.deref(vm)
        n = sym('pos', 'nat')
        it.assume(lt(n, length(b['values'])))
        it.write(it.sub_place(pl, 'i', n), sym('new'))
        got2 = p_ctx.tape_obs(s, t, tr)
        ck.equal('a value written through values_mut is the stored value', name + 'values_mut', it.val(s.call(name + 'values', [tr])), upd(b['values'], n, sym('new')), it.pc)
        s.done()
    contained(ck, 'tape of a context', key, body)
