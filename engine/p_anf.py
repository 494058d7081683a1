"""C17-C20: abs-normal decomposition and generalized Jacobian."""
from common import *
from p_ops import opcodes, op_fields, OPN, OPC, total
from p_ctx import Session, contained
from p_tape import TAPE, TapeModel, dvec, rules, tape_ready, nopanic, gather
from p_drv import expect, rejects, TapeJac, FunModel, FUN, DRV
import p_ops, p_tape, p_drv, lib

AN = DRV + 'abs_normal::'
ABT = AN + 'AbsNormalTape'
SUBS = {'Z': (AN + 'AbsNormalZ', 0, 0), 'L': (AN + 'AbsNormalL', 1, 0), 'J': (AN + 'AbsNormalJ', 0, 1), 'Y': (AN + 'AbsNormalY', 1, 1)}
def im(ty, m): return '<%s as %s>::%s' % (ty, TAPE, m)
def tyenv(prog, key): return {}

class Decomposed:
    """specification of the decomposition of an opaque tape"""
    def __init__(self, prog, tm):
        oc = opcodes(prog); f = op_fields(prog)
        self.isabs = lambda o: isv(fld(o, f.index('opcode')), OPC, oc['Abs'])
        self.isnop = lambda o: isv(fld(o, f.index('opcode')), OPC, oc['Nop'])
        if isinstance(tm, p_tape.SmallTape):
            ab = [o for o in tm.shape[3] if o[0] == 'Abs']
            self.zvid, self.zarg = seq_lit(*[num(o[1]) for o in ab]), seq_lit(*[num(o[2]) for o in ab])
        else: self.general(tm, f)
        self.n, self.m = length(tm.indeps), length(tm.deps)
        self.s = length(self.zvid)
        self.indeps = (tm.indeps, self.zvid)      # original, additional
        self.deps = (self.zarg, tm.deps)          # additional, original
        self.tm = tm
    def general(self, tm, f):
        self.zvid = fseq(tm.nops, lambda k: self.isabs(at(tm.ops, k)), lambda k: fld(at(tm.ops, k), f.index('vid'), 'nat'))
        self.zarg = fseq(tm.nops, lambda k: self.isabs(at(tm.ops, k)), lambda k: fld(fld(at(tm.ops, k), f.index('arg1')), 0, 'nat', 1))

def seqof(it, v):
    s = lib.rest(it, v)
    if s is None or is_unk(s): return None
    return lib.smap(it, s, lambda z: it.val(z))

def eq_ops(ck, name, key, it, got, d):
    """absolute values are no-ops, everything else is kept in order"""
    if got is None: ck.undecided(name, key, 'iterator outside the analysis'); return
    ck.equal(name + ': count', key, length(got), d.tm.nops, it.pc)
    if const(d.tm.nops) is not None:
        for i in range(int(const(d.tm.nops))):
            o, g = at(d.tm.ops, num(i)), at(got, num(i))
            if d.isabs(o) is TRUE: ck.equal('%s: operation %d is a no-op' % (name, i), key, d.isnop(g), TRUE, it.pc)
            else: ck.equal('%s: operation %d' % (name, i), key, g, o, it.pc)
        return
    k = sym('pos', 'nat'); o = at(d.tm.ops, k); g = at(got, k)
    base = tuple(it.pc) + lits(lt(k, d.tm.nops))
    pa = base + lits(d.isabs(o)); po = base + lits(not_(d.isabs(o)))
    ck.equal(name + ': absolute values are no-ops', key, d.isnop(simplify(g, pa)), TRUE, pa)
    ck.equal(name + ': other operations are kept', key, simplify(g, po), simplify(o, po), po)

def anf_ready(ck, prog):
    ok = tape_ready(ck, prog)
    for k in [ABT + '::' + x for x in ('new', 'n', 'm', 's', 'x', 'y', 'z')] + [im(ABT, x) for x in ('indeps', 'deps', 'ops_iter', 'values', 'values_mut')]: ok &= ck.anchor(k in prog.bykey, k)
    for t, a, b in SUBS.values():
        for k in [t + '::' + x for x in ('new', 'nrows', 'ncols', 'mul_right', 'mul_left', 'row', 'column')] + [im(t, x) for x in ('indeps', 'deps', 'ops_iter', 'values')]: ok &= ck.anchor(k in prog.bykey, k)
    return ok

# size, independents, dependents, operations
SHAPES = (
    ('no absolute value', (3, [0, 1], [2], [('Mul', 2, 0, 1)])),
    ('one absolute value', (4, [0, 1], [3], [('Abs', 2, 0), ('Mul', 3, 2, 1)])),
    ('two absolute values', (6, [0, 1], [5, 0], [('Abs', 2, 1), ('Mul', 3, 2, 0), ('Abs', 4, 3), ('Sub', 5, 4, 2)])),
    ('two absolute values of one operand', (4, [0], [3, 2, 3], [('Abs', 1, 0), ('Abs', 2, 0), ('Add', 3, 1, 2)])),
    ('an absolute value of an absolute value', (3, [0], [2], [('Abs', 1, 0), ('Abs', 2, 1)])),
    ('three absolute values between other operations', (8, [1, 0], [7, 4], [('Nop', 2), ('Abs', 3, 1), ('Sin', 4, 3), ('Abs', 5, 0), ('Abs', 6, 4), ('Mul', 7, 5, 6)])),
    ('an absolute value nothing depends on', (4, [0, 1], [2], [('Mul', 2, 0, 1), ('Abs', 3, 2)])),
    ('no dependents', (2, [0], [], [('Abs', 1, 0)])),
    ('no operations', (2, [0, 1], [1], [])),
)
def abs_session(ck, prog, shape=None):
    tm = p_tape.SmallTape(ck, prog, shape, 'inner') if shape else TapeModel(ck, prog, 'inner', wf=True)
    s = Session(ck, prog, tm.summaries(own=True)); it = s.it
    if shape: it.unroll = it.unfold = 12
    it.ghost = it.new(tm.vals0)
    s.self = tm.value
    d = Decomposed(prog, tm)
    return tm, s, it, d

def c17(ck, prog):
    ck.rules.append('value graphs of the decomposition of an opaque tape and of its sub-tapes equal the specified lists')
    if not anf_ready(ck, prog): return
    for tag, shape in ((None, None),) + SHAPES: decomposition(ck, prog, '' if tag is None else tag + ', ', shape)
def decomposition(ck, prog, pre, shape):
    def body():
        tm, s, it, d = abs_session(ck, prog, shape)
        key = ABT + '::new'
        t = it.val(s.call(key, [tm.value]))
        ax = tm.axioms()
        if not nopanic(ck, pre + 'decomposition', key, it, 0, tm): return
        n0 = len(it.panics)
        ref = s.ref(t)
        for m, w in (('n', d.n), ('m', d.m), ('s', d.s)):
            ck.equal(pre + 'decomposition: ' + m, ABT + '::' + m, it.val(s.call(ABT + '::' + m, [ref])), w, it.pc, ax)
        ck.equal(pre + 'decomposition: independents', im(ABT, 'indeps'), it.val(s.call(im(ABT, 'indeps'), [ref])), concat(*d.indeps), it.pc, ax)
        ck.equal(pre + 'decomposition: dependents', im(ABT, 'deps'), it.val(s.call(im(ABT, 'deps'), [ref])), concat(*d.deps), it.pc, ax)
        ops = s.call(im(ABT, 'ops_iter'), [ref])
        eq_ops(ck, pre + 'decomposition: operations', im(ABT, 'ops_iter'), it, seqof(it, ops), d)
        back = lib.iterator(it, 'rev', [s.call(im(ABT, 'ops_iter'), [ref])], [], None, '')
        bs = seqof(it, back)
        if bs is not None: eq_ops(ck, pre + 'decomposition: operations backwards', im(ABT, 'ops_iter'), it, seq_rev(bs), d)
        else: ck.undecided(pre + 'decomposition: operations backwards', im(ABT, 'ops_iter'), 'iterator outside the analysis')
        ck.equal(pre + 'decomposition: values', im(ABT, 'values'), it.val(s.call(im(ABT, 'values'), [ref])), tm.vals0, it.pc, ax)
        for m, ids in (('x', tm.indeps), ('y', tm.deps), ('z', d.zarg)):
            got = it.val(s.call(ABT + '::' + m, [ref]))
            ck.equal(pre + 'decomposition: ' + m, ABT + '::' + m, got, gather(ids, tm.vals0), it.pc, ax)
        nopanic(ck, pre + 'accessors', ABT, it, n0, tm)
        for nm_, (ty, a, b) in SUBS.items():
            n1 = len(it.panics)
            st_ = it.val(s.call(ty + '::new', [ref]))
            r = s.ref(st_)
            ck.equal(pre + nm_ + ': independents', im(ty, 'indeps'), it.val(s.call(im(ty, 'indeps'), [r])), d.indeps[a], it.pc, ax)
            ck.equal(pre + nm_ + ': dependents', im(ty, 'deps'), it.val(s.call(im(ty, 'deps'), [r])), d.deps[b], it.pc, ax)
            eq_ops(ck, pre + nm_ + ': operations', im(ty, 'ops_iter'), it, seqof(it, s.call(im(ty, 'ops_iter'), [r])), d)
            bs = seqof(it, lib.iterator(it, 'rev', [s.call(im(ty, 'ops_iter'), [r])], [], None, ''))
            if bs is not None: eq_ops(ck, pre + nm_ + ': operations backwards', im(ty, 'ops_iter'), it, seq_rev(bs), d)
            else: ck.undecided(pre + nm_ + ': operations backwards', im(ty, 'ops_iter'), 'iterator outside the analysis')
            ck.equal(pre + nm_ + ': values', im(ty, 'values'), it.val(s.call(im(ty, 'values'), [r])), tm.vals0, it.pc, ax)
            ck.equal(pre + nm_ + ': rows', ty + '::nrows', it.val(s.call(ty + '::nrows', [r])), length(d.deps[b]), it.pc, ax)
            ck.equal(pre + nm_ + ': columns', ty + '::ncols', it.val(s.call(ty + '::ncols', [r])), length(d.indeps[a]), it.pc, ax)
            nopanic(ck, pre + nm_, ty + '::new', it, n1, tm)
        ck.equal(pre + 'nothing stored has changed', ABT, it.store[it.ghost], tm.vals0, it.pc)
        # mutable values of the decomposition are those of the tape
        pl = it.deref(s.call(im(ABT, 'values_mut'), [ref]))
        q = sym('pos', 'nat'); it.assume(lt(q, length(tm.vals0)))
        it.write(it.sub_place(pl, 'i', q), sym('new'))
        ck.equal(pre + 'a value written through values_mut is the stored value', im(ABT, 'values_mut'), it.val(s.call(im(ABT, 'values'), [ref])), upd(tm.vals0, q, sym('new')), it.pc)
        s.done()
    try: contained(ck, pre + 'decomposition', ABT + '::new', body)
    except Diverge: ck.violation(pre + 'decomposition: returns', ABT + '::new', 'decomposing a well-formed tape cannot return')

def linear_sweeps():
    """sweeps of any tape multiply with its Jacobian (C10 and C11)"""
    def dims(it, t):
        v = it.val(t)
        def ids(m):
            if v.op == 'st':
                key = im(v.args[0], m)
                r = mk('mref', it.new(v), ())
                return it.val(it.call_body(it.p.bykey[key], [r], {}))
            return it.val(it.summaries[TAPE + '::' + m](it, TAPE + '::' + m, {}, [t]))
        return ids('indeps'), ids('deps')
    def J(it, t):
        ins, outs = dims(it, t); ni, nd = length(ins), length(outs)
        j = mk('app', 'jacobian of tape', 'mat', ins, outs)
        return mat(nd, ni, lambda a, b: mk('msel', j, a, b))
    def fwd(it, key, env, args):
        dx = it.val(args[1]); M = J(it, args[0])
        # further components are not looked at
        it.may_panic(le(ncols(M), nrows(dx)), 'direction of the wrong dimension')
        return matmul(M, mat(ncols(M), ncols(dx), lambda i, j: mat_at(dx, i, j)))
    def rev(it, key, env, args):
        y = it.val(args[1]); M = J(it, args[0])
        it.may_panic(le(nrows(M), nrows(y)), 'weights of the wrong dimension')
        return matmul(mat(ncols(M), nrows(M), lambda a, b: mat_at(M, b, a)), mat(nrows(M), ncols(y), lambda i, j: mat_at(y, i, j)))
    return J, {TAPE + '::first_order_forward': fwd, TAPE + '::first_order_reverse': rev}

def sub_session(ck, prog, ty, shape=None):
    tm, s, it, d = abs_session(ck, prog, shape)
    J, sm = linear_sweeps()
    it.summaries.update(sm)
    t = it.val(s.call(ABT + '::new', [tm.value]))
    r = s.ref(it.val(s.call(ty + '::new', [s.ref(t)])))
    return tm, s, it, d, r, J(it, r)

def c18(ck, prog):
    ck.rules.append('value graphs of the products and of row and column extraction, with the sweeps as multiplication by an opaque matrix, equal the matrix products; mismatching operands panic')
    if not anf_ready(ck, prog): return
    for nm_, (ty, a, b) in SUBS.items():
        for m in ('mul_right', 'mul_left'):
            key = ty + '::' + m
            right = m == 'mul_right'
            X = sym('operand', 'mat')
            def body():
                tm, s, it, d, r, J = sub_session(ck, prog, ty)
                n0 = len(it.panics)
                for l in lits(ieq(nrows(X), ncols(J)) if right else ieq(ncols(X), nrows(J))): it.assume(l)
                got = s.call(key, [r, s.ref(X)])
                expect(ck, '%s::%s' % (nm_, m), key, it, got, matmul(J, X) if right else matmul(X, J), n0, tm.axioms())
                s.done()
            try: contained(ck, nm_ + '::' + m, key, body)
            except Diverge: ck.violation('%s::%s: returns' % (nm_, m), key, 'a product of matching operands cannot return')
            for tag, rel in (('large', lambda p, q: lt(q, p)), ('small', lambda p, q: lt(p, q))):
                def wrong():
                    tm, s, it, d, r, J = sub_session(ck, prog, ty)
                    it.assume(lt(ZERO, ncols(X) if right else nrows(X)))
                    it.assume(rel(nrows(X), ncols(J)) if right else rel(ncols(X), nrows(J)))
                    return s, s.call(key, [r, s.ref(X)])
                rejects(ck, '%s::%s rejects an operand that is too %s' % (nm_, m, tag), key, wrong)
        for m in ('row', 'column'):
            key = ty + '::' + m
            def body():
                tm, s, it, d, r, J = sub_session(ck, prog, ty)
                n0 = len(it.panics)
                i = sym('i', 'nat')
                it.assume(lt(i, nrows(J) if m == 'row' else ncols(J)))
                got = s.call(key, [r, i])
                want = mat(ONE, ncols(J), lambda p, q: mat_at(J, i, q)) if m == 'row' else mat(nrows(J), ONE, lambda p, q: mat_at(J, p, i))
                expect(ck, '%s::%s' % (nm_, m), key, it, got, want, n0, tm.axioms())
                s.done()
            try: contained(ck, nm_ + '::' + m, key, body)
            except Diverge: ck.violation('%s::%s: returns' % (nm_, m), key, 'it cannot return for a valid index')
    for tag, shape in SHAPES:
        if tag in ('two absolute values', 'two absolute values of one operand', 'three absolute values between other operations', 'no dependents'): products(ck, prog, tag, shape)

def products(ck, prog, tag, shape):
    """products and extraction on a tape of fixed shape, operands with few rows and columns"""
    for nm_, (ty, a, b) in SUBS.items():
        for m in ('mul_right', 'mul_left'):
            for k in (0, 1, 3):
                key = ty + '::' + m; right = m == 'mul_right'
                name = '%s, %s::%s, %d %s' % (tag, nm_, m, k, 'columns' if right else 'rows')
                for split in range(3) if k > 1 else (0,):
                    def body():
                        tm, s, it, d, r, J = sub_session(ck, prog, ty, shape)
                        it.split = split
                        xs = sym('operand', 'mat')
                        X = mat(ncols(J) if right else num(k), num(k) if right else nrows(J), lambda i, j: mk('msel', xs, i, j))
                        n0 = len(it.panics)
                        got = s.call(key, [r, s.ref(X)])
                        expect(ck, name + ' (split %d)' % split, key, it, got, matmul(J, X) if right else matmul(X, J), n0)
                        s.done()
                    try: contained(ck, name, key, body)
                    except Diverge: ck.violation('%s: returns' % name, key, 'a product of matching operands cannot return')

def pieces(s, d, tm, J):
    """matrices and switching values of the decomposition, by the crate's own (separately established) sub-tapes"""
    it = s.it
    t = s.ref(it.val(s.call(ABT + '::new', [tm.value])))
    M = {k: J(it, s.ref(it.val(s.call(ty + '::new', [t])))) for k, (ty, a, b) in SUBS.items()}
    z = vecm(d.s, lambda i: at(tm.vals0, at(d.zarg, i)))
    return M, z
def absv(v): return vecm(nrows(v), lambda i: fn('abs', mat_at(v, i, ZERO)))
def madd(a, b, f=add): return mat(nrows(a), ncols(a), lambda i, j: f(mat_at(a, i, j), mat_at(b, i, j)))
def mneg(a): return mat(nrows(a), ncols(a), lambda i, j: neg(mat_at(a, i, j)))

def taped(tm, f, x, box):
    """summary of taping: the opaque tape; remembers where it was taken"""
    def h(it, key, env, args):
        if it.val(args[0]) is not f: return NotImplemented
        box.append((it.pc, it.val(args[1])))
        return tm.value
    return {FUN + '::tape': h, FUN + '::n': lambda it, key, env, args: mk('app', FUN + '::n', 'nat', it.val(args[0])), FUN + '::m': lambda it, key, env, args: mk('app', FUN + '::m', 'nat', it.val(args[0]))}

def c19(ck, prog):
    ck.rules.append('value graph of the dense form over an opaque tape, with the sweeps as multiplication by opaque Jacobians, equals the specified matrices on every path, that is for either multiplication direction')
    if not anf_ready(ck, prog): return
    key = AN + 'abs_normal'
    if not ck.anchor(key in prog.bykey, key): return
    ty = prog.strip(prog.rt(prog.item[key]['output'], {}))
    adt = prog.adt.get(ty[1]) if ty[0] == 'adt' else None
    names = [n for n, t in adt['variants'][0]['fields']] if adt and len(adt['variants']) == 1 else []
    if not ck.anchor(set(names) >= {'a', 'zmat', 'lmat', 'b', 'jmat', 'ymat'}, AN + 'AbsNormalForm'): return
    f = sym('func', 'any'); x = prog.symval('x', dvec(prog, key, 1))
    def body():
        tm, s, it, d = abs_session(ck, prog)
        J, sm = linear_sweeps(); it.summaries.update(sm)
        box = []
        it.summaries.update(taped(tm, f, x, box))
        M, z = pieces(s, d, tm, J)
        n0 = len(it.panics)
        it.assume(ieq(length(tm.indeps), nrows(x)))
        got = it.val(s.call(key, [s.ref(f), s.ref(x)]))
        ax = tm.axioms()
        if not nopanic(ck, 'dense form', key, it, n0, tm): return
        if len(box) == 1: ck.ok('one tape', key)
        else: ck.violation('one tape', key, 'the function is taped %d times' % len(box))
        ck.equal('taped at the given point', key, box[0][1] if box else UNIT, x, it.pc)
        za = absv(z)
        want = {'zmat': M['Z'], 'lmat': M['L'], 'jmat': M['J'], 'ymat': M['Y'], 'a': madd(z, matmul(M['L'], za), sub), 'b': mneg(matmul(M['Y'], za))}
        for k, w in want.items():
            ck.equal('dense form: ' + k, key, it.val(fld(got, names.index(k), 'mat')), w, it.pc, ax)
        ck.equal('nothing stored has changed', key, it.store[it.ghost], tm.vals0, it.pc)
        s.done()
    try: contained(ck, 'dense form', key, body)
    except Diverge: ck.violation('dense form: returns', key, 'it cannot return')
    rules(ck, prog, ('',), lambda c, p: (c17(c, p), c18(c, p)))

GJ = DRV + 'generalized_jacobian::'
GJT = GJ + 'GeneralizedJacobian'

def sign_state(dz, s, nbits):
    """position in the sign bits before component i (stays at the end when exhausted), number of zeros"""
    def zero(v, a, b): return ite(flt(v, ZERO), b, ite(flt(ZERO, v), b, a))
    def pos(i):
        p, k = fresh('p', 'nat'), fresh('k', 'nat')
        return fold(i, [p], k, [zero(mat_at(dz, k, ZERO), ite(lt(fdiv(p, num(8)), nbits), add(p, ONE), p), p)], [ZERO], 0)
    return pos, lambda: sum_(s, lambda k: zero(mat_at(dz, k, ZERO), ONE, ZERO))

class AbsModel:
    """opaque tape with opaque decomposition: what C12, C17 and C18 establish about them"""
    def __init__(self, prog):
        self.prog = prog
        self.tape, self.dec = sym('tape', 'any'), sym('decomposed', 'any')
        self.indeps, self.deps = sym('indeps', 'seq:nat'), sym('deps', 'seq:nat')
        self.zarg, self.zvid = sym('arguments of abs', 'seq:nat'), sym('results of abs', 'seq:nat')
        self.n, self.m, self.s = sym('n', 'nat'), sym('m', 'nat'), sym('s', 'nat')
        self.vals = sym('values', 'seq:real')
        self.zval = sym('z', 'mat')
        self.z = vecm(self.s, lambda i: mk('msel', self.zval, i, ZERO))
        dims = {'Z': (self.s, self.n), 'L': (self.s, self.s), 'J': (self.m, self.n), 'Y': (self.m, self.s)}
        self.M = {}
        for k, (r, c) in dims.items():
            a = sym(k, 'mat')
            # the argument of an absolute value depends on the results of earlier ones only
            self.M[k] = mat(r, c, lambda i, j: ite(lt(j, i), mk('msel', a, i, j), ZERO) if k == 'L' else mk('msel', a, i, j))
        self.sub = {k: sym('subtape ' + k, 'any') for k in dims}
        self.kind = {v: k for k, v in self.sub.items()}
    def who(self, v):
        if v is self.tape: return 'tape'
        if v is self.dec: return 'dec'
        return self.kind.get(v)
    def product(self, k, right):
        M = self.M[k]
        def f(it, key, env, args):
            X = it.val(args[1])
            it.may_panic(ieq(nrows(X), ncols(M)) if right else ieq(ncols(X), nrows(M)), 'operands of a product do not match')
            return matmul(M, X) if right else matmul(X, M)
        return f
    def sweep(self, k, fwd):
        M = self.M[k] if fwd else mat(ncols(self.M[k]), nrows(self.M[k]), lambda i, j: mat_at(self.M[k], j, i))
        def f(it, X):
            it.may_panic(le(ncols(M), nrows(X)), 'operand of a sweep is too short')
            return matmul(M, mat(ncols(M), ncols(X), lambda i, j: mat_at(X, i, j)))
        return f
    def summaries(self):
        m = {}
        def on(f):
            def g(it, key, env, args):
                w = self.who(it.val(args[0]))
                if w is None: return NotImplemented
                r = f(it, w, args)
                if r is None: raise Give('call on a decomposed tape outside the model: ' + key)
                return r
            return g
        nd = {'tape': self.n, 'dec': add(self.n, self.s), 'Z': self.n, 'J': self.n, 'L': self.s, 'Y': self.s}
        md = {'tape': self.m, 'dec': add(self.s, self.m), 'Z': self.s, 'L': self.s, 'J': self.m, 'Y': self.m}
        gat = lambda n_, ids: vecm(n_, lambda i: at(self.vals, at(ids, i)))
        T_ = {'num_indeps': lambda it, w, a: nd[w], 'num_deps': lambda it, w, a: md[w], 'num_abs': lambda it, w, a: self.s if w == 'tape' else None}
        def fwd(it, w, a):
            if w not in self.M: return None
            return self.sweep(w, True)(it, it.val(a[1]))
        def rev(it, w, a):
            if w not in self.M: return None
            return self.sweep(w, False)(it, it.val(a[1]))
        T_['first_order_forward'] = fwd; T_['first_order_reverse'] = rev
        for k in ('indeps', 'deps', 'ops_iter', 'values', 'values_mut', 'x', 'y', 'max_id', 'zero_order'): T_[k] = lambda it, w, a: None
        tys = [ABT] + [ty for ty, a, b in SUBS.values()]
        for k, f in T_.items():
            m[TAPE + '::' + k] = on(f)
            for ty in tys: m[im(ty, k)] = on(f)
        def new(it, key, env, args):
            if it.val(args[0]) is not self.tape: raise Give('decomposition of another tape')
            return self.dec
        m[ABT + '::new'] = new
        for k, v in (('n', self.n), ('m', self.m), ('s', self.s), ('z', self.z)): m[ABT + '::' + k] = on(lambda it, w, a, v=v: v if w == 'dec' else None)
        for k in ('x', 'y'): m[ABT + '::' + k] = on(lambda it, w, a: None)
        for k, (ty, a, b) in SUBS.items():
            def snew(it, key, env, args, k=k):
                if it.val(args[0]) is not self.dec: raise Give('sub-tape of another decomposition')
                return self.sub[k]
            m[ty + '::new'] = snew
            m[ty + '::mul_right'] = self.product(k, True)
            m[ty + '::mul_left'] = self.product(k, False)
            m[ty + '::nrows'] = lambda it, key, env, args, k=k: nrows(self.M[k])
            m[ty + '::ncols'] = lambda it, key, env, args, k=k: ncols(self.M[k])
            for q in ('row', 'column'):
                def ex(it, key, env, args, k=k, q=q):
                    M = self.M[k]; i = it.val(args[1])
                    it.may_panic(lt(i, nrows(M) if q == 'row' else ncols(M)), 'row or column index out of range')
                    return mat(ONE, ncols(M), lambda p, c: mat_at(M, i, c)) if q == 'row' else mat(nrows(M), ONE, lambda p, c: mat_at(M, p, i))
                m[ty + '::' + q] = ex
        return m

def genjac_spec(am, dx, bytes_, G_, g_, mu):
    n, m, S, M = am.n, am.m, am.s, am.M
    nb = length(bytes_)
    za = absv(am.z)
    a = madd(am.z, matmul(M['L'], za), sub); b = mneg(matmul(M['Y'], za))
    t = madd(a, matmul(M['Z'], dx))
    w = fresh('w', 'mat'); k = fresh('k', 'nat')
    W = vecm(S, lambda i: mk('msel', w, i, ZERO))
    dz = fold(S, [w], k, [madd(t, matmul(M['L'], absv(W)))], [t], 0)
    pos, cnt = sign_state(dz, S, nb)
    def sg(i):
        v = mat_at(dz, i, ZERO); p = pos(i)
        bitv = ite(lt(fdiv(p, num(8)), nb), lib.bit(at(bytes_, fdiv(p, num(8))), fmod(p, num(8))), FALSE)
        return ite(flt(v, ZERO), num(-1), ite(flt(ZERO, v), ONE, ite(bitv, ONE, num(-1))))
    sig = lambda A: mat(nrows(A), S, lambda i, j: mul(mat_at(A, i, j), sg(j)))
    GY = sig(matmul(G_, M['Y']))
    u_ = fresh('u', 'mat'); k2 = fresh('k', 'nat'); U = mat(nrows(G_), S, lambda i, j: mk('msel', u_, i, j))
    u = fold(S, [u_], k2, [madd(sig(matmul(U, M['L'])), GY)], [GY], 0)
    return {'homogenous': madd(matmul(G_, M['J']), matmul(u, M['Z'])),
            'inhomogenous': madd(madd(g_, matmul(G_, b)), matmul(u, a)),
            'multiplicity': add(mu, cnt())}

def table(rows):
    """matrix with the given entries"""
    r, c = len(rows), len(rows[0]) if rows else 0
    def ent(i, j):
        ci, cj = const(i), const(j)
        if ci is not None and cj is not None: return rows[int(ci)][int(cj)] if ci < r and cj < c else ZERO
        v = ZERO
        for a in range(r):
            for b in range(c): v = ite(and_(ieq(i, num(a)), ieq(j, num(b))), rows[a][b], v)
        return v
    return mat(num(r), num(c), ent)

# name, number of absolute values, signs of the components of the direction
CASES = (('four absolute values, growing', 4, (1, 1, 1, 1)), ('four absolute values, alternating', 4, (-1, 1, -1, 1)), ('nineteen undecided signs', 19, (0,) * 19), ('signs in part undecided', 10, (0, 1) * 5))
def c20_case(ck, prog, key, names, session, result, tag, s_, signs):
    """one argument and result; all signs known, every repetition of the fixed-point iterations changes something until none can"""
    nm_ = 'tape, ' + tag
    dense = 0 not in signs
    box = []
    am, s, it = session(box)
    it.unroll = it.unfold = s_ + 2
    S = range(s_)
    L = [[sym('L%d%d' % (i, j), 'real') if dense and j < i else ZERO for j in S] for i in S]
    Z = [sym('Z%d' % i, 'real') if dense else sym('Z%d' % i, 'real') for i in S]
    Y = [sym('Y%d' % i, 'real') for i in S]
    z = [sym('z%d' % i, 'real') if dense or signs[i] else ZERO for i in S]
    J, d, G, g = sym('J', 'real'), sym('d', 'real') if dense else ZERO, sym('G', 'real'), sym('g', 'real')
    mu = sym('next.count', 'nat')
    am.n, am.m, am.s = ONE, ONE, num(s_)
    am.M.update({'Z': table([[x] for x in Z]), 'L': table(L), 'J': table([[J]]), 'Y': table([Y])})
    am.z = table([[x] for x in z])
    it.summaries.update(am.summaries())
    bytes_ = sym('bits', 'seq:nat')
    abs_ = lambda x: fn('abs', x)
    dot = lambda a, b: add(*([mul(x, y) for x, y in zip(a, b)] + [ZERO]))
    a = [sub(z[i], dot(L[i], [abs_(x) for x in z])) for i in S]
    b = neg(dot(Y, [abs_(x) for x in z]))
    t = [add(a[i], mul(Z[i], d)) for i in S]
    w = list(t)
    def changes(old, new):
        c = and_(*[feq(x, y) for x, y in zip(old, new)])
        if c is TRUE: return
        # in generic position each single component that can change does
        for x, y in zip(old, new):
            if feq(x, y) is not TRUE: it.assume(not_(feq(x, y)))
    for k in S:
        v = [add(t[i], dot(L[i], [abs_(x) for x in w])) for i in S]
        changes(w, v); w = v
    pos = 0; sg = []
    for i in S:
        if signs[i] > 0: it.assume(flt(ZERO, w[i])); it.assume(not_(flt(w[i], ZERO))); sg.append(ONE)
        elif signs[i] < 0: it.assume(flt(w[i], ZERO)); it.assume(not_(flt(ZERO, w[i]))); sg.append(num(-1))
        else:
            p = num(pos); pos += 1
            sg.append(ite(and_(lt(fdiv(p, num(8)), length(bytes_)), lib.bit(at(bytes_, fdiv(p, num(8))), fmod(p, num(8)))), ONE, num(-1)))
    if 0 in signs: it.assume(ieq(length(bytes_), num((pos + 7) // 8)))
    gy = [mul(G, mul(Y[j], sg[j])) for j in S]
    u = list(gy)
    for k in S:
        v = [add(gy[j], mul(sg[j], add(*([mul(u[i], L[i][j]) for i in S] + [ZERO])))) for j in S]
        changes(u, v); u = v
    nxt = st(OPT, 1, result({'homogenous': table([[G]]), 'inhomogenous': table([[g]]), 'multiplicity': mu}))
    TM.SUMLIM = max(4, s_)
    try: got = it.val(s.call(key, [am.tape, s.ref(table([[d]])), s.ref(bytes_), nxt]))
    finally: TM.SUMLIM = 4
    r = Res(); r.panics = it.panics; r.diverges = False; r.base_pc = it.pc
    if not total(ck, nm_, key, r): return
    want = {'homogenous': table([[add(mul(G, J), dot(u, Z))]]), 'inhomogenous': table([[add(g, mul(G, b), dot(u, a))]]), 'multiplicity': add(mu, num(pos))}
    for q in names: ck.equal(nm_ + ': ' + q, key, it.val(fld(got, names.index(q), 'mat' if q != 'multiplicity' else 'nat')), want[q], it.pc)
    s.done()

def c20(ck, prog):
    ck.rules.append('value graph of the driver over an opaque decomposition (established by C17 and C18; L strictly lower triangular) equals the fixed-point solutions of the abs-normal system at the direction signs')
    if not anf_ready(ck, prog): return
    kt, kf = GJ + 'generalized_jacobian_tape', GJ + 'generalized_jacobian'
    ok = True
    for k in (kt, kf): ok &= ck.anchor(k in prog.bykey, k)
    if not ok: return
    adt = prog.adt.get(GJT)
    names = [n for n, t in adt['variants'][0]['fields']] if adt and len(adt['variants']) == 1 else []
    if not ck.anchor(set(names) == {'homogenous', 'inhomogenous', 'multiplicity'}, GJT): return
    dx = prog.symval('dx', dvec(prog, kt, 1)); x = prog.symval('x', dvec(prog, kf, 1))
    bytes_ = sym('bits', 'seq:nat')
    f = sym('func', 'any')
    def result(vals): return st(GJT, 0, *[vals[n] for n in names])
    def session(box):
        am = AbsModel(prog)
        s = Session(ck, prog, am.summaries()); it = s.it
        def h(it, key, env, args):
            if it.val(args[0]) is not f: return NotImplemented
            box.append(it.val(args[1]))
            return am.tape
        it.finite = True
        it.summaries.update({FUN + '::tape': h, FUN + '::n': lambda it, key, env, args: am.n, FUN + '::m': lambda it, key, env, args: am.m})
        return am, s, it
    def invoke(s, am, key, nxt):
        if key == kt: return s.call(kt, [am.tape, s.ref(dx), s.ref(bytes_), nxt])
        return s.call(kf, [s.ref(f), s.ref(x), s.ref(dx), s.ref(bytes_), nxt])
    for key in (kt, kf):
        for tag in ('no successor', 'successor'):
            nm_ = ('tape, ' if key == kt else 'function, ') + tag
            def body():
                box = []
                am, s, it = session(box)
                it.assume(ieq(am.n, nrows(dx)))
                if key == kf: it.assume(ieq(nrows(x), am.n))
                if tag == 'successor':
                    G_ = sym('next.G', 'mat'); g_ = sym('next.g', 'mat'); mu = sym('next.count', 'nat')
                    for l in lits(and_(ieq(ncols(G_), am.m), ieq(nrows(g_), nrows(G_)), ieq(ncols(g_), ONE))): it.assume(l)
                    nxt = st(OPT, 1, result({'homogenous': G_, 'inhomogenous': g_, 'multiplicity': mu}))
                else:
                    G_ = mat(am.m, am.m, lambda i, j: ite(ieq(i, j), ONE, ZERO)); g_ = vecm(am.m, lambda i: ZERO); mu = ZERO
                    nxt = NONE
                got = it.val(invoke(s, am, key, nxt))
                r = Res(); r.panics = it.panics; r.diverges = False; r.base_pc = it.pc
                if not total(ck, nm_, key, r): return
                if key == kf:
                    if len(box) == 1: ck.ok(nm_ + ': taped once', key); ck.equal(nm_ + ': taped at the given point', key, box[0], x, it.pc)
                    else: ck.violation(nm_ + ': taped once', key, 'the function is taped %d times' % len(box))
                want = genjac_spec(am, dx, bytes_, G_, g_, mu)
                for q in names:
                    ck.equal(nm_ + ': ' + q, key, it.val(fld(got, names.index(q), 'mat' if q != 'multiplicity' else 'nat')), want[q], it.pc)
                s.done()
            try: contained(ck, nm_, key, body)
            except Diverge: ck.violation(nm_ + ': returns', key, 'it cannot return')
        if key == kt:
            for case in CASES: contained(ck, 'tape, ' + case[0], key, lambda: c20_case(ck, prog, key, names, session, result, *case))
        for what in ('direction',) + (('point',) if key == kf else ()):
            for tag, rel in (('long', lambda p, q: lt(q, p)), ('short', lambda p, q: lt(p, q))):
                def wrong():
                    am, s, it = session([])
                    it.assume(rel(nrows(dx), am.n) if what == 'direction' else ieq(nrows(dx), am.n))
                    if key == kf: it.assume(rel(nrows(x), am.n) if what == 'point' else ieq(nrows(x), am.n))
                    return s, invoke(s, am, key, NONE)
                rejects(ck, '%s: a %s that is too %s is rejected' % ('tape' if key == kt else 'function', what, tag), key, wrong)
