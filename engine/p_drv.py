"""C13-C15: Jacobian drivers, evaluation and taping, chains."""
from fractions import Fraction as Fr
from common import *
from p_ops import total
from p_ctx import Session, contained, CTX
from p_float import AF, Active, ENV, ready
from p_tape import TAPE, TapeModel, dvec, rules, tape_ready
import p_ops, p_ctx, p_tape, lib

FUN = 'advantage::function::Function'
DRV = 'advantage::drivers::'
CHAIN = 'advantage::function::FunctionChain'

class FunModel:
    """opaque function objects: value and Jacobian are uninterpreted in the point, the derivative is linear in the direction"""
    def __init__(self, prog, attach=None, dims=None):
        self.prog = prog; self.attach = attach; self.dims = dims
        self.a = Active(prog)
        self.evals = []
    def opaque(self, v): return v.op in ('sym', 'app', 'fld', 'sel')
    def n(self, f): return num(self.dims[0]) if self.dims else mk('app', FUN + '::n', 'nat', f)
    def m(self, f): return num(self.dims[1]) if self.dims else mk('app', FUN + '::m', 'nat', f)
    def point(self, x): return vecm(nrows(x), lambda i: self.a.value(mat_at(x, i, ZERO)))
    def direction(self, x): return vecm(nrows(x), lambda i: self.a.dvalue(mat_at(x, i, ZERO)))
    def jac(self, f, p): return mk('app', 'jacobian of', 'mat', f, p)
    def val(self, f, p): return mk('app', 'value of', 'mat', f, p)
    def evaluate(self, f, x):
        p, d = self.point(x), self.direction(x)
        J, v = self.jac(f, p), self.val(f, p)
        def row(i):
            return self.a.make(mk('msel', v, i, ZERO), sum_(nrows(x), lambda k: mul(mk('msel', J, i, k), mat_at(d, k, ZERO))), self.attach(f, x, i) if self.attach else None)
        return vecm(self.m(f), row)
    def summaries(self):
        def g(h):
            def s(it, key, env, args):
                f = it.val(args[0])
                if not self.opaque(f): return NotImplemented
                return h(it, f, args[1:])
            return s
        def ev(it, f, args):
            x = it.val(args[0])
            self.evals.append((it.pc, f, x))
            return self.evaluate(f, x)
        return {FUN + '::n': g(lambda it, f, a: self.n(f)), FUN + '::m': g(lambda it, f, a: self.m(f)), FUN + '::eval': g(ev)}

class TapeJac(TapeModel):
    """opaque tape whose sweeps multiply with its Jacobian (established by C10 and C11)"""
    def __init__(self, ck, prog, name='tape', dims=None):
        TapeModel.__init__(self, ck, prog, name)
        if dims:
            self.indeps = seq_lit(*[at(self.indeps, num(i)) for i in range(dims[0])]); self.deps = seq_lit(*[at(self.deps, num(i)) for i in range(dims[1])])
        self.J = mk('app', 'jacobian of tape', 'mat', self.value)
        self.mat = mat(length(self.deps), length(self.indeps), lambda i, j: mk('msel', self.J, i, j))
    def summaries(self, own=None):
        m = TapeModel.summaries(self, own)
        def fwd(it, key, env, args):
            dx = it.val(args[1])
            it.may_panic(le(length(self.indeps), nrows(dx)), 'direction of the wrong dimension')
            return matmul(self.mat, mat(length(self.indeps), ncols(dx), lambda i, j: mat_at(dx, i, j)))
        def rev(it, key, env, args):
            y = it.val(args[1])
            it.may_panic(le(length(self.deps), nrows(y)), 'weights of the wrong dimension')
            return matmul(mat(ncols(self.mat), nrows(self.mat), lambda i, j: mat_at(self.mat, j, i)), mat(length(self.deps), ncols(y), lambda i, j: mat_at(y, i, j)))
        m[TAPE + '::first_order_forward'] = fwd
        m[TAPE + '::first_order_reverse'] = rev
        return m

def expect(ck, name, key, it, got, want, n0=0, axioms=(), extra=()):
    r = Res(); r.panics = it.panics[n0:]; r.diverges = False; r.base_pc = it.pc
    if total(ck, name, key, r): ck.equal(name, key, it.val(got), want, tuple(it.pc) + tuple(extra), axioms)

def rejects(ck, name, key, body):
    """body must panic"""
    def f():
        try: s, v = body()
        except Diverge: ck.ok(name, key); return
        if is_unk(v) or TM.poisoned(v): ck.undecided(name, key, 'outside the analysis'); return
        ck.violation(name, key, 'it returns ' + short(v))
    contained(ck, name, key, f)

SMALL = ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (0, 2), (2, 0))
def c13(ck, prog):
    ck.rules.append('value graph of the drivers, over opaque functions and tapes with a linear derivative, equals the Jacobian entry by entry; parallel reductions have to be order-independent concatenations')
    kf, kr = DRV + 'jacobian::jacobian_forward', DRV + 'jacobian::jacobian_reverse'
    if ready(ck, prog) is None: return
    if ck.anchor(kf in prog.bykey, kf) and ck.anchor(FUN + '::eval' in prog.defkey, FUN + '::eval'):
        fm = FunModel(prog)
        f, x = sym('func', 'any'), prog.symval('x', dvec(prog, kf, 1))
        def body():
            s = Session(ck, prog, fm.summaries()); it = s.it
            for l in lits(ieq(nrows(x), fm.n(f))): it.assume(l)
            got = s.call(kf, [s.ref(f), s.ref(x)])
            J = fm.jac(f, vecm(nrows(x), lambda i: mat_at(x, i, ZERO)))
            expect(ck, 'forward driver', kf, it, got, mat(fm.m(f), fm.n(f), lambda i, j: mk('msel', J, i, j)))
            s.done()
        try: contained(ck, 'forward driver', kf, body)
        except Diverge: ck.violation('forward driver: returns', kf, 'the driver cannot return')
        for tag, rel in (('long', lambda a, b: lt(b, a)), ('short', lambda a, b: lt(a, b))):
            def wrong():
                s = Session(ck, prog, fm.summaries())
                s.it.assume(rel(nrows(x), fm.n(f)))
                return s, s.call(kf, [s.ref(f), s.ref(x)])
            rejects(ck, 'forward driver rejects a point that is too ' + tag, kf, wrong)
        for dims in SMALL:
            for split in range(3):
                name = 'forward driver for %d arguments and %d results (split %d)' % (dims + (split,))
                def body():
                    fm = FunModel(prog, dims=dims)
                    s = Session(ck, prog, fm.summaries()); it = s.it; it.unroll = it.unfold = 8; it.split = split
                    xs = sym('x', 'seq:real')
                    X = mat(num(dims[0]), ONE, lambda i, j: mk('sel', xs, i))
                    got = s.call(kf, [s.ref(f), s.ref(X)])
                    J = fm.jac(f, fm.point(vecm(num(dims[0]), lambda i: fm.a.make(mk('sel', xs, i), ZERO, None))))
                    expect(ck, name, kf, it, got, mat(num(dims[1]), num(dims[0]), lambda i, j: mk('msel', J, i, j)))
                    s.done()
                try: contained(ck, name, kf, body)
                except Diverge: ck.violation(name + ': returns', kf, 'the driver cannot return')
    if ck.anchor(kr in prog.bykey, kr) and tape_ready(ck, prog):
        def body():
            tm = TapeJac(ck, prog); s = tm.session(ck, prog); it = s.it
            got = s.call(kr, [s.self])
            expect(ck, 'reverse driver', kr, it, got, tm.mat)
            ck.equal('reverse driver changes nothing stored', kr, it.store[it.ghost], tm.vals0, it.pc)
            s.done()
        try: contained(ck, 'reverse driver', kr, body)
        except Diverge: ck.violation('reverse driver: returns', kr, 'the driver cannot return')
        for dims in SMALL:
            for split in range(3):
                name = 'reverse driver for %d independents and %d dependents (split %d)' % (dims + (split,))
                def body():
                    tm = TapeJac(ck, prog, dims=dims); s = tm.session(ck, prog); it = s.it; it.unroll = it.unfold = 8; it.split = split
                    got = s.call(kr, [s.self])
                    expect(ck, name, kr, it, got, tm.mat)
                    s.done()
                try: contained(ck, name, kr, body)
                except Diverge: ck.violation(name + ': returns', kr, 'the driver cannot return')
    rules(ck, prog, ('first order', 'forward sweep', 'reverse sweep', 'reverse step', 'adjoint'), lambda c, p: (p_tape.c10(c, p), p_tape.c11(c, p)))

def exhausted(pc):
    """only when the process has used up all context ids"""
    mx = [t for t in p_tape.terms_of(pc, lambda t: t.op == 'sym' and str(t.args[0]).endswith(':MAX'))]
    return any(l.op == 'ge0' and any(TM.P(l.args[0]).get(((m, Fr(1)),), 0) < 0 for m in mx) for l in pc)

def c14(ck, prog):
    ck.rules.append('evaluation on numbers is the value part of the evaluation on unattached scalars; taping yields exactly the specified recording')
    a = ready(ck, prog)
    if a is None: return
    ke, kt = FUN + '::eval_float', FUN + '::tape'
    for k in (ke, kt): ck.anchor(k in prog.bykey, k)
    for m in ('eval_float', 'tape'):
        for im in prog.impls:
            if im['trait'] == FUN and any(n == m for n, d in im['items']): ck.undecided('replaced ' + m, im['items'][0][0], 'an implementation replaces the provided method')
    f = sym('func', 'any')
    if ke in prog.bykey:
        fm = FunModel(prog); x = prog.symval('x', dvec(prog, ke, 1))
        def body():
            s = Session(ck, prog, fm.summaries()); it = s.it
            for l in lits(ieq(nrows(x), fm.n(f))): it.assume(l)
            got = s.call(ke, [s.ref(f), x])
            v = fm.val(f, vecm(nrows(x), lambda i: mat_at(x, i, ZERO)))
            expect(ck, 'evaluation on numbers', ke, it, got, vecm(fm.m(f), lambda i: mk('msel', v, i, ZERO)))
            for pc, g, z in fm.evals[-1:]:
                ck.equal('evaluation on numbers uses unattached arguments', ke, vecm(nrows(z), lambda i: isv(a.ctx(mat_at(z, i, ZERO)), OPT, 1)), vecm(nrows(x), lambda i: FALSE), it.pc)
            s.done()
        try: contained(ck, 'evaluation on numbers', ke, body)
        except Diverge: ck.violation('evaluation on numbers: returns', ke, 'it cannot return')
    if ke in prog.bykey and CHAIN + '::append_boxed' in prog.bykey and CHAIN + '::from_boxed' in prog.bykey:
        for tag, shape in SHAPES.items():
            fs = [sym(l, 'any') for l in leaves_of(shape)]
            name = 'evaluation on numbers of ' + tag
            def body():
                fm = LeafModel(prog); x = prog.symval('x', dvec(prog, ke, 1))
                s = Session(ck, prog, fm.summaries()); it = s.it; it.unfold = it.unroll = 6
                ref = s.ref(build(s, fm, shape))
                for l in lits(ieq(nrows(x), fm.n(fs[0]))): it.assume(l)
                n0 = len(it.panics)
                own = '<%s as %s>::eval_float' % (CHAIN, FUN)
                got = s.call(own if own in prog.bykey else ke, [ref, x])
                v = vecm(nrows(x), lambda i: mat_at(x, i, ZERO))
                for f in fs:
                    w = fm.val(f, v); v = vecm(fm.m(f), lambda i, w=w: mk('msel', w, i, ZERO))
                expect(ck, name, ke, it, got, v, n0)
                s.done()
            try: contained(ck, name, ke, body)
            except Diverge: ck.violation(name + ': returns', ke, 'it cannot return')
    if kt in prog.bykey:
        outid = lambda i: mk('app', 'result id', 'nat', i)
        for attached in (True, False):
            tag = 'taping, results %s' % ('attached' if attached else 'constant')
            x = prog.symval('x', dvec(prog, kt, 1))
            def body():
                cidbox = []
                def att(fn_, xs, i):
                    c = simplify(a.ctx(mat_at(xs, ZERO, ZERO)), (lt(ZERO, nrows(xs)),))
                    if not attached: return None
                    return (fld(fld(c, 0, 'any', 1), 0, 'nat'), outid(i))
                fm = FunModel(prog, att)
                s = Session(ck, prog, fm.summaries()); it = s.it
                for l in lits(ieq(nrows(x), fm.n(f))): it.assume(l)
                it.assume(lt(ZERO, nrows(x)))
                got = it.val(s.call(kt, [s.ref(f), s.ref(x)]))
                r = Res(); r.panics = [p for p in it.panics if not exhausted(p[0])]; r.diverges = False; r.base_pc = it.pc
                if not total(ck, tag, kt, r): return
                o = p_ctx.tape_obs(s, got, s.ref(got))
                if o is None: ck.undecided(tag, kt, 'the tape type has no analysable accessors'); return
                n, m = nrows(x), fm.m(f)
                X = arr(n, lambda i: mat_at(x, i, ZERO))
                if len(fm.evals) == 1: ck.ok(tag + ': one evaluation', kt)
                else: ck.violation(tag + ': one evaluation', kt, '%d evaluations' % len(fm.evals))
                z = fm.evals[0][2]
                v = fm.val(f, fm.point(z))
                ck.equal(tag + ': evaluated at the given point', kt, fm.point(z), vecm(n, lambda i: mat_at(x, i, ZERO)), it.pc)
                ck.equal(tag + ': evaluated on the independents', kt, arr(nrows(z), lambda i: fld(fld(a.ctx(mat_at(z, i, ZERO)), 0, 'any', 1), 1, 'nat')), arr(n, lambda i: i), it.pc)
                ck.equal(tag + ': independents', kt, o['indeps'], arr(n, lambda i: i), it.pc)
                if attached:
                    ck.equal(tag + ': dependents', kt, o['deps'], arr(m, outid), it.pc)
                    ck.equal(tag + ': values', kt, o['values'], X, it.pc)
                else:
                    ck.equal(tag + ': dependents', kt, o['deps'], arr(m, lambda i: add(n, i)), it.pc)
                    ck.equal(tag + ': values', kt, o['values'], concat(X, arr(m, lambda i: mk('msel', v, i, ZERO))), it.pc)
                s.done()
            try: contained(ck, tag, kt, body)
            except Diverge: ck.violation(tag + ': returns', kt, 'taping cannot return')
    # closures
    S_ = 'advantage::function::SimpleFunction'
    kn = S_ + '::new'
    im = [i for i in prog.impls if i['trait'] == FUN and prog.rt(i['targs'][0])[:2] == ('adt', S_)]
    if ck.anchor(kn in prog.bykey and bool(im), kn):
        n, m, c = sym('n', 'nat'), sym('m', 'nat'), sym('closure', 'any')
        def body():
            s = Session(ck, prog); it = s.it
            o = s.ref(s.call(kn, [n, m, c]))
            nm = lambda k: '<%s as %s>::%s' % (S_, FUN, k)
            ck.equal('closure object: n', nm('n'), it.val(s.call(nm('n'), [o])), n, it.pc)
            ck.equal('closure object: m', nm('m'), it.val(s.call(nm('m'), [o])), m, it.pc)
            z = sym('z', 'mat')
            got = it.val(s.call(nm('eval'), [o, z]))
            ck.equal('closure object: evaluation', nm('eval'), got, mk('app', 'call', 'any', c, z), it.pc)
            expect(ck, 'closure object', nm('eval'), it, UNIT, UNIT)
            s.done()
        contained(ck, 'closure object', kn, body)

def flat_spec(prog, key, fs):
    """flattened members"""
    chain = lambda f: mk('app', FUN + '::chain', 'any', f)
    return bigcat(length(fs), lambda i: ite(isv(chain(at(fs, i)), OPT, 1), mk('app', 'rec:' + key, 'seq:any', fld(chain(at(fs, i)), 0, 'any', 1)), seq_lit(at(fs, i))))

def dyn_ty(): return ('dyn', FUN)
class ChainModel(FunModel):
    """opaque members that are no chains"""
    def summaries(self):
        m = FunModel.summaries(self)
        def ch(it, key, env, args):
            f = it.val(args[0])
            if not self.opaque(f): return NotImplemented
            return NONE
        m[FUN + '::chain'] = ch
        def ev(it, key, env, args):
            f = it.val(args[0])
            if not self.opaque(f): return NotImplemented
            x = it.val(args[1])
            return mk('app', 'evaluate', 'mat', f, x)
        m[FUN + '::eval'] = ev
        return m

class LeafModel(FunModel):
    """opaque members that are no chains, with a value and a linear derivative"""
    def summaries(self):
        m = FunModel.summaries(self)
        m[FUN + '::chain'] = lambda it, key, env, args: NONE if self.opaque(it.val(args[0])) else NotImplemented
        return m

SHAPES = {
    'one member': ['f0'],
    'two members': ['f0', 'f1'],
    'three members': ['f0', 'f1', 'f2'],
    'a nested chain first': [['f0', 'f1'], 'f2'],
    'a nested chain in the middle': ['f0', ['f1', 'f2'], 'f3'],
    'chains nested twice': [['f0', ['f1', 'f2']], 'f3'],
    'nested single chains': [[['f0']], ['f1'], 'f2'],
}
def leaves_of(s): return [s] if isinstance(s, str) else [l for x in s for l in leaves_of(x)]

def build(s, fm, shape):
    """chain object assembled through the public constructors; None if it panics"""
    it = s.it
    f = sym(shape, 'any') if isinstance(shape, str) else None
    if f is not None: return f
    xs = [build(s, fm, x) for x in shape]
    c = s.call(CHAIN + '::from_boxed', [xs[0]])
    r = s.ref(c)
    for x, sh, prev in zip(xs[1:], shape[1:], shape):
        a, b = leaves_of(prev)[-1], leaves_of(sh)[0]
        for l in lits(ieq(fm.m(sym(a, 'any')), fm.n(sym(b, 'any')))): it.assume(l)
        s.call(CHAIN + '::append_boxed', [r, x])
    return it.val(r)

def c15(ck, prog):
    ck.rules.append('value graphs of evaluation, dimensions, iteration and access on chains assembled through the public constructors (flat and nested shapes) and on a chain with an arbitrary member list')
    nm = lambda k: '<%s as %s>::%s' % (CHAIN, FUN, k)
    ok = True
    for k in ('from_boxed', 'append_boxed', 'iter', 'len', 'nth'): ok &= ck.anchor(CHAIN + '::' + k in prog.bykey, CHAIN + '::' + k)
    for k in ('n', 'm', 'eval', 'chain'): ok &= ck.anchor(nm(k) in prog.bykey, nm(k))
    if not ok: return
    for tag, shape in SHAPES.items():
        fs = [sym(l, 'any') for l in leaves_of(shape)]
        fm = ChainModel(prog)
        def body():
            s = Session(ck, prog, fm.summaries()); it = s.it; it.unfold = it.unroll = 6
            c = build(s, fm, shape)
            ref = s.ref(c)
            n0 = len(it.panics)
            expect(ck, tag + ': assembling', CHAIN + '::append_boxed', it, UNIT, UNIT)
            expect(ck, tag + ': n', nm('n'), it, s.call(nm('n'), [ref]), fm.n(fs[0]))
            expect(ck, tag + ': m', nm('m'), it, s.call(nm('m'), [ref]), fm.m(fs[-1]))
            x = sym('x', 'mat'); y = x
            for f in fs: y = mk('app', 'evaluate', 'mat', f, y)
            expect(ck, tag + ': evaluation', nm('eval'), it, s.call(nm('eval'), [ref, x]), y)
            expect(ck, tag + ': length', CHAIN + '::len', it, s.call(CHAIN + '::len', [ref]), num(len(fs)))
            seq = lib.rest(it, s.call(CHAIN + '::iter', [ref]))
            if seq is None or is_unk(seq): ck.undecided(tag + ': iteration', CHAIN + '::iter', 'iterator outside the analysis')
            else: ck.equal(tag + ': iteration', CHAIN + '::iter', lib.smap(it, seq, lambda z: it.val(z)), seq_lit(*fs), it.pc)
            for i, f in enumerate(fs):
                expect(ck, tag + ': member %d' % i, CHAIN + '::nth', it, s.call(CHAIN + '::nth', [ref, num(i)]), f)
            o = it.val(s.call(nm('chain'), [ref]))
            ck.equal(tag + ': is a chain', nm('chain'), isv(o, OPT, 1), TRUE, it.pc)
            ck.equal(tag + ': its chain is itself', nm('chain'), it.val(fld(o, 0, 'any', 1)), it.val(ref), it.pc)
            s.done()
        try: contained(ck, tag, CHAIN, body)
        except Diverge: ck.violation(tag + ': returns', CHAIN, 'a call on a well-formed chain cannot return')
        def past():
            s = Session(ck, prog, fm.summaries()); s.it.unfold = s.it.unroll = 6
            ref = s.ref(build(s, fm, shape))
            return s, s.call(CHAIN + '::nth', [ref, num(len(fs))])
        rejects(ck, tag + ': no member beyond the last', CHAIN + '::nth', past)
    # construction from unboxed members
    for k, bk in (('new', 'from_boxed'), ('append', 'append_boxed')):
        key = CHAIN + '::' + k
        if key not in prog.bykey: ck.anchor(False, key); continue
        fm = ChainModel(prog)
        def body():
            f, g = sym('f0', 'any'), sym('f1', 'any')
            vals = []
            for via in (k, bk):
                s = Session(ck, prog, fm.summaries()); it = s.it
                for l in lits(ieq(fm.m(f), fm.n(g))): it.assume(l)
                if k == 'new': v = s.call(CHAIN + '::' + via, [f])
                else:
                    r = s.ref(s.call(CHAIN + '::from_boxed', [f])); s.call(CHAIN + '::' + via, [r, g]); v = it.val(r)
                vals.append(v); s.done()
            ck.equal(k + ' boxes its member', key, vals[0], vals[1])
        try: contained(ck, k, key, body)
        except Diverge: ck.violation(k + ': returns', key, 'it cannot return')
    # rejection of mismatching members
    for tag, rel in (('larger', lambda a, b: lt(a, b)), ('smaller', lambda a, b: lt(b, a))):
        for shape, last in ((['f0'], 'f0'), (['f0', 'f1'], 'f1'), ([['f0', 'f1']], 'f1')):
            for added in ('g', ['g', 'h']):
                fm = ChainModel(prog)
                def wrong():
                    s = Session(ck, prog, fm.summaries()); it = s.it; it.unfold = it.unroll = 6
                    r = s.ref(build(s, fm, shape))
                    gg = build(s, fm, added)
                    it.assume(rel(fm.m(sym(last, 'any')), fm.n(sym('g', 'any'))))
                    s.call(CHAIN + '::append_boxed', [r, gg])
                    return s, it.val(r)
                rejects(ck, 'appending %s with a %s argument to %d members is rejected' % ('a chain' if isinstance(added, list) else 'a function', tag, len(leaves_of(shape))), CHAIN + '::append_boxed', wrong)
    # a chain of any length
    adt = prog.adt.get(CHAIN)
    fts = [prog.rt(ft, {}) for n, ft in adt['variants'][0]['fields']] if adt and len(adt['variants']) == 1 else []
    if len(fts) != 1 or not prog.sort(fts[0]).startswith('seq'):
        ck.undecided('chain of any length', CHAIN, 'members are not kept in one list'); return
    fs = sym('members', 'seq:any'); n = length(fs)
    for tag, facts in (('any length', (lt(ZERO, n),)),):
        fm = ChainModel(prog)
        def body():
            s = Session(ck, prog, fm.summaries()); it = s.it
            for f in facts: it.assume(f)
            ref = s.ref(st(CHAIN, 0, fs))
            expect(ck, tag + ': n', nm('n'), it, s.call(nm('n'), [ref]), fm.n(at(fs, ZERO)))
            expect(ck, tag + ': m', nm('m'), it, s.call(nm('m'), [ref]), fm.m(at(fs, sub(n, ONE))))
            x = sym('x', 'mat'); acc = fresh('acc', 'mat'); k = fresh('k', 'nat')
            expect(ck, tag + ': evaluation', nm('eval'), it, s.call(nm('eval'), [ref, x]), fold(n, [acc], k, [mk('app', 'evaluate', 'mat', at(fs, k), acc)], [x], 0))
            expect(ck, tag + ': length', CHAIN + '::len', it, s.call(CHAIN + '::len', [ref]), n)
            seq = lib.rest(it, s.call(CHAIN + '::iter', [ref]))
            if seq is None or is_unk(seq): ck.undecided(tag + ': iteration', CHAIN + '::iter', 'iterator outside the analysis')
            else: ck.equal(tag + ': iteration', CHAIN + '::iter', lib.smap(it, seq, lambda z: it.val(z)), arr(n, lambda i: at(fs, i)), it.pc)
            i = sym('idx', 'nat'); it.assume(lt(i, n))
            expect(ck, tag + ': member', CHAIN + '::nth', it, s.call(CHAIN + '::nth', [ref, i]), at(fs, i))
            s.done()
        try: contained(ck, tag, CHAIN, body)
        except Diverge: ck.violation(tag + ': returns', CHAIN, 'a call on a well-formed chain cannot return')
