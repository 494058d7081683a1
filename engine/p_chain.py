"""C21: the generalized Jacobian of a chain."""
from common import *
from p_ops import total
from p_ctx import Session, contained
from p_tape import rules, dvec
from p_float import ready
from p_drv import FUN, CHAIN, SHAPES, leaves_of, build, FunModel, rejects, expect
import p_chk, p_anf, p_drv, lib
from p_anf import GJ, GJT

KC = GJ + 'generalized_jacobian_chain'
KT = GJ + 'generalized_jacobian_tape'
FIELDS = (('homogenous', 'mat'), ('inhomogenous', 'mat'), ('multiplicity', 'nat'))

class Members(FunModel):
    """opaque members; their tapes and generalized Jacobians are uninterpreted (C14, C20)"""
    def __init__(self, prog):
        FunModel.__init__(self, prog)
        adt = prog.adt[GJT]; self.names = [n for n, t in adt['variants'][0]['fields']]
        self.table = []
    def result(self, vals): return st(GJT, 0, *[vals[n] for n in self.names])
    def get(self, r, q): return fld(r, self.names.index(q), dict(FIELDS)[q])
    def identity(self, m): return self.result({'homogenous': mat(m, m, lambda i, j: ite(ieq(i, j), ONE, ZERO)), 'inhomogenous': vecm(m, lambda i: ZERO), 'multiplicity': ZERO})
    def call(self, kind, f, args, sorts):
        """results of a call on opaque members: symbols, compared later by the arguments of the call"""
        for k, g, a, r in self.table:
            if k == kind and g is f and a == args: return r
        r = [sym('%s %d.%d' % (kind, len(self.table), i), so) for i, so in enumerate(sorts)]
        self.table.append((kind, f, args, r))
        return r
    def find(self, kind, f):
        return [(a, r) for k, g, a, r in self.table if k == kind and g is f]
    def column(self, n, v): return vecm(n, lambda i: mk('msel', v, i, ZERO))
    def evaluate(self, f, x):
        v, t = self.call('evaluation', f, (nrows(x), self.point(x), self.direction(x)), ('mat', 'mat'))
        return vecm(self.m(f), lambda i: self.a.make(mk('msel', v, i, ZERO), mk('msel', t, i, ZERO), None))
    def bits(self, b):
        c = TM.const(length(b))
        if c is not None and all(TM.const(at(b, num(i))) == 0 for i in range(int(c))): return EMPTY
        return b
    def jacobian(self, f, x, d, b, nxt):
        G = self.get(nxt, 'homogenous')
        r = self.call('generalized Jacobian', f, (x, d, b) + tuple(self.get(nxt, q) for q, so in FIELDS), ('mat', 'mat', 'nat'))
        return self.accumulated(nrows(G), f, r)
    def accumulated(self, R, f, r):
        return self.result({'homogenous': mat(R, self.n(f), lambda i, j: mk('msel', r[0], i, j)), 'inhomogenous': self.column(R, r[1]), 'multiplicity': r[2]})
    def summaries(self):
        m = FunModel.summaries(self)
        def chain(it, key, env, args):
            return NONE if self.opaque(it.val(args[0])) else NotImplemented
        def tape(it, key, env, args):
            f = it.val(args[0])
            if not self.opaque(f): return NotImplemented
            x = it.val(args[1])
            it.may_panic(ieq(nrows(x), self.n(f)), 'point of the wrong dimension')
            return mk('app', 'tape of', 'any', f, vecm(nrows(x), lambda i: mat_at(x, i, ZERO)))
        def gj(it, key, env, args):
            t = it.val(args[0])
            if not (t.op == 'app' and t.args[0] == 'tape of'): raise Give('generalized Jacobian of another tape')
            f, x = t.args[2], t.args[3]
            d, b, nx = it.val(args[1]), self.bits(it.val(args[2])), it.val(args[3])
            it.may_panic(ieq(nrows(d), self.n(f)), 'direction of the wrong dimension')
            if nx.op != 'st': raise Give('successor outside the analysis')
            nxt = self.identity(self.m(f)) if nx.args[1] == 0 else it.val(nx.args[2])
            it.may_panic(ieq(ncols(self.get(nxt, 'homogenous')), self.m(f)), 'successor of the wrong dimension')
            return self.jacobian(f, x, vecm(nrows(d), lambda i: mat_at(d, i, ZERO)), b, nxt)
        m[FUN + '::chain'] = chain
        m[FUN + '::tape'] = tape
        m[KT] = gj
        def rs(it, key, env, args):
            x, n, c, f, r, i = [args[k] if k > 2 else it.val(args[k]) for k in range(6)]
            n = simplify(n, it.pc)
            k = TM.const(n)
            if k is None: raise Give('number of steps outside the analysis')
            it.may_panic(le(num(2), c), 'fewer than two checkpoints')
            xs = [x]
            for _ in range(int(k)): xs.append(it.val(lib.capply(it, f, xs[-1])))
            y = it.val(lib.capply(it, i, xs[-1]))
            for z in reversed(xs[:-1]): y = it.val(lib.capply(it, r, z, y))
            return y
        m[p_chk.RS] = rs
        return m

def c21(ck, prog):
    ck.rules.append('value graph of the driver on chains assembled through the public constructors (flat and nested), with the sequence reversal replaced by what C22 establishes, equals the reverse accumulation')
    if ready(ck, prog) is None: return
    ok = True
    for k in (KC, CHAIN + '::from_boxed', CHAIN + '::append_boxed', FUN + '::eval', FUN + '::tape', KT): ok &= ck.anchor(k in prog.bykey or k in prog.defkey, k)
    adt = prog.adt.get(GJT)
    names = [n for n, t in adt['variants'][0]['fields']] if adt and len(adt['variants']) == 1 else []
    if not ok or not ck.anchor(set(names) == {'homogenous', 'inhomogenous', 'multiplicity'}, GJT): return
    shapes = dict(SHAPES); shapes['four members'] = ['f0', 'f1', 'f2', 'f3']; shapes['six members'] = ['f%d' % i for i in range(6)]
    x, dx = prog.symval('x', dvec(prog, KC, 1)), prog.symval('dx', dvec(prog, KC, 2))
    def setup(shape):
        fm = Members(prog)
        s = Session(ck, prog, fm.summaries()); it = s.it; it.unfold = it.unroll = 10
        ref = s.ref(build(s, fm, shape))
        return fm, s, it, ref
    for tag, shape in shapes.items():
        fs = [sym(l, 'any') for l in leaves_of(shape)]
        for cp in ('default number of checkpoints', 'given number of checkpoints'):
            name = '%s, %s' % (tag, cp)
            def body():
                fm, s, it, ref = setup(shape)
                del it.panics[:]
                for l in lits(and_(ieq(nrows(x), fm.n(fs[0])), ieq(nrows(dx), fm.n(fs[0])))): it.assume(l)
                c = sym('ncheckpoints', 'nat')
                if cp[0] == 'g': it.assume(le(num(2), c))
                got = it.val(s.call(KC, [ref, x, dx, NONE if cp[0] == 'd' else st(OPT, 1, c)]))
                r = Res(); r.panics = it.panics; r.diverges = False; r.base_pc = it.pc
                if not total(ck, name, KC, r): return
                col = lambda v: vecm(nrows(v), lambda i: mat_at(v, i, ZERO))
                p, d = col(x), col(dx)
                pts = []
                for i, f in enumerate(fs):
                    pts.append((f, p, d))
                    c = fm.find('evaluation', f)
                    if len(c) > 1: raise Give('member evaluated more than once')
                    if not c: ck.violation(name, KC, 'member %d is not evaluated' % i); return
                    (n_, gp, gd), r = c[0]
                    ck.equal('%s: forward step %d: point' % (name, i), KC, gp, p, it.pc)
                    ck.equal('%s: forward step %d: direction' % (name, i), KC, gd, d, it.pc)
                    p, d = fm.column(fm.m(f), r[0]), fm.column(fm.m(f), r[1])
                want = fm.identity(fm.m(fs[-1]))
                for i, (f, p, d) in reversed(list(enumerate(pts))):
                    c = fm.find('generalized Jacobian', f)
                    if len(c) > 1: raise Give('member differentiated more than once')
                    if not c: ck.violation(name, KC, 'the generalized Jacobian of member %d is not computed' % i); return
                    for g, w, what in zip(c[0][0], (p, d, EMPTY) + tuple(fm.get(want, q) for q, so in FIELDS), ('point', 'direction', 'signs', 'successor matrix', 'successor offset', 'successor multiplicity')):
                        ck.equal('%s: reverse step %d: %s' % (name, i, what), KC, g, w, it.pc)
                    want = fm.accumulated(fm.m(fs[-1]), f, c[0][1])
                for q, so in FIELDS: ck.equal('%s: %s' % (name, q), KC, it.val(fm.get(got, q)), fm.get(want, q), it.pc)
                s.done()
            try: contained(ck, name, KC, body)
            except Diverge: ck.violation(name + ': returns', KC, 'the driver cannot return')
    rules(ck, prog, ('short sequences',), lambda c, p: p_chk.c22(c, p, general=False))
