"""C21-C23: checkpointed reversal and the chained generalized Jacobian."""
from common import *
from p_ops import total
from p_ctx import Session, contained
from p_tape import rules
import p_drv, p_anf, lib, inv, loops
from inv import state, accum, index_of, Bad, Inv
import theory
from theory import lits, decide

CP = 'advantage::drivers::checkpointing::'
RS = CP + 'reverse_sequence'

def arith_only(prog, key):
    """planning helpers: integers in, integer out (their arithmetic is C29)"""
    it = prog.item.get(key)
    if not it or 'inputs' not in it: return False
    try: ts = [prog.strip(prog.rt(t, {})) for t in list(it['inputs']) + [it['output']]]
    except Exception: return False
    return all(t[0] in ('int', 'uint', 'float', 'bool') for t in ts)

def leaves(v): return leaves(v.args[1]) + leaves(v.args[2]) if v.op == 'ite' else 1
def hidden_ites(v): return v.op != 'ite' and TM.P(v) is not None and theory.has_cond(v)
def planning(prog):
    """the arithmetic of planning functions with many cases is uninterpreted; what it may panic on is C29"""
    out = {}; opaque = set()
    for key in prog.bykey:
        if not key.startswith(CP) or not arith_only(prog, key): continue
        def f(it, k, env, args, key=key):
            np = len(it.panics)
            before = it.pc
            try:
                if key in opaque: raise Give('opaque')
                v = it.call_body(prog.bykey[key], args, env)
                if is_unk(v) or leaves(v) > 6 or hidden_ites(v) or (it.inv is not None and len(it.inv.tree(v) or range(9)) > 6): v = None
            except (Give, Diverge, TM.Budget): v = None
            del it.panics[np:]
            if v is None:
                it.pc = before; opaque.add(key)
                v = mk('app', 'fun:' + key, 'nat', *[it.val(a) for a in args])
            return v
        out[key] = f
    return out

class Rev:
    """opaque sequence with ghost indices"""
    def __init__(self, s, N, ncp):
        self.s = s; self.it = s.it; self.N = N; self.ncp = ncp
        self.stored = 0
    def need(self, pc, goal, what):
        """an obligation that must hold whenever this point is reached"""
        it = self.it
        if goal is TRUE: return
        if decide(goal, pc) is True: return
        it.panics.append((tuple(pc) + lits(not_(goal)), 'REQ ' + what, RS, ''))
    def forward(self, it, x):
        e = index_of(it.val(x), 'state')
        self.need(it.pc, lt(e, self.N), 'order: forward step beyond the last state')
        return state(add(e, ONE))
    def reverse(self, it, x, y):
        e = index_of(it.val(x), 'state'); r = index_of(it.val(y), 'acc')
        self.need(it.pc, ieq(add(e, ONE), r), 'order: reverse step does not take the state before those already reversed')
        return accum(e)
    def identity(self, it, x):
        e = index_of(it.val(x), 'state')
        self.need(it.pc, ieq(e, self.N), 'order: identity step does not take the last state')
        return accum(self.N)
    def watch(self, it, v):
        """size of a list that holds states"""
        for q in inv.picks(v):
            if not TM.is_seq(q): continue
            L = length(q)
            if L is ZERO: continue
            e = at(q, sub(L, ONE))
            if 'state' in show(e) and any(x.op == 'app' and x.args[0] == 'state' for x in walk(e)):
                self.need(it.pc, le(L, self.ncp), 'budget: more states are stored than allowed')
    def args(self):
        return [state(ZERO), self.N, self.ncp, I.pyfn(self.forward), I.pyfn(self.reverse), I.pyfn(self.identity)]

def walk(t, depth=6):
    yield t
    if depth:
        for k in TM._kids(t.op, t.args): yield from walk(k, depth - 1)

def guarded(ck, name, key, f):
    try: return contained(ck, name, key, f, seconds=640)
    except Bad as e: ck.undecided(name, key, 'construct outside the analysis: %s' % e)

CLASSES = {
    'C22': (('order', 'every reverse step takes the next earlier state, the identity step the last one'),),
    'C23': (('budget', 'never more states stored than allowed'), ('progress', 'each round reverses one more state')),
}
def reversal_general(ck, prog, prop):
    """all lengths and budgets"""
    def body():
        s = Session(ck, prog, planning(prog)); it = s.it
        N, c = sym('nsteps', 'nat'), sym('ncheckpoints', 'nat')
        it.assume(le(num(2), c))
        rv = Rev(s, N, c)
        it.inv = Inv(N, [N, c])
        it.on_write = rv.watch
        n0 = len(it.panics)
        got = it.val(s.call(RS, rv.args()))
        reqs = {'order': [], 'budget': [], 'progress': []}
        for p in it.panics[n0:]:
            pc, why, key, sp = p
            k = why[4:].split(':')[0] if why.startswith('REQ ') else 'progress'
            if not it.inv.proves(pc, FALSE): reqs[k].append(why[4:] if k != 'progress' else 'may panic: %s in %s' % (why, key))
        for k, text in CLASSES[prop]:
            if reqs[k]: ck.undecided('all lengths: ' + text, RS, '; '.join(sorted(set(reqs[k])))[:300])
            else: ck.ok('all lengths: ' + text, RS, 'inductive invariants of %d loops: %s' % (len(it.inv.log), it.inv.log[-3:]))
        if prop == 'C22':
            g = index_of(got, 'acc')
            if it.inv.proves(it.pc, ieq(g, ZERO)): ck.ok('all lengths: the result reaches back to the start state', RS)
            else: ck.undecided('all lengths: the result reaches back to the start state', RS, show(g)[:200])
        s.done()
    try: guarded(ck, 'all lengths', RS, body)
    except Diverge: ck.violation('all lengths: returns', RS, 'it cannot return')

def thresholds(prog, lo=3, hi=200):
    """integer literals of the module: lengths and budgets around them are worth a look"""
    out = set()
    def go(x):
        if isinstance(x, dict):
            if x.get('t') == 'int' and 'neg' in x:
                try: out.add(int(x['v']))
                except (TypeError, ValueError): pass
            for v in x.values(): go(v)
        elif isinstance(x, (list, tuple)):
            for v in x: go(v)
    for k, b in prog.bykey.items():
        if CP[:-2] in k: go(b)
    return sorted(x for x in out if lo < x <= hi)

def reversal_small(ck, prog, prop):
    """short sequences with small budgets, walked without abstraction: what fails here fails for certain"""
    name = 'short sequences'
    bad = False
    ts = thresholds(prog)
    near = sorted({max(0, t + d) for t in ts for d in (-2, -1, 0, 1, 2, 5)})[:60]
    grid = [(n, c) for n in range(0, 14) for c in (2, 3, 4, 5, 7)] + [(n, c) for n in near if n > 13 for c in (2, 3, 6)] + [(n, t) for t in near if t > 7 for n in (t - 1, t, t + 3, 2 * t) if n <= 200]
    grid += [(20, 2), (24, 3), (40, 3), (33, 4), (50, 5), (70, 6)]
    grid += [(t + d, c) for t in thresholds(prog, 200, 1300)[:4] for d in (1, 3) for c in (3, 30)]
    if True:
        for n, c in grid:
            def body():
                nonlocal bad
                s = Session(ck, prog); it = s.it
                it.unroll = it.unfold = n + 40
                rv = Rev(s, num(n), num(c))
                it.on_write = rv.watch
                what = '%d steps with %d checkpoints' % (n, c)
                try: got = it.val(s.call(RS, rv.args()))
                except Diverge: got = None
                hits = []
                for p in it.panics:
                    pc, why, key, sp = p
                    if any(x is not TRUE and decide(x, ()) is not True for x in pc): continue
                    k = why[4:].split(':')[0] if why.startswith('REQ ') else 'progress'
                    if k not in [x for x, _ in CLASSES[prop]]: continue
                    hits.append(why[4:] if k != 'progress' else 'panics: %s in %s' % (why, key))
                if got is not None and prop == 'C22' and not hits:
                    g = index_of(got, 'acc')
                    if decide(ieq(g, ZERO), ()) is False: hits.append('the result does not reach back to the start state')
                if hits:
                    bad = True
                    ck.violation(name, RS, '%s: %s' % (what, sorted(set(hits))[0]))
                elif got is not None: ck.ok('%s: %s' % (name, what), RS)
                else: ck.undecided('%s: %s' % (name, what), RS, 'no result')
                s.done()
            if not bad: guarded(ck, '%s: %d steps with %d checkpoints' % (name, n, c), RS, body)
    return bad

def schedule_positions(ck, prog):
    """positions emitted for a sub-sequence of length r with c free checkpoints"""
    key = CP + 'schedule'
    b = prog.bykey.get(key)
    if b is None or len(b.get('params', ())) != 2: return
    def run(c, r, s, pre):
        it = s.it
        v = s.call(key, [c, r])
        last = it.new(ZERO); cnt = it.new(ZERO)
        it.locty[last] = ('uint', 64); it.locty[cnt] = ('uint', 64)
        ref = mk('mref', it.new(v), ())
        ex = []
        def need(goal, what):
            if goal is not TRUE and decide(goal, it.pc) is not True: it.panics.append((it.pc + lits(not_(goal)), 'REQ positions: ' + what, key, ''))
        def step():
            o = lib.nxt(it, ref, '')
            def some_():
                x = it.val(fld(o, 0, 'nat', 1))
                need(or_(lt(it.store[cnt], ONE), lt(it.store[last], x)), 'not strictly increasing')
                need(lt(x, r), 'outside the sub-sequence')
                need(lt(it.store[cnt], c), 'more positions than free checkpoints')
                it.store[last] = x; it.store[cnt] = add(it.store[cnt], ONE)
                return UNIT
            def none_():
                ex.append((it.pc, it.store, UNIT)); raise Diverge()
            it.branch([(isv(o, I.OPT, 1), some_), (TRUE, none_)])
        step.id = 'positions'
        import types
        fr = types.SimpleNamespace(rets=[], key=key, labels={})
        if not it.stack: it.stack.append(fr)
        loops.loop(it, step, ex, [], it.stack[-1])
        l = it.store[last]
        need(or_(lt(c, ONE), lt(r, num(2)), ieq(l, sub(r, ONE))), 'the last position is not the last state')
    def definite(p): return all(x is TRUE or decide(x, ()) is True for x in p[0])
    bad = False
    for c in (0, 1, 2, 3, 4, 6):
        for r in range(0, 12):
            def body():
                nonlocal bad
                s = Session(ck, prog); s.it.unroll = s.it.unfold = 40
                try: run(num(c), num(r), s, ())
                except Diverge: pass
                h = [p[1] for p in s.it.panics if definite(p)]
                if h: bad = True; ck.violation('positions for a short sub-sequence', key, 'length %d, %d free: %s' % (r, c, h[0].replace('REQ positions: ', '')))
                else: ck.ok('positions: length %d, %d free' % (r, c), key)
                s.done()
            if not bad: guarded(ck, 'positions: length %d, %d free' % (r, c), key, body)
    if bad: return
    for what, pre in (('all lengths', lambda c, r: ()), ('all lengths, at least one free checkpoint and two states', lambda c, r: (le(ONE, c), le(num(2), r)))):
        def body():
            s = Session(ck, prog, planning(prog)); it = s.it
            c, r = sym('c', 'nat'), sym('r', 'nat')
            for f in pre(c, r): it.assume(f)
            it.inv = Inv(r, [c, r])
            n0 = len(it.panics)
            run(c, r, s, ())
            left = sorted({p[1].replace('REQ positions: ', '') for p in it.panics[n0:] if not (what == 'all lengths' and 'last position' in p[1]) and not it.inv.proves(p[0], FALSE)})
            if left: ck.undecided('positions: ' + what, key, '; '.join(left)[:300])
            else: ck.ok('positions: ' + what, key, 'strictly increasing, inside, at most as many as free' + (', ending at the last state' if pre(c, r) else ''))
            s.done()
        try: guarded(ck, 'positions: ' + what, key, body)
        except Diverge: ck.undecided('positions: ' + what, key, 'no result')

def c22(ck, prog, general=True):
    ck.rules.append('ghost-index dataflow with inductive relational loop invariants: the state given to each callback has the required index')
    if not ck.anchor(RS in prog.bykey, RS): return
    from p_drv import rejects
    for n in range(0, 3):
        for c in (0, 1):
            def body():
                s = Session(ck, prog); s.it.unroll = s.it.unfold = 40
                rv = Rev(s, num(n), num(c))
                return s, s.it.val(s.call(RS, rv.args()))
            rejects(ck, 'fewer than two checkpoints are rejected: %d for %d steps' % (c, n), RS, body)
    if not reversal_small(ck, prog, 'C22') and general: reversal_general(ck, prog, 'C22')

def c23(ck, prog):
    ck.rules.append('relational loop invariants bound the checkpoint list at every store and the emitted positions at every step')
    if not ck.anchor(RS in prog.bykey, RS): return
    schedule_positions(ck, prog)
    if not reversal_small(ck, prog, 'C23'): reversal_general(ck, prog, 'C23')
