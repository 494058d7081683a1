"""C05-C07: recording contexts."""
from common import *
from p_ops import opcodes, op_fields, mkop, zero_spec, BIN, UN, OPN, OPC, total
import p_ops, lib
from theory import conds

CTX = 'advantage::acontext::AContext'
OBS = ('indeps', 'deps', 'operations', 'values')

class Session:
    """several calls on one abstract store"""
    def __init__(self, ck, prog, summaries=None):
        self.ck = ck; self.p = prog
        self.it = Interp(prog, summaries or {})
        self.ok = True
    def call(self, key, args, env=None):
        return self.it.call_body(self.p.bykey[key], args, env or {})
    def ref(self, v): return mk('mref', self.it.new(v), ())
    def done(self):
        r = Res(); it = self.it
        r.visited = it.visited; r.sites = it.sites; r.notes = it.notes
        self.ck.absorb(r)

def contained(ck, name, key, f, seconds=150):
    """run f with the same containment as Checker.function"""
    try: return TM.limited(seconds, f)
    except Give as e: ck.undecided(name, key, 'construct outside the analysis: %s' % e)
    except Diverge: raise
    except (RecursionError, TM.Budget): ck.undecided(name, key, 'analysis limit')
    except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError, NameError, ZeroDivisionError, OverflowError, AssertionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        if os.environ.get('ADV_DEBUG'): traceback.print_exc()
        ck.undecided(name, key, 'construct outside the analysis: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    return None

def opaque_ctx(prog, name='ctx'):
    return prog.symval(name, ('adt', CTX, ()))

def ctx_ready(ck, prog):
    ok = True
    for m in OBS + ('new', 'from_cid', 'cid', 'set_indep', 'set_dep', 'record', 'tape'):
        ok &= ck.anchor(CTX + '::' + m in prog.bykey, CTX + '::' + m)
    return ok

def observe(s, ref):
    return {m: s.it.val(s.call(CTX + '::' + m, [ref])) for m in OBS}

def nested_seq(prog, s):
    """shape of an operation read from an opaque sequence"""
    return s

def live(s, cid):
    """context value a lookup of cid yields, under the assumption that it is alive"""
    o = s.call(CTX + '::from_cid', [cid])
    c = isv(o, OPT, 1)
    s.it.assume(c)
    v = fld(simplify(o, s.it.pc), 0, 'any', 1)
    return s.ref(v), c

def mk_ops(prog, code, vid, a1=None, a2=None):
    return mkop(prog, st(OPC, opcodes(prog)[code]), vid, some(a1) if a1 is not None else NONE, some(a2) if a2 is not None else NONE)

AF = 'advantage::afloat::AFloat'
def elementary(prog):
    """public entry point of every elementary operation"""
    from p_float import k_op, k_un, FL
    out = {}
    for o in ('Add', 'Sub', 'Mul', 'Div'):
        for l, r in (('AF', 'AF'), ('AF', 'f64'), ('f64', 'AF')):
            out[o, l, r] = k_op('core::ops::arith::' + o, o.lower(), l, r)
        for r in ('AF', 'f64'): out[o + 'Assign', 'AF', r] = k_op('core::ops::arith::%sAssign' % o, o.lower() + '_assign', 'AF', r)
    out['Powf', 'AF', 'AF'] = k_un(FL, 'powf')
    for o in UN: out[o, 'AF', None] = k_un(FL, o.lower())
    return out

def c05(ck, prog):
    from p_float import Active, ENV, ready
    ck.rules.append('effect of every elementary operation on the observable recording, per attachment pattern, equals the specified append')
    if not ctx_ready(ck, prog) or not p_ops.struct_ok(ck, prog): return
    a = ready(ck, prog)
    if a is None: return
    x, y, dx, dy = sym('x'), sym('y'), sym('dx'), sym('dy')
    cid, i1, i2 = sym('cid', 'nat'), sym('i1', 'nat'), sym('i2', 'nat')
    for (op, l, r_), key in elementary(prog).items():
        if not ck.anchor(key in prog.bykey, key): continue
        base = op.replace('Assign', '')
        nargs = 1 if r_ is None else 2
        pats = [(p, q) for p in ((True, False) if l == 'AF' else (False,)) for q in ((True, False) if r_ == 'AF' else (False,))]
        for p1, p2 in pats:
            for alive in ((True, False) if p1 or p2 else (None,)):
                tag = '%s of %s and %s' % (op, 'attached' if p1 else 'plain' if l == 'f64' else 'unattached', 'attached' if p2 else 'plain' if r_ == 'f64' else 'unattached') if nargs == 2 else '%s of %s' % (op, 'attached' if p1 else 'unattached')
                if alive is False: tag += ' (context dropped)'
                def body():
                    s = Session(ck, prog)
                    it = s.it
                    X = a.make(x, dx, (cid, i1) if p1 else None) if l == 'AF' else x
                    Y = a.make(y, dy, (cid, i2) if p2 else None) if r_ == 'AF' else y
                    for f in p_ops.domain(base, x, y): it.assume(f)
                    if alive:
                        ref, c = live(s, cid)
                        before = observe(s, ref)
                    elif alive is False:
                        o = s.call(CTX + '::from_cid', [cid]); it.assume(not_(isv(o, OPT, 1)))
                    n0 = len(it.panics)
                    ne = len(it.events)
                    if op.endswith('Assign'):
                        rf = s.ref(X); s.call(key, [rf, Y], ENV); z = it.val(rf)
                    else: z = s.call(key, [X] + ([Y] if nargs == 2 else []), ENV)
                    ev = it.events[ne:]
                    r = Res(); r.panics = it.panics[n0:]; r.diverges = False; r.base_pc = it.pc
                    if not total(ck, tag, key, r): return
                    v = zero_spec(base, x, y)
                    if alive:
                        after = observe(s, ref)
                        n = length(before['values'])
                        vals, ops = [], []
                        ids = []
                        for att, idn, val in ((p1, i1, x), (p2, i2, y))[:nargs]:
                            if att: ids.append(idn)
                            else:
                                k = add(n, num(len(vals))); ids.append(k)
                                ops.append(mk_ops(prog, 'Const', k)); vals.append(val)
                        k = add(n, num(len(vals)))
                        ops.append(mk_ops(prog, base, k, *ids)); vals.append(v)
                        ck.equal(tag + ': result attached', key, a.ctx(z), some(tup(cid, k)), it.pc)
                        ck.equal(tag + ': operations', key, after['operations'], concat(before['operations'], seq_lit(*ops)), it.pc)
                        ck.equal(tag + ': values', key, after['values'], concat(before['values'], seq_lit(*vals)), it.pc)
                        ck.equal(tag + ': variables unchanged', key, tup(after['indeps'], after['deps']), tup(before['indeps'], before['deps']), it.pc)
                    else:
                        ck.equal(tag + ': result stays unattached', key, a.ctx(z), NONE, it.pc)
                        if alive is None:
                            w = [e for e in ev if e[0] == 'lock']
                            if w: ck.violation(tag + ': records nothing', key, 'acquires %s' % short(w[0][1]))
                            else: ck.ok(tag + ': records nothing', key)
                    ck.equal(tag + ': value', key, a.value(z), v, it.pc)
                    ck.equal(tag + ': derivative', key, a.dvalue(z), p_ops.tangent_spec(base, x, y if nargs == 2 else None, dx if l == 'AF' else ZERO, dy if r_ == 'AF' else ZERO), it.pc)
                    s.done()
                try: contained(ck, tag, key, body)
                except Diverge: ck.violation(tag + ': returns', key, 'the operation cannot return')
    composites(ck, prog, a)

def composites(ck, prog, a):
    """every method: replaying what it recorded gives the method at new arguments"""
    from p_float import methods, k_un, k_op, FL, ENV
    M, O, (x, y, z) = methods()
    cid = sym('cid', 'nat')
    ids = [sym('i%d' % (k + 1), 'nat') for k in range(3)]
    ops_ = {m: (n, w, dom, k_un(FL, m)) for m, (n, w, dom) in M.items()}
    ops_['neg'] = (1, neg(x), (), k_un('core::ops::arith::Neg', 'neg'))
    for k in (-2, 0, 1, 2, 3): ops_['powi %d' % k] = (1, powi(x, k), (fgt0(x),), k_un(FL, 'powi'))
    ops_['sin_cos'] = (1, None, (), k_un(FL, 'sin_cos'))
    vs, dv = [x, y, z], [sym('dx'), sym('dy'), sym('dz')]
    new = [sym('new.x'), sym('new.y'), sym('new.z')]
    for m, (n, w, dom, key) in sorted(ops_.items()):
        if key not in prog.bykey: ck.anchor(False, key); continue
        pats = [(True,) * n] + ([tuple(i == j for i in range(n)) for j in range(n)] if n > 1 else [])
        for pat in pats:
            tag = 'recording of %s%s' % (m, '' if all(pat) else ' (operands %s attached)' % ','.join(str(i + 1) for i, b in enumerate(pat) if b))
            def body(case=()):
                s = Session(ck, prog); it = s.it
                args = [a.make(vs[i], dv[i], (cid, ids[i]) if pat[i] else None) for i in range(n)]
                if m.startswith('powi'): args.append(num(int(m.split()[1])))
                for f in tuple(dom) + tuple(case): it.assume(f)
                ref, c = live(s, cid)
                b = observe(s, ref)
                t = s.call(key, args, ENV)
                after = observe(s, ref)
                outs = [(t, w)] if m != 'sin_cos' else [(fld(t, 0), fn('sin', x)), (fld(t, 1), fn('cos', x))]
                new_ops = tail(b['operations'], after['operations']); new_vals = tail(b['values'], after['values'])
                if (new_ops is None or new_vals is None) and len(case) < 4:
                    # what is recorded depends on a condition: each case has to replay correctly
                    cs = []
                    for q in ('operations', 'values'):
                        for w_ in (after[q].args[0] if after[q].op == 'concat' else (after[q],)): conds(w_, cs, set())
                    if cs and not TM.poisoned(cs[0]):
                        for l in (cs[0], not_(cs[0])):
                            if not infeasible(it.pc + lits(l)): body(case + (l,))
                        return
                if new_ops is None or new_vals is None:
                    ck.undecided(tag, key, 'recorded operations are not an explicit list'); return
                n0 = length(b['values'])
                def replay(inputs):
                    mem = {ids[i]: inputs[i] for i in range(n) if pat[i]}
                    for k, v in enumerate(new_vals): mem[add(n0, num(k))] = v
                    return mem
                def play(mem, keepconst=True):
                    fs = op_fields(prog)
                    for o in new_ops:
                        f = dict(zip(fs, o.args[2:]))
                        code = [c for c, i in opcodes(prog).items() if i == f['opcode'].args[1]][0]
                        if code in ('Const', 'Nop'):
                            if f['vid'] not in mem: return 'operation stores at an id without a value: ' + short(f['vid'])
                            continue
                        av = []
                        for q in ('arg1', 'arg2'):
                            if f[q].args[1] == 1:
                                if f[q].args[2] not in mem: return 'operand id %s is not a recorded value' % short(f[q].args[2])
                                av.append(mem[f[q].args[2]])
                        mem[f['vid']] = zero_spec(code, av[0], av[1] if len(av) > 1 else None)
                    return mem
                sub_new = {vs[i]: new[i] for i in range(n) if pat[i]}
                mem = play(replay(new))
                if isinstance(mem, str): ck.violation(tag, key, mem); return
                pcn = tuple(l for f in dom for l in lits(subst(f, sub_new)))
                for q, (o, spec) in enumerate(outs):
                    c = a.ctx(o)
                    if not ck.equal(tag + ': attached', key, mk('isv', c, OPT, 1) if c.op not in ('st', 'ite') else isv(c, OPT, 1), TRUE, it.pc): continue
                    c = simplify(c, it.pc)
                    pr = fld(c, 0, 'any', 1)
                    rid = fld(pr, 1, 'nat')
                    ck.equal(tag + ': attached to the context of its operands', key, fld(pr, 0, 'nat'), cid, it.pc)
                    if rid in mem: ck.equal(tag + ': replay at new arguments', key, mem[rid], subst(spec, sub_new), pcn)
                    else: ck.undecided(tag + ': replay at new arguments', key, 'result id %s is not an explicit position' % short(rid))
                s.done()
            try: contained(ck, tag, key, body)
            except Diverge: ck.violation(tag + ': returns', key, 'the operation cannot return')

def tail(old, new):
    """elements appended to old, if new is old followed by an explicit list"""
    if new is old: return []
    if new.op != 'concat': return None
    parts = list(new.args[0])
    olds = list(old.args[0]) if old.op == 'concat' else [old]
    if parts[:len(olds)] != olds: return None
    out = []
    for p in parts[len(olds):]:
        n = const(length(p))
        if n is None: return None
        out += [at(p, num(i)) for i in range(int(n))]
    return out

# ---------------------------------------------------------------- C06
def interference(it, snaps, obs):
    """other threads record whenever the context is not locked: its state has grown at every acquisition"""
    cnt = {}
    def hook(ref):
        try: pl = it.deref(ref)
        except Give: return
        loc = getattr(pl, 'loc', None)
        if not (isinstance(loc, tuple) and loc[0] == 'obj'): return
        cnt[loc] = cnt.get(loc, 0) + 1
        v = it.root(loc)
        snaps.append(v)
        if cnt[loc] == 1: return
        fs = list(v.args)
        for i in range(2, len(fs)):
            f = fs[i]
            srt = seq_sort_of(f)
            if srt: fs[i] = concat(f, sym('ext%d.%d' % (cnt[loc], i - 2), 'seq:' + srt))
        it.store[loc] = mk('st', *fs)
    it.on_lock = hook
def seq_sort_of(f):
    if f.op == 'concat': return seq_sort_of(f.args[0][0])
    return TM.seq_sort(f) or ({'arr': 'any'}.get(f.op))

def version(s):
    """number of acquisitions whose growth the snapshot includes"""
    parts = list(s.args[0]) if s.op == 'concat' else [s]
    v = 0
    for p in parts:
        if p.op == 'sym' and p.args[0].startswith('ext'): v = max(v, int(p.args[0][3:].split('.')[0]) - 1)
    return v

def c06(ck, prog):
    from p_float import Active, ENV, ready
    ck.rules.append('effect summaries of the recording calls; with arbitrary growth of the context at every lock acquisition, ids still equal positions; a tape reads values no earlier than any list')
    if not ctx_ready(ck, prog) or not p_ops.struct_ok(ck, prog): return
    a = ready(ck, prog)
    if a is None: return
    v, dv = sym('v'), sym('dv')
    cid = None
    code = sym('opcode', 'any')
    A1, A2 = sym('arg1', 'any'), sym('arg2', 'any')
    fs = op_fields(prog)
    def op_of(c, vid, a1, a2):
        m = {'opcode': c, 'vid': vid, 'arg1': a1, 'arg2': a2}
        return st(OPN, 0, *[m[n] for n in fs])
    opt_ids = [('none', NONE, NONE), ('one', some(sym('p', 'nat')), NONE), ('two', some(sym('p', 'nat')), some(sym('q', 'nat')))]
    for inter in (False, True):
        for m, case in [('record', c) for c in opt_ids] + [('set_indep', None), ('set_indep', 'attached'), ('set_indep', 'attached elsewhere'), ('set_dep', 'attached'), ('set_dep', 'unattached'), ('new_indep', None), ('new_indep_vec', None), ('set_dep_slice', 'attached'), ('set_dep_slice', 'unattached')] + [('new_indep_vec', 'length %d' % l) for l in range(4)] + [('set_dep_slice', 'mixed ' + p) for p in ('aa', 'au', 'ua', 'uu', 'aua')]:
            key = CTX + '::' + m
            if not ck.anchor(key in prog.bykey, key): continue
            if inter and m in ('new_indep_vec', 'set_dep_slice'): continue
            tag = m + ('' if case is None else ' (%s)' % (case if isinstance(case, str) else case[0] + ' operands')) + (' under concurrent recording' if inter else '')
            def body():
                s = Session(ck, prog); it = s.it
                ref = s.ref(opaque_ctx(prog))
                b = observe(s, ref)
                cid = it.val(s.call(CTX + '::cid', [ref]))
                snaps = []
                if inter: interference(it, snaps, b)
                n0 = len(it.panics); xr = None
                L = sym('length', 'nat'); i = sym('vid', 'nat')
                if case and str(case).startswith('length'): L = num(int(case.split()[1]))
                if m == 'record': z = s.call(key, [ref, code, v, case[1], case[2]], ENV)
                elif m == 'set_indep': xr = s.ref(a.make(v, dv, {'attached': (cid, i), 'attached elsewhere': (sym('cid2', 'nat'), i)}.get(case))); z = s.call(key, [ref, xr], ENV)
                elif m == 'set_dep': xr = s.ref(a.make(v, dv, (cid, i) if case == 'attached' else None)); z = s.call(key, [ref, xr], ENV)
                elif m == 'new_indep': z = s.call(key, [ref, v], ENV)
                elif m == 'new_indep_vec': z = it.val(s.call(key, [ref, L, v], ENV))
                elif m == 'set_dep_slice':
                    vs, ids = sym('vs', 'seq:real'), sym('ids', 'seq:nat')
                    if case.startswith('mixed'): L = num(len(case) - 6)
                    xs = arr(L, lambda k: a.make(mk('sel', vs, k), ZERO, (cid, mk('sel', ids, k)) if case == 'attached' else None))
                    if case.startswith('mixed'): xs = seq_lit(*[a.make(mk('sel', vs, num(k)), ZERO, (cid, mk('sel', ids, num(k))) if ch == 'a' else None) for k, ch in enumerate(case[6:])])
                    z = s.call(key, [ref, s.ref(xs)], ENV)
                it.on_lock = None
                r = Res(); r.panics = it.panics[n0:]; r.diverges = False; r.base_pc = it.pc
                if not total(ck, tag, key, r): return
                o = observe(s, ref)
                if inter:
                    # state at the last acquisition, before the effects of the call: everything up to the last growth
                    b = {q: upto_ext(o[q], b[q]) for q in OBS}
                    if any(x is None for x in b.values()):
                        ck.undecided(tag, key, 'growth of the context not recognised'); return
                    # released states mention only ids that have a value
                    pairs_ok(ck, tag, key, prog, snaps[1:], it)
                n = length(b['values'])
                E = dict(b)
                if m == 'record':
                    E['values'] = concat(b['values'], seq_lit(v)); E['operations'] = concat(b['operations'], seq_lit(op_of(code, n, case[1], case[2])))
                    ck.equal(tag + ': returned id', key, z, n, it.pc)
                elif m in ('set_indep', 'new_indep'):
                    E['values'] = concat(b['values'], seq_lit(v)); E['indeps'] = concat(b['indeps'], seq_lit(n))
                    x = it.val(xr) if m == 'set_indep' else z
                    ck.equal(tag + ': variable attached under its id', key, tup(a.ctx(x), a.value(x), a.dvalue(x)), tup(some(tup(cid, n)), v, dv if m == 'set_indep' else ZERO), it.pc)
                elif m == 'set_dep':
                    if case == 'attached': E['deps'] = concat(b['deps'], seq_lit(i))
                    else:
                        E['values'] = concat(b['values'], seq_lit(v)); E['deps'] = concat(b['deps'], seq_lit(n))
                        E['operations'] = concat(b['operations'], seq_lit(mk_ops(prog, 'Const', n)))
                elif m == 'new_indep_vec':
                    E['values'] = concat(b['values'], arr(L, lambda k: v)); E['indeps'] = concat(b['indeps'], arr(L, lambda k: add(n, k)))
                    k = sym('k', 'nat'); x = at(z, k)
                    if const(L) is not None:
                        for q in range(int(const(L))):
                            x = at(z, num(q)); ck.equal(tag + ': variable %d attached under its id' % q, key, tup(a.ctx(x), a.value(x), a.dvalue(x)), tup(some(tup(cid, add(n, num(q)))), v, ZERO), it.pc)
                        x = at(z, k)
                    ck.equal(tag + ': length', key, length(z), L, it.pc)
                    if const(L) is None: ck.equal(tag + ': variables attached under their ids', key, tup(a.ctx(x), a.value(x), a.dvalue(x)), tup(some(tup(cid, add(n, k))), v, ZERO), it.pc + (lt(k, L),))
                elif m == 'set_dep_slice':
                    if case.startswith('mixed'):
                        nv = 0
                        for k, ch in enumerate(case[6:]):
                            if ch == 'u':
                                w = add(n, num(nv)); nv += 1
                                E['values'] = concat(E['values'], seq_lit(mk('sel', vs, num(k)))); E['operations'] = concat(E['operations'], seq_lit(mk_ops(prog, 'Const', w)))
                            else: w = mk('sel', ids, num(k))
                            E['deps'] = concat(E['deps'], seq_lit(w))
                    elif case == 'attached': E['deps'] = concat(b['deps'], arr(L, lambda k: mk('sel', ids, k)))
                    else:
                        E['values'] = concat(b['values'], arr(L, lambda k: mk('sel', vs, k))); E['deps'] = concat(b['deps'], arr(L, lambda k: add(n, k)))
                        E['operations'] = concat(b['operations'], arr(L, lambda k: mk_ops(prog, 'Const', add(n, k))))
                for q in OBS: ck.equal('%s: %s' % (tag, q), key, o[q], E[q], it.pc)
                s.done()
            try: contained(ck, tag, key, body)
            except Diverge: ck.violation(tag + ': returns', key, 'the call cannot return')
    # snapshots
    key = CTX + '::tape'
    def body():
        for inter in (False, True):
            tag = 'tape' + (' under concurrent recording' if inter else '')
            s = Session(ck, prog); it = s.it
            ref = s.ref(opaque_ctx(prog))
            b = observe(s, ref)
            snaps = []
            if inter: interference(it, snaps, b)
            t = s.call(key, [ref])
            it.on_lock = None
            tp = s.ref(t)
            got = tape_obs(s, t, tp)
            if got is None: ck.undecided(tag, key, 'the tape type has no analysable accessors'); return
            if not inter:
                for q in OBS: ck.equal(tag + ': ' + q, key, got[q], b[q], it.pc)
            else:
                vv = version(got['values'])
                for q in ('indeps', 'deps', 'operations'):
                    ve = version(got[q])
                    if ve <= vv: ck.ok(tag + ': values at least as recent as ' + q, key, 'acquisition %d vs %d' % (vv, ve))
                    else: ck.violation(tag + ': values at least as recent as ' + q, key, 'the values are read before the %s (lock acquisition %d before %d): ids recorded in between have no value' % (q, vv, ve))
            s.done()
    try: contained(ck, 'tape', key, body)
    except Diverge: ck.violation('tape: returns', key, 'the call cannot return')

def upto_ext(s, b0):
    """prefix of the sequence up to the last growth by other threads"""
    parts = list(s.args[0]) if s.op == 'concat' else [s]
    last = -1
    for i, p in enumerate(parts):
        if p.op == 'sym' and p.args[0].startswith('ext'): last = i
    if last < 0:
        olds = list(b0.args[0]) if b0.op == 'concat' else [b0]
        return b0 if parts[:len(olds)] == olds else None
    return concat(*parts[:last + 1])

def pairs_ok(ck, tag, key, prog, snaps, it):
    for v in snaps:
        # every list element appended by this call refers to a value stored by then
        a = prog.adt.get(v.args[0]) if v.op == 'st' else None
        if not a: continue
        names = [f[0] for f in a['variants'][0]['fields']]
        seqs = {n: f for n, f in zip(names, v.args[2:])}
        val = seqs.get('vals')
        if val is None: continue
        n = length(val)
        for q, f in seqs.items():
            if f is val or f.op != 'concat': continue
            for p in f.args[0]:
                if p.op == 'arr' and const(p.args[0]) is not None:
                    for k in range(int(const(p.args[0]))):
                        e = at(p, num(k))
                        if e.op == 'st':
                            m = dict(zip(op_fields(prog), e.args[2:])); e = m.get('vid')
                        if e is None: continue
                        d = decide(lt(e, n), it.pc)
                        if d is True: ck.ok(tag + ': released state', key)
                        elif Cmp().eq(e, n, it.pc) or d is False: ck.violation(tag + ': released state', key, 'the lock is released while %s lists id %s and only %s values are stored' % (q, short(e), short(n)))

def tape_obs(s, t, ref):
    """accessors of a tape value through the Tape trait"""
    it = s.it; p = s.p
    if t.op != 'st' or t.args[0] not in p.adt: return None
    out = {}
    for m, q in (('indeps', 'indeps'), ('deps', 'deps'), ('values', 'values'), ('ops_iter', 'operations')):
        key = '<%s as advantage::tape::Tape>::%s' % (t.args[0], m)
        if key not in p.bykey: return None
        r = s.call(key, [ref])
        if m == 'ops_iter':
            r = lib.rest(it, it.val(r)) if r.op != 'mref' else lib.rest(it, it.val(r))
            if r is None: return None
        out[q] = it.val(r)
    return out

# ---------------------------------------------------------------- C07
def destroy(s, prog, c):
    """the last owner of the context goes: its destructor runs; its key, or None if there is none"""
    it = s.it; obj = None
    arcs = [w for w in (fields_of(it.val(c))) if w.op == 'arc' or (w.op == 'mref')]
    it.dead.update(w for w in arcs if w.op == 'arc')
    for k in [k for k in prog.bykey if k.endswith('as core::ops::drop::Drop>::drop') and '::acontext::' in k]:
        ty = k[1:].split(' as ')[0]
        if ty == CTX: tgt = c
        else:
            tgt = None
            for w in arcs:
                v = it.read(it.deref(w))
                if v.op == 'st' and v.args[0] == ty: tgt = w
        if tgt is None: continue
        obj = k
        s.call(k, [mk('mref', it.deref(tgt).loc, it.deref(tgt).path)])
    return obj

def known_registry(ck, prog):
    """a registry that holds exactly three contexts, of which the middle one is dropped"""
    s = Session(ck, prog); it = s.it
    new = CTX + '::new'
    s.call(CTX + '::from_cid', [sym('other', 'nat')])
    s.ref(s.call(new, []))
    maps = [l for l, v in it.store.items() if isinstance(l, tuple) and l[0] == 'static' and v.op == 'app' and str(v.args[0]).startswith('map.')]
    if len(maps) != 1: ck.undecided('registry of three contexts', new, 'registry map not recognised'); return
    it.store[maps[0]] = mk('app', 'map.empty', 'any')
    cs = [s.ref(s.call(new, [])) for _ in range(3)]
    ids = [it.val(s.call(CTX + '::cid', [c])) for c in cs]
    for j, c in enumerate(cs):
        ck.equal('context %d of three is found' % j, CTX + '::from_cid', s.call(CTX + '::from_cid', [ids[j]]), some(it.val(c)), it.pc)
    if destroy(s, prog, cs[1]) is None: return
    ck.equal('the dropped context of three is not found', CTX + '::from_cid', isv(simplify(s.call(CTX + '::from_cid', [ids[1]]), it.pc), OPT, 1), FALSE, it.pc)
    for j in (0, 2):
        ck.equal('context %d of three is found after the drop' % j, CTX + '::from_cid', s.call(CTX + '::from_cid', [ids[j]]), some(it.val(cs[j])), it.pc)
    for tag, i in (('later', add(ids[2], num(3))), ('unused', sym('unused', 'nat'))):
        pc = it.pc
        for j in ids: it.assume(not_(ieq(i, j)))
        ck.equal('an id of no context is not found (%s)' % tag, CTX + '::from_cid', isv(simplify(s.call(CTX + '::from_cid', [i]), it.pc), OPT, 1), FALSE, it.pc)
        it.pc = pc
    s.done()

def c07(ck, prog):
    from p_float import Active, ENV, ready
    ck.rules.append('registry protocol: effect summaries of creation, lookup and destruction on the registry map and the id counter; guards of mixing contexts')
    if not ctx_ready(ck, prog): return
    a = ready(ck, prog)
    if a is None: return
    x, y, dx, dy = sym('x'), sym('y'), sym('dx'), sym('dy')
    new = CTX + '::new'
    def body():
        s = Session(ck, prog); it = s.it
        other = sym('other', 'nat')
        pre = s.call(CTX + '::from_cid', [other])
        ne = len(it.events)
        c1 = s.ref(s.call(new, []))
        ev = it.events[ne:]
        id1 = it.val(s.call(CTX + '::cid', [c1]))
        got = s.call(CTX + '::from_cid', [id1])
        ck.equal('a new context is found by its id', new, got, some(it.val(c1)), it.pc)
        post = s.call(CTX + '::from_cid', [other])
        ck.equal('other ids find what they found before', new, post, pre, it.pc + lits(not_(ieq(other, id1))))
        o = observe(s, c1)
        for q in OBS: ck.equal('a new context is empty: ' + q, new, o[q], EMPTY, it.pc)
        c2 = s.ref(s.call(new, []))
        id2 = it.val(s.call(CTX + '::cid', [c2]))
        ck.equal('ids of two contexts differ', new, ieq(id1, id2), FALSE, it.pc)
        ck.equal('ids increase', new, lt(id1, id2), TRUE, it.pc)
        ck.equal('the earlier context is still found', new, s.call(CTX + '::from_cid', [id1]), some(it.val(c1)), it.pc)
        at_ = [e for e in ev if e[0] == 'atomic']
        counters = {}
        for e in at_: counters.setdefault(e[2], []).append(e)
        for loc, es in counters.items():
            if not (isinstance(loc, tuple) and loc[0] == 'static'): continue
            ops = [e[1] for e in es]
            if ops == ['fetch_add'] or (set(ops) <= CAS and any(o != 'load' for o in ops) and all(raises(e) for e in es if e[1] != 'load')): ck.ok('the id comes from one indivisible increment', new, loc[1])
            elif 'load' in ops and 'store' in ops and 'fetch_add' not in ops: ck.violation('the id comes from one indivisible increment', new, 'the counter %s is read and written by separate operations: %s' % (loc[1], ', '.join(ops)))
            else: ck.undecided('the id comes from one indivisible increment', new, 'operations on the counter: ' + ', '.join(ops))
            ck.extra['counter'] = loc[1]
            counter_uses(ck, prog, loc[1])
        if not counters: ck.undecided('the id comes from one indivisible increment', new, 'no atomic counter')
        # destruction
        obj = destroy(s, prog, c1)
        if obj is None:
            ck.violation('a dropped context leaves the registry', new, 'no destructor removes the entry')
        else:
            maps = [v for l, v in it.store.items() if isinstance(l, tuple) and l[0] == 'static' and v.op == 'app' and str(v.args[0]).startswith('map.')]
            if not maps: ck.undecided('a dropped context leaves the registry', obj, 'registry map not recognised')
            for mp in maps:
                ck.equal('a dropped context leaves the registry', obj, isv(simplify(lib.map_get(mp, id1), it.pc), OPT, 1), FALSE, it.pc)
                ck.equal('other entries stay', obj, lib.map_get(mp, id2), lib.map_get(mp.args[2] if mp.args[0] in ('map.remove', 'map.retain') else mp, id2), it.pc)
            ck.equal('a dropped context is not found', obj, isv(simplify(s.call(CTX + '::from_cid', [id1]), it.pc), OPT, 1), FALSE, it.pc)
            ck.equal('the other context is still found', obj, s.call(CTX + '::from_cid', [id2]), some(it.val(c2)), it.pc)
        s.done()
    try:
        contained(ck, 'registry protocol', new, body)
        contained(ck, 'registry of three contexts', new, lambda: known_registry(ck, prog))
    except Diverge: ck.violation('registry protocol: returns', new, 'creation, lookup or destruction cannot return')
    # attachment uses the id of the context
    # mixing contexts
    c1, c2, i1, i2 = sym('cid1', 'nat'), sym('cid2', 'nat'), sym('i1', 'nat'), sym('i2', 'nat')
    for (op, l, r_), key in elementary(prog).items():
        if r_ != 'AF' or l != 'AF': continue
        X, Y = a.make(x, dx, (c1, i1)), a.make(y, dy, (c2, i2))
        def setup(it):
            return [mk('mref', it.new(X), ()) if op.endswith('Assign') else X, Y]
        r = ck.function(prog, key, env=ENV, setup=setup, pc=lits(not_(ieq(c1, c2))), name='%s of two contexts' % op)
        if r is None: continue
        if r.diverges: ck.ok('%s of variables of two contexts panics' % op, key)
        elif TM.poisoned(r.value): ck.undecided('%s of variables of two contexts panics' % op, key, 'not decided')
        else: ck.violation('%s of variables of two contexts panics' % op, key, 'it returns ' + short(r.value))
    key = CTX + '::set_dep'
    def body():
        s = Session(ck, prog); it = s.it
        ref = s.ref(opaque_ctx(prog))
        b = observe(s, ref)
        cid = it.val(s.call(CTX + '::cid', [ref]))
        it.assume(not_(ieq(c1, cid)))
        try:
            s.call(key, [ref, s.ref(a.make(x, dx, (c1, i1)))], ENV)
            o = observe(s, ref)
            ck.violation('marking a variable of another context panics', key, 'dependents become ' + short(o['deps']))
        except Diverge:
            ck.ok('marking a variable of another context panics', key)
        s.done()
    contained(ck, 'marking a variable of another context panics', key, body)
    # variables that outlive their context
    cid = sym('cid', 'nat')
    for (op, l, r_), key in elementary(prog).items():
        base = op.replace('Assign', '')
        for p1, p2 in ((True, True), (True, False), (False, True)):
            if (r_ is None or r_ == 'f64') and p2 or (l == 'f64' and p1): continue
            tag = '%s after the context is gone (%s)' % (op, '/'.join(('outlived' if p else 'other') for p in ((p1, p2) if r_ else (p1,))))
            def body():
                s = Session(ck, prog); it = s.it
                X = a.make(x, dx, (cid, i1) if p1 else None) if l == 'AF' else x
                Y = a.make(y, dy, (cid, i2) if p2 else None) if r_ == 'AF' else y
                for f in p_ops.domain(base, x, y): it.assume(f)
                o = s.call(CTX + '::from_cid', [cid]); it.assume(not_(isv(o, OPT, 1)))
                n0 = len(it.panics)
                args = [s.ref(X) if op.endswith('Assign') else X] + ([Y] if r_ else [])
                z = s.call(key, args, ENV)
                if op.endswith('Assign'): z = it.val(args[0])
                r = Res(); r.panics = it.panics[n0:]; r.diverges = False; r.base_pc = it.pc
                if not total(ck, tag, key, r): return
                ck.equal(tag + ': value', key, a.value(z), zero_spec(base, x, y), it.pc)
                ck.equal(tag + ': derivative', key, a.dvalue(z), p_ops.tangent_spec(base, x, y if r_ else None, dx if l == 'AF' else ZERO, dy if r_ == 'AF' else ZERO), it.pc)
                s.done()
            try: contained(ck, tag, key, body)
            except Diverge: ck.violation(tag, key, 'the operation panics')

def fields_of(v): return list(v.args[2:]) if v.op == 'st' else [v]

CAS = {'load', 'compare_exchange', 'compare_exchange_weak', 'fetch_update'}
def raises(e):
    """an indivisible replacement of the value it compared by a larger one"""
    a = e[3]
    if len(a) < 2: return False
    d = const(sub(a[1], a[0])) if isinstance(a[0], TM.T) and isinstance(a[1], TM.T) else None
    return d is not None and d >= 1

def counter_uses(ck, prog, static):
    """every other use of the id counter leaves earlier ids unused"""
    users = []
    name = static
    import json as _j
    for k, b in prog.bykey.items():
        if mentions_static(prog, b, static): users.append(k)
    for k in users:
        if '::tests::' in k: continue
        it = prog.item.get(k)
        try: r = run(prog, k, [prog.symval('arg%d' % i, prog.rt(t)) for i, t in enumerate(it['inputs'])] if it and 'inputs' in it else [])
        except Exception as e: ck.undecided('use of the id counter', k, str(e)); continue
        for e in r.events:
            if e[0] == 'atomic' and e[2] == ('static', static):
                if e[1] == 'load': ck.ok('use of the id counter', k, 'load')
                elif e[1] == 'fetch_add' and const(e[3][0]) is not None and const(e[3][0]) >= 1: ck.ok('use of the id counter', k, 'fetch_add(%s)' % const(e[3][0]))
                elif e[1] in CAS and raises(e): ck.ok('use of the id counter', k, e[1])
                elif e[1] in ('store', 'swap', 'fetch_sub') or (e[1] == 'fetch_add' and const(e[3][0]) is not None): ck.violation('use of the id counter', k, '%s(%s) can give out an id again' % (e[1], ', '.join(short(z) for z in e[3])))
                else: ck.undecided('use of the id counter', k, e[1])

def mentions_static(prog, b, static):
    idx = {i for i, k in enumerate(prog.keys) if k == static}
    found = []
    def go(x):
        if isinstance(x, dict):
            if x.get('k') in ('static', 'staticref', 'threadlocal') and x.get('def') in idx: found.append(1)
            for v in x.values(): go(v)
        elif isinstance(x, list):
            for v in x: go(v)
    go(b['value'])
    return bool(found)
