"""C01 and C02: the elementary rules."""
from common import *
from deriv import deriv
import lib

OPC = 'advantage::operation::OpCode'
OPN = 'advantage::operation::Operation'
BIN = ('Add', 'Sub', 'Mul', 'Div', 'Powf')
UN = ('Sin', 'Cos', 'Tan', 'Abs', 'Exp', 'Ln', 'Asin', 'Acos', 'Atan')

def zero_spec(op, x, y):
    return {'Add': lambda: add(x, y), 'Sub': lambda: sub(x, y), 'Mul': lambda: mul(x, y), 'Div': lambda: div(x, y), 'Powf': lambda: pow_(x, y)}[op]() \
        if op in BIN else fn(op.lower(), x)
def partials(op, x, y):
    """partial derivatives of the specified function, evaluated at (x, y)"""
    X, Y = sym('spec.x', 'real'), sym('spec.y', 'real')
    f = zero_spec(op, X, Y)
    m = {X: x, Y: y} if y is not None else {X: x}
    d = [subst(deriv(f, X), m)]
    if op in BIN: d.append(subst(deriv(f, Y), m))
    return d
def tangent_spec(op, x, y, dx, dy):
    if op == 'Abs': return sub(fn('abs', add(x, dx)), fn('abs', x))
    ds = partials(op, x, y)
    r = mul(ds[0], dx)
    if op in BIN: r = add(r, mul(ds[1], dy))
    return r
def domain(op, x, y):
    """where the function is differentiable"""
    if op == 'Div': return (not_(feq0(y)),)
    if op in ('Ln',): return (fgt0(x),)
    if op == 'Powf': return (fgt0(x),)
    if op == 'Tan': return (not_(feq0(fn('cos', x))),)
    if op in ('Asin', 'Acos'): return (fgt0(sub(ONE, powi(x, 2))),)
    return ()

def opcodes(prog):
    a = prog.adt.get(OPC)
    return {v['name']: i for i, v in enumerate(a['variants'])} if a else {}
def op_fields(prog):
    a = prog.adt.get(OPN)
    return [f[0] for f in a['variants'][0]['fields']] if a else []
def mkop(prog, code, vid, a1, a2):
    vals = {'opcode': code, 'vid': vid, 'arg1': a1, 'arg2': a2}
    return st(OPN, 0, *[vals[n] for n in op_fields(prog)])

def struct_ok(ck, prog):
    ocs = opcodes(prog)
    ok = ck.anchor(all(o in ocs for o in BIN + UN + ('Nop', 'Const')), OPC)
    ok &= ck.anchor(sorted(op_fields(prog)) == ['arg1', 'arg2', 'opcode', 'vid'], OPN)
    return ok

def seqsym(name, n, sort='real'):
    s = sym(name, 'seq:' + sort)
    return arr(n, lambda j: mk('sel', s, j)), s

def setup_op(prog, op, consts=None):
    """operation value with its ids and the facts of a well-formed tape"""
    n = sym('n', 'nat')
    vid, i1, i2 = sym('vid', 'nat'), sym('i1', 'nat'), sym('i2', 'nat')
    code = st(OPC, opcodes(prog)[op])
    facts = [lt(vid, n), lt(i1, n), not_(ieq(i1, vid))]
    a1 = some(i1); a2 = NONE
    if op in BIN:
        a2 = some(i2); facts += [lt(i2, n), not_(ieq(i2, vid))]
    if op in ('Nop', 'Const'): a1 = NONE
    return n, vid, i1, i2, mkop(prog, code, vid, a1, a2), facts

def ev_op(ck, prog, meth, op, alias=False, point=None, extra=()):
    """abstract result of Operation::meth for one operation kind"""
    n, vid, i1, i2, o, facts = setup_op(prog, op)
    if alias:
        o = subst(o, {i2: i1}); facts = [subst(f, {i2: i1}) for f in facts]; i2 = i1
    else:
        if op in BIN: facts.append(not_(ieq(i1, i2)))
    v0, vs = seqsym('v', n); d0, dsym = seqsym('dv', n)
    x, y = at(v0, i1), at(v0, i2)
    dx, dy = at(d0, i1), at(d0, i2)
    if point is not None:
        # constant propagation at isolated arguments
        for s, (idx, val) in [('v', p) for p in point.get('v', [])]:
            v0 = upd(v0, {'1': i1, '2': i2}[idx], num(val))
        for idx, val in point.get('dv', []):
            d0 = upd(d0, {'1': i1, '2': i2}[idx], num(val))
        x, y = simplify(at(v0, i1), tuple(facts)), simplify(at(v0, i2), tuple(facts))
        dx, dy = simplify(at(d0, i1), tuple(facts)), simplify(at(d0, i2), tuple(facts))
    facts = [f for f in facts if f is not TRUE]
    cell = {}
    def setup(it):
        vl = it.new(v0); dl = it.new(d0)
        cell['v'] = vl; cell['d'] = dl
        if meth == 'zero_order': return [o, mk('mref', vl, ())]
        return [o, v0, mk('mref', dl, ())]
    dom = tuple(z for f in extra for z in lits(f)) if point is not None else tuple(z for f in tuple(domain(op, x, y)) + tuple(extra) for z in lits(f))
    pc = tuple(z for f in facts for z in lits(f)) + dom
    key = OPN.rsplit('::', 1)[0] + '::Operation::' + meth
    r = ck.function(prog, key, setup=setup, pc=pc, name='%s of %s' % (meth, op))
    return r, dict(n=n, vid=vid, i1=i1, i2=i2, v=v0, dv=d0, x=x, y=y, dx=dx, dy=dy, pc=pc, cell=cell, key=key)

def total(ck, name, key, r, allowed=()):
    """no panic is possible on the analysed inputs"""
    bad = [p for p in r.panics if not inconsistent(tuple(p[0])) and not any(a in p[1] for a in allowed)]
    bad = [p for p in bad if not infeasible(tuple(p[0]))]
    if r.diverges:
        ck.violation(name + ': returns', key, 'the function cannot return on well-formed input: ' + '; '.join(sorted({p[1] for p in r.panics}))[:300])
        return False
    und = [p for p in bad if any(TM.poisoned(x) for x in p[0])]
    bad = [p for p in bad if p not in und]
    if und: ck.undecided(name + ': panics', key, 'a possible panic depends on a value outside the analysis')
    if bad:
        ck.violation(name + ': panics', key, 'panic (%s in %s) reachable when %s' % (bad[0][1], bad[0][2], short(and_(*[x for x in bad[0][0] if x not in r.base_pc]))))
        return False
    return True

def c01(ck, prog):
    ck.rules.append('value graph of each rule, per operation kind and operand aliasing pattern, equals the symbolic derivative of the named function in normal form')
    if not struct_ok(ck, prog): return
    for op in BIN + UN:
        for alias in ((False, True) if op in BIN else (False,)):
            tag = op + (' (same operand)' if alias else '')
            r, c = ev_op(ck, prog, 'zero_order', op, alias)
            if r is not None and total(ck, 'zero order of ' + tag, c['key'], r):
                want = upd(c['v'], c['vid'], zero_spec(op, c['x'], c['y']))
                ck.equal('zero order of ' + tag, c['key'], r.store[c['cell']['v']], want, r.pc)
            r, c = ev_op(ck, prog, 'first_order', op, alias)
            if r is not None and total(ck, 'first order of ' + tag, c['key'], r):
                want = upd(c['dv'], c['vid'], tangent_spec(op, c['x'], c['y'], c['dx'], c['dy']))
                ck.equal('first order of ' + tag, c['key'], r.store[c['cell']['d']], want, r.pc)
                # a zero first-order argument contributes nothing
    for op in ('Nop', 'Const'):
        r, c = ev_op(ck, prog, 'zero_order', op)
        if r is not None and total(ck, 'zero order of ' + op, c['key'], r):
            ck.equal('zero order of ' + op, c['key'], r.store[c['cell']['v']], c['v'], r.pc)
        r, c = ev_op(ck, prog, 'first_order', op)
        if r is not None and total(ck, 'first order of ' + op, c['key'], r):
            want = c['dv'] if op == 'Nop' else upd(c['dv'], c['vid'], ZERO)
            ck.equal('first order of ' + op, c['key'], r.store[c['cell']['d']], want, r.pc)
    # isolated arguments: constant exponents at zero and negative bases
    for bx in (0, -2):
        for e in (0, 1, 2, 3):
            pt = {'v': [('1', bx), ('2', e)], 'dv': [('2', 0)]}
            r, c = ev_op(ck, prog, 'first_order', 'Powf', point=pt)
            if r is not None and total(ck, 'power rule', c['key'], r):
                d = 0 if e == 0 else e * Fr(bx) ** (e - 1)
                want = upd(c['dv'], c['vid'], scale(c['dx'], d))
                ck.equal('first order of %d^%d' % (bx, e), c['key'], r.store[c['cell']['d']], want, r.pc)
    # an argument with zero first-order value contributes nothing, even where its partial derivative does not exist
    for bx, e in ((0, Fr(1, 2)),):
        pt = {'v': [('1', bx), ('2', e)], 'dv': [('1', 0), ('2', 0)]}
        r, c = ev_op(ck, prog, 'first_order', 'Powf', point=pt)
        if r is not None and total(ck, 'power rule', c['key'], r):
            ck.equal('first order of constant %d^%s' % (bx, e), c['key'], r.store[c['cell']['d']], upd(c['dv'], c['vid'], ZERO), r.pc)

def c02(ck, prog):
    ck.rules.append('value graph of the reverse step, per operation kind and aliasing pattern, equals the transposed symbolic derivative; every other cell unchanged')
    if not struct_ok(ck, prog): return
    for op in BIN + UN:
        for alias in ((False, True) if op in BIN else (False,)):
            tag = op + (' (same operand)' if alias else '')
            r, c = ev_op(ck, prog, 'first_order_reverse', op, alias)
            if r is None: continue
            if op == 'Abs':
                if r.diverges and r.panics: ck.ok('reverse step of Abs panics', c['key'])
                elif r.value is not None and not TM.poisoned(r.value): ck.violation('reverse step of Abs panics', c['key'], 'the step returns: adjoints ' + short(r.store[c['cell']['d']]))
                continue
            if not total(ck, 'reverse step of ' + tag, c['key'], r): continue
            ds = partials(op, c['x'], c['y'])
            w = at(c['dv'], c['vid'])
            def elem(j):
                t = add(at(c['dv'], j), ite(ieq(j, c['i1']), mul(w, ds[0]), ZERO))
                if op in BIN: t = add(t, ite(ieq(j, c['i2']), mul(w, ds[1]), ZERO))
                return t
            ck.equal('reverse step of ' + tag, c['key'], r.store[c['cell']['d']], arr(c['n'], elem), r.pc)
    for op in ('Nop', 'Const'):
        r, c = ev_op(ck, prog, 'first_order_reverse', op)
        if r is not None and total(ck, 'reverse step of ' + op, c['key'], r):
            ck.equal('reverse step of ' + op, c['key'], r.store[c['cell']['d']], c['dv'], r.pc)
    for bx in (0, -2):
        for e in (0, 1, 2, 3):
            pt = {'v': [('1', bx), ('2', e)]}
            r, c = ev_op(ck, prog, 'first_order_reverse', 'Powf', point=pt)
            if r is not None and total(ck, 'power rule', c['key'], r):
                d = 0 if e == 0 else e * Fr(bx) ** (e - 1)
                got = simplify(at(r.store[c['cell']['d']], c['i1']), tuple(r.pc))
                want = add(at(c['dv'], c['i1']), scale(at(c['dv'], c['vid']), d))
                ck.equal('adjoint of the base of %d^%d' % (bx, e), c['key'], got, want, r.pc)
