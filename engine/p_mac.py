"""C16: functions defined by macro. The expansions of a set of witness uses are analysed inside a copy of the crate,
and the same uses are type-checked from outside the crate."""
from common import *
from p_ops import total
from p_ctx import Session, contained
from p_drv import FUN, expect, rejects
from p_tape import dvec
import lib

MOD = '__verif_witness'
S_ = 'advantage::function::SimpleFunction'

def witness_tree():
    """copy of the crate with the witness uses as a module and as an example"""
    d = os.path.join(BUILD, 'witness')
    if os.path.isdir(d): shutil.rmtree(d)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('target', '.git', 'tests', 'benches'))
    src = open(os.path.join(VERIF, 'witness', 'macros.rs')).read()
    root = os.path.join(d, 'src', 'lib.rs')
    if not os.path.exists(root): return None
    with open(os.path.join(d, 'src', MOD + '.rs'), 'w') as f: f.write(src.replace('ROOT', 'crate'))
    with open(root, 'a') as f: f.write('\n#[doc(hidden)]\n#[allow(dead_code, unused_imports)]\npub mod %s;\n' % MOD)
    os.makedirs(os.path.join(d, 'examples'), exist_ok=True)
    with open(os.path.join(d, 'examples', MOD + '.rs'), 'w') as f:
        f.write('#[allow(dead_code, unused_imports)]\nmod witness {\n' + src.replace('#![deny(unused_variables)]', '').replace('ROOT', 'advantage') + '\n}\n#[test]\nfn t() {}\nfn main() {}\n')
    with open(os.path.join(d, 'Cargo.toml')) as f: t = f.read()
    if '[workspace]' not in t:
        with open(os.path.join(d, 'Cargo.toml'), 'a') as f: f.write('\n[workspace]\n')
    return d

def errors(text):
    """first compiler errors, without positions"""
    out = []
    for l in text.splitlines():
        if l.startswith('error') and 'could not compile' not in l and 'aborting' not in l: out.append(l)
    return '; '.join(out[:3]) or text[-300:]

def outside(d):
    """the uses type-checked as another crate's code"""
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    ex = os.path.join(d, 'examples', MOD + '.rs')
    with open(ex) as f: t = f.read()
    with open(ex, 'w') as f: f.write('#![deny(unused_variables)]\n' + t)
    return sh(['cargo', '+nightly', 'check', '--offline', '--target-dir', os.path.join(BUILD, 'target.witness'), '--example', MOD], cwd=d, env=env)

N, B, R, SEQ = 'nat', 'bool', 'any', 'seq:nat'
def rows(*ix): return lambda v, e: [v(i) for i in ix]
# name -> extra arguments, argument dimension, result dimension, components of the result (None: a function of the extras), facts
def table():
    k = num
    T_ = {}
    def d(name, extras, n, m, body, facts=lambda e: [], res=None): T_[name] = (extras, n, m, body, facts, res)
    c = lambda x: (lambda e: num(x))
    d('v_plain', (), c(3), c(3), rows(2, 0, 1))
    d('v_attr', (R,), c(3), c(1), rows(1))
    d('v_extra', (N, N), c(4), c(2), lambda v, e: [v(e[0]), v(e[1])], lambda e: [lt(e[0], num(4)), lt(e[1], num(4))])
    d('v_comma', (N,), c(2), c(1), lambda v, e: [v(e[0])], lambda e: [lt(e[0], num(2))])
    d('v_only_comma', (), c(2), c(2), rows(0, 1))
    d('v_owned', (SEQ,), c(2), c(1), lambda v, e: [v(length(e[0]))], lambda e: [lt(length(e[0]), num(2))])
    d('v_computed', (), c(3), c(4), rows(0, 1, 2, 0))
    d('v_dims', (N, N), lambda e: e[0], lambda e: add(e[1], ONE), lambda v, e: (add(e[1], ONE), v(sub(e[0], ONE))), lambda e: [lt(ZERO, e[0])])
    d('v_result', (N,), c(1), c(3), lambda v, e: (e[0], v(0)), res=lambda e: e[0])
    d('v_return', (B, N), c(2), c(2), lambda v, e: (e[1], v(0)), lambda e: [e[0]], res=lambda e: e[1])
    d('v_return/late', (B, N), c(2), c(2), rows(0, 1), lambda e: [not_(e[0])])
    d('v_mut', (), c(2), c(2), rows(1, 0))
    d('c_one', (), c(1), c(2), rows(0, 0))
    d('c_two', (N,), c(2), c(2), rows(1, 0), lambda e: [lt(ZERO, e[0])])
    d('c_two/zero', (N,), c(2), c(2), rows(0, 1), lambda e: lits(ieq(e[0], ZERO)))
    d('c_three', (), c(3), c(3), rows(2, 0, 1))
    d('c_five', (N, SEQ), c(5), c(5), lambda v, e: [v(4), v(e[0]), v(length(e[1])), v(1), v(0)], lambda e: [lt(e[0], num(5)), lt(length(e[1]), num(5))])
    d('c_twelve', (), c(12), c(12), rows(*range(11, -1, -1)))
    d('c_attr', (R,), c(2), c(1), rows(1))
    d('c_comma', (N,), c(2), c(2), rows(0, 0), lambda e: lits(ieq(e[0], num(2))))
    d('c_dims', (N,), c(2), lambda e: e[0], lambda v, e: None, lambda e: [lt(ZERO, e[0])])
    d('c_result', (N,), c(3), c(3), lambda v, e: (e[0], v(0)), res=lambda e: e[0])
    d('c_return', (B, N), c(2), c(2), lambda v, e: (e[1], v(0)), lambda e: [e[0]], res=lambda e: e[1])
    d('c_return/late', (B, N), c(2), c(2), rows(0, 1), lambda e: [not_(e[0])])
    d('inner::p_vector', (N,), c(2), c(1), lambda v, e: [v(e[0])], lambda e: [lt(e[0], num(2))])
    d('inner::p_component', (), c(2), c(1), rows(1))
    return T_

def c16(ck):
    ck.rules.append('value graphs of the expansions of every documented form of the macros, over all arguments; the same uses type-check from another crate')
    prog0 = program()
    for k in (FUN + '::n', FUN + '::m', FUN + '::eval'): ck.anchor(k in prog0.defkey, k)
    d = witness_tree()
    if d is None: ck.undecided('witness uses', 'src/lib.rs', 'the crate root is elsewhere'); return
    try: prog = program('witness', crate_dir=d)
    except Broken as e:
        ck.violation('every documented form of the macros is accepted', 'src/macros.rs', 'uses of the macros do not build: ' + errors(str(e))); return
    ck.ok('every documented form of the macros is accepted', 'src/macros.rs')
    r = outside(d)
    if r.returncode == 0: ck.ok('the macros can be used from another crate', 'src/macros.rs')
    else: ck.violation('the macros can be used from another crate', 'src/macros.rs', errors(r.stdout))
    shutil.rmtree(d, ignore_errors=True)
    pre = 'advantage::%s::' % MOD
    for name, (sorts, n, m, body, facts, res) in table().items():
        base = name.split('/')[0]
        fkey = pre + base
        okey = pre + ('outer::' if base.startswith('inner') else '') + 'o_' + base.split('::')[-1]
        if fkey not in prog.bykey or okey not in prog.bykey:
            ck.undecided(name, fkey, 'the expansion has no such function'); continue
        extras = [sym('e%d' % i, s) for i, s in enumerate(sorts)]
        fs = facts(extras)
        def vector(it, dims=None):
            v = prog.symval('v', dvec(prog, fkey, 0))
            return v
        def want(it, v):
            at_ = lambda i: mat_at(v, num(i) if isinstance(i, int) else i, ZERO)
            if base == 'c_dims': return vecm(extras[0], lambda i: ite(lits(ieq(i, ZERO))[0] if len(lits(ieq(i, ZERO))) == 1 else ieq(i, ZERO), at_(1), at_(0)))
            b = body(at_, extras)
            if isinstance(b, tuple): return vecm(b[0], lambda i: b[1])
            return seqvec(b)
        def start(rel_n=None, rel_m=None):
            s = Session(ck, prog); it = s.it; it.unroll = it.unfold = 16
            for f in fs: it.assume(f)
            v = vector(it)
            if rel_n is None:
                for l in lits(ieq(nrows(v), n(extras))): it.assume(l)
            else: it.assume(rel_n(nrows(v), n(extras)))
            if res is not None:
                if rel_m is None:
                    for l in lits(ieq(res(extras), m(extras))): it.assume(l)
                else: it.assume(rel_m(res(extras), m(extras)))
            return s, it, v
        ways = {'call': (fkey, lambda s, v: s.call(fkey, [v] + extras))}
        eval_ = '<%s as %s>::eval' % (S_, FUN)
        def obj(s):
            o = s.it.val(s.call(okey, list(extras)))
            ty = o.args[0] if o.op == 'st' else None
            return s.ref(o), (lambda k: '<%s as %s>::%s' % (ty, FUN, k))
        def through(s, v):
            o, nm = obj(s)
            return s.call(nm('eval'), [o, v])
        ways['object'] = (okey, through)
        for way, (key, go) in ways.items():
            tag = '%s, %s' % (name, way)
            def right():
                s, it, v = start()
                got = go(s, v)
                expect(ck, tag + ': evaluates its body', key, it, got, want(it, v), extra=())
                s.done()
            try: contained(ck, tag, key, right)
            except Diverge: ck.violation(tag + ': returns', key, 'a call with the right dimensions cannot return')
            for w, rel in (('long', lambda a, b: lt(b, a)), ('short', lambda a, b: lt(a, b))):
                def wrong():
                    s, it, v = start(rel_n=rel)
                    return s, it.val(go(s, v))
                rejects(ck, tag + ': an argument that is too %s is rejected' % w, key, wrong)
                if res is not None:
                    def wrong():
                        s, it, v = start(rel_m=rel)
                        return s, it.val(go(s, v))
                    rejects(ck, tag + ': a result that is too %s is rejected' % w, key, wrong)
        def dims():
            s, it, v = start()
            o, nm = obj(s)
            expect(ck, name + ': n', okey, it, s.call(nm('n'), [o]), n(extras))
            expect(ck, name + ': m', okey, it, s.call(nm('m'), [o]), m(extras))
            s.call(nm('eval'), [o, v])
            expect(ck, name + ': second evaluation', okey, it, s.call(nm('eval'), [o, v]), want(it, v))
            s.done()
        try: contained(ck, name + ': object', okey, dims)
        except Diverge: ck.violation(name + ': object', okey, 'a call with the right dimensions cannot return')
    # vector literals
    a = [sym('abcdefg'[i], 'real') for i in range(7)]
    for name, args, spec in (('l_three', a[:3], a[:3]), ('l_comma', a[:2], a[:2]), ('l_one', a[:1], a[:1]), ('l_none', [], []), ('l_seven', a, a), ('l_parens', a[:2], [a[1], a[0]]), ('l_repeat', [a[0], sym('n', 'nat')], None)):
        key = pre + name
        if key not in prog.bykey: ck.undecided(name, key, 'the expansion has no such function'); continue
        def lit():
            s = Session(ck, prog); it = s.it; it.unroll = it.unfold = 16
            w = vecm(args[1], lambda i: args[0]) if spec is None else seqvec(spec)
            expect(ck, 'vector literal ' + name[2:], key, it, s.call(key, list(args)), w)
            s.done()
        try: contained(ck, 'vector literal ' + name[2:], key, lit)
        except Diverge: ck.violation('vector literal ' + name[2:], key, 'it cannot return')
    ck.extra['witness_uses'] = sorted(table())

def seqvec(xs):
    """column vector with the given components"""
    xs = list(xs)
    return vecm(num(len(xs)), lambda i: at(seq_lit(*xs), i))
