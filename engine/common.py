"""Check framework: builds the dump from /repo's working tree, runs obligations, writes evidence."""
import json, os, sys, time, subprocess, fcntl, hashlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from terms import *
import terms as TM
from interp import *
import interp as I
from theory import Cmp, decide, simplify, lits, inconsistent, infeasible, refute

REPO = os.environ.get('ADV_REPO', '/repo')
BUILD = os.environ.get('ADV_BUILD', os.path.join(VERIF, '.build'))
CRATE = 'advantage'

class Broken(Exception):
    """the machinery cannot run (not a verdict)"""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def driver():
    """path of the compiler driver, built on demand"""
    d = os.path.join(VERIF, 'driver')
    exe = os.path.join(BUILD, 'driver', 'release', 'advdump')
    src = [os.path.join(d, 'src', f) for f in os.listdir(os.path.join(d, 'src'))] + [os.path.join(d, 'Cargo.toml')]
    if os.path.exists(exe) and os.path.getmtime(exe) >= max(os.path.getmtime(f) for f in src): return exe
    r = sh(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', os.path.join(BUILD, 'driver')], cwd=d)
    if r.returncode != 0 or not os.path.exists(exe): raise Broken('driver build failed:\n' + r.stdout[-3000:])
    os.utime(exe)
    return exe

def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()

def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ('target', '.git'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.hpp', '.cpp', '.h', '.txt', '.cmake')):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()

RELEASE = False   # analyse the build without debug assertions

def debug_only(root=None):
    """does the tree contain code that only builds with debug assertions execute?"""
    root = os.path.join(root or REPO, 'src')
    for d, ds, fs in os.walk(root):
        for f in fs:
            if f.endswith('.rs'):
                with open(os.path.join(d, f), errors='replace') as h:
                    t = h.read()
                if 'debug_assert' in t or 'debug_assertions' in t: return True
    return False

def dump(crate_dir=None, crates=CRATE, features='ffi', tag='main'):
    """dump of the crate in the current working tree"""
    crate_dir = crate_dir or REPO
    if RELEASE: tag += '.rel'
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock.' + tag), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        sr = sysroot()
        out = os.path.join(BUILD, 'dump.' + tag)
        tgt = os.path.join(BUILD, 'target.' + tag)
        os.makedirs(out, exist_ok=True)
        f = os.path.join(out, crates.split(',')[0] + '.json')
        if os.path.exists(f): os.remove(f)
        # force the analysed crates to be compiled again
        for fp in (os.path.join(tgt, 'debug', '.fingerprint'), os.path.join(tgt, 'debug', 'build')):
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if any(x == c or x.startswith(c + '-') for c in crates.split(',')): shutil.rmtree(os.path.join(fp, x))
        env = dict(os.environ, LD_LIBRARY_PATH=sr + '/lib', ADVDUMP_CRATES=crates, ADVDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None)
        cmd = ['cargo', '+nightly', 'check', '--offline', '--target-dir', tgt]
        if RELEASE: cmd += ['--config', 'profile.dev.debug-assertions=false', '--config', 'profile.dev.overflow-checks=true']
        if features: cmd += ['--features', features]
        r = sh(cmd, cwd=crate_dir, env=env)
        if r.returncode != 0 or not os.path.exists(f):
            raise Broken('the tree does not build under the analysis driver:\n' + r.stdout[-4000:])
        priv = os.path.join(out, '%s.%d.json' % (crates.split(',')[0], os.getpid()))
        os.rename(f, priv)
    return priv

_prog = {}
def program(tag='main', **kw):
    key = tag; tag += '.rel' if RELEASE else ''
    if tag not in _prog:
        f = dump(tag=key, **kw)
        try: _prog[tag] = Program(f)
        finally: os.remove(f)
    return _prog[tag]

# ---------------------------------------------------------------- running functions
class Res: pass
def run(prog, key, args, env=None, setup=None, summaries=None, pc=()):
    """abstract execution of one function; returns value, store, panics, ..."""
    it = Interp(prog, summaries or {})
    it.pc = tuple(pc)
    body = prog.bykey.get(key)
    if body is None: raise KeyError(key)
    if setup: args = setup(it)
    r = Res(); r.it = it; r.key = key
    r.base_pc = it.pc
    try:
        r.value = it.call_body(body, args, env or {})
        r.diverges = False
    except Diverge:
        r.value = None; r.diverges = True
    r.store = it.store; r.pc = it.pc; r.panics = it.panics; r.events = it.events
    r.notes = it.notes; r.visited = it.visited; r.sites = it.sites; r.args = args
    return r

def span(prog, key):
    it = prog.item.get(key)
    return it.get('sp', '') if it else ''

# ---------------------------------------------------------------- known findings
def known_findings():
    """committed list: lines 'finding: property=<id> key=<key> <text>' and 'fixed: ...'"""
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                w = l[9:].split(' ', 2)
                out[(w[0].split('=', 1)[1], w[1].split('=', 1)[1])] = w[2]
    return out

class Checker:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.obl = []; self.viol = []; self.undec = []
        self.visited = {}; self.sites = 0; self.notes = []; self.extra = {}
        self.anchors = []
        self.rules = []
    # -- results
    def absorb(self, r):
        for k, v in r.visited.items(): self.visited[k] = self.visited.get(k, 0) + v
        self.sites += r.sites
        for n in r.notes:
            if n not in self.notes: self.notes.append(n)
    suffix = ''
    def ok(self, name, where, detail=''):
        name += self.suffix
        self.obl.append({'obligation': name, 'where': where, 'verdict': 'proved', 'detail': detail})
    def undecided(self, name, where, why):
        name += self.suffix
        o = {'obligation': name, 'where': where, 'verdict': 'undecided', 'detail': why}
        self.obl.append(o); self.undec.append(o)
    def violation(self, name, where, why):
        name += self.suffix
        o = {'obligation': name, 'where': where, 'verdict': 'violated', 'detail': why}
        self.obl.append(o); self.viol.append(o)
    def anchor(self, cond, what):
        """fail closed on a missing public anchor"""
        self.anchors.append(what)
        if not cond: self.violation('anchor', what, 'the analysed construct no longer exists in this form')
        return bool(cond)
    def equal(self, name, where, got, want, facts=(), axioms=()):
        """verdict on got == want"""
        c = Cmp()
        try: v = TM.limited(90, lambda: c.eq(got, want, tuple(facts)))
        except (Give, RecursionError, TM.Budget) as e: v = None; c.unk = ('analysis: %s' % e, got, want)
        size = ''
        if v is None:
            try: x = TM.limited(60, lambda: refute(got, want, tuple(facts), axioms=tuple(axioms)))
            except (Give, RecursionError, TM.Budget): x = None
            if x: v = False; c.diff = x[1]; size = ' (at %s)' % x[0]
        if v is True: self.ok(name, where, short(want))
        elif v is False: self.violation(name, where, 'difference%s at %s: computed %s, required %s' % (size, c.diff[0] or 'result', short(c.diff[1]), short(c.diff[2])))
        else: self.undecided(name, where, 'not decided at %s: %s vs %s' % ((c.unk[0] or 'result', short(c.unk[1]), short(c.unk[2])) if c.unk else ('?', '', '')))
        return v
    def function(self, prog, key, args=None, env=None, setup=None, summaries=None, pc=(), name='walk'):
        """abstract execution with error containment; None if it could not be analysed"""
        if key not in prog.bykey:
            self.anchor(False, key); return None
        try:
            r = run(prog, key, args or [], env, setup, summaries, pc)
        except Give as e:
            self.undecided(name, key, 'construct outside the analysis: %s' % e); return None
        except (RecursionError, TM.Budget):
            self.undecided(name, key, 'analysis limit'); return None
        except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError, ZeroDivisionError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(name, key, 'construct outside the analysis: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('ADV_DEBUG'): traceback.print_exc()
            return None
        self.absorb(r)
        return r
    # -- reporting
    def finish(self):
        known = known_findings()
        reported = []
        for o in self.viol:
            if self.suffix and o['obligation'].endswith(self.suffix): o = dict(o, obligation=o['obligation'][:-len(self.suffix)])
            k = (self.prop, o['obligation'] + '@' + o['where'])
            k2 = (self.prop, o['where'])
            hit = known.get(k) or known.get((self.prop, o['obligation'].replace(' ', '_') + '@' + o['where'].replace(' ', '_')))
            if hit: print('KNOWN-FINDING: property=%s %s' % (self.prop, hit))
            else: reported.append(o)
        proved = [o for o in self.obl if o['verdict'] == 'proved']
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        import explain
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
            'level': 'other', 'wall_s': round(time.time() - self.t0, 3),
            'coverage': {
                'explanation': explain.TEXT.get(self.prop, ''),
                'rule': '; '.join(self.rules) or explain.TEXT.get(self.prop, ''),
                'obligations': len(self.obl), 'discharged': len(proved), 'undecided': len(self.undec), 'violated': len(self.viol),
                'functions_analysed': len(self.visited), 'functions': sorted(self.visited)[:400],
                'call_sites': self.sites, 'anchors': self.anchors,
                'samples': [dict(o, detail=o['detail'][:300]) for o in (proved[:12] + self.undec[:20] + self.viol[:20])],
                'obligation_list': [o['verdict'] + ' ' + o['obligation'] + ' @ ' + o['where'] for o in self.obl][:600],
                'notes': self.notes[:50],
            },
        }
        ev['coverage'].update(self.extra)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        if not self.obl:
            self.violation('coverage', self.prop, 'nothing was analysed'); reported = self.viol
        for o in self.undec:
            print('undecided: %s @ %s: %s' % (o['obligation'], o['where'], o['detail'][:200]))
        print('%s %s: %d obligations, %d proved, %d undecided, %d violated, %.1f s' % (self.prop, self.tier, len(self.obl), len(proved), len(self.undec), len(reported), time.time() - self.t0))
        if reported:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violation.txt')
            with open(rp, 'w') as f:
                for o in reported:
                    f.write('property %s\nobligation: %s\nconstruct: %s\n%s\n\n' % (self.prop, o['obligation'], o['where'], o['detail']))
            for o in reported[:10]:
                print('violated: %s @ %s: %s' % (o['obligation'], o['where'], o['detail'][:400]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0

def short(t, n=240):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + '...'
