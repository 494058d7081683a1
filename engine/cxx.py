"""LLVM IR of the C++ wrapper: compilation, parsing, and execution on an abstract heap of objects and library handles."""
import os, re, subprocess, tempfile, shutil, struct, json
from fractions import Fraction as Fr
from common import *

WITNESS = r'''
#include <adv.hpp>
#include <new>
#include <utility>
using adv::ADouble; using adv::AContext;
extern "C" {
unsigned long w_size_ad() { return sizeof(ADouble); }
unsigned long w_size_ctx() { return sizeof(AContext); }
void w_ad_default(void* p) { new (p) ADouble(); }
void w_ad_value(void* p, double v) { new (p) ADouble(v); }
void w_ad_copy(void* p, const ADouble& o) { new (p) ADouble(o); }
void w_ad_move(void* p, ADouble& o) { new (p) ADouble(std::move(o)); }
void w_ad_copy_assign(ADouble& a, const ADouble& b) { a = b; }
void w_ad_move_assign(ADouble& a, ADouble& b) { a = std::move(b); }
void w_ad_value_assign(ADouble& a, double v) { a = v; }
void w_ad_destroy(ADouble& a) { a.~ADouble(); }
void w_ctx_default(void* p) { new (p) AContext(); }
void w_ctx_move(void* p, AContext& o) { new (p) AContext(std::move(o)); }
void w_ctx_move_assign(AContext& a, AContext& b) { a = std::move(b); }
void w_ctx_destroy(AContext& a) { a.~AContext(); }
void w_ctx_indep(void* p, AContext& c) { new (p) ADouble(c.new_independent()); }
void w_ctx_dep(AContext& c, const ADouble& v) { c.set_dependent(v); }
#define BIN(N, O) \
void w_##N##_aa(void* p, const ADouble& a, const ADouble& b) { new (p) ADouble(a O b); } \
void w_##N##_ad(void* p, const ADouble& a, double b) { new (p) ADouble(a O b); } \
void w_##N##_da(void* p, double a, const ADouble& b) { new (p) ADouble(a O b); }
BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /)
#define UN(N) \
void w_##N##_a(void* p, const ADouble& a) { new (p) ADouble(adv::N(a)); } \
double w_##N##_d(double a) { return adv::N(a); }
UN(sin) UN(cos) UN(tan) UN(abs) UN(exp) UN(ln)
#define MM(N) \
void w_##N##_aa(void* p, const ADouble& a, const ADouble& b) { new (p) ADouble(adv::N(a, b)); } \
void w_##N##_ad(void* p, const ADouble& a, double b) { new (p) ADouble(adv::N(a, b)); } \
void w_##N##_da(void* p, double a, const ADouble& b) { new (p) ADouble(adv::N(a, b)); } \
double w_##N##_dd(double a, double b) { return adv::N(a, b); }
MM(min) MM(max)
void w_nested(void* p, const ADouble& a, const ADouble& b) { new (p) ADouble(2.0 - a * (b - 1.0)); }
void w_swap(ADouble& a, ADouble& b) { std::swap(a, b); }
void w_ctx_swap(AContext& a, AContext& b) { std::swap(a, b); }
}
'''

def sources():
    d = os.path.join(REPO, 'src', 'cxx')
    out = []
    for root, ds, fs in os.walk(d):
        ds.sort()
        out += [os.path.join(root, f) for f in sorted(fs) if f.endswith(('.cpp', '.cc', '.cxx'))]
    return out
def standard():
    try: m = re.search(r'CMAKE_CXX_STANDARD\s+(\d+)', open(os.path.join(REPO, 'CMakeLists.txt')).read())
    except OSError: m = None
    return m.group(1) if m else '14'
FLAGS = ['-w', '-D_IN_ADV', '-I' + os.path.join(REPO, 'include')]

class CompileError(Exception): pass
def compile_all():
    """[(file, IR text)]; raises CompileError"""
    tmp = tempfile.mkdtemp(prefix='advcxx')
    try:
        w = os.path.join(tmp, 'witness.cpp')
        open(w, 'w').write(WITNESS)
        out = []
        for f in sources() + [w]:
            o = os.path.join(tmp, 'o.ll')
            r = subprocess.run(['clang++', '-std=c++' + standard(), '-O0', '-gline-tables-only', '-fno-discard-value-names', '-S', '-emit-llvm'] + FLAGS + ['-o', o, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise CompileError('%s: %s' % (os.path.basename(f), next((l for l in r.stdout.splitlines() if 'error' in l), r.stdout[:300])))
            out.append((f, open(o).read()))
        return out
    finally: shutil.rmtree(tmp, ignore_errors=True)

def declarations():
    """C declarations of the library interface: name -> (result type, parameter types)"""
    res = {}
    dec = json.JSONDecoder()
    for f in sources():
        r = subprocess.run(['clang++', '-std=c++' + standard(), '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=adv_'] + FLAGS + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise CompileError('%s: %s' % (os.path.basename(f), next((l for l in r.stderr.splitlines() if 'error' in l), '')))
        s = r.stdout; i = 0
        while True:
            while i < len(s) and s[i].isspace(): i += 1
            if i >= len(s): break
            j = s.find('{', i)
            if j < 0: break
            o, i = dec.raw_decode(s, j)
            if o.get('kind') != 'FunctionDecl' or not o['name'].startswith('adv_'): continue
            if any(x.get('kind') == 'CompoundStmt' for x in o.get('inner', ())): continue
            if o.get('mangledName', o['name']) != o['name']: continue      # not C linkage
            q = o['type']['qualType']
            ps = [x['type'].get('desugaredQualType', x['type']['qualType']) for x in o.get('inner', ()) if x['kind'] == 'ParmVarDecl']
            res.setdefault(o['name'], set()).add((q.split('(')[0].strip(), tuple(ps)))
    return res

# ---------------------------------------------------------------- parsing
TOK = re.compile(r'\s*(%"[^"]*"|@"[^"]*"|c"[^"]*"|"[^"]*"|-?\d+\.\d+e[-+]\d+|[%@!#$]?[-a-zA-Z$._0-9]+|<\{|\}>|[\[\]{}()<>,=*:]|\.\.\.|\S)')
def toks(s): return TOK.findall(s)

class Ty:
    """types as tuples"""
def ptype(t, i):
    x = t[i]
    if x == 'ptr': r = ('ptr',); i += 1
    elif re.fullmatch(r'i\d+', x): r = ('i', int(x[1:])); i += 1
    elif x in ('double', 'float', 'void', 'label', 'token', 'metadata', 'opaque', 'x86_fp80', 'fp128', 'half'): r = (x,); i += 1
    elif x.startswith('%'): r = ('named', x); i += 1
    elif x in ('{', '<{'):
        e = '}' if x == '{' else '}>'; i += 1; fs = []
        while t[i] != e:
            f, i = ptype(t, i); fs.append(f)
            if t[i] == ',': i += 1
        i += 1; r = ('struct', tuple(fs), x == '<{')
    elif x == '[':
        n = int(t[i + 1]); f, j = ptype(t, i + 3); i = j + 1; r = ('array', n, f)
    elif x == '<':
        n = int(t[i + 1]); f, j = ptype(t, i + 3); i = j + 1; r = ('vector', n, f)
    else: raise Give('IR type ' + x)
    while i < len(t) and t[i] == '(' and r[0] not in ('named',) :
        # function type: skip the parameter list
        d = 0
        while True:
            if t[i] == '(': d += 1
            if t[i] == ')': d -= 1
            i += 1
            if d == 0: break
    return r, i

def split(t):
    """top-level comma separated token lists"""
    out = [[]]; d = 0
    for x in t:
        if x in '([{<' or x == '<{': d += 1
        if x in ')]}>' or x == '}>': d -= 1
        if x == ',' and d == 0: out.append([])
        else: out[-1].append(x)
    return [o for o in out if o]

class Mod: pass
def parse(text):
    m = Mod(); m.types = {}; m.funcs = {}; m.alias = {}; m.globals = {}; m.internal = set(); m.dbg = {}; m.declared = set()
    lines = text.split('\n'); i = 0
    while i < len(lines):
        l = lines[i]; i += 1
        if l.startswith('%') and ' = type ' in l:
            n, d = l.split(' = type ', 1); t = toks(d)
            m.types[n.strip()] = ptype(t, 0)[0]
        elif l.startswith('@') and ' alias ' in l:
            m.alias[l.split(' = ')[0].strip()[1:].strip('"')] = l.rsplit('@', 1)[1].strip().strip('"')
        elif l.startswith('@'):
            n = l.split(' = ')[0].strip()[1:].strip('"'); m.globals[n] = l.split(' = ', 1)[1]
            if ' internal ' in l or ' private ' in l or '= internal ' in l or '= private ' in l: m.internal.add(n)
        elif l.startswith('declare '):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
            if mm: m.declared.add(mm.group(1).strip('"'))
        elif l.startswith('define '):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
            n = mm.group(1).strip('"')
            if ' internal ' in l or ' private ' in l: m.internal.add(n)
            t = toks(l[mm.end() - 1:])
            d = 0
            for q, x in enumerate(t):
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            ps = []
            for k, a in enumerate(split(t[1:q])):
                ty, j = ptype(a, 0) if a[0] != '...' else (('...',), 1)
                ps.append((ty, a[-1] if a[-1].startswith('%') and len(a) > j else '%%%d' % k))
            f = Mod(); f.name = n; f.params = ps; f.blocks = {}; f.mod = m
            cur = None; entry = None
            body = []
            while lines[i] != '}':
                s = lines[i]; i += 1
                if not s.strip() or s.lstrip().startswith(';'): continue
                if not s.startswith(' '):
                    lab = s.split(':')[0].strip().strip('"')
                    cur = lab; f.blocks[cur] = []
                    if entry is None: entry = cur
                    continue
                if cur is None: cur = str(len(ps)); entry = cur; f.blocks[cur] = []
                s = s.strip()
                if s.startswith(('to label',)) and f.blocks[cur]: f.blocks[cur][-1] += ' ' + s
                elif s.startswith(('catch ', 'cleanup', 'filter ')) and f.blocks[cur]: f.blocks[cur][-1] += ' ' + s
                elif f.blocks[cur] and f.blocks[cur][-1].startswith('switch') and ']' not in f.blocks[cur][-1]: f.blocks[cur][-1] += ' ' + s
                elif s.startswith('#dbg_'): continue
                else: f.blocks[cur].append(s)
            i += 1
            f.entry = entry
            m.funcs[n] = f
        elif l.startswith('!') and 'DILocation(' in l:
            mm = re.match(r'(!\d+) = .*DILocation\(line: (\d+)', l)
            if mm: m.dbg[mm.group(1)] = int(mm.group(2))
    return m

class Bad(Exception):
    def __init__(self, kind, msg, where): Exception.__init__(self, msg); self.kind = kind; self.msg = msg; self.where = where
UNDEF = ('undef',)
LIBM = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp', 'log': 'ln', 'fabs': 'abs', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'log2': 'log2', 'log10': 'log10', 'log1p': 'log1p', 'expm1': 'expm1', 'exp2': 'exp2', 'sqrt': 'sqrt', 'floor': 'floor', 'ceil': 'ceil', 'cbrt': 'cbrt'}
REAL = {'sin', 'cos', 'tan', 'exp', 'ln', 'abs', 'asin', 'acos', 'atan'}
HANDLE_FN = re.compile(r'adv_')

class Linked:
    def __init__(self, mods):
        self.mods = [parse(t) for f, t in mods]
        self.files = [os.path.relpath(f, REPO) if f.startswith(REPO) else 'witness' for f, t in mods]
        self.glob = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                if n not in m.internal: self.glob.setdefault(n, f)
            for n, a in m.alias.items():
                if a in m.funcs: self.glob.setdefault(n, m.funcs[a])
        for m, f in zip(self.mods, self.files):
            for x in m.funcs.values(): x.file = f
        self.demangled = {}
    def find(self, mod, n):
        f = mod.funcs.get(n)
        if f is not None: return f
        if n in mod.alias: return mod.funcs.get(mod.alias[n])
        return self.glob.get(n)
    def show(self, n):
        if n not in self.demangled:
            try: self.demangled[n] = subprocess.run(['c++filt', n], stdout=subprocess.PIPE, text=True).stdout.strip() or n
            except OSError: self.demangled[n] = n
        return self.demangled[n]

class Obj: pass
class Heap:
    """memory, handles and events of one run"""
    def __init__(self, link, decide=None):
        self.l = link; self.objs = {}; self.n = 0; self.handles = {}; self.nh = 0; self.events = []
        self.decide = decide; self.conds = []; self.stack = []; self.steps = 0; self.gobj = {}; self.visited = {}; self.calls = 0
    def alloc(self, kind, size):
        o = Obj(); self.n += 1; o.id = self.n; o.kind = kind; o.size = size; o.live = True; o.data = {}; o.where = self.here()
        self.objs[o.id] = o
        return ('ptr', o.id, 0)
    def here(self): return self.l.show(self.stack[-1][0]) if self.stack else ''
    def where(self):
        return ' < '.join('%s (line %s)' % (self.l.show(n), ln) for n, ln in reversed(self.stack))
    def bad(self, kind, msg): raise Bad(kind, msg, self.where())
    def handle(self, kind, val):
        self.nh += 1
        self.handles[self.nh] = {'kind': kind, 'live': True, 'val': val, 'where': self.here()}
        return ('h', self.nh)
    def use(self, v, kind, what):
        if v == 0: self.bad('null', 'null is passed to %s' % what)
        if v == UNDEF: self.bad('uninitialised', 'an uninitialised handle is passed to %s' % what)
        if not (isinstance(v, tuple) and v[0] == 'h'): self.bad('not a handle', 'something other than a library handle is passed to %s' % what)
        h = self.handles[v[1]]
        if not h['live']: self.bad('use after release', 'a handle that was already released is passed to %s' % what)
        if h['kind'] != kind: self.bad('wrong handle', 'a handle of the wrong kind is passed to %s' % what)
        return h
    def obj(self, p, what):
        if p == 0: self.bad('null', '%s through a null pointer' % what)
        if p == UNDEF: self.bad('uninitialised', '%s through an uninitialised pointer' % what)
        if not (isinstance(p, tuple) and p[0] == 'ptr'):
            if isinstance(p, tuple) and p[0] == 'h': self.bad('handle dereferenced', '%s through a library handle' % what)
            raise Give('pointer arithmetic')
        o = self.objs[p[1]]
        if not o.live: self.bad('use after release', '%s memory that was already released' % what)
        return o
    def load(self, p, size):
        o = self.obj(p, 'reads'); off = p[2]
        if off < 0 or (o.size is not None and off + size > o.size): self.bad('out of bounds', 'reads outside of an object')
        c = o.data.get(off)
        if c is not None and c[0] == size: return c[1]
        for q, (s, v) in o.data.items():
            if q < off + size and off < q + s: raise Give('partial memory access')
        if o.kind == 'global': raise Give('global variable')
        return UNDEF
    def store(self, p, size, v):
        o = self.obj(p, 'writes'); off = p[2]
        if off < 0 or (o.size is not None and off + size > o.size): self.bad('out of bounds', 'writes outside of an object')
        for q, (s, _) in list(o.data.items()):
            if q < off + size and off < q + s:
                if (q, s) != (off, size) and not (off <= q and q + s <= off + size): raise Give('partial memory access')
                del o.data[q]
        o.data[off] = (size, v)
    def free(self, p, what):
        if p == 0: return
        o = self.obj(p, 'releases')
        if o.kind != 'heap': self.bad('bad release', '%s of memory that was not allocated' % what)
        if p[2] != 0: self.bad('bad release', '%s of the middle of an allocation' % what)
        o.live = False

    # types
    def rtype(self, t, m):
        while t[0] == 'named':
            n = m.types.get(t[1])
            if n is None: raise Give('opaque type ' + t[1])
            t = n
        return t
    def size(self, t, m):
        t = self.rtype(t, m); k = t[0]
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'i': return 1 if t[1] <= 8 else 2 if t[1] <= 16 else 4 if t[1] <= 32 else 8 if t[1] <= 64 else 16
        if k == 'array': return t[1] * self.size(t[2], m)
        if k == 'struct': return self.layout(t, m)[1]
        raise Give('type ' + k)
    def align(self, t, m):
        t = self.rtype(t, m)
        if t[0] == 'array': return self.align(t[2], m)
        if t[0] == 'struct': return 1 if t[2] else max([self.align(f, m) for f in t[1]] or [1])
        return self.size(t, m)
    def layout(self, t, m):
        off = 0; fs = []; al = 1
        for f in t[1]:
            a = 1 if t[2] else self.align(f, m)
            al = max(al, a); off = (off + a - 1) // a * a
            fs.append(off); off += self.size(f, m)
        return fs, (off + al - 1) // al * al

    # values
    def value(self, t, ty, env, f):
        """value of the token list of an operand of this type"""
        x = t[-1] if len(t) == 1 or t[-1] != ')' else None
        if x is None:
            k = next((w for w in t if w in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast')), None)
            if k == 'getelementptr':
                a = t.index('('); args = split(t[a + 1:-1])
                return self.gep(args, env, f)
            raise Give('constant expression')
        if x.startswith('%'):
            if x not in env: raise Give('value ' + x)
            return env[x]
        if x.startswith('@'): return self.symbol(x[1:].strip('"'), f.mod)
        if x in ('null', 'zeroinitializer', 'false'): return 0 if ty[0] not in ('double', 'float') else ZERO
        if x == 'true': return 1
        if x in ('undef', 'poison'): return UNDEF
        if ty[0] in ('double', 'float'):
            v = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0] if x.startswith('0x') else float(x)
            if v != v or v in (float('inf'), float('-inf')): return sym('const:%s' % v)
            return num(Fr(v))
        if re.fullmatch(r'-?\d+', x): return int(x) & ((1 << ty[1]) - 1) if ty[0] == 'i' else int(x)
        raise Give('operand ' + x)
    def symbol(self, n, mod):
        if n in mod.funcs or n in mod.alias or n in mod.declared or n in self.l.glob: return ('fn', n, mod)
        key = (id(mod) if n in mod.internal else 0, n)
        if key not in self.gobj:
            p = self.alloc('global', None); self.gobj[key] = p
            self.objs[p[1]].name = n
            d = mod.globals.get(n, '')
            mm = re.search(r'(?:global|constant) (.*?)(?:, align|, comdat|$)', d)
            if mm and ' constant ' not in ' ' + d and mm.group(1).strip().endswith(('zeroinitializer', 'null', ' 0')):
                self.objs[p[1]].zero = True
        return self.gobj[key]
    def gep(self, args, env, f):
        ty, _ = ptype(args[0], 0) if args[0][0] != 'inbounds' else ptype(args[0], 1)
        p = self.value(args[1][-1:] if args[1][-1] != ')' else args[1], ('ptr',), env, f)
        idx = [(ptype(a, 0)[0], a) for a in args[2:]]
        off = 0; t = ty; first = True
        for it, a in idx:
            v = self.value(a[-1:], it, env, f)
            if not isinstance(v, int): raise Give('symbolic index')
            if it[0] == 'i' and v >> (it[1] - 1): v -= 1 << it[1]
            if first: off += v * self.size(t, f.mod) if v else 0; first = False; continue
            t = self.rtype(t, f.mod)
            if t[0] == 'struct': off += self.layout(t, f.mod)[0][v]; t = t[1][v]
            elif t[0] == 'array': off += v * self.size(t[2], f.mod); t = t[2]
            else: raise Give('getelementptr into ' + t[0])
        if off == 0: return p
        if p == 0: self.bad('null', 'a member is accessed through a null pointer')
        if p == UNDEF: self.bad('uninitialised', 'a member is accessed through an uninitialised pointer')
        if p[0] != 'ptr': raise Give('pointer arithmetic')
        return ('ptr', p[1], p[2] + off)

    # execution
    def truth(self, c):
        if isinstance(c, int): return bool(c)
        if c == UNDEF: self.bad('uninitialised', 'a branch depends on an uninitialised value')
        if isinstance(c, tuple) and c[0] == 'cond':
            r = self.decide(c) if self.decide else None
            if r is None: raise Give('branch on a number: %s' % (c[1],))
            return r
        raise Give('branch condition')
    def call(self, n, args, mod=None):
        f = self.l.find(mod, n) if mod is not None else self.l.glob.get(n)
        if f is None: return self.external(n, args)
        if len(self.stack) > 60: raise Give('recursion')
        self.visited[f.name] = self.visited.get(f.name, 0) + 1
        self.stack.append([n, '?'])
        locs = []
        try: return self.body(f, args, locs)
        finally:
            for p in locs: self.objs[p[1]].live = False
            if True: self.stack.pop()
    def body(self, f, args, locs):
        env = {p[1]: a for p, a in zip(f.params, args)}
        bb = f.entry; prev = None; m = f.mod
        while True:
            nxt = None
            phis = {}
            for s in f.blocks[bb]:
                self.steps += 1
                if self.steps > 200000: raise Give('analysis limit')
                mm = re.search(r', !dbg (!\d+)', s)
                if mm: self.stack[-1][1] = m.dbg.get(mm.group(1), '?'); s = s[:mm.start()]
                dst = None
                q = re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = ', s)
                if q: dst = q.group(1); s = s[q.end():]
                t = toks(s); op = t[0]
                if op in ('tail', 'musttail', 'notail'): t = t[1:]; op = t[0]
                if op == 'phi':
                    i = 1
                    ty, i = ptype(t, i)
                    v = None
                    for a in split(t[i:]):
                        # [ value, %label ]
                        b = split(a[1:-1])
                        if b[1][0][1:].strip('"') == prev: v = self.value(b[0], ty, env, f)
                    phis[dst] = v
                    env[dst] = v
                    continue
                if op == 'alloca':
                    ty, i = ptype(t, 1)
                    rest = split(t[i:]) if i < len(t) else []
                    n = 1
                    p = self.alloc('stack', self.size(ty, m) * n); locs.append(p); env[dst] = p
                elif op == 'load':
                    t = [x for x in t if x not in ('volatile', 'atomic')]
                    ty, i = ptype(t, 1); a = split(t[i:])
                    p = self.value(a[0][1:] if a[0][-1] == ')' else a[0][-1:], ('ptr',), env, f)
                    env[dst] = self.loadty(p, ty, m)
                elif op == 'store':
                    t = [x for x in t if x not in ('volatile', 'atomic')]
                    a = split(t[1:]); ty, i = ptype(a[0], 0)
                    v = self.value(a[0][i:], ty, env, f)
                    p = self.value(a[1][1:] if a[1][-1] == ')' else a[1][-1:], ('ptr',), env, f)
                    self.storety(p, ty, v, m)
                elif op == 'getelementptr': env[dst] = self.gep(split([x for x in t[1:] if x not in ('inbounds', 'nuw', 'nusw')]), env, f)
                elif op in ('call', 'invoke'):
                    r, nxt = self.docall(t, env, f)
                    if dst: env[dst] = r
                elif op == 'ret':
                    if t[1] == 'void': return None
                    ty, i = ptype(t, 1)
                    return self.value(t[i:], ty, env, f)
                elif op == 'br':
                    if t[1] == 'label': nxt = t[2]
                    else:
                        a = split(t[1:])
                        c = self.value(a[0][-1:], ('i', 1), env, f)
                        nxt = a[1][-1] if self.truth(c) else a[2][-1]
                elif op == 'switch':
                    k = t.index('['); a = split(t[1:k]); ty, i = ptype(a[0], 0)
                    v = self.value(a[0][i:], ty, env, f)
                    if not isinstance(v, int): raise Give('switch on a symbolic value')
                    nxt = a[1][-1]
                    cs = t[k + 1:-1]
                    for w in range(0, len(cs)):
                        if cs[w] == ',' and re.fullmatch(r'-?\d+', cs[w - 1]) and (int(cs[w - 1]) & ((1 << ty[1]) - 1)) == v: nxt = cs[w + 2]
                elif op == 'icmp':
                    t = [x for x in t if x != 'samesign']
                    ty, i = ptype(t, 2); a = split(t[i:])
                    env[dst] = self.icmp(t[1], self.value(a[0], ty, env, f), self.value(a[1], ty, env, f), ty)
                elif op == 'fcmp':
                    t = [t[0]] + [x for x in t[1:] if x not in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc')]
                    ty, i = ptype(t, 2); a = split(t[i:])
                    l, r = self.value(a[0], ty, env, f), self.value(a[1], ty, env, f)
                    env[dst] = self.fcmp(t[1], l, r)
                elif op == 'select':
                    a = split(t[1:]); c = self.value(a[0][-1:], ('i', 1), env, f)
                    w = a[1] if self.truth(c) else a[2]
                    ty, i = ptype(w, 0); env[dst] = self.value(w[i:], ty, env, f)
                elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
                    t = [t[0]] + [x for x in t[1:] if x not in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc')]
                    ty, i = ptype(t, 1); a = split(t[i:])
                    v = [self.value(x, ty, env, f) for x in a]
                    if UNDEF in v: env[dst] = UNDEF
                    else: env[dst] = {'fadd': add, 'fsub': sub, 'fmul': mul, 'fdiv': div, 'fneg': neg}[op](*v)
                elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
                    t = [x for x in t if x not in ('nuw', 'nsw', 'exact', 'disjoint')]
                    ty, i = ptype(t, 1); a = split(t[i:]); l, r = (self.value(x, ty, env, f) for x in a)
                    if op == 'xor' and r == 1 and isinstance(l, tuple) and l[0] == 'cond': env[dst] = ('cond', 'not', l)
                    elif op == 'and' and ty == ('i', 1) and (l == 0 or r == 0): env[dst] = 0
                    elif op == 'or' and ty == ('i', 1) and (l == 1 or r == 1): env[dst] = 1
                    else:
                        if ty == ('i', 1): l, r = int(self.truth(l)), int(self.truth(r))
                        if not (isinstance(l, int) and isinstance(r, int)): raise Give('integer arithmetic on symbols')
                        k = (1 << ty[1]) - 1
                        try: env[dst] = {'add': l + r, 'sub': l - r, 'mul': l * r, 'and': l & r, 'or': l | r, 'xor': l ^ r, 'shl': l << min(r, 128), 'lshr': l >> r}[op] & k
                        except KeyError: raise Give('instruction ' + op)
                elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
                    t = [t[0]] + [x for x in t[1:] if x not in ('nneg', 'nuw', 'nsw')]
                    ty, i = ptype(t, 1); j = t.index('to') if 'to' in t else len(t)
                    v = self.value(t[i:j], ty, env, f)
                    if op in ('sitofp', 'uitofp'):
                        if isinstance(v, T) and v.op == 'app' and v.args[0] == 'trunc': pass
                        elif not isinstance(v, int): raise Give('conversion')
                        else:
                            if op == 'sitofp' and v >> (ty[1] - 1): v -= 1 << ty[1]
                            v = num(v)
                    elif op == 'fpext': pass
                    elif op == 'fptrunc':
                        if const(v) is None and not (v.op == 'app' and v.args[0] in ('single', 'trunc')): v = mk('app', 'single', 'real', v)
                    elif op in ('fptosi', 'fptoui'): v = mk('app', 'trunc', 'real', v)
                    elif op == 'trunc' and isinstance(v, int): v &= (1 << ptype(t, j + 1)[0][1]) - 1
                    elif op == 'sext' and isinstance(v, int) and v >> (ty[1] - 1): v = (v - (1 << ty[1])) & ((1 << ptype(t, j + 1)[0][1]) - 1)
                    env[dst] = v
                elif op == 'extractvalue':
                    ty, i = ptype(t, 1); a = split(t[i:]); v = self.value(a[0], ty, env, f)
                    if not isinstance(v, list): raise Give('extractvalue')
                    env[dst] = v[int(a[1][0])]
                elif op == 'insertvalue':
                    a = split(t[1:]); ty, i = ptype(a[0], 0); v = self.value(a[0][i:], ty, env, f)
                    v = list(v) if isinstance(v, list) else [UNDEF] * len(self.rtype(ty, m)[1])
                    ty2, i2 = ptype(a[1], 0); v[int(a[2][0])] = self.value(a[1][i2:], ty2, env, f); env[dst] = v
                elif op == 'unreachable': self.bad('unreachable', 'control reaches a point declared unreachable')
                elif op in ('fence',): pass
                else: raise Give('instruction ' + op)
                if nxt is not None: break
            if nxt is None: raise Give('block without successor')
            prev, bb = bb, nxt[1:].strip('"')
    def loadty(self, p, ty, m):
        t = self.rtype(ty, m)
        if t[0] == 'struct':
            fs, _ = self.layout(t, m)
            return [self.loadty(('ptr', p[1], p[2] + o) if o else p, f, m) for o, f in zip(fs, t[1])]
        if isinstance(p, tuple) and p[0] == 'ptr':
            o = self.objs[p[1]]
            if getattr(o, 'zero', False) and p[2] not in o.data and o.live: return 0 if t[0] != 'double' else ZERO
        return self.load(p, self.size(t, m))
    def storety(self, p, ty, v, m):
        t = self.rtype(ty, m)
        if t[0] == 'struct':
            if not isinstance(v, list): raise Give('store of an aggregate')
            fs, _ = self.layout(t, m)
            for o, f, x in zip(fs, t[1], v): self.storety(('ptr', p[1], p[2] + o) if o else p, f, x, m)
            return
        self.store(p, self.size(t, m), v)
    def docall(self, t, env, f):
        # find callee: token before the argument list
        k = 1
        t2 = t[1:]
        # result type follows attributes and calling convention
        i = 0
        while True:
            x = t2[i]
            if x in ('ptr', 'void', 'double', 'float') or re.fullmatch(r'i\d+', x) or x in ('{', '[', '<{') or (x.startswith('%') ): break
            if x in ('(',):
                d = 0
                while True:
                    if t2[i] == '(': d += 1
                    if t2[i] == ')': d -= 1
                    i += 1
                    if d == 0: break
                continue
            i += 1
            if x in ('align',): i += 1
        ty, j = ptype(t2, i)
        # callee
        callee = t2[j]; j += 1
        if t2[j] != '(': raise Give('call form')
        d = 0; e = j
        while True:
            if t2[e] == '(': d += 1
            if t2[e] == ')':
                d -= 1
                if d == 0: break
            e += 1
        args = []
        for a in split(t2[j + 1:e]):
            if a[0] == 'metadata': args.append(None); continue
            at_, q = ptype(a, 0)
            args.append(self.value(a[-1:] if a[-1] != ')' or not any(w == 'getelementptr' for w in a) else a[a.index('getelementptr'):], at_, env, f))
        nxt = None
        if 'to' in t2[e:]:
            q = t2.index('to', e); nxt = t2[q + 2]
        self.calls += 1
        if callee.startswith('@'): r = self.call(callee[1:].strip('"'), args, f.mod)
        else:
            v = env.get(callee)
            if not (isinstance(v, tuple) and v[0] == 'fn'): raise Give('call through a pointer')
            r = self.call(v[1], args, v[2])
        return r, nxt
    def icmp(self, p, l, r, ty):
        if l == UNDEF or r == UNDEF: return UNDEF
        if isinstance(l, int) and isinstance(r, int):
            w = ty[1] if ty[0] == 'i' else 64
            s = lambda v: v - (1 << w) if v >> (w - 1) else v
            return int({'eq': l == r, 'ne': l != r, 'ult': l < r, 'ule': l <= r, 'ugt': l > r, 'uge': l >= r, 'slt': s(l) < s(r), 'sle': s(l) <= s(r), 'sgt': s(l) > s(r), 'sge': s(l) >= s(r)}[p])
        if p in ('eq', 'ne') and (isinstance(l, tuple) or isinstance(r, tuple)):
            if isinstance(l, tuple) and l[0] == 'cond' or isinstance(r, tuple) and r[0] == 'cond': raise Give('comparison of conditions')
            e = l == r
            return int(e if p == 'eq' else not e)
        raise Give('comparison')
    def fcmp(self, p, l, r):
        if l == UNDEF or r == UNDEF: return UNDEF
        if p in ('ord',): return ('cond', 'ord', l, r)
        if p in ('uno',): return ('cond', 'not', ('cond', 'ord', l, r))
        if p in ('true', 'false'): return int(p == 'true')
        return ('cond', p[1:], l, r)
    def external(self, n, args):
        if n in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t'):
            if not isinstance(args[0], int): raise Give('allocation size')
            return self.alloc('heap', args[0])
        if n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free'): self.free(args[0], 'release'); return None
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume') or n.startswith('llvm.invariant'): return None
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            if args[2] == 0: return None
            a, b = self.obj(args[0], 'writes'), self.obj(args[1], 'reads')
            got = [(q - args[1][2], c) for q, c in b.data.items() if args[1][2] <= q < args[1][2] + args[2]]
            for q in list(a.data):
                if args[0][2] <= q < args[0][2] + args[2]: del a.data[q]
            for q, (s, v) in got: self.store(('ptr', args[0][1], args[0][2] + q), s, v)
            return None
        if n.startswith('llvm.memset'):
            a = self.obj(args[0], 'writes')
            if args[1] != 0 or not isinstance(args[2], int) or args[2] % 8: raise Give('memset')
            for q in range(0, args[2], 8): self.store(('ptr', args[0][1], args[0][2] + q), 8, 0)
            return None
        base = n
        if n.startswith('llvm.') and n.endswith('.f64'): base = n[5:-4]
        if base in LIBM and len(args) == 1:
            if args[0] == UNDEF: self.bad('uninitialised', 'an uninitialised number is passed to ' + base)
            w = LIBM[base]
            return fn(w, args[0]) if w in REAL else mk('app', 'libm:' + w, 'real', args[0])
        if base in ('fmin', 'minnum', 'minimum', 'fmax', 'maxnum', 'maximum') and len(args) == 2:
            return (fmin if 'min' in base else fmax)(*args)
        if base in ('pow', 'atan2', 'fmod', 'hypot') and len(args) == 2: return mk('app', 'libm:' + base, 'real', *args)
        if n in ('__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', 'abort', 'exit', '_exit') or n.startswith('_ZSt') and 'throw' in n: self.bad('throws', 'the call ends in %s' % self.l.show(n))
        if n == '__cxa_allocate_exception': self.bad('throws', 'an exception is thrown')
        if HANDLE_FN.match(n): return self.ffi(n, args)
        raise Give('external function ' + self.l.show(n))
    def ffi(self, n, a):
        if n == 'adv_acontext_new': return self.handle('ctx', ('ctx', self.nh + 1))
        if n == 'adv_acontext_free':
            h = self.release(a[0], 'ctx', n); return None
        if n == 'adv_adouble_free': self.release(a[0], 'ad', n); return None
        if n == 'adv_acontext_new_independent':
            h = self.use(a[0], 'ctx', n); k = len([e for e in self.events if e[0] == 'indep'])
            v = ('indep', h['val'], k); self.events.append(('indep', h['val'], v)); return self.handle('ad', v)
        if n == 'adv_acontext_set_dependent':
            h = self.use(a[0], 'ctx', n); v = self.use(a[1], 'ad', n)
            self.events.append(('dep', h['val'], v['val'])); return None
        if n == 'adv_adouble_default': return self.handle('ad', ('const', ZERO))
        if n == 'adv_adouble_from_value':
            if a[0] == UNDEF: self.bad('uninitialised', 'an uninitialised number is passed to ' + n)
            return self.handle('ad', ('const', a[0]))
        if n == 'adv_adouble_copy': return self.handle('ad', self.use(a[0], 'ad', n)['val'])
        m = re.fullmatch(r'adv_(?:op_)?(add|sub|mul|div|sin|cos|tan|abs|exp|ln|min|max)', n)
        if m:
            v = tuple(self.use(x, 'ad', n)['val'] for x in a[:-1])
            self.store(a[-1], 8, self.handle('ad', ('op', m.group(1)) + v)); return None
        raise Give('library function ' + n)
    def release(self, v, kind, n):
        if v == 0: self.bad('null', 'null is passed to ' + n)
        if isinstance(v, tuple) and v[0] == 'h' and not self.handles[v[1]]['live']: self.bad('double release', 'a handle is released a second time by ' + n)
        h = self.use(v, kind, n); h['live'] = False
