"""Front end: compiles /repo's current sources to LLVM IR with clang and loads the
resolved program (functions, CFG, instructions, struct layouts, tables) through
tools/irdump.  Nothing of the analysed code is executed."""
import glob, json, os, shutil, subprocess, sys, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang'
IRDUMP = os.path.join(HERE, 'bin', 'irdump')
INLINE_LIMIT = 160


class AnalysisError(Exception):
    """the check itself cannot give an answer (missing anchor, unparsable source...)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def pkgflags():
    out = []
    for p in ('glib-2.0', 'json-c', 'libdw', 'libelf', 'rpm', 'python3'):
        r = sh(['pkg-config', '--cflags', p])
        if r.returncode == 0:
            out += r.stdout.split()
    seen, res = set(), []
    for f in out:
        if f not in seen:
            seen.add(f)
            res.append(f)
    return res


def sources(repo=None):
    repo = repo or REPO
    libs = sorted(glob.glob(repo + '/lib/*.c'))
    py = sorted(glob.glob(repo + '/python/*.c'))
    top = [repo + '/satyr.c'] if os.path.exists(repo + '/satyr.c') else []
    if len(libs) < 30 or len(py) < 20:
        raise AnalysisError('source files of the repository not found (lib: %d, python: %d)' % (len(libs), len(py)))
    return libs, py, top


def compile_all(work, repo=None, groups=('lib', 'py', 'top')):
    repo = repo or REPO
    if not os.path.exists(IRDUMP):
        r = sh(['bash', os.path.join(HERE, 'tools', 'build.sh')])
        if not os.path.exists(IRDUMP):
            raise AnalysisError('cannot build irdump: ' + r.stderr)
    libs, py, top = sources(repo)
    gen = os.path.join(work, 'gen')
    os.makedirs(gen, exist_ok=True)
    # config.h: the build's own when present, else the committed copy of the same configuration
    cfg = os.path.join(repo, 'lib', 'config.h')
    if not os.path.exists(cfg):
        cfg = os.path.join(HERE, 'tools', 'config.h.fallback')
    shutil.copy(cfg, os.path.join(gen, 'config.h'))
    # generated source: gperf table, always regenerated from the current input
    gp = os.path.join(repo, 'lib', 'normalize_hash.gperf')
    if os.path.exists(gp):
        r = sh(['gperf', '--output-file=' + os.path.join(gen, 'normalize_hash.h'), gp])
        if r.returncode != 0:
            raise AnalysisError('gperf failed: ' + r.stderr)
    # internal headers include "config.h" from their own directory first: overlay dir
    flags = ['-std=gnu99', '-D_GNU_SOURCE', '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-g', '-fno-inline', '-D__GTK_DOC_IGNORE__',
             '-w', '-fno-discard-value-names', '-D__SATYR_ANALYSIS__', '-emit-llvm', '-c',
             '-I' + gen, '-I' + repo + '/include', '-I' + repo + '/lib'] + pkgflags()
    jobs = []
    for f in libs:
        if 'lib' in groups:
            jobs.append(('lib', f))
    for f in py:
        if 'py' in groups:
            jobs.append(('py', f))
    for f in top:
        if 'top' in groups:
            jobs.append(('top', f))

    def one(job):
        grp, f = job
        base = os.path.join(work, grp + '_' + os.path.basename(f)[:-2])
        extra = []
        if grp == 'py':
            extra = ['-I' + repo + '/python', '-DPY_SSIZE_T_CLEAN' if False else '-DVERIF_NOP']
        # quote-includes resolve next to the source first; the gperf output there may be stale
        src = f
        if os.path.basename(f) == 'normalize.c':
            src = os.path.join(gen, 'normalize.c')
            with open(src, 'w') as o:
                o.write('#line 1 "%s"\n' % f)
                o.write(open(f).read())
        r = sh([CLANG] + flags + extra + [src, '-o', base + '.bc'])
        if r.returncode != 0:
            return (f, None, None, r.stderr)
        r1 = sh([IRDUMP, base + '.bc', base + '.raw.json', '0'])
        r2 = sh([IRDUMP, base + '.bc', base + '.inl.json', str(INLINE_LIMIT)])
        if r1.returncode or r2.returncode:
            return (f, None, None, r1.stderr + r2.stderr)
        return (f, base + '.raw.json', base + '.inl.json', None)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for f, a, b, err in res:
        if err is not None:
            raise AnalysisError('cannot analyse %s: %s' % (f, err[:400]))
    return res


class Inst:
    __slots__ = ('i', 'op', 't', 'l', 'col', 'infn', 'infile', 'a', 'd', 'name', 'bb', 'idx', 'fn')

    def __init__(self, d, fn, bb, idx):
        self.i = d['i']
        self.op = d['op']
        self.t = d.get('t')
        self.l = d.get('l', 0)
        self.col = d.get('col', 0)
        self.infn = d.get('infn')
        self.infile = d.get('infile')
        self.a = d.get('a', [])
        self.name = d.get('name')
        self.d = d
        self.bb = bb
        self.idx = idx
        self.fn = fn

    @property
    def callee(self):
        c = self.d.get('callee')
        return c[1] if c and c[0] == 'f' else None

    def where(self):
        f = self.infile or self.fn.file
        return '%s:%d' % (short(f), self.l)

    def __repr__(self):
        return '<%s %%%d %s @%s>' % (self.op, self.i, self.callee or '', self.where())


def short(f):
    if not f:
        return '?'
    for r in (REPO + '/',):
        if f.startswith(r):
            return f[len(r):]
    return f


class Function:
    def __init__(self, d, mod):
        self.name = d['name']
        self.mod = mod
        self.decl = d['decl']
        self.internal = d['internal']
        self.file = d.get('file')
        self.line = d.get('line', 0)
        self.sig = d.get('sig')
        self.nargs = d['nargs']
        self.ret = d['ret']
        self.vararg = d['vararg']
        self.noreturn = d['noreturn']
        self.argnames = d.get('argnames', [])
        self.blocks = []
        self.insts = {}
        for b, blk in enumerate(d.get('blocks', [])):
            lst = []
            for k, x in enumerate(blk):
                ins = Inst(x, self, b, k)
                self.insts[ins.i] = ins
                lst.append(ins)
            self.blocks.append(lst)
        self._preds = None
        self._users = None

    def where(self):
        return '%s:%d' % (short(self.file), self.line)

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return t.d['succ']
        if t.op == 'switch':
            return [t.d['default']] + [c[1] for c in t.d['cases']]
        return []

    @property
    def preds(self):
        if self._preds is None:
            self._preds = [[] for _ in self.blocks]
            for b in range(len(self.blocks)):
                for s in self.succs(b):
                    self._preds[s].append(b)
        return self._preds

    def all(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self, *names):
        for i in self.all():
            if i.op == 'call' and (not names or i.callee in names):
                yield i

    @property
    def users(self):
        if self._users is None:
            self._users = {}
            for i in self.all():
                for o in operands(i):
                    if o[0] == 'v':
                        self._users.setdefault(o[1], []).append(i)
        return self._users

    def argtype(self, k):
        return self.sig[k + 1] if self.sig and len(self.sig) > k + 1 else None

    def rettype(self):
        return self.sig[0] if self.sig else None


def operands(i):
    for o in i.a:
        yield o
    if i.op == 'phi':
        for o, _ in i.d['in']:
            yield o
    if i.op == 'call':
        yield i.d['callee']
    if i.op == 'gep':
        for p in i.d['path']:
            if p[0] in ('p', 'i'):
                yield p[1]


class Module:
    def __init__(self, d, src):
        self.src = src
        self.structs = d['structs']
        self.enums = d['enums']
        self.globals = d['globals']
        self.functions = {}
        for fd in d['functions']:
            f = Function(fd, self)
            self.functions[f.name] = f


class Program:
    """all modules; functions resolved across modules"""

    def __init__(self, mods):
        self.mods = mods
        self.funcs = {}      # external-linkage definitions by name
        self.all_funcs = []
        self.structs = {}
        self.enums = {}
        self.globals = {}
        for m in mods:
            for n, s in m.structs.items():
                self.structs.setdefault(n, s)
            for n, e in m.enums.items():
                self.enums.setdefault(n, e)
            for n, g in m.globals.items():
                if not g['decl'] and not g['internal']:
                    self.globals[n] = g
            for f in m.functions.values():
                if f.decl:
                    continue
                self.all_funcs.append(f)
                if not f.internal:
                    self.funcs[f.name] = f

    def resolve(self, name, mod):
        f = mod.functions.get(name)
        if f is not None and not f.decl:
            return f
        return self.funcs.get(name)

    def global_(self, name, mod):
        g = mod.globals.get(name)
        if g is not None and not g['decl']:
            return g
        return self.globals.get(name)

    def field_type(self, struct, field):
        s = self.structs.get(struct)
        if not s:
            return None
        for m in s['members']:
            if m[0] == field:
                return m[3]
        return None


_CACHE = {}


def load(groups=('lib', 'py', 'top'), inline=False, repo=None):
    key = (groups, repo)
    if key not in _CACHE:
        work = tempfile.mkdtemp(prefix='verif_sa_')
        try:
            res = compile_all(work, repo, groups)
            raw, inl = [], []
            for f, a, b, _ in res:
                raw.append(Module(json.load(open(a)), f))
                inl.append(Module(json.load(open(b)), f))
            _CACHE[key] = (Program(raw), Program(inl))
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return _CACHE[key][1 if inline else 0]
