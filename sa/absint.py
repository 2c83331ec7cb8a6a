"""Abstract interpreter over shapes, presence, provenance and ownership.

An API operation is interpreted on the current IR for a finite partition of abstract inputs
(which fields are present, how many list elements, which type a JSON value has).  Field
contents are opaque tokens; text is a sequence of literal characters and tokens; a heap
object carries a typestate (live / released).  A condition that is not determined by the
abstract values is followed both ways.  Nothing of /repo is executed."""
import re
from .frontend import AnalysisError

NULL = ('c', 0)
TOP = ('top',)
PLAIN_CLASS = 'abcdefghijklmnopqrstuvwxyz'


class Undecided(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'b', 'k', 'env', 'prev', 'ret', 'va', 'u')
    count = 0

    def __init__(self, fn, args, ret, va=None):
        self.fn = fn
        self.b = 0
        self.k = 0
        self.env = dict(enumerate(args))
        self.prev = None
        self.ret = ret
        self.va = va or []
        Frame.count += 1
        self.u = Frame.count

    def uid(self):
        return self.u

    def copy(self):
        f = Frame.__new__(Frame)
        f.u = self.u
        f.fn, f.b, f.k, f.prev, f.ret, f.va = self.fn, self.b, self.k, self.prev, self.ret, self.va
        f.env = dict(self.env)
        return f


class State:
    __slots__ = ('frames', 'h', 'objs', 'dec', 'ev', 'n', 'va', 'log', 'back', 'forks', 'snap')

    def __init__(self):
        self.frames = []
        self.h = {}          # (oid, path) -> value ; (oid,'$') -> text content
        self.objs = {}       # oid -> dict(st, site, kind)
        self.dec = {}
        self.ev = []         # events
        self.n = 0
        self.va = {}
        self.log = []
        self.back = 0        # backward jumps taken
        self.forks = 0       # undetermined decisions taken
        self.snap = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.h = dict(self.h)
        s.objs = dict(self.objs)
        s.dec = dict(self.dec)
        s.ev = list(self.ev)
        s.n = self.n
        s.va = dict(self.va)
        s.log = list(self.log)
        s.back, s.forks, s.snap = self.back, self.forks, self.snap
        return s


class Fork(Exception):
    """raised by a transfer function: list of functions(state) to apply"""

    def __init__(self, alts):
        self.alts = alts


class Die(Exception):
    pass


class Repeat(Exception):
    pass


def lit(s):
    return tuple(ord(c) for c in s)


class AbsInt:
    def __init__(self, prog, maxsteps=400000, maxstates=4000, maxresults=4000):
        self.prog = prog
        self.maxsteps = maxsteps
        self.maxstates = maxstates
        self.maxresults = maxresults
        self.rel = {}
        self.hooks = {}
        self.onread = None
        self.steps = 0
        self.visited = set()
        self.nullable_alloc = False
        self.generic = True      # a numeric token stands for a value different from every constant
        self.cmps = set()        # what opaque values were compared with: refines the partition of the inputs
        self.toksize = {}
        self.toksigned = {}

    # ------------------------------------------------------------------ objects
    def new(self, s, kind, site, st='live', zero=False):
        s.n += 1
        oid = ('o', s.n)
        s.objs[oid] = dict(st=st, site=site, kind=kind, zero=zero)
        return oid

    def newstr(self, s, content, site, kind='mem', st='live'):
        oid = self.new(s, kind, site, st)
        s.h[(oid, '$')] = tuple(content)
        return ('p', oid, ())

    def named(self, s, name, st='input', kind='mem'):
        oid = ('n', name)
        s.objs[oid] = dict(st=st, site=name, kind=kind, zero=False)
        return oid

    def setf(self, s, oid, path, v):
        s.h[(oid, tuple(path) if not isinstance(path, str) else (path,))] = v

    def token_str(self, s, name, tok, st='input'):
        oid = self.named(s, name, st)
        s.h[(oid, '$')] = (tok,)
        return ('p', oid, ())

    # ------------------------------------------------------------------ running
    def run(self, fn, args, s0):
        s = s0
        s.frames = [Frame(fn, args, None)]
        work = [s]
        res = []
        self.steps = 0
        ns = 0
        while work:
            s = work.pop()
            try:
                while True:
                    fr = s.frames[-1]
                    i = fr.fn.blocks[fr.b][fr.k]
                    self.steps += 1
                    if self.steps > self.maxsteps:
                        raise Undecided('steps')
                    r = self.step(s, fr, i)
                    if r is not None:
                        if r[0] == 'fork':
                            alts = r[1]
                            ns += len(alts) - 1
                            if len(alts) > 1:
                                s.forks += 1
                            if ns > self.maxstates:
                                raise Undecided('states')
                            for a in alts[1:]:
                                c = s.copy()
                                try:
                                    a(c)
                                except Die:
                                    continue
                                except Repeat as e:
                                    res.append(('loop', str(e), c))
                                    continue
                                work.append(c)
                            alts[0](s)
                        elif r[0] == 'done':
                            res.append(('ret', r[1], s))
                            if len(res) > self.maxresults:
                                raise Undecided('results')
                            break
                        elif r[0] == 'die':
                            res.append((r[1], r[2], s))
                            break
            except Die:
                pass
            except Repeat as e:
                res.append(('loop', str(e), s))
        return res

    def event(self, s, kind, where, msg):
        e = (kind, where, msg)
        if e not in s.ev:
            s.ev.append(e)

    def opv(self, s, fr, o):
        k = o[0]
        if k == 'v':
            return fr.env.get(o[1], TOP)
        if k == 'c':
            return ('c', o[1])
        if k == 'n':
            return NULL
        if k == 's':
            return ('p', ('lit', o[1]), ())
        if k == 'f':
            return self.fnval(o[1], fr.fn.mod)
        if k == 'g':
            return ('p', ('g', self.gkey(fr.fn, o[1])), ())
        if k == 'ce':
            return self.gep(s, fr, self.opv(s, fr, o[1]), o[2])
        if k == 'u':
            return ('undef', 'value')
        return TOP

    def fnval(self, name, mod):
        f = mod.functions.get(name) if mod is not None else None
        if f is not None and not f.decl and f.internal:
            return ('fn', name, mod.src)
        return ('fn', name, '')

    def fnin(self, name, src):
        if src:
            for m in self.prog.mods:
                if m.src == src:
                    return m.functions.get(name)
        return self.prog.funcs.get(name)

    def gkey(self, fn, name):
        g = fn.mod.globals.get(name)
        if g is not None and g['internal']:
            return (name, fn.mod.src)
        return (name, '')

    def ginit(self, key):
        name, src = key
        if src:
            for m in self.prog.mods:
                if m.src == src:
                    return m.globals.get(name), m
        for m in self.prog.mods:
            g = m.globals.get(name)
            if g is not None and not g['decl'] and not g['internal']:
                return g, m
        return None, None

    def gep(self, s, fr, b, path):
        if b[0] != 'p':
            if b == NULL:
                return ('nullp',)
            return TOP if b[0] != 'undef' else b
        p = list(b[2])
        for e in path:
            if e[0] == 'f':
                if not p and b[1] in s.objs and 'struct' not in s.objs[b[1]]:
                    s.objs[b[1]] = dict(s.objs[b[1]], struct=e[1])
                p.append(e[2])
            elif e[0] in ('i', 'p'):
                v = self.opv(s, fr, e[1])
                if v[0] != 'c':
                    return TOP
                if e[0] == 'p':
                    if v[1] == 0:
                        continue
                    if e[2] == 1 and not p:
                        f = self.byoffset(s, b[1], v[1])
                        if f is not None:
                            p.append(f)
                            continue
                    if p and isinstance(p[-1], int):
                        p[-1] += v[1]
                    else:
                        p.append(v[1])
                    if p[-1] == 0:
                        p.pop()
                else:
                    if v[1] != 0:
                        p.append(v[1])
                    elif path[-1] is not e:
                        p.append(0)
        if p and p[-1] == 0:
            p.pop()
        return ('p', b[1], tuple(p))

    def byoffset(self, s, oid, off):
        o = s.objs.get(oid)
        st = self.prog.structs.get(o['struct']) if o and 'struct' in o else None
        if st:
            for m in st['members']:
                if m[1] == off * 8:
                    return m[0]
        return None

    def npath(self, path):
        p = list(path)
        while p and p[-1] == 0:
            p.pop()
        return tuple(p)

    # ------------------------------------------------------------------ memory
    def check_live(self, s, p, i, what='used'):
        o = s.objs.get(p[1])
        if o is not None and o['st'] == 'freed':
            self.event(s, 'uaf', i.where(), '%s is %s after it was released' % (self.name(s, p[1]), what))
            return False
        return True

    def name(self, s, oid):
        if oid[0] == 'n':
            return oid[1]
        o = s.objs.get(oid)
        if o:
            return 'memory from %s' % o['site']
        return str(oid[1])

    def content(self, s, p, i):
        """text a char pointer refers to, or None"""
        if p[0] != 'p':
            return None
        oid = p[1]
        if oid[0] == 'lit':
            c = lit(oid[1]) if isinstance(oid[1], str) else oid[1]
        else:
            c = s.h.get((oid, '$'))
            if c is None:
                return None
        if p[2]:
            if len(p[2]) != 1 or not isinstance(p[2][0], int):
                return None
            c = c[p[2][0]:]
        if 0 in c:
            c = c[:c.index(0)]
        return c

    def load(self, s, p, i, ty):
        if p[0] != 'p':
            return TOP
        oid, path = p[1], p[2]
        self.check_live(s, p, i)
        if oid[0] == 'lit' or ((oid, '$') in s.h and ty == 'i8' and (not path or isinstance(path[-1], int) and len(path) == 1)):
            c = (lit(oid[1]) if isinstance(oid[1], str) else oid[1]) if oid[0] == 'lit' else s.h[(oid, '$')]
            k = path[0] if path else 0
            if k < len(c):
                e = c[k]
                if isinstance(e, int):
                    return ('c', e if e < 128 else e - 256)
                if e[0] == 'top':
                    return TOP
                return ('chr', e)
            if k == len(c):
                return ('c', 0)
            self.event(s, 'oob', i.where(), 'text read beyond its end')
            return TOP
        key = (oid, self.npath(path))
        if key in s.h:
            return s.h[key]
        if oid[0] in ('lh', 'le'):
            return self.lhload(oid, path)
        if oid[0] == 'g':
            return self.gload(s, oid, path)
        o = s.objs.get(oid)
        if o is None:
            return TOP
        if o.get('zero'):
            return NULL
        if o['kind'] in ('mem', 'al') and o['st'] == 'live' and o.get('wild') is None:
            # a whole-value load from an aggregate written as text?
            return ('undef', '%s%s' % (self.name(s, oid), ''.join('->' + str(x) for x in path)))
        return TOP

    def gload(self, s, oid, path):
        g, m = self.ginit(oid[1])
        if g is None:
            return TOP
        v = g.get('init')
        for e in path:
            while isinstance(e, str) and isinstance(v, list) and v and isinstance(v[0], (list, dict)):
                v = v[0]
            if isinstance(v, dict) and 'fields' in v:
                v = v['fields'].get(e) if isinstance(e, str) else (v if e == 0 else None)
            elif isinstance(v, list) and v and isinstance(v[0], (list, dict)):
                v = v[e] if isinstance(e, int) and e < len(v) else None
            elif e == 0:
                continue
            else:
                v = None
            if v is None:
                return TOP
        # reading the first field/element through the object pointer
        while True:
            if isinstance(v, dict) and v.get('fields'):
                v = next(iter(v['fields'].values()))
            elif isinstance(v, list) and v and isinstance(v[0], (list, dict)):
                v = v[0]
            else:
                break
        if not isinstance(v, list):
            return TOP
        if v[0] == 'c':
            return ('c', v[1])
        if v[0] == 'n':
            return NULL
        if v[0] == 'f':
            return self.fnval(v[1], m)
        if v[0] == 's':
            return ('p', ('lit', v[1]), ())
        if v[0] == 'g':
            k = (v[1], '')
            if m is not None and v[1] in m.globals and m.globals[v[1]]['internal']:
                k = (v[1], m.src)
            return ('p', ('g', k), ())
        if v[0] == 'ce':
            return TOP
        return TOP

    def store(self, s, p, v, i, ty=None):
        if p[0] != 'p':
            return
        oid, path = p[1], p[2]
        self.check_live(s, p, i, 'written')
        if oid[0] == 'lit':
            self.event(s, 'constwrite', i.where(), 'a string literal is modified')
            return
        o = s.objs.get(oid)
        if ty == 'i8' and o is not None and ((oid, '$') in s.h or o['kind'] == 'mem' and not any(isinstance(x, str) for x in path) and o.get('chars')):
            c = list(s.h.get((oid, '$'), ()))
            k = path[0] if path else 0
            if not isinstance(k, int):
                return
            e = v[1] if v[0] == 'c' else v[1] if v[0] == 'chr' else ('top',)
            if k < len(c):
                c[k] = e
            elif k == len(c):
                if e != 0:
                    c.append(e)
            else:
                c = c + [('top',)]
            if e == 0 and k < len(c):
                c = c[:k]
            s.h[(oid, '$')] = tuple(c)
            if o['st'] == 'input':
                s.log.append((oid, path, i.where()))
            return
        s.h[(oid, self.npath(path))] = v
        if oid[0] in ('n', 'g') or o is not None and o['st'] == 'input':
            s.log.append((oid, path, i.where()))

    def copymem(self, s, d, src, i):
        if d[0] != 'p' or src[0] != 'p':
            return
        self.check_live(s, src, i)
        self.check_live(s, d, i, 'written')
        doid, dp, soid, sp = d[1], self.npath(d[2]), src[1], self.npath(src[2])
        if soid[0] == 'g' and (soid, sp) not in s.h:
            g, m = self.ginit(soid[1])
            v = g.get('init') if g else None
            self.fillinit(s, doid, dp, v, m)
            return
        so = s.objs.get(soid)
        items = [(k[1], v) for k, v in s.h.items() if k[0] == soid]
        for path, v in items:
            if path == '$':
                if not dp and not sp:
                    s.h[(doid, '$')] = v
            elif path[:len(sp)] == sp:
                s.h[(doid, dp + path[len(sp):])] = v
        do = s.objs.get(doid)
        if do is not None:
            s.objs[doid] = dict(do, zero=do['zero'] or bool(so and so.get('zero')))

    def fillinit(self, s, oid, path, v, m):
        if isinstance(v, dict):
            for k, x in v.get('fields', {}).items():
                self.fillinit(s, oid, path + (k,), x, m)
            return
        if isinstance(v, list) and v and isinstance(v[0], (list, dict)):
            for k, x in enumerate(v):
                self.fillinit(s, oid, path + (k,), x, m)
            return
        if isinstance(v, list) and v:
            if v[0] == 'c':
                s.h[(oid, self.npath(path))] = ('c', v[1])
            elif v[0] == 'n':
                s.h[(oid, self.npath(path))] = NULL
            elif v[0] == 's':
                s.h[(oid, self.npath(path))] = ('p', ('lit', v[1]), ())
            elif v[0] == 'f':
                s.h[(oid, self.npath(path))] = self.fnval(v[1], m)

    def free(self, s, v, i, kinds=('mem',)):
        if v == NULL:
            return
        if v[0] == 'undef':
            self.event(s, 'uninit', i.where(), 'uninitialised %s is released' % v[1])
            return
        if v[0] != 'p':
            return
        oid = v[1]
        if oid[0] == 'lit' or oid[0] == 'g':
            self.event(s, 'badfree', i.where(), 'static memory (%s) is released' % (repr(oid[1])[:40],))
            return
        o = s.objs.get(oid)
        if o is None:
            return
        if self.npath(v[2]):
            self.event(s, 'badfree', i.where(), 'a pointer into %s is released' % self.name(s, oid))
            return
        if o['st'] == 'freed':
            self.event(s, 'dfree', i.where(), '%s is released twice' % self.name(s, oid))
            return
        if o['kind'] == 'al':
            self.event(s, 'badfree', i.where(), 'a local variable is released')
            return
        s.objs[oid] = dict(o, st='freed', freed_at=i.where(), was=o['st'])
        if o['st'] == 'input':
            s.log.append((oid, 'free', i.where()))

    # ------------------------------------------------------------------ conditions
    def tk(self, e):
        return e

    def order(self, x, y):
        if x[0] == 't' and y[0] == 't':
            if x[1:] == y[1:]:
                return '='
            if x[1] == y[1]:
                r = self.rel.get(x[1], '=')
                if x[2] == 1 and y[2] == 0:
                    r = {'<': '>', '>': '<', '=': '='}[r]
                return r
            if self.generic:
                self.cmps.add(('e', x[1], y[1]))
                return '#'
        if x[0] == 'c' and y[0] == 'c':
            return '<' if x[1] < y[1] else '>' if x[1] > y[1] else '='
        return None

    @staticmethod
    def signs(x):
        if x[0] == 'c':
            return frozenset([(x[1] > 0) - (x[1] < 0)])
        if x[0] == 'sg':
            return x[1]
        return None

    def icmp(self, s, pred, x, y, bits, i):
        tab = {'eq': '=', 'ne': '<>', 'slt': '<', 'ult': '<', 'sgt': '>', 'ugt': '>', 'sle': '<=', 'ule': '<=', 'sge': '>=', 'uge': '>='}[pred]

        def by(rs):
            r = {x in tab for x in rs}
            return ('c', int(r.pop())) if len(r) == 1 else TOP
        if x[0] == 'c' and y[0] == 'c':
            a, b = x[1], y[1]
            if pred[0] == 'u':
                m = (1 << bits) - 1
                a, b = a & m, b & m
            return by(['<' if a < b else '>' if a > b else '='])
        for v in (x, y):
            if v[0] == 'undef':
                self.event(s, 'uninit', i.where(), 'a decision depends on uninitialised %s' % v[1])
        r = self.order(x, y)
        if r == '#':
            return ('c', int(pred == 'ne')) if pred in ('eq', 'ne') else TOP
        if r is not None:
            return by([r])
        ptr = ('p', 'fn')
        if x[0] in ptr and y == NULL or y[0] in ptr and x == NULL:
            return by('>' if x[0] in ptr else '<') if pred in ('eq', 'ne', 'ugt', 'ult') else TOP
        if x[0] in ptr and y[0] in ptr:
            if x[0] == 'p' and y[0] == 'p' and x[1] == y[1]:
                a, b = self.npath(x[2]), self.npath(y[2])
                if a == b:
                    return by('=')
                ia = a[0] if len(a) == 1 and isinstance(a[0], int) else 0 if not a else None
                ib = b[0] if len(b) == 1 and isinstance(b[0], int) else 0 if not b else None
                if ia is not None and ib is not None:
                    return by(['<' if ia < ib else '>'])
            if pred in ('eq', 'ne'):
                return by(['=' if x == y else '<'])
            return TOP
        if x[0] == 'chr' and y[0] == 'c':
            # an ordinary letter: differs from every literal character, is not a control
            self.cmpchr(x, y[1])
            if pred in ('eq', 'ne'):
                return ('c', int(pred == 'ne'))
            return by(['>' if y[1] <= 64 else '<'])
        if y[0] == 'chr' and x[0] == 'c':
            self.cmpchr(y, x[1])
            if pred in ('eq', 'ne'):
                return ('c', int(pred == 'ne'))
            return by(['<' if x[1] <= 64 else '>'])
        sx, sy = self.signs(x), self.signs(y)
        if sx is not None and y == NULL:
            return by([{-1: '<', 0: '=', 1: '>'}[q] for q in sx])
        if sy is not None and x == NULL:
            return by([{-1: '>', 0: '=', 1: '<'}[q] for q in sy])
        if x[0] == 't' and y[0] == 'c' or y[0] == 't' and x[0] == 'c':
            t, c = (x, y) if x[0] == 't' else (y, x)
            sides = t[1:3] if self.rel.get(t[1], '=') != '=' else (t[1], 0)
            known = self.tokval(t)
            if known is not None:
                return self.icmp(s, pred, ('c', known) if x[0] == 't' else x, ('c', known) if y[0] == 't' else y, bits, i)
            if self.generic:
                self.cmps.add(('n', t[1], c[1]))
                if pred in ('eq', 'ne'):
                    return ('c', int(pred == 'ne'))
                cv = c[1] & ((1 << bits) - 1) if pred[0] == 'u' else c[1]
                small = cv < (1 << (min(bits, self.tokbits(t)) - 2))
                r = '>' if small else '<'
                if x[0] != 't':
                    r = '<' if r == '>' else '>'
                return by([r])
            if pred in ('eq', 'ne'):
                return ('dec', ('eqc', sides, c[1]), pred == 'eq')
            return ('dec', (pred, x[0] == 't', sides, c[1]), True)
        return TOP

    def cmpchr(self, x, n):
        if isinstance(x[1], tuple) and x[1][0] == 'tok':
            self.cmps.add(('c', x[1][1], n & 255))

    def tokval(self, t):
        return None

    def truth(self, s, c, i):
        """list of (bool, decision or None)"""
        if c[0] == 'c':
            return [(c[1] != 0, None)]
        if c[0] == 'sg':
            r = []
            if c[1] - {0}:
                r.append((True, None))
            if 0 in c[1]:
                r.append((False, None))
            return r
        if c[0] == 'dec':
            if c[1] in s.dec:
                return [(s.dec[c[1]] == c[2], None)]
            return [(True, (c[1], c[2])), (False, (c[1], not c[2]))]
        if c[0] == 't' and self.generic:
            self.cmps.add(('n', c[1], 0))
            return [(True, None)]
        if c[0] == 't':
            k = ('nz', c[1:3] if self.rel.get(c[1], '=') != '=' else (c[1], 0))
            if k in s.dec:
                return [(s.dec[k], None)]
            return [(True, (k, True)), (False, (k, False))]
        if c[0] in ('p', 'fn', 'chr'):
            return [(True, None)]
        if c[0] == 'undef':
            self.event(s, 'uninit', i.where(), 'a decision depends on uninitialised %s' % c[1])
        return [(True, None), (False, None)]

    # ------------------------------------------------------------------ transfer
    def repeats(self, s, fr, b):
        """whether a jump backwards arrives at a state already seen, with no undetermined decision in between"""
        sig = (len(s.frames), fr.fn.name, b, s.forks)
        if s.snap is not None and s.snap[0] == sig and s.snap[1] == fr.env and s.snap[2] == s.h and s.snap[3] == [f.env for f in s.frames[:-1]]:
            return True
        n = s.back
        if n & (n - 1) == 0 or s.snap is None or s.snap[0][3] != s.forks:
            s.snap = (sig, dict(fr.env), dict(s.h), [dict(f.env) for f in s.frames[:-1]])
        return False

    def goto(self, s, fr, b):
        if b <= fr.b:
            s.back += 1
            if s.back > 24 and self.repeats(s, fr, b):
                raise Repeat(next((x.where() for x in fr.fn.blocks[b] if not x.where().endswith(':0')), fr.fn.where()))
        fr.prev = fr.b
        fr.b = b
        fr.k = 0
        blk = fr.fn.blocks[b]
        new = {}
        k = 0
        while k < len(blk) and blk[k].op == 'phi':
            for o, pb in blk[k].d['in']:
                if pb == fr.prev:
                    new[blk[k].i] = self.opv(s, fr, o)
                    break
            k += 1
        fr.env.update(new)
        fr.k = k

    def bits(self, t):
        if t and t[0] == 'i' and t[1:].isdigit():
            return int(t[1:])
        return 64

    def wrap(self, n, bits):
        if bits == 1:
            return n & 1
        n &= (1 << bits) - 1
        return n - (1 << bits) if n >> (bits - 1) else n

    def step(self, s, fr, i):
        op = i.op
        if op == 'load':
            p = self.opv(s, fr, i.a[0])
            if p == NULL or p[0] == 'nullp':
                return ('die', 'null', i.where())
            if p[0] == 'undef':
                self.event(s, 'uninit', i.where(), 'uninitialised pointer %s is followed' % p[1])
                return ('die', 'undef', i.where())
            fr.env[i.i] = self.load(s, p, i, i.t)
        elif op == 'store':
            p = self.opv(s, fr, i.a[1])
            if p == NULL or p[0] == 'nullp':
                return ('die', 'null', i.where())
            v = self.opv(s, fr, i.a[0])
            self.store(s, p, v, i, i.d.get('ot') or self.opty(i))
        elif op == 'gep':
            b = self.opv(s, fr, i.a[0])
            fr.env[i.i] = self.gep(s, fr, b, i.d['path'])
        elif op == 'br':
            su = i.d['succ']
            if len(su) == 1:
                self.goto(s, fr, su[0])
                return None
            c = self.opv(s, fr, i.a[0])
            return self.branch(s, [(su[0] if tv else su[1], d) for tv, d in self.truth(s, c, i)])
        elif op == 'switch':
            c = self.opv(s, fr, i.a[0])
            if c[0] == 'c':
                dst = i.d['default']
                for v, b in i.d['cases']:
                    if v == c[1]:
                        dst = b
                self.goto(s, fr, dst)
                return None
            if c[0] == 'chr':
                for v, b in i.d['cases']:
                    self.cmpchr(c, v)
                self.goto(s, fr, i.d['default'])
                return None
            if c[0] == 't' and self.generic:
                for v, b in i.d['cases']:
                    self.cmps.add(('n', c[1], v))
                self.goto(s, fr, i.d['default'])
                return None
            if c[0] == 't':
                sides = c[1:3] if self.rel.get(c[1], '=') != '=' else (c[1], 0)
                alts = []
                for v, b in i.d['cases']:
                    k = ('eqc', sides, v)
                    if s.dec.get(k) is True:
                        self.goto(s, fr, b)
                        return None
                    if s.dec.get(k) is None:
                        alts.append((b, (k, True)))
                alts.append((i.d['default'], None))
                return self.branch(s, alts)
            return self.branch(s, [(b, None) for b in sorted(set([i.d['default']] + [x[1] for x in i.d['cases']]))])
        elif op == 'ret':
            v = self.opv(s, fr, i.a[0]) if i.a else None
            s.frames.pop()
            if not s.frames:
                return ('done', v)
            top = s.frames[-1]
            if fr.ret is not None and v is not None:
                top.env[fr.ret] = v
            self.on_return(s, fr, v)
            return None
        elif op == 'call':
            return self.call(s, fr, i)
        elif op == 'icmp':
            x, y = self.opv(s, fr, i.a[0]), self.opv(s, fr, i.a[1])
            fr.env[i.i] = self.icmp(s, i.d['pred'], x, y, self.bits(i.d.get('ot')), i)
        elif op == 'cast':
            fr.env[i.i] = self.cast(s, i, self.opv(s, fr, i.a[0]))
        elif op == 'bin':
            fr.env[i.i] = self.bin(s, i, self.opv(s, fr, i.a[0]), self.opv(s, fr, i.a[1]))
        elif op == 'select':
            c = self.opv(s, fr, i.a[0])
            alts = []
            for tv, d in self.truth(s, c, i):
                v = self.opv(s, fr, i.a[1] if tv else i.a[2])

                def go(st, v=v, d=d, iid=i.i):
                    st.frames[-1].env[iid] = v
                    st.frames[-1].k += 1
                    if d:
                        self.setdec(st, d)
                alts.append(go)
            return ('fork', alts)
        elif op == 'alloca':
            oid = self.new(s, 'al', i.where())
            fr.env[i.i] = ('p', oid, ())
        elif op == 'unreachable':
            return ('die', 'abort', i.where())
        elif op == 'freeze':
            fr.env[i.i] = self.opv(s, fr, i.a[0])
        elif op == 'phi':
            pass
        else:
            fr.env[i.i] = TOP
        fr.k += 1
        return None

    def opty(self, i):
        return i.d.get('vt')

    def on_return(self, s, fr, v):
        pass

    def setdec(self, st, d):
        st.dec[d[0]] = d[1]

    def branch(self, s, alts):
        fns = []
        for b, d in alts:
            def go(st, b=b, d=d):
                if d:
                    self.setdec(st, d)
                self.goto(st, st.frames[-1], b)
            fns.append(go)
        return ('fork', fns)

    def cast(self, s, i, v):
        k = i.d['kind']
        if v[0] == 'c':
            if k == 'trunc':
                return ('c', self.wrap(v[1], self.bits(i.t)))
            if k == 'zext':
                return ('c', v[1] & ((1 << self.bits(i.d['ot'])) - 1))
            if k in ('sext', 'inttoptr', 'ptrtoint', 'bitcast'):
                return v
            return TOP
        if v[0] == 'sg':
            if k == 'trunc' and i.t != 'i1':
                return v if not (v[1] - {0}) else ('sg', frozenset([-1, 0, 1]))
            if k == 'trunc':
                return TOP
            return v
        if v[0] == 't':
            if k == 'trunc' and i.t == 'i1':
                return v
            if k == 'trunc':
                return ('t', v[1], v[2], 'trunc%d' % self.bits(i.t)) if v[3] in ('int', 'i64', 'i32') and self.bits(i.t) < self.tokbits(v) else v
            if k in ('sext', 'zext', 'inttoptr', 'ptrtoint'):
                return v
            return TOP if k not in ('sitofp', 'uitofp') else TOP
        if v[0] in ('chr', 'p', 'fn', 'undef', 'dec', 'nullp'):
            return v
        return TOP

    def tokbits(self, v):
        return self.toksize.get(v[1], 64)

    def bin(self, s, i, x, y):
        k = i.d['kind']
        if x[0] == 'c' and y[0] == 'c':
            a, b = x[1], y[1]
            n = self.bits(i.t)
            m = (1 << n) - 1
            try:
                if k == 'add':
                    r = a + b
                elif k == 'sub':
                    r = a - b
                elif k == 'mul':
                    r = a * b
                elif k == 'and':
                    r = a & b
                elif k == 'or':
                    r = a | b
                elif k == 'xor':
                    r = a ^ b
                elif k == 'shl':
                    r = a << (b & 63)
                elif k == 'lshr':
                    r = (a & m) >> (b & 63)
                elif k == 'ashr':
                    r = a >> (b & 63)
                elif k == 'udiv':
                    r = (a & m) // (b & m)
                elif k == 'urem':
                    r = (a & m) % (b & m)
                elif k == 'sdiv':
                    r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                elif k == 'srem':
                    r = abs(a) % abs(b) * (1 if a >= 0 else -1)
                else:
                    return TOP
            except ZeroDivisionError:
                return TOP
            return ('c', self.wrap(r, n))
        if k in ('add', 'or', 'sub') and y == NULL:
            return x
        if k == 'sub':
            r = self.order(x, y)
            if r == '#':
                return ('sg', frozenset([-1, 1]))
            if r is not None:
                return ('sg', frozenset([{'<': -1, '=': 0, '>': 1}[r]]))
            if x[0] == 'p' and y[0] == 'p' and x[1] == y[1]:
                a, b = self.npath(x[2]), self.npath(y[2])
                ia = a[0] if len(a) == 1 and isinstance(a[0], int) else 0 if not a else None
                ib = b[0] if len(b) == 1 and isinstance(b[0], int) else 0 if not b else None
                if ia is not None and ib is not None:
                    return ('c', ia - ib)
        if k == 'xor' and i.t == 'i1' and y[0] == 'c':
            if x[0] == 'dec':
                return ('dec', x[1], not x[2])
        for v in (x, y):
            if v[0] == 'undef':
                return v
        return TOP

    # ------------------------------------------------------------------ calls
    def newframe(self, t, args, ret):
        return Frame(t, args[:t.nargs], ret)

    def call(self, s, fr, i):
        name = i.callee
        where = None
        if name is None:
            c = self.opv(s, fr, i.d['callee'])
            if c[0] == 'fn':
                name = c[1]
                where = c[2]
            elif c == NULL:
                return ('die', 'null', i.where())
            else:
                fr.env[i.i] = TOP
                fr.k += 1
                return None
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.stack'):
            fr.k += 1
            return None
        args = [self.opv(s, fr, o) for o in i.a]
        h = self.hooks.get(name)
        if h is not None:
            r = h(s, fr, i, args)
            if r is not NotImplemented:
                return self.finish(s, fr, i, r)
        t = self.prog.resolve(name, fr.fn.mod) if where is None else self.fnin(name, where)
        if t is not None:
            if len(s.frames) > 60:
                raise Undecided('depth')
            self.visited.add(t.name)
            if len(args) < t.nargs:
                self.event(s, 'uninit', i.where(), '%s is called with %d of its %d arguments' % (t.name, len(args), t.nargs))
            fr.k += 1
            s.frames.append(Frame(t, args[:t.nargs], i.i, args[t.nargs:]))
            return None
        e = getattr(self, 'x_' + name.replace('.', '_'), None)
        if e is None:
            for pre in ('llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'llvm.va_', 'llvm.abs'):
                if name.startswith(pre):
                    e = getattr(self, 'x_' + pre.replace('.', '_'))
        if e is None:
            r = self.unknown(s, fr, i, name, args)
        else:
            r = e(s, fr, i, args)
        return self.finish(s, fr, i, r)

    def finish(self, s, fr, i, r):
        if isinstance(r, tuple) and r and r[0] in ('die', 'fork*'):
            if r[0] == 'die':
                return r
            alts = []
            for a in r[1]:
                def go(st, a=a):
                    v = a(st)
                    if v is not None:
                        st.frames[-1].env[i.i] = v
                    st.frames[-1].k += 1
                alts.append(go)
            return ('fork', alts)
        if r is not None:
            fr.env[i.i] = r
        fr.k += 1
        return None

    def unknown(self, s, fr, i, name, args):
        return TOP

    # --- memory
    def x_g_malloc(self, s, fr, i, a):
        if a and a[0] == NULL or len(a) > 1 and a[1] == NULL:
            return NULL
        return ('p', self.new(s, 'mem', i.where()), ())
    x_g_malloc_n = x_malloc = x_g_try_malloc = x_g_malloc

    def x_g_malloc0(self, s, fr, i, a):
        return ('p', self.new(s, 'mem', i.where(), zero=True), ())
    x_g_malloc0_n = x_calloc = x_g_malloc0

    def x_g_realloc(self, s, fr, i, a):
        p = a[0]
        n = self.new(s, 'mem', i.where())
        if p[0] == 'p':
            for k, v in [(k, v) for k, v in s.h.items() if k[0] == p[1]]:
                s.h[(n, k[1])] = v
            self.free(s, p, i)
        return ('p', n, ())
    x_g_realloc_n = x_g_realloc

    def x_g_free(self, s, fr, i, a):
        self.free(s, a[0], i)
    x_free = x_g_free

    def x_g_strfreev(self, s, fr, i, a):
        p = a[0]
        if p[0] == 'p':
            for k in range(50):
                v = self.load(s, ('p', p[1], (k,) if k else ()), i, 'ptr')
                if v == NULL or v[0] != 'p':
                    if v[0] == 'undef':
                        self.event(s, 'uninit', i.where(), 'a string array is released without terminating NULL')
                    break
                self.free(s, v, i)
            self.free(s, p, i)

    def x_g_strdupv(self, s, fr, i, a):
        p = a[0]
        if p == NULL:
            return NULL
        if p[0] != 'p':
            return TOP
        n = self.new(s, 'mem', i.where())
        for k in range(50):
            v = self.load(s, ('p', p[1], (k,) if k else ()), i, 'ptr')
            if v == NULL or v[0] != 'p':
                s.h[(n, (k,) if k else ())] = NULL
                break
            s.h[(n, (k,) if k else ())] = self.dupstr(s, v, i)
        return ('p', n, ())

    def dupstr(self, s, v, i):
        c = self.content(s, v, i)
        self.check_live(s, v, i)
        return self.newstr(s, c if c is not None else (('top',),), i.where())

    def x_g_strdup(self, s, fr, i, a):
        if a[0] == NULL:
            return NULL
        if a[0][0] == 'undef':
            self.event(s, 'uninit', i.where(), 'uninitialised %s is copied' % a[0][1])
            return TOP
        if a[0][0] == 'nullp':
            return ('die', 'null', i.where())
        if a[0] == TOP:
            # unknown text, maybe absent
            return ('fork*', [lambda st: self.newstr(st, (('top',),), i.where()), lambda st: NULL])
        return self.dupstr(s, a[0], i)

    def x_strdup(self, s, fr, i, a):
        if a[0] == NULL:
            return ('die', 'null', i.where())
        return self.x_g_strdup(s, fr, i, a)

    def x_g_strndup(self, s, fr, i, a):
        if a[0] == NULL:
            return NULL
        c = self.content(s, a[0], i)
        if c is None or a[1][0] != 'c':
            return self.newstr(s, (('top',),), i.where())
        return self.newstr(s, c[:a[1][1] & 0xffffffffffffffff], i.where())

    def x_llvm_memcpy(self, s, fr, i, a):
        if a[0] == NULL or a[1] == NULL:
            return ('die', 'null', i.where())
        self.copymem(s, a[0], a[1], i)
    x_llvm_memmove = x_llvm_memcpy

    def x_llvm_memset(self, s, fr, i, a):
        p = a[0]
        if p == NULL:
            return ('die', 'null', i.where())
        if p[0] == 'p':
            self.check_live(s, p, i, 'written')
            pre = self.npath(p[2])
            for k in [k for k in s.h if k[0] == p[1] and k[1] != '$' and k[1][:len(pre)] == pre]:
                del s.h[k]
            o = s.objs.get(p[1])
            if o is not None and not pre:
                s.objs[p[1]] = dict(o, zero=True)

    def x_llvm_va_start(self, s, fr, i, a):
        # every argument in the overflow area (x86-64 layout, eight bytes apart)
        if a[0][0] != 'p':
            return None
        o = self.new(s, 'al', 'variable arguments')
        for k, v in enumerate(fr.va or ()):
            s.h[(o, (8 * k,) if k else ())] = v
        base, path = a[0][1], self.npath(a[0][2])
        s.h[(base, path + ('gp_offset',))] = ('c', 48)
        s.h[(base, path + ('fp_offset',))] = ('c', 304)
        s.h[(base, path + ('overflow_arg_area',))] = ('p', o, ())
        return None

    def x_llvm_va_(self, s, fr, i, a):
        return None

    def x_llvm_abs(self, s, fr, i, a):
        if a[0][0] == 'c':
            return ('c', abs(a[0][1]))
        return TOP

    # --- text
    def render(self, s, i, fmtp, args):
        c = self.content(s, fmtp, i)
        if c is None or any(not isinstance(x, int) for x in c):
            return (('top',),)
        f = ''.join(chr(x & 255) for x in c)
        out = []
        k = 0
        for m in re.finditer(r'%(%|([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXcsp fge]))', f):
            out += lit(f[k:m.start()])
            k = m.end()
            if m.group(1) == '%':
                out.append(37)
                continue
            prec = None
            if m.group(3) == '*' and args:
                args.pop(0)
            if m.group(4) == '*' and args:
                prec = args.pop(0)
            elif m.group(4):
                prec = ('c', int(m.group(4)))
            v = args.pop(0) if args else TOP
            conv = m.group(6)
            if conv == 's':
                if v == NULL or v[0] == 'nullp':
                    self.event(s, 'nullfmt', i.where(), 'a missing value is formatted with %s')
                    out += lit('(null)')
                    continue
                if v[0] == 'undef':
                    self.event(s, 'uninit', i.where(), 'uninitialised %s is formatted' % v[1])
                if v[0] == 'p':
                    self.check_live(s, v, i)
                t = self.content(s, v, i)
                if t is None:
                    t = (('top',),)
                elif prec is not None:
                    t = t[:prec[1]] if prec[0] == 'c' else (('top',),)
                out += t
            elif conv == 'c':
                out.append(v[1] if v[0] in ('c', 'chr') else ('top',))
            else:
                if v[0] == 'undef':
                    self.event(s, 'uninit', i.where(), 'uninitialised %s is formatted' % v[1])
                if v[0] == 'c' and conv in 'diu' and not m.group(2) and not m.group(3):
                    n = v[1]
                    if conv == 'u' and n < 0:
                        n &= (1 << (64 if m.group(5) in ('l', 'll', 'z', 'j') else 32)) - 1
                    out += lit(str(n))
                else:
                    spec = (m.group(2) or '') + (m.group(3) or '') + conv
                    out.append(('int', v, spec, m.group(5) or ''))
        out += lit(f[k:])
        return tuple(out)

    def x_g_strdup_printf(self, s, fr, i, a):
        if a[0] == NULL:
            return ('die', 'null', i.where())
        return self.newstr(s, self.render(s, i, a[0], list(a[1:])), i.where())

    def x_g_strdup_vprintf(self, s, fr, i, a):
        return self.newstr(s, self.render(s, i, a[0], list(fr.va)) if fr.va else (('top',),), i.where())

    def x_g_strconcat(self, s, fr, i, a):
        out = ()
        for v in a:
            if v == NULL:
                break
            out += self.content(s, v, i) or ()
        return self.newstr(s, out, i.where())

    def gs(self, s, p, i):
        if p[0] != 'p':
            return None
        self.check_live(s, p, i)
        b = s.h.get((p[1], p[2] + ('str',)))
        return b if b and b[0] == 'p' else None

    def x_g_string_new(self, s, fr, i, a):
        g = self.new(s, 'gstring', i.where())
        buf = self.new(s, 'gbuf', i.where())
        c = self.content(s, a[0], i) if a and a[0][0] == 'p' else ()
        s.h[(buf, '$')] = tuple(c or ())
        s.h[(g, ('str',))] = ('p', buf, ())
        s.h[(g, ('len',))] = ('c', len(c or ()))
        return ('p', g, ())

    def x_g_string_sized_new(self, s, fr, i, a):
        return self.x_g_string_new(s, fr, i, [NULL])

    def gput(self, s, p, i, add, pos=None):
        b = self.gs(s, p, i)
        if b is None:
            return
        c = s.h.get((b[1], '$'), ())
        c = add(c)
        s.h[(b[1], '$')] = c
        s.h[(p[1], p[2] + ('len',))] = ('c', len(c))
        o = s.objs.get(p[1])
        if o is not None and o['st'] == 'input':
            s.log.append((p[1], ('text',), i.where()))

    def x_g_string_append(self, s, fr, i, a):
        if a[0] == NULL or a[1] == NULL:
            return ('die', 'null', i.where()) if a[0] == NULL else self.nullappend(s, i, a)
        if a[1][0] == 'undef':
            self.event(s, 'uninit', i.where(), 'uninitialised %s is appended' % a[1][1])
        if a[1][0] == 'p':
            self.check_live(s, a[1], i)
        t = self.content(s, a[1], i)
        if t is None:
            t = (('top',),)
        self.gput(s, a[0], i, lambda c: c + tuple(t))
        return a[0]

    def nullappend(self, s, i, a):
        self.event(s, 'nullfmt', i.where(), 'a missing string is appended')
        return a[0]

    def x_g_string_prepend(self, s, fr, i, a):
        t = self.content(s, a[1], i)
        if t is None:
            t = (('top',),)
        self.gput(s, a[0], i, lambda c: tuple(t) + c)
        return a[0]

    def x_g_string_prepend_c(self, s, fr, i, a):
        v = a[1]
        e = v[1] if v[0] in ('c', 'chr') else ('top',)
        self.gput(s, a[0], i, lambda c: (e,) + c)
        return a[0]

    def x_g_string_append_len(self, s, fr, i, a):
        t = self.content(s, a[1], i)
        if t is None or a[2][0] != 'c':
            t = (('top',),)
        else:
            t = t[:a[2][1]]
        self.gput(s, a[0], i, lambda c: c + tuple(t))
        return a[0]

    def x_g_string_append_c(self, s, fr, i, a):
        v = a[1]
        e = v[1] if v[0] in ('c', 'chr') else ('top',)
        self.gput(s, a[0], i, lambda c: c + (e,))
        return a[0]

    def x_g_string_insert_c(self, s, fr, i, a):
        v = a[2]
        e = v[1] if v[0] in ('c', 'chr') else ('top',)
        n = a[1][1] if a[1][0] == 'c' else None
        if n is None:
            self.gput(s, a[0], i, lambda c: (('top',),))
        else:
            self.gput(s, a[0], i, lambda c: c[:n] + (e,) + c[n:] if n >= 0 else c + (e,))
        return a[0]

    def x_g_string_append_printf(self, s, fr, i, a):
        t = self.render(s, i, a[1], list(a[2:]))
        self.gput(s, a[0], i, lambda c: c + t)

    def x_g_string_printf(self, s, fr, i, a):
        t = self.render(s, i, a[1], list(a[2:]))
        self.gput(s, a[0], i, lambda c: t)

    def x_g_string_append_vprintf(self, s, fr, i, a):
        t = self.render(s, i, a[1], list(fr.va)) if fr.va else (('top',),)
        self.gput(s, a[0], i, lambda c: c + t)

    def x_g_string_truncate(self, s, fr, i, a):
        n = a[1]
        self.gput(s, a[0], i, lambda c: c[:n[1]] if n[0] == 'c' else (('top',),))
        return a[0]
    x_g_string_set_size = x_g_string_truncate

    def x_g_string_assign(self, s, fr, i, a):
        t = self.content(s, a[1], i) or ()
        self.gput(s, a[0], i, lambda c: tuple(t))
        return a[0]

    def x_g_string_erase(self, s, fr, i, a):
        pos, n = a[1], a[2]
        if pos[0] == 'c' and n[0] == 'c':
            self.gput(s, a[0], i, lambda c: c[:pos[1]] + (c[pos[1] + n[1]:] if n[1] >= 0 else ()))
        return a[0]

    def gsfree(self, s, fr, i, p, steal):
        if p == NULL:
            return ('die', 'null', i.where())
        if p[0] != 'p':
            return TOP
        b = self.gs(s, p, i)
        o = s.objs.get(p[1])
        if o is not None and o['st'] == 'freed':
            self.event(s, 'dfree', i.where(), '%s is released twice' % self.name(s, p[1]))
            return TOP
        if o is not None:
            s.objs[p[1]] = dict(o, st='freed', was=o['st'])
        if b is None:
            return TOP
        if steal:
            s.objs[b[1]] = dict(s.objs[b[1]], kind='mem')
            return b
        s.objs[b[1]] = dict(s.objs[b[1]], st='freed')
        return NULL

    def x_g_string_free(self, s, fr, i, a):
        if a[1][0] == 'c':
            return self.gsfree(s, fr, i, a[0], a[1][1] == 0)
        return TOP

    def x_g_string_free_and_steal(self, s, fr, i, a):
        return self.gsfree(s, fr, i, a[0], True)

    def x_strlen(self, s, fr, i, a):
        if a[0] == NULL:
            return ('die', 'null', i.where())
        if a[0][0] == 'p':
            self.check_live(s, a[0], i)
        c = self.content(s, a[0], i)
        if c is None or ('top',) in c:
            return TOP
        return ('c', len(c))

    def cmpc(self, x, y):
        """-> '=' / '<' / '>' / None"""
        if x == y:
            return None if ('top',) in x else '='
        k = 0
        while k < len(x) and k < len(y) and x[k] == y[k] and x[k] != ('top',):
            k += 1
        ex = x[k] if k < len(x) else 0
        ey = y[k] if k < len(y) else 0
        if isinstance(ex, int) and isinstance(ey, int):
            return '<' if (ex & 255) < (ey & 255) else '>'
        if ex == ('top',) or ey == ('top',):
            return None
        for p, q, rest in ((ex, ey, y[k:]), (ey, ex, x[k:])):
            if isinstance(p, tuple) and p[0] == 'tok':
                if isinstance(q, tuple) and q[0] == 'tok' and q[1] != p[1]:
                    self.cmps.add(('e', p[1], q[1]))
                elif isinstance(q, int):
                    n = 0
                    while n < len(rest) and isinstance(rest[n], int):
                        n += 1
                    self.cmps.add(('s', p[1], rest[:n]))
        if isinstance(ex, tuple) and isinstance(ey, tuple) and ex[0] == 'tok' and ey[0] == 'tok' and ex[1] == ey[1]:
            return self.order(('t',) + ex[1:3], ('t',) + ey[1:3])
        if isinstance(ex, int):       # letter token against a literal: never equal
            return '<' if ex <= 64 else '>' if ex >= 123 else '#'
        if isinstance(ey, int):
            return '>' if ey <= 64 else '<' if ey >= 123 else '#'
        return '#'                     # differ, order unknown

    def strcmp(self, s, i, x, y, zero_ok):
        if x == NULL or y == NULL or x[0] == 'nullp' or y[0] == 'nullp':
            if not zero_ok:
                return ('die', 'null', i.where())
            if x == y:
                return ('c', 0)
            if x == NULL and y[0] == 'p':
                return ('c', -1)
            if y == NULL and x[0] == 'p':
                return ('c', 1)
            return TOP
        for v in (x, y):
            if v[0] == 'p':
                self.check_live(s, v, i)
            if v[0] == 'undef':
                self.event(s, 'uninit', i.where(), 'uninitialised %s is compared' % v[1])
        a, b = self.content(s, x, i), self.content(s, y, i)
        if a is None or b is None:
            return TOP
        r = self.cmpc(a, b)
        if r is None:
            return TOP
        if r == '#':
            return ('sg', frozenset([-1, 1]))
        return ('c', {'<': -1, '=': 0, '>': 1}[r])

    def x_g_strcmp0(self, s, fr, i, a):
        return self.strcmp(s, i, a[0], a[1], True)

    def x_strcmp(self, s, fr, i, a):
        return self.strcmp(s, i, a[0], a[1], False)
    x_strcasecmp = x_g_ascii_strcasecmp = x_strcmp

    def x_g_str_equal(self, s, fr, i, a):
        r = self.strcmp(s, i, a[0], a[1], False)
        if r[0] == 'c':
            return ('c', int(r[1] == 0))
        if r[0] == 'sg':
            return ('c', 0)
        return r if r[0] == 'die' else TOP

    def x_strncmp(self, s, fr, i, a):
        if a[0] == NULL or a[1] == NULL:
            return ('die', 'null', i.where())
        x, y = self.content(s, a[0], i), self.content(s, a[1], i)
        if x is None or y is None or a[2][0] != 'c':
            return TOP
        r = self.cmpc(x[:a[2][1]], y[:a[2][1]])
        return TOP if r is None else ('sg', frozenset([-1, 1])) if r == '#' else ('c', {'<': -1, '=': 0, '>': 1}[r])
    x_strncasecmp = x_strncmp

    def x_g_str_has_prefix(self, s, fr, i, a):
        if a[0] == NULL or a[1] == NULL:
            return ('die', 'null', i.where())
        x, y = self.content(s, a[0], i), self.content(s, a[1], i)
        if x is None or y is None:
            return TOP
        r = self.cmpc(x[:len(y)], y)
        return TOP if r is None else ('c', int(r == '='))

    def find(self, s, i, a, rev=False, end=False):
        if a[0] == NULL:
            return ('die', 'null', i.where())
        c = self.content(s, a[0], i)
        if c is None or a[1][0] != 'c' or ('top',) in c:
            return TOP
        off = a[0][2][0] if a[0][2] else 0
        n = self.wrap(a[1][1], 8)
        for e in c:
            if isinstance(e, tuple) and n:
                self.cmpchr(('chr', e), n)
        idx = [k for k, e in enumerate(c) if isinstance(e, int) and self.wrap(e, 8) == n]
        if n == 0:
            idx = [len(c)]
        if not idx:
            if end:
                return ('p', a[0][1], (off + len(c),))
            return NULL
        k = off + (idx[-1] if rev else idx[0])
        return ('p', a[0][1], (k,) if k else ())

    def x_strchr(self, s, fr, i, a):
        return self.find(s, i, a)

    def x_strrchr(self, s, fr, i, a):
        return self.find(s, i, a, rev=True)

    def x_strchrnul(self, s, fr, i, a):
        return self.find(s, i, a, end=True)

    def x_strstr(self, s, fr, i, a):
        if a[0] == NULL or a[1] == NULL:
            return ('die', 'null', i.where())
        x, y = self.content(s, a[0], i), self.content(s, a[1], i)
        if x is None or y is None or ('top',) in x or ('top',) in y:
            return TOP
        off = a[0][2][0] if a[0][2] else 0
        if y and all(isinstance(e, int) for e in y):
            for e in x:
                if isinstance(e, tuple) and e[0] == 'tok':
                    self.cmps.add(('s', e[1], y))
        for k in range(len(x) - len(y) + 1):
            if x[k:k + len(y)] == y:
                return ('p', a[0][1], (off + k,) if off + k else ())
        return NULL

    def x_tolower(self, s, fr, i, a):
        v = a[0]
        if v[0] == 'c':
            return ('c', v[1] + 32 if 65 <= v[1] <= 90 else v[1])
        return v if v[0] == 'chr' else TOP

    def x___assert_fail(self, s, fr, i, a):
        return ('die', 'assert', i.where())

    def x_abort(self, s, fr, i, a):
        return ('die', 'abort', i.where())

    def x_fprintf(self, s, fr, i, a):
        self.render(s, i, a[1], list(a[2:]))
        return TOP

    def x_qsort(self, s, fr, i, a):
        # any order may result: as it was, reversed, rotated
        if a[0][0] != 'p' or a[1][0] != 'c' or not 1 < a[1][1] < 20 or a[2] != ('c', 8) or a[0][2]:
            return None
        o, n = a[0][1], a[1][1]
        v = [s.h.get((o, (k,) if k else ())) for k in range(n)]
        if any(x is None for x in v):
            return None

        def put(w):
            def go(st):
                for k, x in enumerate(w):
                    st.h[(o, (k,) if k else ())] = x
                return None
            return go
        return ('fork*', [put(w) for w in (v, v[::-1], v[1:] + v[:1])])

    def x_g_compute_checksum_for_string(self, s, fr, i, a):
        c = self.content(s, a[1], i)
        return self.newstr(s, (('sum', c),), i.where())

    # --- json-c
    def jnode(self, s, p):
        if p[0] == 'p':
            return s.h.get((p[1], 'json'))
        return None

    def jptr(self, node):
        return ('p', ('j', node), ())

    def x_json_object_object_get_ex(self, s, fr, i, a):
        n = self.jn(a[0])
        if n is None:
            if a[0] == NULL:
                if a[2][0] == 'p':
                    self.store(s, a[2], NULL, i)
                return ('c', 0)
            return TOP
        if n[0] != 'obj':
            if a[2][0] == 'p':
                self.store(s, a[2], NULL, i)
            return ('c', 0)
        k = self.content(s, a[1], i)
        key = ''.join(chr(x) for x in k) if k is not None and all(isinstance(x, int) for x in k) else None
        self.keyread(key, n)
        for kk, v in n[1]:
            if kk == key:
                if a[2][0] == 'p':
                    self.store(s, a[2], self.jptr(v) if v != ('null',) else NULL, i)
                return ('c', 1)
        if a[2][0] == 'p':
            self.store(s, a[2], NULL, i)
        return ('c', 0)

    def keyread(self, key, n):
        pass

    def jn(self, p):
        if p[0] == 'p' and p[1][0] == 'j':
            return p[1][1]
        return None

    JT = {'null': 0, 'bool': 1, 'double': 2, 'int': 3, 'obj': 4, 'arr': 5, 'str': 6}

    def x_json_object_get_type(self, s, fr, i, a):
        if a[0] == NULL:
            return ('c', 0)
        n = self.jn(a[0])
        return ('c', self.JT[n[0]]) if n else TOP

    def x_json_object_is_type(self, s, fr, i, a):
        if a[0] == NULL:
            return ('c', int(a[1] == NULL))
        n = self.jn(a[0])
        if n is None or a[1][0] != 'c':
            return TOP
        return ('c', int(self.JT[n[0]] == a[1][1]))

    def x_json_object_array_length(self, s, fr, i, a):
        n = self.jn(a[0])
        if n is None:
            return ('die', 'null', i.where()) if a[0] == NULL else TOP
        if n[0] != 'arr':
            return ('die', 'assert', i.where())
        return ('c', len(n[1]))

    def x_json_object_array_get_idx(self, s, fr, i, a):
        n = self.jn(a[0])
        if n is None or n[0] != 'arr' or a[1][0] != 'c':
            return TOP
        if 0 <= a[1][1] < len(n[1]):
            v = n[1][a[1][1]]
            return self.jptr(v) if v != ('null',) else NULL
        return NULL

    def x_json_object_get_string(self, s, fr, i, a):
        if a[0] == NULL:
            return NULL
        n = self.jn(a[0])
        if n is None:
            return TOP
        if n[0] == 'str':
            oid = ('js', n)
            s.h[(oid, '$')] = n[1]
            return ('p', oid, ())
        oid = ('js', ('other', n[0]))
        s.h[(oid, '$')] = (('top',),)
        return ('p', oid, ())

    def x_json_object_get_uint64(self, s, fr, i, a):
        n = self.jn(a[0])
        if n is None:
            return ('c', 0) if a[0] == NULL else TOP
        if n[0] in ('int', 'bool'):
            if n[1][0] == 'c':
                return ('c', self.wrap(min(max(n[1][1], 0), (1 << 64) - 1), 64))
            return n[1]
        return TOP

    def jconst(self, a, bits):
        n = self.jn(a[0])
        if n is not None and n[0] in ('int', 'bool') and n[1][0] == 'c':
            return ('c', min(max(n[1][1], -(1 << bits - 1)), (1 << bits - 1) - 1))
        return None

    def x_json_object_get_int(self, s, fr, i, a):
        v = self.jconst(a, 32) or self.x_json_object_get_int64(s, fr, i, a)
        if v[0] == 't' and self.tokbits(v) + (0 if self.toksigned.get(v[1]) else 1) > 32:
            return ('t', v[1], v[2], 'sat31') if v[3] in ('int',) else v
        return v

    def x_json_object_get_int64(self, s, fr, i, a):
        v = self.jconst(a, 64) or self.x_json_object_get_uint64(s, fr, i, a)
        if v[0] == 't' and self.tokbits(v) == 64 and not self.toksigned.get(v[1]):
            return ('t', v[1], v[2], 'sat63') if v[3] in ('int',) else v
        return v

    def x_json_object_get_boolean(self, s, fr, i, a):
        v = self.x_json_object_get_uint64(s, fr, i, a)
        return v if v[0] != 'c' else ('c', int(v[1] != 0))

    def x_json_object_get_object(self, s, fr, i, a):
        n = self.jn(a[0])
        if n is None:
            return NULL if a[0] == NULL else TOP
        return ('p', ('lh', n), ()) if n[0] == 'obj' else NULL

    def lhload(self, oid, path):
        n = oid[1]
        f = path[-1] if path else None

        def ent(k):
            return ('p', ('le', n, k), ()) if 0 <= k < len(n[1]) else NULL
        if oid[0] == 'lh':
            if f == 'head':
                return ent(0)
            if f == 'tail':
                return ent(len(n[1]) - 1)
            if f == 'count':
                return ('c', len(n[1]))
            return TOP
        k = oid[2]
        if f == 'k' or f is None:
            self.keyread(n[1][k][0], n)
            return ('p', ('lit', n[1][k][0]), ())
        if f == 'v':
            v = n[1][k][1]
            return self.jptr(v) if v != ('null',) else NULL
        if f == 'next':
            return ent(k + 1)
        if f == 'prev':
            return ent(k - 1)
        return TOP

    def x_json_type_to_name(self, s, fr, i, a):
        return ('p', ('lit', 'type'), ())

    def x_json_tokener_error_desc(self, s, fr, i, a):
        return ('p', ('lit', 'parse error'), ())

    def x_json_object_put(self, s, fr, i, a):
        if a[0][0] == 'p' and a[0][1] in s.objs:
            self.free(s, a[0], i)
        return ('c', 1)

    # ------------------------------------------------------------------ results
    def reach(self, s, roots):
        seen = set()
        work = [r[1] for r in roots if r is not None and r[0] == 'p']
        idx = {}
        for (oid, path), v in s.h.items():
            if path != '$' and isinstance(v, tuple) and v and v[0] == 'p':
                idx.setdefault(oid, []).append(v[1])
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            work += idx.get(o, [])
        return seen

    def leaks(self, s, roots):
        r = self.reach(s, roots)
        for oid in list(s.objs):
            if oid[0] in ('n', 'g') and s.objs[oid]['st'] != 'freed':
                r |= self.reach(s, [('p', oid, ())])
        for (oid, path) in list(s.h):
            if oid[0] == 'g':
                r |= self.reach(s, [('p', oid, ())])
        out = []
        for oid, o in s.objs.items():
            if o['st'] == 'live' and o['kind'] in ('mem', 'gstring', 'gbuf', 'json') and oid not in r and not o.get('kept'):
                out.append((oid, o))
        # only the roots of leaked structures
        child = set()
        for oid, o in out:
            child |= self.reach(s, [('p', oid, ())]) - {oid}
        tops = [x for x in out if x[0] not in child]
        return tops or out
