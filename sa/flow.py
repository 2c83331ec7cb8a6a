"""Flow-insensitive interprocedural value origins and memory effects (mod/ref).

A value is described by a set of descriptors (root, path): root is
  ('a',k)        object reachable from argument k          ('g',name)  a global
  ('al',id)      a local aggregate                          ('r',id,callee) result of a call
  ('o',id,k)     object stored by call id through out argument k
  ('k',n)        an integer constant    ('s',str) a literal   ('fn',name)
and path is the tuple of 'struct.field' (or '[]') steps.  Repeated steps (list links)
collapse, so the domain is finite."""
from .frontend import AnalysisError
from .models import S

MAXPATH = 5
MAXVALS = 48


def addp(path, elems):
    p = list(path)
    for e in elems:
        if e in p:
            if e == '[]':
                if p[-1] == '[]':
                    continue
            else:
                p = p[:p.index(e) + 1]
                continue
        p.append(e)
    return tuple(p[:MAXPATH])


class FnFlow:
    __slots__ = ('vals', 'mem', 'ret', 'reads', 'writes', 'copies', 'frees', 'callees', 'argstores')

    def __init__(self):
        self.vals = {}
        self.mem = {}
        self.ret = set()
        self.reads = {}
        self.writes = {}
        self.copies = set()
        self.frees = {}
        self.argstores = set()    # (location desc, value desc) with args/global roots


class Flow:
    def __init__(self, prog, groups=('/lib/',), rtype=None):
        self.prog = prog
        self.groups = groups
        self.rtype = rtype
        self.fieldfuncs = {}
        self.gval = {}
        for m in prog.mods:
            for n, g in m.globals.items():
                if not g['decl']:
                    self._collect(n, g.get('init'), m)
        self.fl = {}
        self._ct = {}
        self.capped = set()
        self.solve()

    # ---- method tables
    def _collect(self, gname, init, m):
        if isinstance(init, dict):
            for k, v in init.get('fields', {}).items():
                if isinstance(v, list) and v and v[0] == 'f':
                    self.fieldfuncs.setdefault(k, {}).setdefault(gname, []).append((v[1], m))
                else:
                    self._collect(gname, v, m)
        elif isinstance(init, list):
            for x in init:
                self._collect(gname, x, m)

    def functions(self):
        return [f for f in self.prog.all_funcs if any(g in f.mod.src for g in self.groups)]

    def targets(self, f, i):
        key = (id(f), i.i)
        if key in self._ct:
            return self._ct[key]
        c = i.d['callee']
        out = []
        if c[0] == 'f':
            t = self.prog.resolve(c[1], f.mod)
            out = [t] if t else []
        elif c[0] == 'v' and c[1] in f.insts:
            ld = f.insts[c[1]]
            if ld.op == 'load' and ld.a[0][0] == 'v' and ld.a[0][1] in f.insts:
                g = f.insts[ld.a[0][1]]
                if g.op == 'gep' and g.d['path'] and g.d['path'][-1][0] == 'f':
                    fld = g.d['path'][-1][2]
                    for gname, lst in sorted(self.fieldfuncs.get(fld, {}).items()):
                        if self.rtype and not gname.startswith(self.rtype + '_'):
                            continue
                        for n, m in lst:
                            t = self.prog.resolve(n, m)
                            if t and t not in out:
                                out.append(t)
        self._ct[key] = out
        return out

    def of(self, f):
        return self.fl.get(id(f))

    # ---- solving
    def solve(self):
        fns = self.functions()
        order = self.postorder(fns)
        for f in order:
            self.fl[id(f)] = FnFlow()
        callers = {}
        for f in order:
            for i in f.calls():
                for t in self.targets(f, i):
                    callers.setdefault(id(t), set()).add(id(f))
        dirty = {id(f) for f in order}
        for rnd in range(8):
            changed = False
            for f in order:
                if id(f) not in dirty:
                    continue
                dirty.discard(id(f))
                if self.local(f):
                    changed = True
                    dirty |= callers.get(id(f), set())
            if not changed:
                break
        self.rounds = rnd + 1

    def postorder(self, fns):
        seen, out = set(), []
        s = {id(f) for f in fns}
        for r in fns:
            if id(r) in seen:
                continue
            seen.add(id(r))
            st = [(r, iter([c for i in r.calls() for c in self.targets(r, i)]))]
            while st:
                f, it = st[-1]
                for c in it:
                    if id(c) in s and id(c) not in seen:
                        seen.add(id(c))
                        st.append((c, iter([x for i in c.calls() for x in self.targets(c, i)])))
                        break
                else:
                    st.pop()
                    out.append(f)
        return out

    def operand(self, f, fl, o):
        k = o[0]
        if k == 'v':
            if o[1] < f.nargs:
                return frozenset([(('a', o[1]), ())])
            return fl.vals.get(o[1], frozenset())
        if k == 'c':
            return frozenset([(('k', o[1]), ())])
        if k == 'n':
            return frozenset([(('k', 0), ())])
        if k == 's':
            return frozenset([(('s', o[1]), ())])
        if k == 'g':
            return frozenset([(('g', o[1]), ())])
        if k == 'f':
            return frozenset([(('fn', o[1]), ())])
        if k == 'ce':
            return frozenset((r, addp(p, self.elems(o[2]))) for r, p in self.operand(f, fl, o[1]))
        return frozenset()

    @staticmethod
    def elems(path):
        out = []
        for p in path:
            if p[0] == 'f':
                out.append(p[1] + '.' + p[2])
            elif p[0] in ('i', 'p'):
                if not (p[0] == 'p' and p[1][0] == 'c' and p[1][1] == 0):
                    out.append('[]')
        return out

    def loaded(self, fl, d):
        r, p = d
        out = set()
        if r[0] in ('a', 'g'):
            out.add(d)
        elif r[0] in ('r', 'o', 'al'):
            if d in fl.mem:
                out |= fl.mem[d]
                if r[0] in ('r', 'o'):
                    out.add(d)
            elif r[0] != 'al' or p:
                out.add(d)
            else:
                out.add(d)
            return out
        if d in fl.mem:
            out |= fl.mem[d]
        return out

    def local(self, f):
        fl = self.fl[id(f)]
        before = (sum(len(v) for v in fl.vals.values()), sum(len(v) for v in fl.mem.values()), len(fl.ret), len(fl.reads), len(fl.writes), len(fl.frees), len(fl.argstores), len(fl.copies))
        for it in range(10):
            ch = False
            for i in f.all():
                nv = self.transfer(f, fl, i)
                if nv is None:
                    continue
                old = fl.vals.get(i.i)
                if old is None or (len(old) < MAXVALS and not nv <= old):
                    nv = nv | old if old else nv
                    if len(nv) > MAXVALS:
                        nv = frozenset(sorted(nv, key=lambda d: (len(d[1]), str(d)))[:MAXVALS])
                        self.capped.add((f.name, i.i))
                    if nv != old:
                        fl.vals[i.i] = nv
                        ch = True
            if not ch and it:
                break
        after = (sum(len(v) for v in fl.vals.values()), sum(len(v) for v in fl.mem.values()), len(fl.ret), len(fl.reads), len(fl.writes), len(fl.frees), len(fl.argstores), len(fl.copies))
        return before != after

    @staticmethod
    def addmem(fl, loc, vals):
        m = fl.mem.setdefault(loc, set())
        for v in vals:
            if len(m) >= MAXVALS:
                break
            if v != loc:
                m.add(v)

    def setmem(self, f, fl, loc, vals, i, chain=()):
        r, p = loc
        if r[0] in ('k', 's', 'fn'):
            return
        self.addmem(fl, loc, vals)
        if r[0] in ('a', 'g'):
            fl.writes.setdefault(loc, (i, chain))
            for v in vals:
                if v[0][0] in ('a', 'g', 'k', 's', 'fn'):
                    fl.argstores.add((loc, v))
                else:
                    fl.argstores.add((loc, (('fresh', v[0][2] if v[0][0] == 'r' else v[0][0]), ())))

    def transfer(self, f, fl, i):
        op = i.op
        if op == 'alloca':
            return frozenset([(('al', i.i), ())])
        if op == 'gep':
            e = self.elems(i.d['path'])
            return frozenset((r, addp(p, e)) if r[0] not in ('s',) else (r, p) for r, p in self.operand(f, fl, i.a[0]))
        if op == 'load':
            out = set()
            for d in self.operand(f, fl, i.a[0]):
                if d[0][0] in ('a', 'g'):
                    fl.reads.setdefault(d, (i, ()))
                if d[0][0] == 's':
                    continue
                out |= self.loaded(fl, d)
            return frozenset(out)
        if op == 'store':
            vals = self.operand(f, fl, i.a[0])
            for d in self.operand(f, fl, i.a[1]):
                self.setmem(f, fl, d, vals, i)
            return None
        if op == 'phi':
            out = set()
            for o, _ in i.d['in']:
                out |= self.operand(f, fl, o)
            return frozenset(out)
        if op == 'select':
            out = set()
            for o in i.a[1:]:
                out |= self.operand(f, fl, o)
            return frozenset(out)
        if op in ('cast', 'freeze'):
            return self.operand(f, fl, i.a[0])
        if op == 'bin':
            out = set()
            for o in i.a:
                out |= {d for d in self.operand(f, fl, o) if d[0][0] != 'k'}
            return frozenset(out)
        if op == 'icmp':
            return frozenset()
        if op == 'ret':
            if i.a:
                fl.ret |= self.operand(f, fl, i.a[0])
            return None
        if op == 'call':
            return self.call(f, fl, i)
        return None

    def subst(self, f, fl, i, d, args, memo):
        """descriptor of the callee in terms of the caller"""
        r, p = d
        if r[0] == 'a':
            if r[1] >= len(args):
                return set()
            cur = args[r[1]]
            out = set()
            for (rr, pp) in cur:
                if rr[0] in ('k', 's', 'fn'):
                    if not p:
                        out.add((rr, pp))
                    continue
                # walk the path; locals and fresh objects may have known contents
                front = {(rr, pp)}
                for e in p:
                    nx = set()
                    for (r2, p2) in front:
                        loc = (r2, addp(p2, (e,)))
                        nx.add(loc)
                        if loc in fl.mem:
                            nx |= {v for v in fl.mem[loc] if v[0][0] not in ('k', 's', 'fn')}
                        # pointer stored at the object's own start
                        if (r2, p2) in fl.mem and r2[0] in ('al',):
                            for v in fl.mem[(r2, p2)]:
                                if v[0][0] not in ('k', 's', 'fn'):
                                    nx.add((v[0], addp(v[1], (e,))))
                    front = nx
                    if len(front) > MAXVALS:
                        front = set(sorted(front, key=lambda d: (len(d[1]), str(d)))[:MAXVALS])
                out |= front
            return out
        if r[0] in ('g', 'k', 's', 'fn'):
            return {d}
        return {(('r', i.i, 'fresh'), ())}

    def call(self, f, fl, i):
        ts = self.targets(f, i)
        args = [self.operand(f, fl, o) for o in i.a]
        name = i.callee
        out = set()
        if ts:
            for t in ts:
                tf = self.fl.get(id(t))
                if tf is None:
                    out.add((('r', i.i, t.name), ()))
                    continue
                for d in list(tf.ret):
                    if d[0][0] == 'a':
                        x = self.subst(f, fl, i, d, args, None)
                        # value of a location: load local contents
                        for v in x:
                            if v in fl.mem and v[0][0] in ('al', 'r', 'o'):
                                out |= fl.mem[v]
                            out.add(v)
                    elif d[0][0] in ('r', 'o', 'al'):
                        out.add((('r', i.i, t.name), ()))
                    else:
                        out.add(d)
                for loc, (wi, ch) in list(tf.writes.items()):
                    for l in self.subst(f, fl, i, loc, args, None):
                        if l[0][0] in ('a', 'g'):
                            fl.writes.setdefault(l, (i, ((t.name, wi),) + ch[:6]))
                for loc, (wi, ch) in list(tf.reads.items()):
                    for l in self.subst(f, fl, i, loc, args, None):
                        if l[0][0] in ('a', 'g'):
                            fl.reads.setdefault(l, (i, ((t.name, wi),) + ch[:6]))
                for loc, (wi, ch) in list(tf.frees.items()):
                    for l in self.subst(f, fl, i, loc, args, None):
                        fl.frees.setdefault(l, (i, ((t.name, wi),) + ch[:6]))
                for loc, v in list(tf.argstores):
                    vs = {(('o', i.i, t.name), ())} if v[0][0] == 'fresh' else self.subst(f, fl, i, v, args, None)
                    for l in self.subst(f, fl, i, loc, args, None):
                        if l[0][0] not in ('k', 's', 'fn'):
                            self.addmem(fl, l, vs)
                            if l[0][0] in ('a', 'g'):
                                for w in vs:
                                    fl.argstores.add((l, w if w[0][0] in ('a', 'g', 'k', 's', 'fn') else (('fresh', ''), ())))
            return frozenset(out)
        if name is None:
            return frozenset([(('r', i.i, '?'), ())])
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            for d in args[0]:
                for s_ in args[1]:
                    fl.copies.add((d, s_))
                if d[0][0] in ('a', 'g'):
                    fl.writes.setdefault(d, (i, ()))
            return args[0]
        if name.startswith('llvm.memset'):
            for d in args[0]:
                if d[0][0] in ('a', 'g'):
                    fl.writes.setdefault(d, (i, ()))
            return frozenset()
        if name.startswith('llvm.'):
            return frozenset()
        sp = S.get(name)
        if sp:
            for k in sp['free']:
                if k < len(args):
                    for d in args[k]:
                        if d[0][0] in ('a', 'g'):
                            fl.frees.setdefault(d, (i, ()))
            if sp['ret'] == 'arg0' and not sp['own']:
                return args[0] | frozenset([(('r', i.i, name), ())])
        if name in ('strchr', 'strrchr', 'strstr', 'strchrnul', 'g_strstrip', 'g_strchug', 'g_strchomp'):
            return args[0] | frozenset([(('r', i.i, name), ())])
        if name in ('strcat', 'strcpy', 'strncpy', 'g_strstrip', 'g_strchug', 'g_strchomp', 'snprintf', 'sprintf', 'g_strdelimit', 'g_strcanon', 'strncat', 'g_strlcpy', 'strtok', 'strtok_r', 'strsep', 'g_strreverse') or name.startswith('g_string_append') or name in ('g_string_erase', 'g_string_truncate', 'g_string_assign', 'g_string_printf'):
            for d in args[0]:
                if d[0][0] in ('a', 'g'):
                    fl.writes.setdefault(d, (i, ()))
        if name in ('g_array_append_vals', 'g_array_sort', 'g_array_set_size', 'g_array_remove_index', 'qsort', 'g_ptr_array_add'):
            for d in args[0]:
                if d[0][0] in ('a', 'g'):
                    fl.writes.setdefault(d, (i, ()))
        return frozenset([(('r', i.i, name), ())])


def show(d):
    r, p = d
    base = {'a': lambda: 'arg%d' % r[1], 'g': lambda: r[1]}.get(r[0], lambda: '%s:%s' % (r[0], r[-1]))()
    return base + ''.join('->' + e.split('.', 1)[1] if '.' in e else e for e in p)


def chain(w):
    i, ch = w
    s = [i.where()]
    for n, wi in ch:
        s.append('%s (%s)' % (n, wi.where()))
    return ' -> '.join(s)
