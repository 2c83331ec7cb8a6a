"""Ownership: every acquired object is released exactly once or handed over (leak, double
release, use after release, dangling output)."""
from .engine import *
from .models import S as SPECS

FREEFAM = {'mem': ('g_free', 'free', 'g_realloc', 'g_realloc_n', 'realloc')}


class OwnEngine(Engine):
    OWN = True
    MAXSTATES = 120

    def __init__(self, prog, groups=('/lib/',), kinds=None):
        super().__init__(prog, groups)
        self.models.update({
            'g_string_free': OwnEngine.m_gstring_free,
            'g_realloc': OwnEngine.m_realloc, 'g_realloc_n': OwnEngine.m_realloc, 'realloc': OwnEngine.m_realloc,
            '__ctype_b_loc': OwnEngine.m_ctype,
            '__errno_location': OwnEngine.m_errno,
            'json_object_object_get_ex': OwnEngine.m_get_ex,
            'g_autoptr_cleanup_generic_gfree': OwnEngine.m_autofree,
            'glib_autoptr_cleanup_GChecksum': OwnEngine.m_autofree,
            'glib_autoptr_cleanup_GString': OwnEngine.m_autofree,
            'glib_auto_cleanup_GStrv': OwnEngine.m_autofree,
            'g_free_sized': None,
        })
        self.models = {k: v for k, v in self.models.items() if v}
        self.allocs = {}
        self.allocsites = set()
        self.freesites = set()

    # --- alloc bookkeeping
    def mk(self, s, i, tag, nullable, zero=False, prov=None):
        b = self.newsym(s, i, 0, kind='h')
        s.own[b] = tag
        if self.final:
            self.allocsites.add((self.cur.fn.name, i.i))
        if tag == 'fd':
            s.facts[b] = (-1, INF, frozenset())
        elif not nullable:
            s.facts[b] = (1, INF, frozenset())
        for k in [k for k in s.mem if k[0] == b]:
            del s.mem[k]
        if zero:
            s.mem[(b, ('$zero',))] = C(1)
        if prov is not None:
            s.mem[(b, ('$src',))] = prov
        s.env[i.i] = P(b)
        return b

    def call_extern(self, s, i, name, args):
        sp = SPECS.get(name)
        if sp is None:
            if name.startswith('glib_auto') or name.startswith('g_auto'):
                return self.m_autofree(s, i, args)
            return self.call_unknown(s, i, args)
        for k in sp['need']:
            if k < len(args):
                self.on_need(s, i, k, args[k], name)
        if self.dead(s):
            return []
        for k, v in enumerate(args):
            if v[0] == 'p' and k not in sp['free']:
                self.use(s, v, i)
        for k in sp['free']:
            self.release(s, i, args[k], None, args, how=name)
        if self.dead(s):
            return []
        for k in sp['out']:
            if args[k][0] == 'p':
                self.havoc(s, args[k], i, k)
        if sp['own']:
            nl = sp['nullable']
            prov = args[sp['prov']] if sp['prov'] is not None else None
            if nl == 'arg0':
                n = self.nonnull(s, args[0])
                if n is False:
                    s.env[i.i] = NUL
                    return None
                nl = n is None
                if nl and args[0][0] == 'p' and not args[0][2]:
                    # NULL in, NULL out: keep the correlation
                    s2 = s.copy()
                    out = []
                    if self.assume(s2, args[0], False):
                        s2.env[i.i] = NUL
                        out.append(s2)
                    if self.assume(s, args[0], True):
                        self.mk(s, i, sp['own'], False, sp['zero'], prov)
                        out.append(s)
                    return out
            self.mk(s, i, sp['own'], nl, sp['zero'], prov)
            return None
        if i.t:
            r = sp['ret']
            if r == 'arg0':
                s.env[i.i] = args[0]
            elif r == 'null':
                s.env[i.i] = NUL
            else:
                b = self.newsym(s, i)
                if r == 'nonnull':
                    s.facts[b] = (1, INF, frozenset())
                elif r == 'len':
                    s.facts[b] = (0, INF, frozenset())
                s.env[i.i] = P(b)
        if name in ('read', 'pread', '__isoc23_sscanf', 'sscanf', 'bsearch', 'qsort', 'g_checksum_get_digest') or not sp['borrow']:
            for k, v in enumerate(args):
                if v[0] == 'p' and root_of(v[1])[0] == 'al':
                    self.havoc(s, v, i, k)
        elif name.startswith('gelf_') or name.startswith('elf_') or name.startswith('dwfl_module'):
            for k, v in enumerate(args):
                if v[0] == 'p' and root_of(v[1])[0] == 'al':
                    self.havoc(s, v, i, k)
        elif name.startswith('__isoc23_strto') or name.startswith('strto'):
            if len(args) > 1 and args[1][0] == 'p':
                self.havoc(s, args[1], i, 1)
        return None

    def m_gstring_free(self, s, i, args):
        self.use(s, args[0], i)
        steal = self.const_of(s, args[1]) == 0
        self.release(s, i, args[0], None, args, how='g_string_free')
        if self.dead(s):
            return []
        if steal:
            self.mk(s, i, 'mem', False)
        elif i.t:
            s.env[i.i] = NUL
        return None

    def m_realloc(self, s, i, args):
        v = args[0]
        n = self.nonnull(s, v)
        old = None
        if v[0] == 'p':
            self.use(s, v, i)
            if self.dead(s):
                return []
            old = v[1]
        cont = [(k, x) for k, x in s.mem.items() if old is not None and k[0] == old]
        tag = 'mem'
        if old is not None and n is not False:
            if old[0] in ('h', "h'"):
                tag = s.own.get(old) or 'mem'
                s.own.pop(old, None)
                for k, x in cont:
                    del s.mem[k]
            else:
                s.own[old] = 'f'
        b = self.newsym(s, i, 0, kind='h')
        s.own[b] = tag if tag != 'f' else 'mem'
        s.facts[b] = (1, INF, frozenset())
        for k, x in cont:
            s.mem[(b, k[1])] = x
        s.env[i.i] = P(b)
        return None

    def m_ctype(self, s, i, args):
        s.env[i.i] = ('ctb',)

    def m_errno(self, s, i, args):
        s.env[i.i] = P(('errno',))

    def m_get_ex(self, s, i, args):
        # returns 0 (object absent; *value = NULL) or 1
        s0 = s.copy()
        s0.env[i.i] = C(0)
        if args[2][0] == 'p':
            self.store(s0, args[2], NUL, i)
            b = self.newsym(s, i, 'v')
            self.store(s, args[2], P(b), i)
        s.env[i.i] = C(1)
        return [s0, s]

    def m_autofree(self, s, i, args):
        v = args[0]
        if v[0] == 'p':
            x = self.load(s, v, i)
            self.release(s, i, x, None, args, how='g_autoptr')
            if self.dead(s):
                return []
        return None

    def load_checked(self, s, p, i):
        if i.t == 'i8' and p[0] == 'p' and p[1][0] not in ('al', 'lit', 'g'):
            path = p[2]
            if not path or type(path[-1]) is tuple:
                return P(self.newsym(s, i))
        return super().load_checked(s, p, i)

    def store(self, s, ptr, v, i):
        if ptr is not None and ptr[0] == 'p' and ptr[1] == ('errno',):
            return
        if i is not None and i.op == 'store' and i.d.get('vt') == 'i8' and ptr is not None and ptr[0] == 'p' and ptr[1][0] not in ('al',):
            if not ptr[2] or type(ptr[2][-1]) is tuple:
                return
        super().store(s, ptr, v, i)

    # --- uses
    def freed_base(self, s, b):
        while True:
            if s.own.get(b) == 'f':
                return b
            if b[0] == 'm':
                b = b[1]
            else:
                return None

    def describe(self, s, b):
        if b[0] == 'a':
            n = self.cur.fn.argnames
            return 'argument %s' % (n[b[1]] if b[1] < len(n) else b[1])
        if b[0] == 'm':
            return self.describe(s, b[1]) + ''.join('->' + x if isinstance(x, str) else '[%s]' % (x[1],) for x in b[2]) if b[2] else '*' + self.describe(s, b[1])
        if b[0] in ('h', "h'"):
            ins = self.cur.fn.insts.get(b[1])
            return 'object from %s (%s)' % (ins.callee if ins is not None and ins.callee else 'indirect call', ins.where() if ins is not None else '?')
        if b[0].startswith('r') and len(b) > 2 and b[2] and isinstance(b[2], tuple):
            n = self.cur.fn.argnames
            return 'element of %s.%s' % (n[b[2][0]] if b[2][0] < len(n) else b[2][0], '.'.join(b[2][1]))
        return 'value'

    def use(self, s, v, i):
        if v[0] != 'p':
            return
        b = v[1]
        if s.own.get(b) == 'f':
            self.report('uaf', s, i, 'uaf|%s|%s' % (self.cur.fn.name, self.dkey(b)),
                        'in %s: %s used after it was released' % (self.cur.fn.name, self.describe(s, b)))
            s.fl['dead'] = 1

    def dkey(self, b):
        if b[0] in ('h', "h'"):
            ins = self.cur.fn.insts.get(b[1])
            return 'h:%s' % (ins.callee if ins is not None else '?')
        if b[0] == 'a':
            return 'a%d' % b[1]
        if b[0] == 'm':
            return self.dkey(b[1]) + '.' + '.'.join(x if isinstance(x, str) else '*' for x in b[2])
        if b[0].startswith('r') and len(b) > 2 and isinstance(b[2], tuple) and b[2]:
            return 'el:' + '.'.join(b[2][1])
        return b[0]

    def on_deref(self, s, p, i):
        if p[0] == 'p':
            self.use(s, p, i)
        elif p[0] == 'c' and p[1] == 0:
            s.fl['dead'] = 1      # definite NULL dereference: path reported by the null checker

    def on_need(self, s, i, k, v, name):
        pass

    # --- releases
    def release(self, s, i, v, sm, args, how=None):
        if v[0] != 'p':
            return
        b, path = v[1], v[2]
        if self.final:
            self.freesites.add((self.cur.fn.name, i.i))
        if path or b[0] in ('al', 'lit', 'g'):
            if b[0] in ('al', 'lit', 'g') or (path and how):
                if all(type(e) is tuple for e in path) and b[0] not in ('al', 'lit', 'g'):
                    return
                self.report('badfree', s, i, 'badfree|%s|%s' % (self.cur.fn.name, b[0]),
                            'in %s: releases memory that was never allocated (%s)' % (self.cur.fn.name, b[0]))
            return
        if self.nonnull(s, v) is False:
            return
        if b[0].rstrip("'") in ('undef', 'k', 'j') or b[0] == 'errno':
            return
        if s.own.get(b) == 'x':
            s.own.pop(b)
            return
        if s.own.get(b) == 'f':
            self.report('dfree', s, i, 'dfree|%s|%s' % (self.cur.fn.name, self.dkey(b)),
                        'in %s: %s released twice' % (self.cur.fn.name, self.describe(s, b)))
            s.fl['dead'] = 1
            return
        s.own[b] = 'f'

    def ok(self, st):
        return 'dead' not in st.fl

    def deep_release(self, st, i, sm, args, o):
        """lists released below an argument: everything hanging there in our memory is released too"""
        bybase = {}
        for k, v in st.mem.items():
            bybase.setdefault(k[0], []).append((k[1], v))
        for (k, fields) in sm.deep:
            fs = set(fields)
            if k >= len(args) or args[k][0] != 'p':
                continue
            seen = set()
            work = [args[k][1]]
            while work:
                b = work.pop()
                if b in seen:
                    continue
                seen.add(b)
                for path, v in bybase.get(b, ()):
                    names = [x for x in path if isinstance(x, str)]
                    if names and all(n in fs for n in names) and v[0] == 'p' and not v[2]:
                        work.append(v[1])
                        if v[1][0] in ('h', "h'") and v[1] in st.own:
                            st.own[v[1]] = 'f'

    def escape(self, s, v):
        if v[0] == 'p' and v[1][0] in ('h', "h'"):
            for b in self.closure(s, v[1]):
                if s.own.get(b) not in (None, 'f'):
                    s.own.pop(b, None)

    def closure(self, s, b0):
        seen = set()
        work = [b0]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            for k, v in s.mem.items():
                if k[0] == b and v[0] == 'p':
                    work.append(v[1])
        return seen

    def escape_args(self, s, i, args):
        super().escape_args(s, i, args)
        for v in args:
            if v[0] == 'p':
                self.use(s, v, i)
                self.escape(s, v)

    def on_store(self, s, p, v, i):
        # storing through memory we know nothing about: the object is handed over
        if p[0] != 'p':
            self.escape(s, v)
            return
        b = root_of(p[1])
        if b[0] in ('a', 'al', 'h', "h'", 'g'):
            return
        self.escape(s, v)
        if v[0] == 'p' and root_of(v[1])[0] == 'a' and v[1][0] == 'a':
            s.own.setdefault(v[1], 'e')

    def on_call_summary(self, s, i, t, sm, args):
        for v in args:
            if v[0] == 'p':
                self.use(s, v, i)

    def call_known(self, s, i, targets, args):
        for v in args:
            if v[0] == 'p':
                self.use(s, v, i)
        if self.dead(s):
            return []
        return super().call_known(s, i, targets, args)

    # --- pruning: a NULL pointer that the function would release counts as released
    def drop_fact(self, s, k):
        f = s.facts.pop(k)
        if f[0] == 0 and f[1] == 0 and k[0] == 'm' and self.argrooted(k):
            fs = [x for x in k[2] if isinstance(x, str)]
            if (fs[-1] if fs else '*') in self.relfields():
                s.own.setdefault(k, 'n')

    def relfields(self):
        info = self.cur
        r = getattr(info, 'rel', None)
        if r is None:
            r = set()
            fn = info.fn
            for i in fn.calls():
                ks = []
                sp = SPECS.get(i.callee) if i.callee else None
                if sp:
                    ks = list(sp['free'])
                elif i.callee in ('g_string_free',):
                    ks = [0]
                else:
                    for t in self.call_targets(fn, i):
                        sm = self.sums.get(self.fid(t))
                        if sm:
                            for o in sm.outs:
                                for b in o.freed:
                                    if b[0] == 'a':
                                        ks.append(b[1])
                for k in ks:
                    if k < len(i.a):
                        o = i.a[k]
                        for _ in range(6):
                            if o[0] == 'v' and o[1] in fn.insts:
                                ins = fn.insts[o[1]]
                                if ins.op == 'load':
                                    r.add(self.lastfield(fn, ins.a[0]))
                                    break
                                if ins.op == 'phi':
                                    for oo, _pb in ins.d['in']:
                                        if oo[0] == 'v' and oo[1] in fn.insts and fn.insts[oo[1]].op == 'load':
                                            r.add(self.lastfield(fn, fn.insts[oo[1]].a[0]))
                                    break
                                if ins.op == 'cast':
                                    o = ins.a[0]
                                    continue
                            break
            info.rel = r
        return r

    # --- leaks
    def leaked(self, s, b, nb):
        if self.nonnull(s, P(b)) is False or (nb is not None and not self.cur.canret[nb]):
            return
        ins = self.cur.fn.insts.get(b[1])
        cal = ins.callee if ins is not None and ins.callee else '?'
        tag = self.cur.tagof.get(b) if hasattr(self.cur, 'tagof') else None
        end = self.cur.fn.blocks[nb][0] if nb is not None else self.cur_exit
        self.report('leak', s, ins, 'leak|%s|%s' % (ins.infn or self.cur.fn.name if ins is not None else self.cur.fn.name, cal),
                    'in %s: object from %s (%s) is neither released nor handed over on the path reaching %s' % (
                        self.cur.fn.name, cal, ins.where() if ins is not None else '?', end.where() if end is not None else '?'))

    def on_exit(self, s, t, ret):
        self.cur_exit = t
        reach = self.reachable(s, envroots=False)
        # returned value and what it reaches
        extra = set()
        if ret is not None and ret[0] == 'p':
            extra = self.closure(s, ret[1])
            extra |= self.mclosure(s, extra)
        allr = reach | extra
        for b in list(s.own):
            if b[0] in ('h', "h'") and b not in allr:
                tag = s.own.pop(b)
                if tag != 'f':
                    self.leaked(s, b, None)
        # dangling outputs
        for b, tag in s.own.items():
            if tag != 'f' or b[0] != 'm' or depth(b) > 2 or not self.argrooted(b) or s.own.get(b[1]) == 'f' or self.freed_base(s, b[1]):
                continue
            cur = s.mem.get((b[1], b[2]))
            if cur is not None and cur != P(b):
                continue
            self.report('dangling', s, t, 'dangling|%s|%s' % (self.cur.fn.name, self.dkey(b)),
                        'in %s: %s still refers to memory that was released' % (self.cur.fn.name, self.describe(s, b)))
        for k, v in s.mem.items():
            r = root_of(k[0])
            if r[0] == 'a' and v[0] == 'p' and not v[2] and v[1][0] in ('h', "h'") and s.own.get(v[1]) == 'f' and self.freed_base(s, k[0]) is None and depth(k[0]) <= 1:
                if k[1] and isinstance(k[1][-1], str) and k[1][-1].startswith('$'):
                    continue
                self.report('dangling', s, t, 'dangling|%s|%s' % (self.cur.fn.name, self.dkey(('m', k[0], k[1]))),
                            'in %s: %s still refers to memory that was released' % (self.cur.fn.name, self.describe(s, ('m', k[0], k[1]))))
        if ret is not None and ret[0] == 'p' and s.own.get(ret[1]) == 'f':
            self.report('uaf', s, t, 'retfreed|%s' % self.cur.fn.name, 'in %s: returns memory that was released' % self.cur.fn.name)

    def mclosure(self, s, seen):
        """heap objects stored below symbols loaded from reachable objects"""
        out = set()
        for k, v in s.mem.items():
            if v[0] == 'p' and v[1][0] in ('h', "h'") and k[0][0] == 'm' and root_of(k[0]) in seen:
                out |= self.closure(s, v[1])
        return out

    def export_fact(self, s, b):
        return depth(b) <= 2 and self.argrooted(b) and s.mem.get((b[1], b[2]), P(b)) != P(b) and s.own.get(root_of(b)) != 'f'
