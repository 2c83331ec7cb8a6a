"""Analysis of every function that reads text: roots, summaries, judgements."""
import os, sys
from .absint import State, Frame, NULL, TOP, Undecided, Die, AbsInt
from .textabs import TextInt, FULL, NONUL, one
from .frontend import AnalysisError

OUT = ('char**', 'unsigned int*', 'unsigned long*', 'int*', 'unsigned short*', '_Bool*', 'char*', 'size_t*', 'long*')


def kinds(f):
    prm = f.sig[1:]
    out = []
    cursor = any(t == 'const char**' for t in prm)
    seen = False
    for k, t in enumerate(prm):
        if t == 'const char**':
            out.append('cursor' if not seen else 'out')
            seen = True
        elif t == 'struct sr_location*':
            out.append('location')
        elif t == 'struct _GString*':
            out.append('gstring')
        elif t == 'const char*':
            if not cursor and not seen:
                out.append('text')
                seen = True
            else:
                out.append('str')
        elif t in OUT and not (t == 'char*' and not cursor):
            out.append('out')
        elif t == 'char*':
            out.append('wtext')
        elif t.endswith('**'):
            out.append('out')
        elif t.startswith('fn') or '(' in t:
            out.append('fn')
        elif t.endswith('*'):
            out.append('struct')
        else:
            out.append('num')
    return out


class Summ:
    def __init__(self, f, kd):
        self.f = f
        self.kinds = kd
        self.outs = {}

    def list(self):
        return list(self.outs.values())

    def key(self):
        return frozenset((k, v['first'], tuple(sorted((v['ren'][o], v['state'].h.get((o, '#'), ())) for o in v['moved'] if o in v['ren']))) for k, v in self.outs.items())


class Engine:
    """summaries on demand, bottom up, with a fixpoint for recursion"""

    def __init__(self, P, report=None, maxsteps=3000000, maxstates=60000):
        self.P = P
        self.sums = {}
        self.active = {}
        self.report = report or (lambda f, A, base, args, kd, res: None)
        self.maxsteps = maxsteps
        self.maxstates = maxstates
        self.undecided = {}
        self.stats = {}
        self.deps = {}

    def summarisable(self, t):
        if not t.sig or '/lib/' not in t.mod.src or t.mod.src.endswith('/utils.c') or t.mod.src.endswith('/location.c'):
            return False
        if t.mod.src.endswith('/abrt.c') and 'const char**' not in t.sig[1:]:
            # what is read from a problem directory
            return t.sig[1:] and t.sig[1] == 'const char*' and len(t.sig) > 2 and all(k in ('text', 'out', 'num') for k in kinds(t)) and t.nargs == len(t.sig) - 1
        if 'const char**' not in t.sig[1:]:
            # a whole text turned into an object
            if not (t.sig[0].startswith('struct ') and t.sig[1:] and t.sig[1] == 'const char*' and 'parse' in t.name):
                return False
            return all(k in ('text', 'out', 'location', 'num') for k in kinds(t)) and t.nargs == len(t.sig) - 1
        return all(k in ('cursor', 'out', 'location', 'gstring', 'num') for k in kinds(t)) and t.nargs == len(t.sig) - 1

    def interp(self):
        A = TextInt(self.P, self.sums, maxsteps=self.maxsteps, maxstates=self.maxstates, maxresults=20000)
        A.wantsum = self.summarisable
        A.summary_of = self.summary_of
        A.hooks = self.files(A)
        return A

    def files(self, A):
        """what the problem directory holds: any file may be missing, and its text is unknown"""
        def fail(st, err, i):
            if err != NULL:
                A.store(st, err, A.owned(st, i.where()), i)
            return NULL

        def contents(s, fr, i, a):
            return ('fork*', [lambda st: fail(st, a[1], i), lambda st: A.owned(st, i.where())])

        def path(s, fr, i, a):
            return A.owned(s, i.where())

        def tofile(s, fr, i, a):
            def bad(st):
                fail(st, a[2], i)
                return ('c', 0)
            return ('fork*', [bad, lambda st: ('c', 1)])

        def core(s, fr, i, a):
            def good(st):
                o = A.new(st, 'mem', i.where(), zero=True)
                st.h[(o, ('type',))] = ('c', self.enum('SR_REPORT_CORE'))
                return ('p', o, ())
            return ('fork*', [lambda st: fail(st, a[1], i), good])
        same = lambda s, fr, i, a: a[0]
        def package(s, fr, i, a):
            return ('fork*', [lambda st: fail(st, a[1], i), lambda st: ('p', A.new(st, 'mem', i.where(), zero=True), ())])
        def hexed(s, fr, i, a):
            A.fills(s, i, a[0], None)(s)
            return a[0]
        def demangled(s, fr, i, a):
            return ('fork*', [lambda st: NULL, lambda st: A.owned(st, i.where())])
        def gdb(s, fr, i, a):
            # what the text says does not matter to the unwinder, only how many threads and frames there are
            if not fr.fn.mod.src.endswith('core_unwind.c'):
                return NotImplemented

            def trace(n, m):
                def go(st):
                    new = lambda: ('p', A.new(st, 'mem', i.where(), zero=True), ())
                    t = new()
                    at, f = t[1], 'threads'
                    for x in range(n):
                        th = new()
                        st.h[(at, (f,))] = th
                        at, f = th[1], 'next'
                        fa, ff = th[1], 'frames'
                        for y in range(m):
                            fm = new()
                            st.h[(fa, (ff,))] = fm
                            st.h[(fm[1], ('address',))] = TOP
                            st.h[(fm[1], ('signal_handler_called',))] = TOP
                            fa, ff = fm[1], 'next'
                    return t
                return go
            return ('fork*', [lambda st: NULL, trace(0, 0), trace(1, 0), trace(1, 2), trace(2, 1)])
        def frame(s, fr, i, a):
            # followed where the state of one thread is unwound; elsewhere there are too many ways to combine its results
            if 'core_hook' in s.frames[0].fn.name:
                return NotImplemented

            def made(full):
                def go(st):
                    p = ('p', A.new(st, 'mem', i.where(), zero=True), ())
                    if full:
                        for x in ('build_id', 'file_name', 'function_name'):
                            st.h[(p[1], (x,))] = A.owned(st, i.where())
                    return p
                return go
            return ('fork*', [made(False), made(True)])
        return {'resolve_frame': frame, 'get_signal_number': lambda s, fr, i, a: TOP, 'sr_gdb_stacktrace_parse': gdb, 'sr_bin2hex': hexed, 'sr_demangle_symbol': demangled, 'header_to_rpm_info': package, 'sr_report_to_json': path, 'sr_core_stacktrace_to_json': path, 'sr_rpm_package_sort': same, 'sr_rpm_package_uniq': same, 'sr_file_to_string': contents, 'sr_build_path': path, 'sr_string_to_file': tofile,
                'sr_core_stacktrace_from_json_text': core}

    def enum(self, name):
        for e in self.P.enums.values():
            if name in dict(e):
                return dict(e)[name]
        raise AnalysisError('no enumerator ' + name)

    def summary_of(self, t):
        if t.name in self.undecided:
            raise Undecided('callee')
        if t.name in self.active:
            self.active[t.name]['rec'] = True
            return self.active[t.name]['su']
        self.analyse(t)
        return self.sums.get(t.name)

    def setup(self, A, f, kd, variant=None):
        s = State()
        base = A.seg(s, (), site='the input text')
        s.objs[base]['const'] = True
        s.objs[base]['root'] = True
        args, cells = [], {}
        for k, (kind, t) in enumerate(zip(kd, f.sig[1:])):
            if kind == 'cursor':
                c = A.named(s, 'arg%d' % k, st='cell')
                s.h[(c, ())] = ('p', base, ())
                args.append(('p', c, ()))
            elif kind == 'text':
                args.append(('p', base, ()))
            elif kind == 'wtext':
                w = A.seg(s, (), site='text argument')
                args.append(('p', w, ()))
            elif kind == 'str':
                w = A.seg(s, (), site='text argument')
                s.objs[w]['const'] = True
                args.append(('p', w, ()))
            elif kind == 'out':
                c = A.named(s, 'arg%d' % k, st='cell')
                s.h[(c, ())] = NULL if 'cursor' not in kd and t.startswith('struct') and t.endswith('**') else ('unt', k)
                args.append(('p', c, ()))
            elif kind == 'location':
                c = A.named(s, 'arg%d' % k, st='cell')
                s.h[(c, ('line',))] = TOP
                s.h[(c, ('column',))] = TOP
                s.h[(c, ('message',))] = ('unt', k)
                args.append(('p', c, ()))
            elif kind == 'gstring':
                g = A.named(s, 'arg%d' % k, st='cell', kind='gs')
                b = A.named(s, 'arg%d text' % k, st='cell', kind='gs')
                s.h[(b, '$')] = (('pre',),)
                s.h[(g, ('str',))] = ('p', b, ())
                s.h[(g, ('len',))] = TOP
                args.append(('p', g, ()))
            elif kind == 'struct':
                new = self.P.funcs.get(t[len('struct '):-1] + '_new')
                if new is not None and not new.decl:
                    # an object as its constructor leaves it
                    r = [x for x in self.interp().run(new, [], s) if x[0] == 'ret']
                    if len(r) != 1:
                        raise Undecided('construct')
                    s = r[0][2]
                    args.append(r[0][1])
                    continue
                c = A.named(s, 'arg%d' % k, st='cell')
                args.append(('p', c, ()))
            elif t == 'char':
                args.append(('c', 120))             # some character to look for
            else:
                args.append(TOP)
        return s, base, args

    def analyse(self, f):
        kd = kinds(f)
        su = Summ(f, kd)
        rec = {'su': su, 'rec': False}
        self.active[f.name] = rec
        try:
            for rnd in range(6):
                before = su.key()
                A = self.interp()
                s, base, args = self.setup(A, f, kd)
                try:
                    res = A.run(f, args, s)
                except Undecided as e:
                    self.undecided[f.name] = str(e)
                    res = None
                    break
                res = [r for r in res if not (r[0] == 'infeasible')]
                new = Summ(f, kd)
                for r in res:
                    if r[0] == 'ret':
                        self.outcome(A, new, base, args, kd, r)
                su.outs = new.outs
                if not rec['rec'] or su.key() == before:
                    break
        finally:
            del self.active[f.name]
        if res is None:
            return None
        self.sums[f.name] = su
        self.stats[f.name] = (A.steps, len(res), len(su.outs), A.pruned, A.cut, A.reads)
        self.report(f, A, base, args, kd, res)
        return su

    def outcome(self, A, su, base, args, kd, r):
        _, v, s0 = r
        first = A.mask(s0, base, 0)
        s = s0.copy()
        masks = s.h.pop((base, '#'), ())
        # where in the text the results point: only whether they moved, and what is known there
        place = {}

        def cut(x):
            if isinstance(x, tuple) and x and x[0] == 'p' and x[1][0] == 'x' and (A.off(x) or 0) > 0 and s.objs[x[1]]['kind'] == 'seg':
                k = A.off(x)
                o = x[1]
                w = A.owner(s, o)
                if s.objs[w]['kind'] == 'seg':
                    if (o, k) not in place:
                        ms = masks if o == base else s.h.get((o, '#'), ())
                        d = A.dist(s, x, ('p', base, ()))
                        place[o, k] = A.seg(s, ms[k:k + 1], par=(base, 0) if d is not None else None, lo=1, site='text')
                    return ('p', place[o, k], ())
            return x
        roots = [cut(v) if v is not None else NULL]
        outs = []
        amap = {}
        for k, kind in enumerate(kd):
            a = args[k]
            outs.append((kind, a[1] if a[0] == 'p' else None))
            if a[0] == 'p':
                amap[a[1]] = k
        for key, x in list(s.h.items()):
            if key[1] in ('$', '#'):
                continue
            s.h[key] = cut(x) if key[1] and key[1][-1] in ('type', 'report_type') else self.simplify(A, s, cut(x))
        live = A.reach(s, roots + [('p', a[1], ()) for a in args if a[0] == 'p'])
        for (o, p), x in list(s.h.items()):
            if o not in live:
                continue
            if p == '#' and o != base:
                ob = s.objs[o]
                if ob['kind'] == 'mem':
                    s.h[(o, p)] = (NONUL,) if x and not x[0] & 1 else ()
                else:
                    s.h[(o, p)] = x[:1]
                    if ob.get('par'):
                        d = A.dist(s, ('p', o, ()), ('p', base, ()))
                        s.objs[o] = dict(ob, par=(base, 0) if d is not None else None, lo=min(1, d or 0))
            elif p == '$' and o[0] in ('o', 'n') and x is not None and len(x):
                body = x[1:] if x[0] == ('pre',) else x
                if body:
                    body = (('top1',),) if any(isinstance(e, int) or e[0] == 'top1' for e in body) else (('top',),)
                s.h[(o, p)] = ((('pre',),) if x[0] == ('pre',) else ()) + body
        for (o, p), x in list(s.h.items()):
            if p and p != '$' and p != '#' and p[-1] == 'len' and (o, p[:-1] + ('str',)) in s.h:
                s.h[(o, p)] = TOP
        for k, kind in enumerate(kd):
            a = args[k]
            if kind in ('cursor', 'out'):
                roots.append(s.h.get((a[1], ()), TOP))
            elif kind == 'location':
                roots.append(s.h.get((a[1], ('message',)), TOP))
            elif kind == 'gstring':
                b = s.h.get((a[1], ('str',)))
                roots.append(('txt', s.h.get((b[1], '$'))))
            else:
                roots.append(NULL)
        roots = [self.simplify(A, s, x) for x in roots]
        heap = {}
        for (o, p), x in s.h.items():
            heap.setdefault(o, []).append((p, x))
        amap2 = {o: k for o, k in amap.items() if o != base}
        key = list(roots)
        for k, kind in enumerate(kd):
            if kind == 'location' and key[k + 1][0] == 'p' and key[k + 1][1][0] == 'lit':
                key[k + 1] = ('p', ('lit', 'a message'), ())
        if su.f.sig[0] in ('int', 'unsigned int', 'long', 'unsigned long') and roots[0][0] == 'c' and roots[0][1] > 0:
            key[0] = roots[0] = ('iv', 1, None)
        # what is known about the character at a new place: kept apart only when it is a single one
        moved = {o for o in s.objs if o[0] == 'x' and o != base and s.objs[o]['kind'] == 'seg'}
        by = {}
        for o, h in heap.items():
            by[o] = [] if o in amap2 else [(p, x) if not (o in moved and p == '#') else (p, x if x and one(x[0]) else ()) for p, x in h]
        _, ren = A.ser(s, key, by)
        # outcomes are told apart by what the caller can see at once: the result, whether the
        # cursor moved, which outputs were written; of several that agree in that, the one that
        # hands over the most is kept
        def kindof(x):
            if x is None or x[0] != 'p':
                return x if x is None or x[0] in ('c', 'unt') and (x[0] == 'unt' or -1 <= x[1] <= 1) else ('num',)
            o = s.objs.get(x[1], {})
            return ('p', x[1] if x[1][0] == 'n' else 'same' if x[1] == base else 'place' if x[1] in moved else 'lit' if x[1][0] == 'lit' else o.get('kind'), bool(A.off(x)) if x[1][0] == 'x' else x[2])
        c = tuple(kindof(x) if x[0] != 'txt' else x for x in key)
        c = tuple(('num',) if k and kd[k - 1] == 'out' and su.f.sig[k] not in ('char**', 'const char**') and not su.f.sig[k].startswith('struct') and x[0] != 'p' else x for k, x in enumerate(c))
        weight = (sum(1 for o in live if s.objs.get(o, {}).get('st') == 'live'), str(sorted((str(p), str(x)[:3]) for o in live for p, x in heap.get(o, ()) if p not in ('#', '$'))))
        old = su.outs.get(c)
        if old is not None:
            first |= old['first']
            if old['weight'] >= weight:
                old['first'] = first
                self.joinmasks(old, s, moved, ren)
                return
            self.joinmasks(dict(ren=ren, moved=moved, state=s, heap=heap), old['state'], old['moved'], old['ren'])
        su.outs[c] = dict(ren=ren, moved=moved, state=s, ret=roots[0], root=base, args=amap2, outs=outs, heap=heap, first=first, weight=weight)

    def joinmasks(self, old, s, moved, ren):
        inv = {n: o for o, n in ren.items()}
        for o, n in old['ren'].items():
            if o in old['moved']:
                m = inv.get(n)
                a, b = old['state'].h.get((o, '#'), ()), s.h.get((m, '#'), ()) if m in moved else ()
                old['state'].h[(o, '#')] = (a[0] | b[0],) if a and b and a[0] | b[0] != FULL else ()
                old['heap'][o] = [(p, x) for p, x in old['heap'].get(o, ()) if p != '#'] + [('#', old['state'].h[(o, '#')])] if 'heap' in old else None

    def simplify(self, A, s, v):
        if v[0] in ('off',):
            a = A.iv(v)
            return A.mkiv(min(a[0], 1), None)
        if v[0] == 'iv' and v[1] is not None and v[2] is None and v[1] > 1:
            return ('iv', 1, None)
        if v[0] == 'c' and v[1] > 1:
            return ('iv', 1, None)
        return v
