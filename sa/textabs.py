"""Abstract interpretation of functions that read text.

A text is a sequence of positions; for each position the set of characters that can stand
there (a 256-bit set, the terminator included) is tracked and refined by the conditions the
code evaluates.  A position may be read only when every position before it is known not to
be the terminator.  Loops are generalised: a cursor that moved around a loop becomes the
start of a fresh stretch of text of which only what lies ahead is known.  Functions that
take a cursor (const char **) are analysed once, for any text, and used by their callers
through the outcomes found (summaries)."""
from functools import lru_cache
from .absint import AbsInt, State, Frame, NULL, TOP, Undecided, lit
from .frontend import AnalysisError

FULL = (1 << 256) - 1
NONUL = FULL - 1
SIGNED = tuple(c if c < 128 else c - 256 for c in range(256))


def setof(chars):
    m = 0
    for c in chars:
        m |= 1 << (c & 255)
    return m


CT = {  # glibc __ctype_b bits (little endian)
    0x100: 'upper', 0x200: 'lower', 0x400: 'alpha', 0x800: 'digit', 0x1000: 'xdigit', 0x2000: 'space',
    0x4000: 'print', 0x8000: 'graph', 0x1: 'blank', 0x2: 'cntrl', 0x4: 'punct', 0x8: 'alnum'}


def _cls(n):
    out = 0
    for c in range(128):
        ch = chr(c)
        ok = {'upper': 'A' <= ch <= 'Z', 'lower': 'a' <= ch <= 'z', 'alpha': ch.isalpha(), 'digit': ch.isdigit(),
              'xdigit': ch in '0123456789abcdefABCDEF', 'space': ch in ' \t\n\v\f\r', 'print': 32 <= c < 127,
              'graph': 32 < c < 127, 'blank': ch in ' \t', 'cntrl': c < 32 or c == 127,
              'punct': 32 < c < 127 and not ch.isalnum(), 'alnum': ch.isalnum()}[n]
        if ok:
            out |= 1 << c
    return out


CLS = {b: _cls(n) for b, n in CT.items()}


@lru_cache(maxsize=20000)
def predmask(tab, pred, const, bits, swap):
    m = (1 << bits) - 1
    out = 0
    for c in range(256):
        a, b = tab[c], const
        if pred[0] == 'u' or pred in ('eq', 'ne'):
            a, b = a & m, b & m
        if swap:
            a, b = b, a
        r = {'eq': a == b, 'ne': a != b, 'slt': a < b, 'ult': a < b, 'sgt': a > b, 'ugt': a > b,
             'sle': a <= b, 'ule': a <= b, 'sge': a >= b, 'uge': a >= b}[pred]
        if r:
            out |= 1 << c
    return out


def one(m):
    return m and m & (m - 1) == 0


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}

_live = {}


def liveness(fn):
    """registers live at the start of each block"""
    if fn in _live:
        return _live[fn]
    from .frontend import operands
    n = len(fn.blocks)
    use, dfn, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
    for b, blk in enumerate(fn.blocks):
        for i in blk:
            if i.op == 'phi':
                for o, pb in i.d['in']:
                    if o[0] == 'v':
                        phiuse[pb].add(o[1])
                dfn[b].add(i.i)
                continue
            for r in regs(i):
                if r not in dfn[b]:
                    use[b].add(r)
            dfn[b].add(i.i)
    lin, lout = [set() for _ in range(n)], [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set(phiuse[b])
            for t in fn.succs(b):
                o |= lin[t] - {i.i for i in fn.blocks[t] if i.op == 'phi'}
            i = use[b] | (o - dfn[b]) | {x.i for x in fn.blocks[b] if x.op == 'phi'}
            if o != lout[b] or i != lin[b]:
                lout[b], lin[b] = o, i
                ch = True
    _live[fn] = (lin, lout)
    return _live[fn]


def regs(i):
    from .frontend import operands
    for o in operands(i):
        st = [o]
        while st:
            x = st.pop()
            if x[0] == 'v':
                yield x[1]
            elif x[0] == 'ce':
                st.append(x[1])
                for e in x[2]:
                    if e[0] in ('p', 'i'):
                        st.append(e[1])


_liveat = {}


def live_at(fn, b, k):
    key = (fn, b, k)
    if key not in _liveat:
        lin, lout = liveness(fn)
        r = set(lout[b])
        for i in reversed(fn.blocks[b][k:]):
            r.discard(i.i)
            if i.op != 'phi':
                r |= set(regs(i))
        if k == 0 or fn.blocks[b][k - 1].op == 'phi' if k else True:
            r |= {x.i for x in fn.blocks[b] if x.op == 'phi'} & lin[b]
        _liveat[key] = r
    return _liveat[key]


class Summary:
    def __init__(self):
        self.outs = {}       # canonical form -> (value, state, facts)
        self.args = None


# calls into the libraries they belong to
LIBS = ('elf_', 'gelf_', 'dwfl_', 'rpm', 'header')
RESOURCES = ('libelf handle', 'libdwfl session', 'rpm tag', 'rpm transaction', 'rpm iterator')


class TextInt(AbsInt):
    MAXVISIT = 6
    MAXGROW = 2
    LITVISIT = 60

    def __init__(self, prog, sums=None, **kw):
        AbsInt.__init__(self, prog, **kw)
        self.sums = sums if sums is not None else {}
        self.seen = set()
        self.nseg = 0
        self.inprogress = {}
        self.cut = 0
        self.pruned = 0
        self.heads = {}
        self.reads = 0
        self.wantsum = lambda f: False
        self.applied = set()
        self.reports = {}
        self.kept = {}
        self.enumr = {}
        self.variants = {}
        self.joined = {}
        self.generic = True

    # ------------------------------------------------------------------ segments
    def seg(self, s, masks=(), par=None, lo=0, owner=None, site='text', kind='seg', st='seg'):
        s.n += 1
        oid = ('x', s.n)
        s.objs[oid] = dict(st=st, site=site, kind=kind, zero=False, owner=owner, par=par, lo=lo)
        s.h[(oid, '#')] = tuple(masks)
        return oid

    def owned(self, s, site, masks=()):
        return ('p', self.seg(s, masks, kind='mem', st='live', site=site), ())

    def owner(self, s, oid):
        o = s.objs.get(oid)
        while o is not None and o.get('owner') is not None:
            oid = o['owner']
            o = s.objs.get(oid)
        return oid

    @staticmethod
    def isx(v):
        return v[0] == 'p' and v[1][0] == 'x'

    def off(self, p):
        q = p[2]
        if not q:
            return 0
        if len(q) == 1 and isinstance(q[0], int):
            return q[0]
        return None

    def ptr(self, oid, k):
        return ('p', oid, (k,) if k else ())

    def mask(self, s, oid, k):
        t = s.h.get((oid, '#'), ())
        if k < len(t):
            return t[k]
        if t and t[-1] == 1:
            return FULL
        return FULL

    def setmask(self, s, oid, k, m):
        t = s.h.get((oid, '#'), ())
        if k >= len(t):
            t = t + (FULL,) * (k - len(t)) + (m,)
        else:
            t = t[:k] + (m,) + t[k + 1:]
        while t and t[-1] == FULL:
            t = t[:-1]
        s.h[(oid, '#')] = t

    def refine(self, s, oid, k, m):
        """-> False when contradictory"""
        x = self.mask(s, oid, k) & m
        if not x:
            return False
        self.setmask(s, oid, k, x)
        return True

    def norm(self, s, p, full=False):
        """negative offsets are moved to the stretch of text before, when the distance is known"""
        k = self.off(p)
        oid = p[1]
        while k is not None and (k < 0 or full):
            o = s.objs.get(oid)
            if o is None or not o.get('par') or o.get('exact') is None:
                break
            oid, k = o['par'][0], o['par'][1] + o['exact'] + k
        return oid, k

    def fwd(self, s, p):
        """a place some characters before a known one, as a stretch of text of its own"""
        k = self.off(p)
        if k is None or k >= 0:
            return p
        oid, k = self.norm(s, p)
        if k >= 0:
            return self.ptr(oid, k)
        o = s.objs[oid]
        par = o.get('par')
        n = self.seg(s, (NONUL,) * min(-k, 8) + (s.h.get((oid, '#'), ()) if -k <= 8 else ()), par=par, lo=max(0, o['lo'] + k), owner=o.get('owner'), site=o['site'])
        return self.ptr(n, 0)

    def ahead(self, s, p):
        """masks known from p on"""
        k = self.off(p)
        if k is None or k < 0:
            return ()
        return s.h.get((p[1], '#'), ())[k:]

    def known(self, s, p):
        """number of positions at p known not to be the terminator"""
        n = 0
        for m in self.ahead(s, p):
            if m & 1:
                break
            n += 1
        return n

    def dist(self, s, a, b):
        """lower bound of a - b when b is on the way to a, else None"""
        k, j = self.off(a), self.off(b)
        if k is None or j is None:
            return None
        oid, acc = a[1], k
        for _ in range(200):
            if oid == b[1]:
                return acc - j
            o = s.objs.get(oid)
            if o is None or not o.get('par'):
                return None
            acc += o['lo'] + o['par'][1]
            oid = o['par'][0]
        return None

    def child(self, s, p, lo, masks=()):
        """a fresh place in the same text, at least lo positions after p"""
        oid = p[1]
        return self.ptr(self.seg(s, masks, par=(oid, self.off(p) or 0), lo=lo, owner=self.owner(s, oid) if s.objs.get(self.owner(s, oid), {}).get('kind') != 'seg' else None,
                                 site=s.objs[oid]['site']), 0)

    # ------------------------------------------------------------------ basic overrides
    def check_live(self, s, p, i, what='used'):
        if self.isx(p):
            w = self.owner(s, p[1])
            o = s.objs.get(w)
            if o is not None and o['st'] == 'freed':
                self.event(s, 'uaf', i.where(), 'text from %s is %s after it was released' % (o['site'], what))
                return False
            return True
        return AbsInt.check_live(self, s, p, i, what)

    def content(self, s, p, i):
        if self.isx(p):
            out = []
            for m in self.ahead(s, p):
                if m == 1:
                    return tuple(out)
                if not one(m):
                    out.append(('top1',) if not m & 1 else ('top',))
                    return tuple(out)
                out.append(m.bit_length() - 1)
            return tuple(out) + (('top',),)
        return AbsInt.content(self, s, p, i)

    def load(self, s, p, i, ty):
        if self.isx(p):
            self.check_live(s, p, i)
            if ty != 'i8':
                return TOP
            oid, k = self.norm(s, p)
            if k is None:
                return TOP
            self.reads += 1
            if k < 0:
                o = s.objs.get(oid)
                if o is None or o.get('root') or o['kind'] == 'mem':
                    self.found(s, 'under', i, 'text is read before its first character')
                return TOP
            for j in range(k):
                m = self.mask(s, oid, j)
                if m & 1:
                    self.found(s, 'past', i, 'text is read behind its terminator')
                    if m == 1:
                        raise Die_
                    self.setmask(s, oid, j, m & NONUL)
            m = self.mask(s, oid, k)
            if one(m):
                return ('c', SIGNED[m.bit_length() - 1])
            return ('ch', oid, k, SIGNED)
        if p[0] == 'ctab':
            return ('ctp',)
        if p[0] == 'cti':
            return ('ctv', p[1], 0xffff)
        v = AbsInt.load(self, s, p, i, ty)
        if v[0] == 'chr' and v[1][0] in ('top1', 'topn'):
            return TOP
        return v

    def found(self, s, kind, i, msg):
        """reported once, not part of the state"""
        self.reports.setdefault((kind, i.where(), msg), [f.fn.name for f in s.frames])

    def event(self, s, kind, where, msg):
        if kind == 'oob':
            return
        AbsInt.event(self, s, kind, where, msg)

    def store(self, s, p, v, i, ty=None):
        if self.isx(p):
            self.check_live(s, p, i, 'written')
            oid, k = self.norm(s, p)
            if k is None:
                return
            o = s.objs.get(oid)
            root = self.owner(s, oid)
            if s.objs[root].get('const'):
                self.found(s, 'inputwrite', i, 'the input text is modified')
            if k < 0:
                if o.get('root') or o['kind'] == 'mem':
                    self.found(s, 'under', i, 'text is written before its first character')
                return
            for j in range(k):
                if self.mask(s, oid, j) == 1:
                    return
            if v[0] == 'c':
                self.setmask(s, oid, k, 1 << (v[1] & 255))
            elif v[0] == 'ch':
                m = self.mask(s, v[1], v[2])
                if v[3] is SIGNED:
                    self.setmask(s, oid, k, m)
                else:
                    self.setmask(s, oid, k, setof([v[3][c] for c in range(256) if m >> c & 1]))
            else:
                self.setmask(s, oid, k, FULL)
            return
        if p[0] == 'p' and p[2] and p[2][-1] in ('line', 'column') and v[0] in ('c', 'iv', 'off'):
            v = TOP
        if p[0] != 'p' and v[0] == 'p':
            # stored where the analysis cannot follow
            w = self.owner(s, v[1]) if v[1][0] == 'x' else v[1]
            if w in s.objs:
                s.objs[w] = dict(s.objs[w], kept=True)
        if p[0] == 'p' and p[2] == () and p[1][0] != 'n' and s.objs.get(p[1], {}).get('kind') == 'mem':
            # the elements of an array share one place: the one stored before is still there
            old = s.h.get((p[1], ()))
            if old is not None and old[0] == 'p' and old != v:
                w = self.owner(s, old[1]) if old[1][0] == 'x' else old[1]
                if w in s.objs:
                    s.objs[w] = dict(s.objs[w], kept=True)
        AbsInt.store(self, s, p, v, i, ty)

    def gep(self, s, fr, b, path):
        if b[0] == 'ctp':
            v = self.opv(s, fr, path[0][1]) if path else TOP
            return ('cti', v)
        if b[0] == 'nullp' and path and all(e[0] != 'f' for e in path):
            return b
        if b[0] == 'p' and b[1][0] == 'x':
            for e in path:
                if e[0] not in ('p', 'i'):
                    return TOP
                v = self.opv(s, fr, e[1])
                k = self.off(b)
                if v[0] == 'c':
                    b = self.ptr(b[1], k + v[1])
                elif v[0] == 'off' and v[1] == b[1] and v[2] == k:
                    b = self.ptr(v[3], v[4])
                elif v[0] == 'iv' and v[1] is not None and v[1] >= 0:
                    b = self.child(s, b, v[1])
                    s.objs[b[1]]['wild'] = True
                else:
                    b = self.child(s, b, 0)
                    s.objs[b[1]]['wild'] = True
            return b
        if b[0] == 'p' and len(path) == 1 and path[0][0] == 'p':
            v = self.opv(s, fr, path[0][1])
            if v[0] in ('iv', 'off', 't'):
                return TOP
        return AbsInt.gep(self, s, fr, b, path)

    def opv(self, s, fr, o):
        v = AbsInt.opv(self, s, fr, o)
        if o[0] == 'g' and o[1] == 'g_ascii_table':
            return ('ctab',)
        return v

    def free(self, s, v, i, kinds=('mem',)):
        if self.isx(v):
            oid = v[1]
            o = s.objs[oid]
            if o['kind'] == 'seg':
                w = self.owner(s, oid)
                if w == oid or s.objs[w]['kind'] == 'seg':
                    self.event(s, 'badfree', i.where(), 'the input text is released')
                else:
                    self.event(s, 'badfree', i.where(), 'a pointer into text from %s is released' % s.objs[w]['site'])
                return
        AbsInt.free(self, s, v, i, kinds)

    def reach(self, s, roots):
        seen = AbsInt.reach(self, s, roots)
        return seen | {self.owner(s, o) for o in seen if o[0] == 'x'}

    # ------------------------------------------------------------------ values
    @staticmethod
    def iv(v):
        if v[0] == 'c':
            return (v[1], v[1])
        if v[0] == 'iv':
            return (v[1], v[2])
        if v[0] == 'off':
            return (v[5] + 0, None)
        if v[0] == 'sg':
            return (-1 if -1 in v[1] else 0 if 0 in v[1] else 1, None) if -1 not in v[1] else None
        return None

    @staticmethod
    def mkiv(lo, hi):
        if lo is not None and lo == hi:
            return ('c', lo)
        if lo is None and hi is None:
            return TOP
        return ('iv', lo, hi)

    def icmp(self, s, pred, x, y, bits, i):
        for a, b, swap in ((x, y, False), (y, x, True)):
            if a[0] == 'ch' and b[0] == 'c':
                m = predmask(a[3], pred, b[1], bits, swap)
                cur = self.mask(s, a[1], a[2])
                if not cur & m:
                    return ('c', 0)
                if not cur & ~m & FULL:
                    return ('c', 1)
                return ('cm', a[1], a[2], m)
            if a[0] in ('cm', 'cp') and b[0] == 'c' and pred in ('eq', 'ne'):
                if (pred == 'eq') == (b[1] & 1 == 0):
                    return self.negate(a)
                return a
            if a[0] == 'ctv' and b == NULL and pred in ('eq', 'ne'):
                r = self.ctmask(s, a)
                return r if pred == 'ne' else self.negate(r)
        if x[0] == 'ch' and y[0] == 'ch':
            if x == y:
                return ('c', int(pred in ('eq', 'ule', 'uge', 'sle', 'sge')))
            if x[3] is SIGNED and y[3] is SIGNED and pred in ('eq', 'ne') and not self.mask(s, x[1], x[2]) & self.mask(s, y[1], y[2]):
                return ('c', int(pred == 'ne'))
            return TOP
        if self.isx(x) and self.isx(y):
            if x == y:
                return ('c', int(pred in ('eq', 'ule', 'uge', 'sle', 'sge')))
            a, b = self.norm(s, x, True), self.norm(s, y, True)
            if a[0] == b[0] and a[1] is not None and b[1] is not None:
                return AbsInt.icmp(self, s, {'ult': 'slt', 'ugt': 'sgt', 'ule': 'sle', 'uge': 'sge'}.get(pred, pred), ('c', a[1]), ('c', b[1]), 64, i)
            for p, q, sw in ((x, y, False), (y, x, True)):
                d = self.dist(s, p, q)
                if d is not None:
                    P = pred if not sw else {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
                    if d >= 1:
                        return ('c', int(P in ('ne', 'ugt', 'uge')))
                    if d >= 0 and P == 'uge':
                        return ('c', 1)
                    if d >= 0 and P == 'ult':
                        return ('c', 0)
                    if d < 0 and P in ('uge', 'ult'):
                        return ('cp', p[1], d, P == 'uge', 1)
                    if d < 0 and P not in ('ugt', 'ule'):
                        return TOP
                    if P in ('ugt', 'ne'):
                        return ('cp', p[1], d, True)
                    if P in ('ule', 'eq'):
                        return ('cp', p[1], d, False)
                    return TOP
            if self.owner(s, x[1]) != self.owner(s, y[1]) and pred in ('eq', 'ne') and s.objs[self.owner(s, x[1])]['kind'] != 'seg':
                return ('c', int(pred == 'ne'))
            return TOP
        if (x[0] in ('iv', 'off') or y[0] in ('iv', 'off')) and x[0] in ('iv', 'off', 'c', 'sg') and y[0] in ('iv', 'off', 'c', 'sg'):
            a, b = self.iv(x), self.iv(y)
            if a and b:
                return self.ivcmp(pred, a, b, bits)
            return TOP
        if x[0] in ('ctv', 'cti') or y[0] in ('ctv', 'cti'):
            return TOP
        if x[0] in ('unt',) or y[0] in ('unt',):
            return TOP
        return AbsInt.icmp(self, s, pred, x, y, bits, i)

    def ivcmp(self, pred, a, b, bits):
        if pred[0] == 'u':
            if a[0] is None or a[0] < 0 or b[0] is None:
                return TOP
            if b[0] == b[1] and b[0] < 0:
                b = (b[0] & ((1 << bits) - 1),) * 2
            elif b[0] < 0:
                return TOP
            pred = 's' + pred[1:]
        lo = a[0] is not None and b[1] is not None and a[0] > b[1]      # a > b for sure
        loe = a[0] is not None and b[1] is not None and a[0] >= b[1]
        hi = a[1] is not None and b[0] is not None and a[1] < b[0]
        hie = a[1] is not None and b[0] is not None and a[1] <= b[0]
        t = {'eq': (False, lo or hi), 'ne': (lo or hi, False), 'sgt': (lo, hie), 'sge': (loe, hi), 'slt': (hi, loe), 'sle': (hie, lo)}[pred]
        return ('c', 1) if t[0] else ('c', 0) if t[1] else TOP

    def ctmask(self, s, v):
        ch, bits = v[1], v[2]
        m = 0
        for b, c in CLS.items():
            if bits & b:
                m |= c
        if ch[0] == 'c':
            c = ch[1]
            if c < -128 or c > 255:
                return TOP
            return ('c', int(bool(m >> (c & 255) & 1)))
        if ch[0] != 'ch':
            return TOP
        mm = 0
        for c in range(256):
            if m >> (ch[3][c] & 255) & 1:
                mm |= 1 << c
        cur = self.mask(s, ch[1], ch[2])
        if not cur & mm:
            return ('c', 0)
        if not cur & ~mm & FULL:
            return ('c', 1)
        return ('cm', ch[1], ch[2], mm)

    def negate(self, v):
        if v[0] == 'cp':
            return v[:3] + (not v[3],) + v[4:]
        if v[0] == 'cm':
            return ('cm', v[1], v[2], FULL & ~v[3])
        if v[0] == 'c':
            return ('c', int(v[1] == 0))
        return TOP

    def truth(self, s, c, i):
        if c[0] == 'cm':
            cur = self.mask(s, c[1], c[2])
            r = []
            if cur & c[3]:
                r.append((True, (('@m', c[1], c[2]), cur & c[3])))
            if cur & ~c[3] & FULL:
                r.append((False, (('@m', c[1], c[2]), cur & ~c[3] & FULL)))
            return r
        if c[0] == 'cp':
            if len(c) > 4:
                return [(c[3], (('@gt', c[1]), -c[2])), (not c[3], (('@eq', c[1]), c[2] + 1))]
            return [(c[3], (('@gt', c[1]), 1 - c[2])), (not c[3], (('@eq', c[1]), c[2]))]
        if c[0] == 'ch':
            cur = self.mask(s, c[1], c[2])
            nz = setof([k for k in range(256) if c[3][k]]) & cur
            r = []
            if nz:
                r.append((True, (('@m', c[1], c[2]), nz)))
            if cur & ~nz:
                r.append((False, (('@m', c[1], c[2]), cur & ~nz)))
            return r
        if c[0] in ('iv', 'off'):
            r = self.ivcmp('ne', self.iv(c), (0, 0), 64)
            return [(True, None), (False, None)] if r == TOP else [(bool(r[1]), None)]
        if c[0] in ('ctv', 'cti', 'ctp', 'ctab'):
            return [(True, None), (False, None)]
        if c[0] == 'ck':
            r = []
            if c[1] in s.dec:
                return [(s.dec[c[1]], None)]
            return [(True, (c[1], True)), (False, (c[1], False))]
        return AbsInt.truth(self, s, c, i)

    def setdec(self, st, d):
        if isinstance(d[0], tuple) and d[0][0] == '@m':
            self.setmask(st, d[0][1], d[0][2], d[1])
        elif isinstance(d[0], tuple) and d[0][0] == '@gt':
            o = st.objs[d[0][1]]
            st.objs[d[0][1]] = dict(o, lo=o['lo'] + d[1])
        elif isinstance(d[0], tuple) and d[0][0] == '@eq':
            # the distance is its lower bound
            if d[1] == 0:
                o = st.objs[d[0][1]]
                st.objs[d[0][1]] = dict(o, exact=o['lo'])
        else:
            AbsInt.setdec(self, st, d)

    def cast(self, s, i, v):
        k = i.d['kind']
        if v[0] == 'ch':
            if k in ('sext', 'bitcast'):
                return v
            if k == 'zext':
                m = (1 << self.bits(i.d['ot'])) - 1
                return ('ch', v[1], v[2], tuple(x & m for x in v[3]))
            if k == 'trunc':
                n = self.bits(i.t)
                t = tuple(self.wrap(x, n) for x in v[3])
                return ('ch', v[1], v[2], SIGNED if t == SIGNED else t)
            return TOP
        if v[0] in ('cm', 'cp', 'ctv', 'iv', 'off', 'ctp', 'ctab', 'cti', 'unt', 'ck'):
            return v
        return AbsInt.cast(self, s, i, v)

    def bin(self, s, i, x, y):
        k = i.d['kind']
        if x[0] == 'ch' and y[0] == 'c' or y[0] == 'ch' and x[0] == 'c':
            ch, c, sw = (x, y[1], False) if x[0] == 'ch' else (y, x[1], True)
            n = self.bits(i.t)
            ops = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b,
                   'xor': lambda a, b: a ^ b, 'mul': lambda a, b: a * b, 'shl': lambda a, b: a << (b & 63), 'ashr': lambda a, b: a >> (b & 63),
                   'lshr': lambda a, b: (a & ((1 << n) - 1)) >> (b & 63)}
            if k in ops and abs(c) < 1 << 40:
                return ('ch', ch[1], ch[2], tuple(self.wrap(ops[k](c, a) if sw else ops[k](a, c), n) for a in ch[3]))
            return TOP
        if x[0] == 'ctv' and y[0] == 'c' and k == 'and':
            return ('ctv', x[1], x[2] & y[1])
        if y[0] == 'ctv' and x[0] == 'c' and k == 'and':
            return ('ctv', y[1], y[2] & x[1])
        if x[0] in ('cm', 'c') and y[0] in ('cm', 'c') and (x[0] == 'cm' or y[0] == 'cm'):
            c, o = (x, y) if x[0] == 'cm' else (y, x)
            if o[0] == 'c':
                if k == 'xor' and o[1] & 1:
                    return self.negate(c)
                if k == 'and':
                    return c if o[1] & 1 else ('c', 0)
                if k in ('or', 'xor'):
                    return c if not o[1] & 1 else ('c', 1)
            elif c[1:3] == o[1:3]:
                if k == 'and':
                    return ('cm', c[1], c[2], c[3] & o[3])
                if k == 'or':
                    return ('cm', c[1], c[2], c[3] | o[3])
            return TOP
        if self.isx(x) and self.isx(y) and k == 'sub':
            a, b = self.norm(s, x), self.norm(s, y)
            if a[0] == b[0] and a[1] is not None and b[1] is not None:
                return ('c', a[1] - b[1])
            d = self.dist(s, x, y)
            if d is not None:
                return ('off', y[1], self.off(y), x[1], self.off(x), max(0, d))
            d = self.dist(s, y, x)
            if d is not None:
                return ('iv', None, -max(0, d))
            return TOP
        if x[0] in ('iv', 'off') or y[0] in ('iv', 'off'):
            if k == 'add' and (x[0] == 'off' and y[0] == 'c' or y[0] == 'off' and x[0] == 'c'):
                o, c = (x, y[1]) if x[0] == 'off' else (y, x[1])
                if c >= 0 or o[5] + c >= 0:
                    return ('off', o[1], o[2], o[3], o[4] + c, max(0, o[5] + c))
            if k == 'sub' and x[0] == 'off' and y[0] == 'c':
                if x[5] - y[1] >= 0:
                    return ('off', x[1], x[2], x[3], x[4] - y[1], x[5] - y[1])
            a, b = self.iv(x), self.iv(y)
            if a and b:
                if k == 'add':
                    return self.mkiv(None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])
                if k == 'sub':
                    return self.mkiv(None if a[0] is None or b[1] is None else a[0] - b[1], None if a[1] is None or b[0] is None else a[1] - b[0])
                if k == 'mul' and b[0] == b[1] and b[0] is not None and b[0] > 0:
                    return self.mkiv(None if a[0] is None else a[0] * b[0], None if a[1] is None else a[1] * b[0])
            return TOP
        for v in (x, y):
            if v[0] in ('ch', 'cm', 'ctv', 'cti', 'p', 'unt') and (x[0] != 'p' or y[0] != 'p'):
                return TOP if not (k in ('add', 'or', 'sub') and y == NULL) else x
        return AbsInt.bin(self, s, i, x, y)

    def step(self, s, fr, i):
        op = i.op
        if op == 'load':
            p = self.opv(s, fr, i.a[0])
            if p[0] in ('ctab', 'cti'):
                fr.env[i.i] = self.load(s, p, i, i.t)
                fr.k += 1
                return None
        if op == 'switch':
            c = self.opv(s, fr, i.a[0])
            if c[0] == 'ch':
                cur = self.mask(s, c[1], c[2])
                rest = cur
                by = {}
                for v, b in i.d['cases']:
                    m = predmask(c[3], 'eq', v, self.bits(i.d.get('ot') or 'i32'), False) & cur
                    rest &= ~m
                    if m:
                        by[b] = by.get(b, 0) | m
                alts = [(b, (('@m', c[1], c[2]), m)) for b, m in by.items()]
                if rest:
                    alts.append((i.d['default'], (('@m', c[1], c[2]), rest)))
                return self.branch(s, alts)
            if c[0] in ('iv', 'off'):
                return self.branch(s, [(b, None) for b in sorted(set([i.d['default']] + [x[1] for x in i.d['cases']]))])
        return AbsInt.step(self, s, fr, i)

    # ------------------------------------------------------------------ loops
    # NULL is returned as such, not as the value of a variable
    NULLRET = ('n', 'NULL is returned')

    def goto(self, s, fr, b):
        if len(s.frames) == 1:
            bb = fr.fn.blocks[b]
            r = bb[-1]
            if r.op == 'ret' and r.a and r.a[0][0] == 'v' and bb[0].op == 'phi':
                for q in bb:
                    if q.op == 'phi' and q.i == r.a[0][1] and any(o[0] == 'n' and at == fr.b for o, at in q.d['in']):
                        if self.NULLRET not in s.objs:
                            self.named(s, self.NULLRET[1], st='cell')
                        s.h[(self.NULLRET, ())] = ('c', 1)
        back = b <= fr.b
        if not back:
            AbsInt.goto(self, s, fr, b)
            if len(s.frames) <= self.JOINDEPTH and b in self.joins(fr.fn):
                self.dedupe(s, fr, b)
            return
        # the base class's repetition test is not wanted here
        n = s.back
        s.back = 0
        AbsInt.goto(self, s, fr, b)
        s.back = n + 1
        self.head(s, fr, b)

    JOINDEPTH = 1
    _joins = {}

    def joins(self, fn):
        if fn not in self._joins:
            n = {}
            for b in range(len(fn.blocks)):
                for t in set(fn.succs(b)):
                    n[t] = n.get(t, 0) + 1
            self._joins[fn] = {b for b, k in n.items() if k > 1}
        return self._joins[fn]

    def phis(self, fr, b):
        return [i.i for i in fr.fn.blocks[b] if i.op == 'phi']

    def head(self, s, fr, b):
        depth = len(s.frames)
        key = (depth, fr.uid(), b)
        rec = s.dec.get(('@head', key))
        lv = live_at(fr.fn, fr.b, fr.k)
        env = {r: fr.env[r] for r in lv if r in fr.env}
        heap = sum(1 for o in s.objs.values() if o['st'] == 'live' and o['kind'] == 'mem' and not o.get('local'))
        if rec is None:
            s.dec[('@head', key)] = (1, env, self.hsnap(s), env)
            s.dec[('@headg', key)] = (heap, 0)
            self.dedupe(s, fr, b)
            return
        top, grew = s.dec.get(('@headg', key), (heap, 0))
        if heap > top:
            grew += 1
            if grew > self.MAXGROW:
                self.cut += 1
                raise Die_
            s.dec[('@headg', key)] = (heap, grew)
        visits, env0, h0, envp = rec
        visits += 1
        txt, ints, lits = [], [], False
        for r, v in env.items():
            o = env0.get(r)
            if o is None or o == v:
                continue
            if v[0] == 'p' and v[1][0] == 'x' or o[0] == 'p' and o[1][0] == 'x':
                txt.append(('r', r, o, v))
            elif v[0] in ('c', 'iv', 'off', 'sg') and o[0] in ('c', 'iv', 'off', 'sg'):
                ints.append(('r', r, o, v))
            elif v[0] == 'p' and o[0] == 'p' and (v[1][0] == 'lit' or v[1] == o[1]):
                lits = True
        cells = []
        for k2, v in s.h.items():
            if k2[1] in ('#', '$'):
                continue
            o = h0.get(k2)
            if o is None or o == v or not isinstance(v, tuple):
                continue
            if v[0] == 'p' and v[1][0] == 'x' or o[0] == 'p' and o[1][0] == 'x':
                txt.append(('h', k2, o, v))
            elif v[0] in ('c', 'iv', 'off', 'sg') and o[0] in ('c', 'iv', 'off', 'sg') and not (k2[1] and k2[1][-1] == 'len'):
                ints.append(('h', k2, o, v))
        if lits and visits < self.LITVISIT:
            s.dec[('@head', key)] = (visits, env0, h0, env)
            return
        if not txt and visits < self.LITVISIT:
            s.dec[('@head', key)] = (visits, env0, h0, env)
            if self.dedupe(s, fr, b):
                return
            return
        if visits > self.MAXVISIT + (self.LITVISIT if lits else 0) or visits > 2 * self.LITVISIT:
            self.cut += 1
            raise Die_
        # generalise
        ren = {}
        self.generalise(s, fr, txt, ren)
        if visits >= 3:
            for w in ints:
                v, o = w[3], w[2]
                a, c = self.iv(v), self.iv(o)
                nv = TOP
                if a and c:
                    if a[0] is not None and c[0] is not None and a[0] > c[0]:
                        nv = ('iv', c[0] + 1, None)
                    elif a[1] is not None and c[1] is not None and a[1] < c[1]:
                        nv = ('iv', None, c[1] - 1)
                self.put(s, fr, w, nv)
        if visits >= 3:
            for k2, c in list(s.h.items()):
                if k2[1] == '$' and k2[0][0] == 'o' and c != h0.get(k2) and len(c) > 1:
                    s.h[k2] = (('top1',) if any(isinstance(e, int) or e[0] == 'top1' for e in c) else ('top',),)
                    if ('pre',) in c:
                        s.h[k2] = (('pre',),) + ((('top1',),) if any(isinstance(e, int) or e[0] == 'top1' for e in c) else (('top',),))
                    for k3, v3 in list(s.h.items()):
                        if v3 == ('p', k2[0], ()) and k3[1] and k3[1][-1] == 'str':
                            s.h[(k3[0], k3[1][:-1] + ('len',))] = self.clen(s.h[k2])
        s.dec[('@head', key)] = (visits, env0, h0, env)
        self.dedupe(s, fr, b)

    def hsnap(self, s):
        return dict(s.h)

    def put(self, s, fr, w, v):
        if w[0] == 'r':
            fr.env[w[1]] = v
        else:
            s.h[w[1]] = v

    def generalise(self, s, fr, txt, ren):
        groups = {}
        for w in txt:
            v = w[3]
            if not (v[0] == 'p' and v[1][0] == 'x') or self.off(v) is None:
                continue
            if w[2] == NULL or not self.isx(w[2]):
                pass
            groups.setdefault(v[1], []).append(w)
        for oid, ws in sorted(groups.items()):
            o = s.objs[oid]
            if o['kind'] == 'mem' and all(self.off(w[3]) == 0 for w in ws):
                continue          # a freshly allocated text each time round
            offs = sorted({self.off(w[3]) for w in ws})
            if offs[0] < 0:
                ws2 = {}
                for w in ws:
                    k = self.off(w[3])
                    if k < 0:
                        if k not in ws2:
                            ow = self.owner(s, oid)
                            lo = max(0, o['lo'] + k)
                            ws2[k] = self.ptr(self.seg(s, (NONUL,), par=o.get('par'), lo=min(lo, 1), owner=ow if s.objs[ow]['kind'] != 'seg' else None, site=o['site']), 0)
                        self.put(s, fr, w, ws2[k])
                continue
            prev = None
            new = {}
            for k in offs:
                if prev is not None and k - prev <= 2:
                    new[k] = self.ptr(new[base][1], k - base)
                    prev = k
                    continue
                if prev is None:
                    w0 = [w for w in ws if self.off(w[3]) == k]
                    par, lo = None, 0
                    for w in w0:
                        d = self.dist(s, w[3], w[2]) if self.isx(w[2]) else None
                        if d is not None:
                            par, lo = (w[2][1], self.off(w[2])), min(1, max(0, d))
                            break
                    if par is None:
                        r, acc = oid, k
                        while s.objs[r].get('par'):
                            r = s.objs[r]['par'][0]
                        par, lo = (r, 0), 0
                        d = self.dist(s, self.ptr(oid, k), self.ptr(r, 0))
                        lo = min(1, d or 0)
                else:
                    par, lo = (new[base][1], prev - base), 1
                ow = self.owner(s, oid)
                n = self.seg(s, s.h.get((oid, '#'), ())[k:], par=par, lo=lo, owner=ow if s.objs[ow]['kind'] != 'seg' else None, site=o['site'])
                new[k] = self.ptr(n, 0)
                base = prev = k
            for w in ws:
                self.put(s, fr, w, new[self.off(w[3])])

    # ------------------------------------------------------------------ equality of states
    def ser(self, s, roots, byoid=None, near=9):
        ren = {}
        queue = []

        def sv(v):
            if not isinstance(v, tuple) or not v:
                return v
            t = v[0]
            if t == 'p':
                return ('p', so(v[1]), v[2])
            if t in ('ch', 'cm'):
                return (t, so(v[1])) + v[2:]
            if t == 'off':
                return (t, so(v[1]), v[2], so(v[3])) + v[4:]
            if t == 'ctv' or t == 'cti':
                return (t, sv(v[1])) + v[2:]
            return v

        def so(oid):
            if oid[0] in ('o', 'x'):
                if oid not in ren:
                    ren[oid] = len(ren)
                    queue.append(oid)
                return ('#', ren[oid])
            if oid[0] in ('n', 'g') and oid not in ren:
                ren[oid] = oid
                queue.append(oid)
            return oid
        if byoid is None:
            byoid = {}
            for k, v in s.h.items():
                byoid.setdefault(k[0], []).append((k[1], v))
        out = [tuple(sv(r) for r in roots)]
        q = 0
        while q < len(queue):
            oid = queue[q]
            q += 1
            o = s.objs.get(oid)
            d = []
            for p, v in sorted(byoid.get(oid, ()), key=lambda z: str(z[0])):
                d.append((p, v if p in ('$', '#') else sv(v)))
            head = None
            if o is not None:
                head = (o['st'], o['site'] if oid[0] == 'o' else o['kind'], o['zero'])
                if oid[0] == 'x':
                    par = o.get('par')
                    head += ((so(par[0]), par[1]) if par else None, min(o['lo'], near), o.get('exact'), so(o['owner']) if o.get('owner') else None)
            out.append((ren[oid], head, tuple(d)))
        return tuple(out), ren

    VARIANTS = 2

    def rebase(self, s, gap=2):
        """places well apart in one stretch of text become stretches of their own"""
        for f in s.frames:
            lv = live_at(f.fn, f.b, f.k)
            for r in [r for r in f.env if r not in lv]:
                del f.env[r]
        use = {}

        def note(v):
            if isinstance(v, tuple) and v:
                if v[0] == 'p' and v[1][0] == 'x':
                    use.setdefault(v[1], set()).add(self.off(v))
                elif v[0] in ('ch', 'cm'):
                    use.setdefault(v[1], set()).add(v[2])
                elif v[0] in ('off',):
                    use.setdefault(v[1], set()).add(v[2])
                    use.setdefault(v[3], set()).add(v[4])
                elif v[0] not in ('c', 'top', 'iv', 'p', 'unt', 'fn', 'undef'):
                    for e in v:
                        note(e)
        for f in s.frames:
            for v in f.env.values():
                note(v)
        for k, v in s.h.items():
            if k[1] not in ('#', '$'):
                note(v)
        new = {}
        for oid, offs in use.items():
            if None in offs or max(offs) <= gap or s.objs[oid]['kind'] != 'seg' or min(offs) < 0:
                continue
            offs = sorted(offs)
            base, prev, cur = 0, offs[0], oid
            if prev > gap and not s.objs[oid].get('root'):
                prev = -9
            m = {}
            for k in offs:
                if k - prev > gap:
                    ow = self.owner(s, oid)
                    lo = k - base
                    cur = self.seg(s, s.h.get((oid, '#'), ())[k:], par=(cur, 0), lo=min(lo, 4), owner=ow if s.objs[ow]['kind'] != 'seg' else None, site=s.objs[oid]['site'])
                    base = k
                m[k] = (cur, k - base)
                prev = k
            if cur != oid:
                new[oid] = m
        if not new:
            return

        def sub(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == 'p':
                if v[1] in new and self.off(v) in new[v[1]]:
                    o, k = new[v[1]][self.off(v)]
                    return self.ptr(o, k)
                return v
            if v[0] in ('ch', 'cm'):
                if v[1] in new:
                    o, k = new[v[1]][v[2]]
                    return (v[0], o, k) + v[3:]
                return v
            if v[0] == 'off':
                if v[1] in new or v[3] in new:
                    a = new[v[1]][v[2]] if v[1] in new else v[1:3]
                    b = new[v[3]][v[4]] if v[3] in new else v[3:5]
                    return ('off',) + tuple(a) + tuple(b) + v[5:]
                return v
            if v[0] in ('c', 'top', 'iv', 'unt', 'fn', 'undef'):
                return v
            return tuple(sub(e) if isinstance(e, tuple) else e for e in v)
        for f in s.frames:
            for r, v in f.env.items():
                f.env[r] = sub(v)
        for k, v in list(s.h.items()):
            if k[1] not in ('#', '$'):
                s.h[k] = sub(v)
        for k, v in list(s.dec.items()):
            pass

    def compress(self, s, roots, byoid):
        """places between live ones that nothing refers to any more are forgotten"""
        live = set()
        offs = {}
        todo = list(roots)
        while todo:
            v = todo.pop()
            if not isinstance(v, tuple) or not v:
                continue
            if v[0] == 'p' and v[1][0] == 'x':
                offs.setdefault(v[1], set()).add(self.off(v) or 0)
            for e in v:
                if isinstance(e, tuple) and e and e[0] in ('o', 'x', 'n', 'g') and len(e) >= 2 and e not in live:
                    live.add(e)
                    todo += [x for p, x in byoid.get(e, ()) if p not in ('#', '$')]
                    o = s.objs.get(e)
                    if o and o.get('owner'):
                        live.add(o['owner'])
                elif isinstance(e, tuple) and e and isinstance(e[0], str) and e[0] in ('p', 'ch', 'cm', 'off'):
                    todo.append(e)
        for oid in live:
            o = s.objs.get(oid)
            if oid[0] != 'x' or not o or not o.get('par'):
                continue
            q, k = o['par']
            lo, exact = o['lo'], o.get('exact')
            ch = False
            while q not in live and s.objs[q].get('par'):
                r = s.objs[q]
                lo += k + r['lo']
                exact = exact + k + r['exact'] if exact is not None and r.get('exact') is not None else None
                q, k = r['par']
                ch = True
            if k:
                j = max([x for x in offs.get(q, ()) if 0 <= x <= k], default=0)
                if j != k:
                    lo += k - j
                    exact = exact + k - j if exact is not None else None
                    k, ch = j, True
            if lo > 4 and exact is None:
                lo, ch = 4, True
            if ch:
                o = dict(o, par=(q, k), lo=lo)
                if exact is None:
                    o.pop('exact', None)
                else:
                    o['exact'] = exact
                s.objs[oid] = o

    def dedupe(self, s, fr, b):
        """abandon a state already seen; generalise when many states differ in counters or in
        what is known about single characters only"""
        roots = []
        shape = []
        tags = set()
        at = hash(tuple((f.fn.name, f.b, f.k) for f in s.frames))
        busy = self.kept.get(at, 0)
        self.rebase(s, 2 if busy < self.BUSY else 0)
        for f in s.frames:
            lv = sorted((r for r in live_at(f.fn, f.b, f.k) if r in f.env), key=str)
            shape.append((f.fn.name, f.b, f.k, f.ret, tuple(lv)))
            en = self.enumregs(f.fn)
            tags |= {len(roots) + k for k, r in enumerate(lv) if r in en}
            roots += [f.env[r] for r in lv]
        byoid = {}
        for k, v in s.h.items():
            byoid.setdefault(k[0], []).append((k[1], v))
        # named objects (arguments) and globals are always of interest
        named = [('p', o, ()) for o in sorted(byoid, key=str) if o[0] in ('n', 'g')]
        self.compress(s, roots + named, byoid)
        c, ren = self.ser(s, roots + named, byoid)
        lost = tuple(sorted({o['site'] for oid, o in s.objs.items() if o['st'] == 'live' and o['kind'] in ('mem', 'gstring') and oid not in ren and not o.get('kept')}))
        dec = tuple(sorted((k, v) for k, v in s.dec.items() if not (isinstance(k, tuple) and str(k[0]).startswith('@'))))
        ev = tuple(sorted(s.ev))
        rest = (tuple(shape), lost, dec, ev)
        key = hash((rest, c))
        if key in self.seen:
            self.pruned += 1
            raise Die_
        self.seen.add(key)
        self.kept[at] = busy + 1
        # the same state apart from counters and character sets, and, when there are many of
        # those, apart from the numbers held in memory
        for level in (1, 2):
            ints = []
            byg = {}
            for o, items in byoid.items():
                if o not in ren:
                    continue
                l = []
                for p, v in items:
                    if p == '#':
                        pass
                    elif p == '$' and level == 2 and o[0] == 'o' and v[:1] != (('pre',),):
                        ints.append((o, p))
                        l.append((p, ('str',)))
                    elif p != '$' and not self.tag(p) and (self.counter(v) or level == 2 and v[0] in ('c', 'top', 'iv', 'off')):
                        ints.append((o, p))
                        if not (level == 2 and s.objs[o]['zero']):
                            l.append((p, ('int',)))
                    else:
                        l.append((p, v))
                byg[o] = l
            rg = [('int',) if self.counter(r) and k not in tags else r for k, r in enumerate(roots)]
            g, ren_ = self.ser(s, rg + named, byg, 1 if level == 2 else 9)
            gk = hash((rest, g, level))
            n = self.variants.get(gk, 0) + 1
            self.variants[gk] = n
            if level == 1:
                pass
            elif n > self.VARIANTS2:
                self.join(s, gk, n, ren_, ints, self.VARIANTS2)
                self.cap(s, rest, roots, named, byoid, ren)
                return False
            elif self.variants[lk] > self.VARIANTS:
                self.join(s, lk, self.variants[lk], lren, lints, self.VARIANTS)
                return False
            if level == 1:
                lk, lren, lints = gk, ren_, ints
        return False

    def enumregs(self, fn):
        """registers that receive an enumerator from a call"""
        r = self.enumr.get(fn)
        if r is None:
            r = self.enumr[fn] = set()
            for b in fn.blocks:
                for i in b:
                    t = self.prog.resolve(i.callee, fn.mod) if i.op == 'call' and i.callee else None
                    if t is not None and t.sig and t.sig[0].startswith('enum '):
                        r.add(i.i)
        return r

    @staticmethod
    def tag(p):
        """says which of several things an object is; decides what is called on it"""
        return bool(p) and p[-1] in ('type', 'report_type')

    VARIANTS2 = 6
    BUSY = 150
    CAP = 24

    def cap(self, s, rest, roots, named, byoid, ren):
        """no more than so many states that differ only in which texts are there"""
        byg = {}
        for o, items in byoid.items():
            if o in ren:
                byg[o] = [(p, ('leaf',) if p not in ('#', '$') and not self.tag(p) and (v[0] in ('c', 'top', 'iv', 'off') or v[0] == 'p' and v[1][0] == 'x' and s.objs[v[1]]['kind'] == 'mem') else v) for p, v in items if p not in ('#', '$') and not (s.objs.get(o, {}).get('zero') and v[0] in ('c', 'top', 'iv', 'off'))]
        g, _ = self.ser(s, [('leaf',) if r[0] in ('c', 'top', 'iv', 'off') else r for r in roots] + named, byg)
        k = hash((rest[0], rest[2], g, 3))
        n = self.variants.get(k, 0) + 1
        self.variants[k] = n
        if n > self.CAP:
            self.cut += 1
            raise Die_

    def join(self, s, gk, n, ren, ints, lim):
        """the join of all that came here"""
        segs = sorted((ren[o], o) for o in ren if o[0] == 'x' and isinstance(ren[o], int))
        back = {n: o for o, n in ren.items()}
        hv = {(ren[o], p): s.h[(o, p)] for o, p in ints if o in ren}
        er = [(f, r) for f in s.frames for r in sorted((r for r in live_at(f.fn, f.b, f.k) if r in f.env), key=str) if self.counter(f.env[r]) and r not in self.enumregs(f.fn)]
        cur = ([s.h.get((o, '#'), ()) for _, o in segs], hv, [f.env[r] for f, r in er], [s.objs[o]['lo'] for _, o in segs])
        old = self.joined.get(gk)
        if old is not None:
            z = ('c', 0)
            cur = ([self.union(x, y, n > 2 * lim) for x, y in zip(cur[0], old[0])],
                   {k: self.joinv(hv.get(k, z), old[1].get(k, z)) for k in set(hv) | set(old[1])}, [self.joinv(x, y) for x, y in zip(cur[2], old[2])],
                   [min(x, y) for x, y in zip(cur[3], old[3])])
            if cur == old:
                self.pruned += 1
                raise Die_
        self.joined[gk] = cur
        for (_, o), m in zip(segs, cur[0]):
            s.h[(o, '#')] = m
        for (_, o), l in zip(segs, cur[3]):
            if s.objs[o]['lo'] != l:
                s.objs[o] = dict(s.objs[o], lo=l)
        for (o, p), v in cur[1].items():
            s.h[(back[o], p)] = v
        for (f, r), v in zip(er, cur[2]):
            f.env[r] = v

    def joinv(self, x, y):
        if x == y:
            return x
        if x and isinstance(x[0], (tuple, int)) or y and isinstance(y[0], (tuple, int)):
            ne = all(any(isinstance(e, int) or e[0] == 'top1' for e in z) for z in (x, y))
            return (('top1',) if ne else ('top',),)
        a, b = self.anyint(x), self.anyint(y)
        return a if a == b else TOP

    @staticmethod
    def union(x, y, wide=False):
        out = [a | b if a == b or not wide else FULL if (a | b) & 1 else NONUL for a, b in zip(x, y)]
        while out and out[-1] == FULL:
            out.pop()
        return tuple(out)

    def counter(self, v):
        return isinstance(v, tuple) and v and (v[0] == 'c' and not -1 <= v[1] <= 1 or v[0] in ('iv', 'off'))

    def counter2(self, v):
        return isinstance(v, tuple) and v and v[0] in ('c', 'iv', 'top')

    def anyint(self, v):
        a = self.iv(v)
        if a and a[0] is not None and a[0] >= 1:
            return ('iv', 1, None)
        if a and a[0] is not None and a[0] >= 0:
            return ('iv', 0, None)
        return TOP

    def coarse(self, t):
        out = []
        for m in t:
            out.append(m if one(m) else FULL if m & 1 else NONUL)
        while out and out[-1] == FULL:
            out.pop()
        return tuple(out)

    def on_return(self, s, fr, v):
        u = fr.uid()
        dead = [k for k in s.dec if isinstance(k, tuple) and k[0] in ('@head', '@headg') and k[1][1] == u]
        for k in dead:
            del s.dec[k]
        top = s.frames[-1]
        if isinstance(fr.ret, tuple):
            s.h[(fr.ret[1], ('result',))] = top.env.pop(fr.ret, TOP)
        # the locals of the function that returned
        if len(s.frames) <= self.DEDEPTH:
            self.dedupe(s, top, top.b)
    DEDEPTH = 3

    # ------------------------------------------------------------------ text functions
    def chelem(self, s, v):
        if v[0] == 'c':
            return v[1]
        if v[0] == 'ch':
            return ('top1',) if not self.mask(s, v[1], v[2]) & 1 else ('top',)
        return ('top',)

    def clen(self, c):
        lo, exact = 0, True
        for e in c:
            if isinstance(e, int):
                lo += 1
            elif e[0] == 'top1':
                lo += 1
                exact = False
            else:
                exact = False
        return ('c', lo) if exact else ('iv', lo, None)

    def gput(self, s, p, i, add, pos=None):
        AbsInt.gput(self, s, p, i, add, pos)
        b = self.gs(s, p, i)
        if b is not None:
            c = s.h.get((b[1], '$'), ())
            if len(c) > 40 and any(not isinstance(e, int) for e in c):
                pre = (('pre',),) if ('pre',) in c else ()
                c = pre + (('top1',),)
                s.h[(b[1], '$')] = c
            s.h[(p[1], p[2] + ('len',))] = self.clen(c)

    def x_g_string_append_c(self, s, fr, i, a):
        e = self.chelem(s, a[1])
        if a[0] == NULL:
            return ('die', 'null', i.where())
        self.gput(s, a[0], i, lambda c: c + (e,))
        return a[0]

    def x_g_string_append_len(self, s, fr, i, a):
        t = self.content(s, a[1], i)
        if t is not None and a[2][0] == 'c' and all(isinstance(e, int) for e in t):
            t = t[:a[2][1]] if a[2][1] >= 0 else t
        else:
            v = self.iv(a[2])
            t = (('top1',),) if v and v[0] is not None and v[0] >= 1 else (('top',),)
        self.gput(s, a[0], i, lambda c: c + t)
        return a[0]

    def x_g_string_truncate(self, s, fr, i, a):
        n = a[1]
        self.gput(s, a[0], i, lambda c: c[:n[1]] if n[0] == 'c' and all(isinstance(e, int) for e in c[:n[1]]) else (('top',),))
        return a[0]

    def x_g_string_erase(self, s, fr, i, a):
        pos, n = a[1], a[2]

        def f(c):
            if pos[0] == 'c' and n[0] == 'c' and all(isinstance(e, int) for e in c[:pos[1]]):
                if n[1] < 0:
                    return c[:pos[1]]
                if all(isinstance(e, int) for e in c[:pos[1] + n[1]]):
                    return c[:pos[1]] + c[pos[1] + n[1]:]
            return (('top',),)
        self.gput(s, a[0], i, f)
        return a[0]

    def x_g_string_insert_c(self, s, fr, i, a):
        self.gput(s, a[0], i, lambda c: (('top1',),))
        return a[0]

    def nulldie(self, a, i, *ks):
        for k in ks:
            if a[k] == NULL or a[k][0] == 'nullp':
                return ('die', 'null', i.where())

    def literal(self, s, p, i):
        """content as a string of known characters, or None"""
        if p[0] != 'p':
            return None
        c = self.content(s, p, i)
        if c is None or any(not isinstance(e, int) for e in c):
            return None
        return c

    def x_strlen(self, s, fr, i, a):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0)
        if d:
            return d
        if self.isx(a[0]):
            self.check_live(s, a[0], i)
            c = self.literal(s, a[0], i)
            if c is not None:
                return ('c', len(c))
            return self.scan(s, i, a[0], 1, a[0], wantoff=True)
        c = self.content(s, a[0], i)
        if c is None:
            return ('iv', 0, None)
        return self.clen(c)
    x_g_utf8_strlen = x_strlen

    def scan(self, s, i, p, stop, base, wantoff=False, nulok=True):
        """the first position at or after p whose character is in the set `stop`;
        the terminator stops as well.  Alternatives: it is here; it is further on"""
        k = self.off(p)
        ms = self.ahead(s, p)
        stop |= 1
        alts = []
        n = 0
        pre = []
        while True:
            m = ms[n] if n < len(ms) else FULL
            here = m & stop
            if here:
                alts.append(('at', n, here, tuple(pre)))
            if not m & ~stop & FULL:
                break
            pre.append(m & ~stop & FULL)
            n += 1
            if n >= max(1, len(ms)):
                alts.append(('far', n, None, tuple(pre)))
                break
        oid = p[1]

        def mk(alt):
            def go(st):
                for j, m in enumerate(alt[3]):
                    self.setmask(st, oid, k + j, m)
                if alt[0] == 'at':
                    self.setmask(st, oid, k + alt[1], alt[2])
                    r = self.ptr(oid, k + alt[1])
                    return ('c', alt[1]) if wantoff else r
                q = self.child(st, self.ptr(oid, k + n), 0, (stop,))
                st.objs[q[1]]['upto'] = stop
                # the distance from p
                if wantoff:
                    return ('off', oid, k, q[1], 0, n)
                return q
            return go
        return ('fork*', [mk(x) for x in alts])

    def find_(self, s, i, p, chars, rev=False, end=False):
        """strchr and relatives on a text: set of characters looked for (one)"""
        k = self.off(p)
        if rev:
            def none(st):
                for j, m in enumerate(self.ahead(st, p)):
                    if m & chars and j == 0:
                        x = m & ~chars
                        if x:
                            self.setmask(st, p[1], k, x)
                        else:
                            raise Die_
                return NULL

            def there(st):
                if not self.ahead(st, p) or self.mask(st, p[1], k) == 1:
                    if self.mask(st, p[1], k) == 1:
                        raise Die_
                self.refine(st, p[1], k, NONUL)
                return self.child(st, p, 0, (chars,))
            if self.mask(s, p[1], k) == 1:
                return NULL
            ms = self.ahead(s, p)
            sure = False
            for m in ms:
                if m & ~chars == 0 and m:
                    sure = True
                if m & 1:
                    break
            lit_ = self.literal(s, p, i)
            if lit_ is not None:
                idx = [j for j, e in enumerate(lit_) if chars >> (e & 255) & 1]
                return self.ptr(p[1], k + idx[-1]) if idx else NULL
            return ('fork*', [there] + ([] if sure else [none]))
        ms = self.ahead(s, p)
        alts, pre, n = [], [], 0
        while True:
            m = ms[n] if n < len(ms) else FULL
            if m & chars:
                alts.append(('at', n, m & chars, tuple(pre)))
            if m & 1 and not chars & 1:
                alts.append(('no', n, 1, tuple(pre)))
            rest = m & ~chars & NONUL
            if not rest:
                break
            pre.append(rest)
            n += 1
            if n >= max(1, len(ms)):
                alts.append(('far', n, None, tuple(pre)))
                if not chars & 1:
                    alts.append(('nofar', n, None, tuple(pre)))
                break
        oid = p[1]

        def mk(alt):
            def go(st):
                for j, m in enumerate(alt[3]):
                    self.setmask(st, oid, k + j, m)
                if alt[0] == 'at':
                    self.setmask(st, oid, k + alt[1], alt[2])
                    return self.ptr(oid, k + alt[1])
                if alt[0] == 'no':
                    self.setmask(st, oid, k + alt[1], 1)
                    return NULL if not end else self.ptr(oid, k + alt[1])
                if alt[0] == 'nofar':
                    if end:
                        return self.child(st, self.ptr(oid, k + n), 0, (1,))
                    return NULL
                return self.child(st, self.ptr(oid, k + n), 0, (chars,))
            return go
        if not rev and len(alts) > 1 and not end:
            # 'no' alternatives need not be told apart, only the first position matters
            no = [x for x in alts if x[0] in ('no', 'nofar')]
            if len(no) > 1:
                def nogo(st):
                    m = self.mask(st, oid, k) & ~chars
                    if not m:
                        raise Die_
                    self.setmask(st, oid, k, m)
                    return NULL
                return ('fork*', [mk(x) for x in alts if x[0] not in ('no', 'nofar')] + [nogo])
        return ('fork*', [mk(x) for x in alts])

    def x_strchr(self, s, fr, i, a):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0)
        if d:
            return d
        if self.isx(a[0]):
            self.check_live(s, a[0], i)
            if a[1][0] == 'c' and self.off(a[0]) is not None and self.off(a[0]) >= 0:
                return self.find_(s, i, a[0], 1 << (a[1][1] & 255))
            return ('fork*', [lambda st: self.child(st, a[0], 0), lambda st: NULL])
        if a[1][0] == 'ch':
            c = self.literal(s, a[0], i)
            if c is None:
                return TOP
            k = self.off(a[0]) or 0
            m = setof(c) | 1          # the terminator is found too
            ch = a[1]
            mm = setof([x for x in range(256) if m >> (ch[3][x] & 255) & 1])
            cur = self.mask(s, ch[1], ch[2])

            def yes(st):
                self.setmask(st, ch[1], ch[2], cur & mm)
                return self.ptr(a[0][1], k + 1) if False else ('p', ('lit', ''), ())

            def no(st):
                self.setmask(st, ch[1], ch[2], cur & ~mm & FULL)
                return NULL
            return ('fork*', ([yes] if cur & mm else []) + ([no] if cur & ~mm & FULL else []))
        if a[0][0] != 'p':
            return ('fork*', [lambda st: self.textptr(st, a[0], i), lambda st: NULL])
        r = AbsInt.x_strchr(self, s, fr, i, a)
        if r == TOP:
            return ('fork*', [lambda st: self.textptr(st, a[0], i), lambda st: NULL])
        return r

    def textptr(self, st, p, i):
        """somewhere in a text of which nothing is known"""
        own = p[1] if p[0] == 'p' and p[1] in st.objs else None
        return self.ptr(self.seg(st, (), owner=own, site=i.where(), par=None), 0)

    def x_strrchr(self, s, fr, i, a):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0)
        if d:
            return d
        if self.isx(a[0]):
            self.check_live(s, a[0], i)
            if a[1][0] == 'c':
                return self.find_(s, i, a[0], 1 << (a[1][1] & 255), rev=True)
            return ('fork*', [lambda st: self.child(st, a[0], 0), lambda st: NULL])
        r = AbsInt.x_strrchr(self, s, fr, i, a)
        if r == TOP:
            return ('fork*', [lambda st: self.textptr(st, a[0], i), lambda st: NULL])
        return r

    def x_strchrnul(self, s, fr, i, a):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0)
        if d:
            return d
        if self.isx(a[0]) and a[1][0] == 'c':
            self.check_live(s, a[0], i)
            return self.scan(s, i, a[0], 1 << (a[1][1] & 255), a[0])
        if self.isx(a[0]):
            return self.child(s, a[0], 0)
        r = AbsInt.x_strchrnul(self, s, fr, i, a)
        return self.textptr(s, a[0], i) if r == TOP else r

    def charset(self, s, p, i):
        c = self.literal(s, p, i)
        return None if c is None else setof(c)

    def x_strspn(self, s, fr, i, a):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0, 1)
        if d:
            return d
        cs = self.charset(s, a[1], i)
        if not self.isx(a[0]) or cs is None:
            return ('iv', 0, None)
        self.check_live(s, a[0], i)
        return self.scan(s, i, a[0], FULL & ~cs, a[0], wantoff=True)

    def x_strcspn(self, s, fr, i, a):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0, 1)
        if d:
            return d
        cs = self.charset(s, a[1], i)
        if not self.isx(a[0]) or cs is None:
            return ('iv', 0, None)
        self.check_live(s, a[0], i)
        return self.scan(s, i, a[0], cs, a[0], wantoff=True)

    def x_strpbrk(self, s, fr, i, a):
        a = self.fwds(s, a)
        cs = self.charset(s, a[1], i) if a[1][0] == 'p' else None
        if not self.isx(a[0]) or cs is None:
            return ('fork*', [lambda st: self.textptr(st, a[0], i), lambda st: NULL])
        return self.find_(s, i, a[0], cs)

    def x_strstr(self, s, fr, i, a):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0, 1)
        if d:
            return d
        y = self.literal(s, a[1], i)
        if self.isx(a[0]) and (self.off(a[0]) or 0) >= 0:
            self.check_live(s, a[0], i)
            k = self.off(a[0])
            x = self.literal(s, a[0], i)
            if x is not None and y is not None:
                for j in range(len(x) - len(y) + 1):
                    if x[j:j + len(y)] == y:
                        return self.ptr(a[0][1], k + j)
                return NULL
            if y is None:
                return ('fork*', [lambda st: self.child(st, a[0], 0), lambda st: NULL])
            if not y:
                return a[0]
            masks = tuple(1 << (c & 255) for c in y)
            alts = []
            ms = self.ahead(s, a[0])
            if all((ms[j] if j < len(ms) else FULL) & m for j, m in enumerate(masks)):
                def here(st):
                    for j, m in enumerate(masks):
                        self.setmask(st, a[0][1], k + j, m)
                    return a[0]
                alts.append(here)
            if not ms or ms[0] != 1:
                def far(st):
                    self.refine(st, a[0][1], k, NONUL)
                    return self.child(st, a[0], 1, masks)
                alts.append(far)
            if not all(j < len(ms) and ms[j] == m for j, m in enumerate(masks)):
                def no(st):
                    if len(masks) == 1 and not self.refine(st, a[0][1], k, FULL & ~masks[0]):
                        raise Die_
                    return NULL
                alts.append(no)
            return ('fork*', alts)
        r = AbsInt.x_strstr(self, s, fr, i, a)
        if r == TOP:
            def hit(st):
                q = self.textptr(st, a[0], i)
                for j, c in enumerate(y or ()):
                    self.setmask(st, q[1], (self.off(q) or 0) + j, 1 << (c & 255))
                return q
            return ('fork*', [hit, lambda st: NULL])
        return r
    x_strcasestr = x_strstr

    def prefix(self, s, i, p, want, full, nocase=False):
        """does the text at p start with (or equal) `want`: list of alternatives (bool, action)"""
        k = self.off(p)
        masks = []
        for c in want:
            m = 1 << (c & 255)
            if nocase and 65 <= (c & ~32) <= 90:
                m = 1 << (c | 32) | 1 << (c & ~32)
            masks.append(m)
        if full:
            masks.append(1)
        ms = self.ahead(s, p)
        oid = p[1]
        can = all((ms[j] if j < len(ms) else FULL) & m for j, m in enumerate(masks))
        must = all(j < len(ms) and ms[j] & ~m == 0 for j, m in enumerate(masks))
        alts = []
        if can:
            def yes(st):
                for j, m in enumerate(masks):
                    self.setmask(st, oid, k + j, self.mask(st, oid, k + j) & m)
            alts.append((True, yes))
        if not must:
            # the first place where they can differ
            first = next(j for j, m in enumerate(masks) if not (j < len(ms) and ms[j] & ~m == 0))
            last = all(j <= first or (j < len(ms) and ms[j] & ~m == 0) for j, m in enumerate(masks))

            def no(st):
                if last:
                    x = self.mask(st, oid, k + first) & ~masks[first]
                    if not x:
                        raise Die_
                    self.setmask(st, oid, k + first, x)
            alts.append((False, no))
        return alts

    def cmpalts(self, s, i, p, want, full, eqv, nev, nocase=False):
        out = []
        for t, act in self.prefix(s, i, p, want, full, nocase):
            def go(st, t=t, act=act):
                act(st)
                return eqv if t else nev
            out.append(go)
        return ('fork*', out)

    def fwds(self, s, a):
        return [self.fwd(s, v) if self.isx(v) else v for v in a]

    def strcmp(self, s, i, x, y, zero_ok, nocase=False):
        x, y = self.fwds(s, [x, y])
        for p, q in ((x, y), (y, x)):
            if self.isx(p) and q[0] == 'p':
                self.check_live(s, p, i)
                self.check_live(s, q, i)
                c = self.literal(s, q, i)
                if c is not None and self.off(p) >= 0:
                    return self.cmpalts(s, i, p, c, True, ('c', 0), ('sg', frozenset([-1, 1])), nocase)
                return self.dontknow()
        r = AbsInt.strcmp(self, s, i, x, y, zero_ok)
        if r == TOP:
            return self.dontknow()
        return r

    def dontknow(self):
        return ('fork*', [lambda st: ('c', 0), lambda st: ('sg', frozenset([-1, 1]))])

    def x_strcmp(self, s, fr, i, a):
        return self.strcmp(s, i, a[0], a[1], False)

    def x_strcasecmp(self, s, fr, i, a):
        return self.strcmp(s, i, a[0], a[1], False, True)
    x_g_ascii_strcasecmp = x_strcasecmp

    def x_g_str_equal(self, s, fr, i, a):
        r = self.strcmp(s, i, a[0], a[1], False)
        if r[0] == 'fork*':
            return ('fork*', [lambda st, g=g: ('c', int(g(st) == ('c', 0))) for g in r[1]])
        return ('c', int(r == ('c', 0))) if r[0] in ('c', 'sg') else r

    def x_strncmp(self, s, fr, i, a, nocase=False):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0, 1)
        if d:
            return d
        for p, q in ((a[0], a[1]), (a[1], a[0])):
            if self.isx(p) and q[0] == 'p':
                self.check_live(s, p, i)
                self.check_live(s, q, i)
                c = self.literal(s, q, i)
                if c is not None and a[2][0] == 'c' and self.off(p) >= 0:
                    n = a[2][1]
                    return self.cmpalts(s, i, p, c[:n], n > len(c), ('c', 0), ('sg', frozenset([-1, 1])), nocase)
                return self.dontknow()
        r = AbsInt.x_strncmp(self, s, fr, i, a)
        return self.dontknow() if r == TOP else r

    def x_strncasecmp(self, s, fr, i, a):
        return self.x_strncmp(s, fr, i, a, True)
    x_g_ascii_strncasecmp = x_strncasecmp

    def x_g_str_has_prefix(self, s, fr, i, a):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0, 1)
        if d:
            return d
        if self.isx(a[0]):
            c = self.literal(s, a[1], i)
            if c is not None and self.off(a[0]) >= 0:
                return self.cmpalts(s, i, a[0], c, False, ('c', 1), ('c', 0))
            return TOP
        return AbsInt.x_g_str_has_prefix(self, s, fr, i, a)

    def x_g_str_has_suffix(self, s, fr, i, a):
        return TOP

    def dupstr(self, s, v, i):
        self.check_live(s, v, i)
        if self.isx(v):
            v = self.fwd(s, v)
            return self.owned(s, i.where(), self.ahead(s, v)[:8])
        return AbsInt.dupstr(self, s, v, i)

    def x_g_strdup(self, s, fr, i, a):
        if a[0][0] == 'unt':
            return self.newstr(s, (('top',),), i.where())
        return AbsInt.x_g_strdup(self, s, fr, i, a)

    def x_g_strndup(self, s, fr, i, a):
        a = self.fwds(s, a)
        if a[0] == NULL:
            return NULL
        if a[0][0] == 'nullp':
            return ('die', 'null', i.where())
        if self.isx(a[0]):
            self.check_live(s, a[0], i)
            n = a[1]
            ms = self.ahead(s, a[0])
            k = self.off(a[0])
            if n[0] == 'c':
                if n[1] < 0 or n[1] > 4096:
                    return self.owned(s, i.where(), ms[:8])
                if n[1] == 0:
                    return self.owned(s, i.where(), (1,))
                out = [ms[j] if j < len(ms) else FULL for j in range(min(n[1], 16))]
                if n[1] <= 16:
                    out.append(1)
                return self.owned(s, i.where(), out)
            v = self.iv(n)
            lo = max(0, v[0] or 0) if v else 0
            if n[0] == 'off' and (n[1], n[2]) == (a[0][1], k):
                out = [ms[j] if j < len(ms) else NONUL for j in range(min(lo, 8))]
                out = [m & NONUL or NONUL for m in out]
                return self.owned(s, i.where(), out)
            out = []
            for j in range(min(lo, len(ms))):
                out.append(ms[j])
            return self.owned(s, i.where(), out)
        r = AbsInt.x_g_strndup(self, s, fr, i, a)
        return r

    def x_g_strchomp(self, s, fr, i, a):
        return a[0]
    x_g_strchug = x_g_strchomp

    def number(self, s, fr, i, a, base=None):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0)
        if d:
            return d
        e = s.frames[0].env.get('errno')
        if ('n', 'errno') in s.objs:
            s.h[(('n', 'errno'), ())] = TOP
        self.check_live(s, a[0], i)
        end = a[1] if len(a) > 1 else NULL
        if end[0] != 'p':
            return TOP
        if not self.isx(a[0]):
            c = self.content(s, a[0], i)
            self.store(s, end, self.textptr(s, a[0], i), i)
            return TOP
        digits = _cls('digit')
        if a[2][0] == 'c' and a[2][1] == 16:
            digits = _cls('xdigit')
        lead = digits | _cls('space') | setof(b'+-')
        k = self.off(a[0])
        cur = self.mask(s, a[0][1], k)
        alts = []

        def none(st):
            self.store(st, end, a[0], i)
            return ('c', 0)

        def some(st):
            self.setmask(st, a[0][1], k, cur & lead)
            n = 1
            q = self.child(st, self.ptr(a[0][1], k + 1), 0, (FULL,))
            self.store(st, end, q, i)
            return ('num', i.where()) if False else TOP
        if cur & ~digits or True:
            if cur & ~digits & FULL:
                alts.append(none)
        if cur & lead:
            alts.append(some)
        return ('fork*', alts)
    x___isoc23_strtoul = x___isoc23_strtoull = x___isoc23_strtol = x___isoc23_strtoll = number
    x_strtoul = x_strtoull = x_strtol = x_strtoll = x_g_ascii_strtoull = x_g_ascii_strtoll = number

    def x___errno_location(self, s, fr, i, a):
        if ('n', 'errno') not in s.objs:
            self.named(s, 'errno', st='errno')
            s.h[(('n', 'errno'), ())] = TOP
        return ('p', ('n', 'errno'), ())

    def x___ctype_b_loc(self, s, fr, i, a):
        return ('ctab',)

    def x_atoi(self, s, fr, i, a):
        return self.nulldie(a, i, 0) or TOP

    def sscanf(self, s, fr, i, a):
        a = self.fwds(s, a)
        d = self.nulldie(a, i, 0)
        if d:
            return d
        self.check_live(s, a[0], i)
        f = self.literal(s, a[1], i)
        if f is None:
            return TOP
        import re
        t = ''.join(chr(c & 255) for c in f)
        conv = re.findall(r'%(\*?)(?:\d+)?(?:hh|h|ll|l|z|j|L)?([diouxXcsn\[])', t)
        outs = [c[1] for c in conv if not c[0]]
        alts = []

        def mk(n):
            def go(st):
                done, idx = 0, 2
                for c in outs:
                    if idx >= len(a):
                        break
                    if c != 'n':
                        if done >= n:
                            break
                        done += 1
                        self.store(st, a[idx], TOP, i)
                    elif self.isx(a[0]):
                        q = self.child(st, a[0], 0)
                        self.store(st, a[idx], ('off', a[0][1], self.off(a[0]), q[1], 0, 0), i)
                    else:
                        self.store(st, a[idx], ('iv', 0, None), i)
                    idx += 1
                return ('c', n)
            return go
        total = len([c for c in outs if c != 'n'])
        for n in range(total + 1):
            alts.append(mk(n))
        if self.isx(a[0]):
            k = self.off(a[0])

            def eof(st):
                return ('c', -1)
            alts.append(eof)
        return ('fork*', alts)
    x___isoc23_sscanf = x_sscanf = sscanf

    def x_strcpy(self, s, fr, i, a):
        d = self.nulldie(a, i, 0, 1)
        if d:
            return d
        self.check_live(s, a[0], i, 'written')
        self.check_live(s, a[1], i)
        return a[0]

    def strcat_(self, s, fr, i, a):
        d = self.nulldie(a, i, 0, 1)
        if d:
            return d
        return a[0]
    x_strcat = x_strncat = strcat_
    x_strncpy = x_strcpy

    def x_llvm_memmove(self, s, fr, i, a):
        for p in a[:2]:
            if p == NULL or p[0] == 'nullp':
                return ('die', 'null', i.where())
        if self.isx(a[0]) or self.isx(a[1]):
            if self.isx(a[0]):
                self.check_live(s, a[0], i, 'written')
                s.h[(a[0][1], '#')] = s.h.get((a[0][1], '#'), ())[:self.off(a[0])]
            return None
        self.copymem(s, a[0], a[1], i)

    x_llvm_memcpy = x_llvm_memmove

    def x_g_malloc(self, s, fr, i, a):
        r = AbsInt.x_g_malloc(self, s, fr, i, a)
        if r[0] == 'p' and (a and a[0][0] != 'c' or len(a) > 1):
            s.objs[r[1]] = dict(s.objs[r[1]], wild=True)      # a buffer of computed size
        return r
    x_malloc = x_g_try_malloc = x_g_malloc

    def x_g_malloc_n(self, s, fr, i, a):
        r = ('p', self.new(s, 'mem', i.where()), ())
        s.objs[r[1]] = dict(s.objs[r[1]], wild=True)
        return r

    def x_toupper(self, s, fr, i, a):
        return TOP if a[0][0] != 'c' else ('c', ord(chr(a[0][1]).upper()) if 0 <= a[0][1] < 128 else a[0][1])

    def x_tolower(self, s, fr, i, a):
        v = a[0]
        if v[0] == 'ch':
            return ('ch', v[1], v[2], tuple(x + 32 if 65 <= x <= 90 else x for x in v[3]))
        if v[0] == 'c':
            return ('c', v[1] + 32 if 65 <= v[1] <= 90 else v[1])
        return TOP
    x_g_ascii_tolower = x_tolower

    def x_g_intern_string(self, s, fr, i, a):
        return ('p', ('lit', 'interned'), ()) if a[0] != NULL else NULL
    x_g_intern_static_string = x_g_intern_string

    def x___cxa_demangle(self, s, fr, i, a):
        if len(a) > 3 and a[3][0] == 'p' and a[3] != NULL and not self.isx(a[3]):
            s.h[(a[3][1], a[3][2])] = TOP
        return ('fork*', [lambda st: NULL, lambda st: self.owned(st, i.where())])

    def x_printf(self, s, fr, i, a):
        return TOP

    # ------------------------------------------------------------------ things of the system that have to be given back
    OPEN = ('n', 'open descriptors')

    def x_open(self, s, fr, i, a):
        def got(st):
            n = st.h.get((self.OPEN, ()), ('c', 0))[1]
            if self.OPEN not in st.objs:
                self.named(st, self.OPEN[1], st='cell')
            st.h[(self.OPEN, ())] = ('c', n + 1)
            return ('iv', 0, None)
        return ('fork*', [lambda st: ('c', -1), got])

    def x_close(self, s, fr, i, a):
        c = s.h.get((self.OPEN, ()))
        if c is not None:
            if c[1] == 0:
                self.event(s, 'dres', i.where(), 'a descriptor is closed a second time')
            s.h[(self.OPEN, ())] = ('c', max(0, c[1] - 1))
        return ('fork*', [lambda st: ('c', 0), lambda st: ('c', -1)])

    def acquire(self, s, i, what, fails=True):
        def got(st):
            return ('p', self.new(st, what, i.where()), ())
        return ('fork*', ([lambda st: NULL] if fails else []) + [got])

    def release(self, s, i, a):
        if a[0][0] == 'p' and a[0] != NULL and a[0][1] in s.objs:
            o = s.objs[a[0][1]]
            if o['st'] == 'freed':
                self.event(s, 'dres', i.where(), 'what was obtained at %s is given back a second time' % o['site'])
            elif o['kind'] in RESOURCES:
                s.objs[a[0][1]] = dict(o, st='freed')
        return NULL

    def x_realpath(self, s, fr, i, a):
        return ('fork*', [lambda st: NULL, lambda st: self.owned(st, i.where())])

    # ------------------------------------------------------------------ summaries
    def call(self, s, fr, i):
        name = i.callee
        where = None
        if name is None:
            c = self.opv(s, fr, i.d['callee'])
            if c[0] == 'fn':
                name, where = c[1], c[2]
        if name and name.startswith(LIBS):
            for o in i.a:
                v = self.opv(s, fr, o)
                if v[0] == 'p' and v != NULL and v[1] in s.objs and s.objs[v[1]]['st'] == 'freed' and s.objs[v[1]]['kind'] in RESOURCES:
                    self.event(s, 'dres', i.where(), 'what was obtained at %s is used or given back after it was given back' % s.objs[v[1]]['site'])
        if name in CALLBACKS:
            r = self.callback(s, fr, i, *CALLBACKS[name])
            if r is not None:
                return r
        if name and name not in self.hooks:
            t = self.prog.resolve(name, fr.fn.mod) if where is None else self.fnin(name, where)
            if t is not None and not t.decl and self.wantsum(t) and (len(s.frames) > 0):
                args = [self.opv(s, fr, o) for o in i.a]
                su = self.sums.get(t.name)
                if su is None:
                    su = self.summary_of(t)
                if su is not None:
                    r = self.apply(s, fr, i, t, su, args)
                    if r is not None:
                        return self.finish(s, fr, i, r)
        return AbsInt.call(self, s, fr, i)

    def callback(self, s, fr, i, fn, data, nargs, late):
        """a library call that calls back for each thing it finds: not at all, once or twice, until the callback stops it"""
        c = self.opv(s, fr, i.a[fn])
        arg = self.opv(s, fr, i.a[data])
        t = self.fnin(c[1], c[2]) if c[0] == 'fn' else None
        if t is None or t.decl:
            return None
        cell = ('n', 'calls made by ' + i.where())
        n = s.h.get((cell, ()), ('c', 0))[1]
        last = s.h.get((cell, ('result',)))

        def back(v):
            def go(st):
                f = st.frames[-1]
                st.h.pop((cell, ()), None)
                st.h.pop((cell, ('result',)), None)
                f.env[i.i] = v
                f.k += 1
            return go

        def again(st):
            f = st.frames[-1]
            if cell not in st.objs:
                self.named(st, cell[1], st='cell')
            st.h[(cell, ())] = ('c', n + 1)
            self.visited.add(t.name)
            st.frames.append(self.newframe(t, [TOP] * (nargs - 1) + [arg], ('cb', cell)))
        alts = []
        if n and last != NULL and last != ('c', 0):
            alts.append(back(last))
            if last[0] == 'c':
                return ('fork', alts)
        alts.append(back(('c', 0)))
        if n == 0 or late:
            alts.append(back(('c', -1)))
        if n < 2:
            alts.append(again)
        return ('fork', alts)

    def fills(self, s, i, p, res):
        """the library wrote the whole of what p points to"""
        def got(st):
            if p[0] == 'p' and p[1] in st.objs:
                at = self.npath(p[2])
                for k in [k for k in st.h if k[0] == p[1] and k[1] not in ('$', '#') and k[1][:len(at)] == at]:
                    st.h[k] = TOP
                st.objs[p[1]] = dict(st.objs[p[1]], wild=True)
            return res
        return got

    def x_dwarf_next_cfi(self, s, fr, i, a):
        nxt = a[4]

        def move(st):
            if nxt[0] == 'p' and nxt[1] in st.objs:
                st.h[(nxt[1], self.npath(nxt[2]))] = TOP
        def ok(st):
            move(st)
            return self.fills(st, i, a[5], ('c', 0))(st)
        def bad(st):
            move(st)
            return ('c', -1)
        return ('fork*', [ok, bad, lambda st: ('c', 1)])

    def x_waitpid(self, s, fr, i, a):
        return ('fork*', [lambda st: ('c', -1), self.fills(s, i, a[1], TOP)])

    def summary_of(self, t):
        return None

    def apply(self, s, fr, i, t, su, args):
        alts = []
        for k, p in enumerate(args[:t.nargs]):
            if p == NULL and su.kinds[k] in ('cursor', 'out', 'location', 'struct', 'gstring'):
                if su.kinds[k] == 'out':
                    return None
                return ('die', 'null', i.where())
        self.applied.add((fr.fn.name, i.where(), t.name))
        # the cursor's current value
        cur = None
        for k, kd in enumerate(su.kinds):
            if kd == 'cursor':
                if args[k][0] != 'p':
                    return TOP
                cur = self.load(s, args[k], i, 'ptr')
            elif kd == 'text' and cur is None:
                if args[k] == NULL:
                    return None
                cur = args[k]
        if cur is None or not self.isx(cur) or self.off(cur) is None:
            if cur is not None and cur[0] == 'p':
                # a text that is not tracked by position: treat as unknown text
                cur = self.textptr(s, cur, i)
            else:
                cur = self.ptr(self.seg(s, (), site=i.where()), 0)
        cur = self.fwd(s, cur)
        for j in range(self.off(cur)):
            m = self.mask(s, cur[1], j)
            if m & 1:
                self.found(s, 'past', i, 'text is read behind its terminator')
                if m == 1:
                    raise Die_
                self.setmask(s, cur[1], j, m & NONUL)
        for o in su.list():
            first = o['first']
            m = self.mask(s, cur[1], self.off(cur)) & first
            if not m:
                continue

            def go(st, o=o, m=m, cur=cur):
                self.setmask(st, cur[1], self.off(cur), m)
                return self.instantiate(st, su, o, args, cur, i)
            alts.append(go)
        if not alts:
            return ('die', 'infeasible', i.where())
        return ('fork*', alts)

    def instantiate(self, st, su, o, args, cur, i):
        src = o['state']
        mp = {}
        base = o['root']
        todo = []

        def co(oid):
            if oid[0] in ('lit', 'g', 'j', 'lh', 'le', 'js'):
                return oid, 0
            if oid in mp:
                return mp[oid]
            if oid == base:
                mp[oid] = (cur[1], self.off(cur))
                return mp[oid]
            if oid in o['args']:
                a = args[o['args'][oid]]
                if a[0] == 'p':
                    mp[oid] = (a[1], a[2])
                    return mp[oid]
                mp[oid] = (self.new(st, 'al', 'argument'), 0)
                return mp[oid]
            if oid == ('n', 'errno'):
                self.x___errno_location(st, None, i, [])
                return oid, 0
            so = src.objs.get(oid)
            if so is None:
                return oid, 0
            if oid[0] == 'x':
                n = self.seg(st, src.h.get((oid, '#'), ()), site=so['site'], kind=so['kind'], st=so['st'])
                mp[oid] = (n, 0)
                d = dict(st.objs[n])
                if so.get('par'):
                    p, off = co(so['par'][0])
                    off = off if isinstance(off, int) else 0
                    d['par'] = (p, off + so['par'][1])
                    d['lo'] = so['lo']
                if so.get('owner'):
                    d['owner'] = co(so['owner'])[0]
                elif so['kind'] == 'seg' and cur is not None:
                    w = self.owner(st, cur[1])
                    if st.objs[w]['kind'] != 'seg':
                        d['owner'] = w
                st.objs[n] = d
                return mp[oid]
            st.n += 1
            n = ('o', st.n)
            st.objs[n] = dict(so)
            mp[oid] = (n, 0)
            todo.append((oid, n))
            return mp[oid]

        def cv(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == 'p':
                b, off = co(v[1])
                if isinstance(off, tuple):
                    return ('p', b, off + v[2])
                if off:
                    k = v[2][0] if v[2] and isinstance(v[2][0], int) else 0
                    return self.ptr(b, k + off)
                return ('p', b, v[2])
            if v[0] == 'off':
                b, off = co(v[1])
                c, off2 = co(v[3])
                return ('off', b, v[2] + off, c, v[4] + off2, v[5])
            if v[0] in ('ch', 'cm', 'ctv', 'cti', 'ck', 'unt'):
                return TOP
            return v
        ret = cv(o['ret'])
        for k, (kind, oid) in enumerate(o['outs']):
            a = args[k] if k < len(args) else TOP
            if kind in ('cursor', 'out') and a[0] == 'p':
                v = src.h.get((oid, ()))
                if kind == 'cursor' and v == ('p', base, ()):
                    continue
                if v is not None and v[0] != 'unt':
                    self.store(st, a, cv(v), i)
            elif kind == 'location' and a[0] == 'p':
                for f in ('line', 'column'):
                    self.store(st, ('p', a[1], a[2] + (f,)), TOP, i)
                v = src.h.get((oid, ('message',)))
                if v is not None and v[0] != 'unt':
                    self.store(st, ('p', a[1], a[2] + ('message',)), cv(v), i)
            elif kind == 'gstring' and a[0] == 'p':
                b = src.h.get((oid, ('str',)))
                c = src.h.get((b[1], '$'), ()) if b else ()
                if c != (('pre',),):
                    if c and c[0] == ('pre',):
                        self.gput(st, a, i, lambda x: x + c[1:])
                    else:
                        self.gput(st, a, i, lambda x: (('top',),))
        while todo:
            oid, n = todo.pop()
            for p, v in o['heap'].get(oid, ()):
                st.h[(n, p)] = v if p in ('$', '#') else cv(v)
        return ret


# position of the callback, of its argument, number of arguments of the callback, can it fail after calling back
CALLBACKS = {'dwfl_getmodules': (1, 2, 5, False), 'dwfl_getthreads': (1, 2, 2, True), 'dwfl_thread_getframes': (1, 2, 2, True),
             'dwfl_getthread_frames': (2, 3, 2, True)}
# functions that fill what their argument points to and return it, or NULL
for _f, _k in {'gelf_getehdr': 1, 'gelf_getshdr': 1, 'gelf_getphdr': 2, 'gelf_getrela': 2, 'gelf_getsym': 2}.items():
    setattr(TextInt, 'x_' + _f, lambda self, s, fr, i, a, _k=_k: ('fork*', [lambda st: NULL, self.fills(s, i, a[_k], a[_k])]))
# functions that fill what several arguments point to
for _f in ('dwfl_module_info', 'dwfl_module_build_id', 'dwfl_module_getelf', 'dwfl_frame_pc'):
    setattr(TextInt, 'x_' + _f, lambda self, s, fr, i, a: [self.fills(s, i, p, TOP)(s) for p in a if p != NULL and p[0] == 'p'] and TOP)
# that fill it and return 0, or -1
for _f, _k in {'elf_getphdrnum': 1, 'elf_getshdrstrndx': 1}.items():
    setattr(TextInt, 'x_' + _f, lambda self, s, fr, i, a, _k=_k: ('fork*', [lambda st: ('c', -1), self.fills(s, i, a[_k], ('c', 0))]))

# acquiring function, releasing function, can it fail
for _k, (_get, _put, _f) in {'libelf handle': ('elf_begin', 'elf_end', True), 'libdwfl session': ('dwfl_begin', 'dwfl_end', True),
                             'rpm tag': ('rpmtdNew', 'rpmtdFree', False), 'rpm transaction': ('rpmtsCreate', 'rpmtsFree', False),
                             'rpm iterator': ('rpmtsInitIterator', 'rpmdbFreeIterator', False)}.items():
    setattr(TextInt, 'x_' + _get, lambda self, s, fr, i, a, _k=_k, _f=_f: self.acquire(s, i, _k, _f))
    setattr(TextInt, 'x_' + _put, lambda self, s, fr, i, a: self.release(s, i, a))

from .absint import Die


class _D(Die):
    pass


Die_ = Die()
