"""Path-sensitive dataflow over the (inlined) LLVM IR of the current sources.

Abstract states carry: SSA environment, an access-path memory, null/constant/range facts,
ownership tags and checker flags.  States are kept apart per CFG block (property simulation)
and de-duplicated; functions are summarised bottom-up as a set of outcomes (return class,
writes through arguments, released / fresh objects), which callers instantiate.  Nothing is
executed and no constraint solver is involved; facts are intervals plus excluded constants.
"""
import sys
from collections import deque
sys.setrecursionlimit(20000)

INF = 1 << 70
NUL = ('c', 0)
NOFACT = (-INF, INF, frozenset())


def C(n):
    return ('c', n)


def P(base, path=()):
    return ('p', base, path)


_SY = {}
_EMPTY = frozenset()


def syms(t):
    """every sub-term of t (cached)"""
    r = _SY.get(t)
    if r is None:
        if len(_SY) > 400000:
            _SY.clear()
        out = {t}
        for x in t:
            if type(x) is tuple and x:
                out |= syms(x)
        r = _SY[t] = frozenset(out)
    return r


def contains(t, sym):
    return type(t) is tuple and sym in syms(t)


_ID = {}


def iids(t):
    """instruction ids of the symbols made by this function that occur in t"""
    r = _ID.get(t)
    if r is None:
        if len(_ID) > 400000:
            _ID.clear()
        r = _ID[t] = frozenset(x[1] for x in syms(t) if len(x) > 1 and x[0] in SYMKINDS and type(x[1]) is int)
    return r


_JS = {}


def jsyms(t):
    r = _JS.get(t)
    if r is None:
        if len(_JS) > 400000:
            _JS.clear()
        r = _JS[t] = frozenset(x for x in syms(t) if x[0] in ('j', "j'"))
    return r


SYMKINDS = frozenset(['r', "r'", 'h', "h'", 'k', "k'"])


def subst(t, sym, new):
    if type(t) is not tuple or sym not in syms(t):
        return t
    if t == sym:
        return new
    return tuple(subst(x, sym, new) if type(x) is tuple and x else x for x in t)


def root_of(b):
    """innermost symbol of a derived base"""
    while b[0] in ('m', 'o'):
        b = b[1]
    return b


def depth(b):
    d = 0
    while b[0] in ('m', 'o'):
        d += 1
        b = b[1]
    return d


def fields_of(b):
    fs = []
    while b[0] == 'm':
        fs.extend(x for x in b[2] if isinstance(x, str))
        b = b[1]
    if b[0].startswith('r') and len(b) > 2 and isinstance(b[2], tuple) and b[2]:
        fs.extend(b[2][1])
    return fs


def org_of(b):
    """(arg index, set of fields) the symbol was loaded from, or None"""
    fs = set()
    while True:
        if b[0] == 'm':
            fs.update(x for x in b[2] if isinstance(x, str))
            b = b[1]
        elif b[0] == 'o':
            b = b[1]
        elif b[0].startswith('r') and len(b) > 2 and isinstance(b[2], tuple) and b[2]:
            fs.update(b[2][1])
            return (b[2][0], tuple(sorted(fs)))
        elif b[0] == 'a':
            return (b[1], tuple(sorted(fs)))
        else:
            return None


class St:
    __slots__ = ('env', 'mem', 'facts', 'own', 'fl', 'tr')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = {}
        self.own = {}
        self.fl = {}
        self.tr = None

    def copy(self):
        n = St.__new__(St)
        n.env = dict(self.env)
        n.mem = dict(self.mem)
        n.facts = dict(self.facts)
        n.own = dict(self.own)
        n.fl = dict(self.fl)
        n.tr = self.tr
        return n

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()),
                frozenset(self.own.items()), frozenset(self.fl.items()))


PRED_INV = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
            'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
PRED_SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
             'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def norm(f):
    lo, hi, ex = f
    while lo in ex:
        lo += 1
    while hi in ex:
        hi -= 1
    if lo > hi:
        return None
    if ex:
        ex = frozenset(e for e in ex if lo <= e <= hi)
    return (lo, hi, ex)


class Outcome:
    """one way a function can end, in terms of its arguments"""
    __slots__ = ('ret', 'conds', 'writes', 'freed', 'esc', 'heap', 'facts', 'fl')

    def key(self):
        return (self.ret, self.conds, self.writes, self.freed, self.esc, self.heap, self.facts, self.fl)


class Summary:
    def __init__(self):
        self.outs = []
        self.deep = set()      # (arg, fields) released below an argument
        self.needs = set()     # (term, conds) dereferenced without a check
        self.reads = set()     # field names (transitively) loaded
        self.trunc = False
        self.noreturn = False


class FnInfo:
    """per-function static info"""

    def __init__(self, fn, eng):
        self.fn = fn
        n = len(fn.blocks)
        self.n = n
        # reverse post order
        seen, order = set(), []
        stack = [(0, iter(fn.succs(0)))] if n else []
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(fn.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: k for k, b in enumerate(order)}
        self.order = order
        self.loop = self.scc(fn, n)
        self.live = self.liveness(fn, n)
        self.canret = [False] * n
        work = [b for b in range(n) if fn.blocks[b][-1].op == 'ret']
        while work:
            b = work.pop()
            if not self.canret[b]:
                self.canret[b] = True
                work.extend(fn.preds[b])
        self.fr = None

    def scc(self, fn, n):
        idx, low, st, onst, res = {}, {}, [], set(), {}
        cnt = [0]
        comp = [0]
        inloop = [False] * n

        def go(v0):
            work = [(v0, iter(fn.succs(v0)))]
            idx[v0] = low[v0] = cnt[0]
            cnt[0] += 1
            st.append(v0)
            onst.add(v0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter(fn.succs(w))))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in fn.succs(v):
                        for w in c:
                            inloop[w] = comp[0] + 1
                        comp[0] += 1
        if n:
            go(0)
        return inloop

    def liveness(self, fn, n):
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]   # live-out contribution at pred
        for b in range(n):
            for i in fn.blocks[b]:
                if i.op == 'phi':
                    for o, pb in i.d['in']:
                        if o[0] == 'v':
                            phiuse[pb].add(o[1])
                    dfn[b].add(i.i)
                    continue
                from .frontend import operands
                for o in operands(i):
                    self._ops(o, use[b], dfn[b])
                dfn[b].add(i.i)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set(phiuse[b])
                for s in fn.succs(b):
                    out |= live[s]
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        return live

    def _ops(self, o, use, dfn):
        if o[0] == 'v':
            if o[1] not in dfn:
                use.add(o[1])
        elif o[0] == 'ce':
            for x in o[1:]:
                if isinstance(x, (list, tuple)) and x and x[0] == 'v' and x[1] not in dfn:
                    use.add(x[1])


class Engine:
    OWN = False          # track ownership
    CURSOR = False       # track text cursors
    CHAROPAQUE = True    # positions inside character data are not tracked
    NULLS = False        # track unchecked dereferences
    JOIN1 = 6            # states per block before facts are merged
    JOIN2 = 24           # ... before values are merged
    MAXSTATES = 160      # per block
    MAXSTEPS = 400000    # instructions per function
    MAXOUT = 14

    def __init__(self, prog, groups=('/lib/',)):
        self.prog = prog
        self.groups = groups
        self.sums = {}
        self.reports = {}
        self.stats = dict(functions=0, blocks=0, states=0, insts=0, truncated=[], outcomes=0)
        self.mutated_globals = None
        self.fieldfuncs = None
        self.info = {}
        self.models = {}
        self.final = False

    # ------------------------------------------------------------------ driver
    def functions(self):
        return [f for f in self.prog.all_funcs if any(g in f.mod.src or g in (f.mod.src + '') for g in self.groups)]

    def fid(self, f):
        return f.name if not f.internal else f.mod.src + ':' + f.name

    def prepare(self):
        prog = self.prog
        self.fieldfuncs = {}
        self.mutated_globals = set()
        for m in prog.mods:
            for g in m.globals.values():
                if not g['decl']:
                    self._collect_ff(g.get('init'), m)
        for f in prog.all_funcs:
            for i in f.all():
                if i.op == 'store':
                    b = self._gbase(f, i.a[1])
                    if b:
                        self.mutated_globals.add(b)
        self.callees = {}
        for f in self.functions():
            cs = []
            for i in f.calls():
                for c in self.call_targets(f, i):
                    cs.append(c)
                for o in i.a:      # callbacks
                    if o[0] == 'f':
                        c = prog.resolve(o[1], f.mod)
                        if c:
                            cs.append(c)
            self.callees[self.fid(f)] = cs

    def _gbase(self, f, o):
        for _ in range(20):
            if o[0] == 'g':
                return o[1]
            if o[0] == 'ce':
                o = o[1]
                continue
            if o[0] == 'v' and o[1] in f.insts:
                i = f.insts[o[1]]
                if i.op in ('gep', 'cast'):
                    o = i.a[0]
                    continue
            return None
        return None

    def _collect_ff(self, init, m):
        if isinstance(init, dict):
            for k, v in init.get('fields', {}).items():
                if isinstance(v, list) and v and v[0] == 'f':
                    self.fieldfuncs.setdefault(k, set()).add((v[1], m))
                else:
                    self._collect_ff(v, m)
        elif isinstance(init, list):
            for x in init:
                self._collect_ff(x, m)

    def call_targets(self, f, i):
        c = i.d['callee']
        if c[0] == 'f':
            t = self.prog.resolve(c[1], f.mod)
            return [t] if t else []
        if c[0] == 'v' and c[1] in f.insts:
            ld = f.insts[c[1]]
            if ld.op == 'load' and ld.a[0][0] == 'v' and ld.a[0][1] in f.insts:
                g = f.insts[ld.a[0][1]]
                if g.op == 'gep' and g.d['path'] and g.d['path'][-1][0] == 'f':
                    fld = g.d['path'][-1][2]
                    out = []
                    for n, m in sorted(self.fieldfuncs.get(fld, ()), key=lambda x: x[0] + x[1].src):
                        t = self.prog.resolve(n, m)
                        if t:
                            out.append(t)
                    return out
        return []

    def sccs(self):
        fns = {self.fid(f): f for f in self.functions()}
        idx, low, st, onst, res = {}, {}, [], set(), []
        cnt = [0]
        for r in sorted(fns):
            if r in idx:
                continue
            work = [(r, iter([self.fid(c) for c in self.callees[r]]))]
            idx[r] = low[r] = cnt[0]
            cnt[0] += 1
            st.append(r)
            onst.add(r)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in fns:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter([self.fid(c) for c in self.callees[w]])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        c.append(fns[w])
                        if w == v:
                            break
                    res.append(c)
        return res

    def run(self):
        self.prepare()
        for comp in self.sccs():
            rec = len(comp) > 1 or comp[0] in self.callees[self.fid(comp[0])]
            rounds = 3 if rec else 1
            for r in range(rounds):
                self.final = (r == rounds - 1)
                changed = False
                for f in sorted(comp, key=lambda x: self.fid(x)):
                    old = self.sums.get(self.fid(f))
                    new = self.analyse(f)
                    self.sums[self.fid(f)] = new
                    if old is None or set(o.key() for o in old.outs) != set(o.key() for o in new.outs):
                        changed = True
                if not changed and not self.final:
                    # stable: one more pass only to emit reports
                    self.final = True
                    for f in comp:
                        self.sums[self.fid(f)] = self.analyse(f)
                    break
        return self

    # ------------------------------------------------------------------ reports
    def report(self, kind, st, inst, key, msg):
        if not self.final:
            return
        fn = self.cur.fn
        k = (kind, key)
        if k not in self.reports:
            tr, x = [], st.tr if st is not None else None
            while x is not None and len(tr) < 40:
                tr.append('%s%s' % (x[0], x[1]))
                x = x[2]
            self.reports[k] = dict(kind=kind, key=key, fn=fn.name, where=inst.where() if inst is not None else fn.where(), msg=msg,
                                   path=' '.join(reversed(tr)))

    # ------------------------------------------------------------------ facts
    def getf(self, s, base):
        return s.facts.get(base, NOFACT)

    def setf(self, s, base, f):
        f = norm(f)
        if f is None:
            return False
        s.facts[base] = f
        if f[0] == 0 and f[1] == 0 and base[0] == 'h':
            s.own.pop(base, None)
        if f[1] < 0 and base[0] == 'h':
            s.own.pop(base, None)
        return True

    def nonnull(self, s, v):
        """True / False / None"""
        if v[0] == 'c':
            return v[1] != 0
        if v[0] == 'p':
            base, path = v[1], v[2]
            if path:
                return True
            if base[0] in ('al', 'g', 'lit'):
                return True
            lo, hi, ex = self.getf(s, base)
            if lo > 0 or hi < 0 or 0 in ex:
                return True
            if lo == 0 and hi == 0:
                return False
            return None
        if v[0] == 'fn':
            return True
        if v[0] in ('cmp', 'not'):
            return self.truth(s, v)
        return None

    def const_of(self, s, v):
        if v[0] == 'c':
            return v[1]
        if v[0] == 'p' and not v[2]:
            lo, hi, ex = self.getf(s, v[1])
            if lo == hi:
                return lo
        if v[0] in ('cmp', 'not', 'ctm', 'scmp'):
            t = self.truth(s, v)
            if t is not None and v[0] in ('cmp', 'not'):
                return 1 if t else 0
        return None

    def truth(self, s, v):
        k = v[0]
        if k == 'c':
            return v[1] != 0
        if k == 'not':
            t = self.truth(s, v[1])
            return None if t is None else (not t)
        if k == 'cmp':
            return self.decide(s, v[1], v[2], v[3])
        if k == 'ctm':
            c = self.const_of(s, v[1])
            if c is not None:
                return self.ctype_has(c, v[2])
            return None
        if k in ('p', 'fn'):
            return self.nonnull(s, v)
        if v in s.facts:
            lo, hi, ex = s.facts[v]
            if lo > 0 or hi < 0 or 0 in ex:
                return True
            if lo == hi == 0:
                return False
        return None

    @staticmethod
    def ctype_has(c, mask):
        bits = {'isupper': 1 << 8, 'islower': 1 << 9, 'isalpha': 1 << 10, 'isdigit': 1 << 11, 'isxdigit': 1 << 12,
                'isspace': 1 << 13, 'isprint': 1 << 14, 'isgraph': 1 << 15, 'isblank': 1 << 0, 'iscntrl': 1 << 1,
                'ispunct': 1 << 2, 'isalnum': 1 << 3}
        if not 0 <= c < 128:
            return None
        ch = chr(c)
        v = 0
        if ch.isupper():
            v |= bits['isupper']
        if ch.islower():
            v |= bits['islower']
        if ch.isalpha():
            v |= bits['isalpha'] | bits['isalnum']
        if ch.isdigit():
            v |= bits['isdigit'] | bits['isalnum'] | bits['isxdigit']
        if ch in 'abcdefABCDEF':
            v |= bits['isxdigit']
        if ch in ' \t\n\v\f\r':
            v |= bits['isspace']
        if ch in ' \t':
            v |= bits['isblank']
        if 32 <= c < 127:
            v |= bits['isprint']
            if c != 32:
                v |= bits['isgraph']
                if not ch.isalnum():
                    v |= bits['ispunct']
        else:
            v |= bits['iscntrl']
        return bool(v & mask)

    def decide(self, s, pred, x, y):
        if x[0] == 'c' and y[0] != 'c':
            x, y, pred = y, x, PRED_SWAP.get(pred, pred)
        if x[0] == 'c' and y[0] == 'c':
            a, b = x[1], y[1]
            if pred[0] == 'u' and (a < 0 or b < 0):
                a &= (1 << 64) - 1
                b &= (1 << 64) - 1
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                    'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}.get(pred)
        if x == y:
            if pred in ('eq', 'sle', 'sge', 'ule', 'uge'):
                return True
            if pred in ('ne', 'slt', 'sgt', 'ult', 'ugt'):
                return False
        if y[0] == 'c':
            k = y[1]
            if x[0] in ('cmp', 'not', 'ctm') and pred in ('eq', 'ne'):
                t = self.truth(s, x)
                if t is None:
                    return None
                if k == 0:
                    return (not t) if pred == 'eq' else t
                if x[0] != 'ctm' and k == 1:
                    return t if pred == 'eq' else (not t)
                return None
            if x[0] == 'p':
                if x[2]:
                    if k == 0 and pred in ('eq', 'ne'):
                        return pred == 'ne'
                    f = NOFACT
                elif x[1][0] in ('al', 'g', 'lit') and k == 0:
                    f = (1, INF, frozenset())
                else:
                    f = self.getf(s, x[1])
            else:
                f = s.facts.get(x, NOFACT)
            lo, hi, ex = f
            if pred == 'eq' or pred == 'ne':
                if k < lo or k > hi or k in ex:
                    return pred == 'ne'
                if lo == hi == k:
                    return pred == 'eq'
                return None
            if pred[0] == 'u' and lo < 0:
                if pred == 'ugt' and k == 0:
                    return True if 0 in ex else None
                if pred == 'ule' and k == 0:
                    return False if 0 in ex else None
                return None
            p = pred[1:]
            if p == 'lt':
                return True if hi < k else False if lo >= k else None
            if p == 'le':
                return True if hi <= k else False if lo > k else None
            if p == 'gt':
                return True if lo > k else False if hi <= k else None
            if p == 'ge':
                return True if lo >= k else False if hi < k else None
            return None
        # two symbolic values
        if x[0] == 'p' and y[0] == 'p':
            if pred in ('eq', 'ne'):
                # distinct objects
                bx, by = x[1], y[1]
                if bx != by:
                    if self.fresh(bx) and self.fresh(by):
                        return pred == 'ne'
                    cx, cy = self.const_of(s, x), self.const_of(s, y)
                    if cx is not None and cy is not None:
                        return (cx == cy) == (pred == 'eq')
                    nx, ny = self.nonnull(s, x), self.nonnull(s, y)
                    if nx is not None and ny is not None and nx != ny:
                        return pred == 'ne'
        c = self.relkey(pred, x, y)
        if c[0] in s.facts:
            t = s.facts[c[0]][0] != 0
            return t if c[1] else (not t)
        return None

    @staticmethod
    def fresh(b):
        return b[0] in ('h', 'al', 'g', 'lit')

    @staticmethod
    def relkey(pred, x, y):
        if x > y if type(x) is type(y) and repr(x) and False else repr(x) > repr(y):
            x, y, pred = y, x, PRED_SWAP.get(pred, pred)
        pos = True
        if pred in ('ne', 'sge', 'sgt', 'uge', 'ugt'):
            pred = PRED_INV[pred]
            pos = False
        return (('cmp', pred, x, y), pos)

    def assume(self, s, v, t):
        """refine s with truth(v)==t; returns feasibility"""
        k = v[0]
        cur = self.truth(s, v)
        if cur is not None:
            return cur == t
        if k == 'not':
            return self.assume(s, v[1], not t)
        if k == 'cmp':
            return self.assume_cmp(s, v[1] if t else PRED_INV.get(v[1], v[1]), v[2], v[3])
        if k == 'p' and not v[2]:
            lo, hi, ex = self.getf(s, v[1])
            return self.setf(s, v[1], (lo, hi, ex | {0}) if t else (max(lo, 0), min(hi, 0), ex))
        if k == 'ctm':
            if t and not (v[2] & 2):
                return self.exclude0(s, v[1])
            return True
        return True

    def exclude0(self, s, v):
        if v[0] == 'c':
            return v[1] != 0
        if v[0] == 'p' and not v[2]:
            lo, hi, ex = self.getf(s, v[1])
            return self.setf(s, v[1], (lo, hi, ex | {0}))
        return True

    def assume_cmp(self, s, pred, x, y):
        if x[0] == 'c' and y[0] != 'c':
            x, y, pred = y, x, PRED_SWAP.get(pred, pred)
        if y[0] != 'c':
            cy = self.const_of(s, y)
            if cy is not None:
                y = C(cy)
            else:
                cx = self.const_of(s, x)
                if cx is not None:
                    x, y, pred = y, C(cx), PRED_SWAP.get(pred, pred)
        if y[0] == 'c':
            k = y[1]
            if x[0] in ('cmp', 'not'):
                if pred in ('eq', 'ne') and k in (0, 1):
                    return self.assume(s, x, (k == 1) == (pred == 'eq'))
                return True
            if x[0] == 'ctm':
                if k == 0 and pred in ('eq', 'ne'):
                    return self.assume(s, x, pred == 'ne')
                return True
            if x[0] == 'scmp':
                if k == 0 and pred == 'eq':
                    return self.scmp_true(s, x)
                return True
            if x[0] == 'p' and not x[2]:
                b = x[1]
                lo, hi, ex = self.getf(s, b)
                if pred == 'eq':
                    if k < lo or k > hi or k in ex:
                        return False
                    lo = hi = k
                elif pred == 'ne':
                    ex = ex | {k} if len(ex) < 12 or k == 0 else ex
                elif pred == 'slt' or (pred == 'ult' and lo >= 0):
                    hi = min(hi, k - 1)
                elif pred == 'sle' or (pred == 'ule' and lo >= 0):
                    hi = min(hi, k)
                elif pred == 'sgt' or (pred == 'ugt' and lo >= 0):
                    lo = max(lo, k + 1)
                elif pred == 'sge' or (pred == 'uge' and lo >= 0):
                    lo = max(lo, k)
                elif pred == 'ugt' or (pred == 'uge' and k >= 1):
                    ex = ex | {0}
                elif (pred == 'ult' and k == 1) or (pred == 'ule' and k == 0):
                    lo = hi = 0
                ok = self.setf(s, b, (lo, hi, ex))
                if ok:
                    self.derive(s, b)
                return ok
            return True
        if x[0] == 'p' and y[0] == 'p' and pred == 'eq' and not x[2] and not y[2]:
            fx, fy = self.getf(s, x[1]), self.getf(s, y[1])
            f = norm((max(fx[0], fy[0]), min(fx[1], fy[1]), fx[2] | fy[2]))
            if f is None:
                return False
            if f != NOFACT:
                s.facts[x[1]] = f
                s.facts[y[1]] = f
        if x[0] == 'p' and y[0] == 'p':
            ck, pos = self.relkey(pred, x, y)
            s.facts[ck] = (1, 1, frozenset()) if pos else (0, 0, frozenset())
        return True

    def derive(self, s, b):
        pass

    def scmp_true(self, s, x):
        return True

    # ------------------------------------------------------------------ memory
    def addp(self, v, elems):
        if v[0] == 'p':
            path = v[2]
            for e in elems:
                if type(e) is tuple and e[0] == 'o' and path and type(path[-1]) is tuple and path[-1][0] == 'o':
                    if e[1] == '*' or path[-1][1] == '*':
                        path = path[:-1] + (('o', '*'),)
                    else:
                        n = path[-1][1] + e[1]
                        path = path[:-1] + ((('o', n),) if n else ())
                elif type(e) is tuple and e[0] == 'i' and path and type(path[-1]) is tuple and path[-1][0] == 'i' and len(e) > 2:
                    # pointer arithmetic on array element
                    if e[1] == '*' or path[-1][1] == '*':
                        path = path[:-1] + (('i', '*'),)
                    else:
                        path = path[:-1] + (('i', path[-1][1] + e[1]),)
                elif e == 'ob_base':
                    continue
                else:
                    if type(e) is tuple and e[0] == 'i':
                        e = ('i', e[1])
                    if type(e) is tuple and e[0] in 'oi' and e[1] == 0:
                        continue
                    path = path + (e,)
            if len(path) > 6:
                path = path[:6]
            return ('p', v[1], path)
        if v[0] == 'c':
            return v
        return None

    def newsym(self, s, inst, extra=None, kind='r', inloop=None):
        base = (kind, inst.i) if extra is None else (kind, inst.i, extra)
        if inloop is None:
            inloop = self.cur.loop[inst.bb]
        if inloop:
            self.retire(s, base, inst)
        else:
            s.facts.pop(base, None)
        return base

    def retire(self, s, base, inst):
        """the instruction executes again: the previous instance becomes 'old'"""
        s.env.pop(inst.i, None)
        occ = False
        iid = base[1]
        for v in s.env.values():
            if iid in iids(v) and contains(v, base):
                occ = True
                break
        if not occ:
            for k, v in s.mem.items():
                if (iid in iids(k[0]) and contains(k[0], base)) or (iid in iids(v) and contains(v, base)):
                    occ = True
                    break
        if not occ:
            ow = [k for k in s.own if contains(k, base)]
            if not any(k[0] in ('h', "h'") and s.own[k] != 'f' for k in ow):
                for k in ow:
                    self.forget_own(s, k)
                ow = []
            if not ow:
                for k in [k for k in s.facts if contains(k, base)]:
                    del s.facts[k]
                return
        old = (base[0] + "'",) + base[1:]
        # merge into an older instance when that one still occurs
        prev = any(contains(v, old) for v in s.env.values()) or any(contains(k[0], old) or contains(v, old) for k, v in s.mem.items()) or old in s.own
        t_new, t_old = s.own.get(base), s.own.get(old)
        f_new, f_old = s.facts.get(base), s.facts.get(old)

        def sb(d):
            out = {}
            for k, v in d.items():
                out[subst(k, base, old) if type(k) is tuple else k] = subst(v, base, old) if type(v) is tuple else v
            return out
        multi = False
        if prev:
            for k in [k for k in s.facts if contains(k, old)]:
                del s.facts[k]
            for k in [k for k in s.own if k != old and contains(k, old)]:
                self.forget_own(s, k)
            for k in [k for k in s.mem if contains(k[0], old)]:
                if base[0] != 'h':
                    v = s.mem.pop(k)
                    self.escape(s, v)
            multi = base[0] == 'h'
        s.env = sb(s.env)
        s.mem = sb(s.mem)
        s.facts = sb(s.facts)
        s.own = sb(s.own)
        if prev:
            s.facts.pop(old, None)
            if f_new is not None and f_new == f_old:
                s.facts[old] = f_new
            if multi and t_new not in (None, 'f') and t_old not in (None, 'f'):
                s.own[old] = 'x'
            elif t_new != t_old or multi:
                s.own.pop(old, None)

    def loc_initial(self, s, ptr, inst):
        """value of a never-written location"""
        base, path = ptr[1], ptr[2]
        if base[0] == 'g':
            v = self.global_value(base[1], path)
            if v is not None:
                return v
        if base[0] == 'h':
            if s.mem.get((base, ('$zero',))):
                return NUL
            cp = s.mem.get((base, ('$copy',)))
            if cp and cp[0] == 'p':
                return self.load(s, ('p', cp[1], cp[2] + path), inst, check=False)
        if base[0] == 'al':
            cp = s.mem.get((base, ('$copy',)))
            if cp and cp[0] == 'p':
                return self.load(s, ('p', cp[1], cp[2] + path), inst, check=False)
            if s.mem.get((base, ('$zero',))):
                return NUL
            return None
        return None

    def global_value(self, name, path):
        if name in self.mutated_globals:
            return None
        g = self.prog.global_(name, self.cur.fn.mod)
        if not g or 'init' not in g:
            return None
        v = g['init']
        for e in path:
            if v is None:
                return None
            if type(e) is tuple:
                if e[1] == '*' or not isinstance(v, list) or (v and isinstance(v[0], str)):
                    return None
                if not 0 <= e[1] < len(v):
                    return None
                v = v[e[1]]
            else:
                while isinstance(v, list) and v and not isinstance(v[0], str):
                    v = v[0]
                if not isinstance(v, dict):
                    return None
                v = v['fields'].get(e)
        while isinstance(v, list) and v and not isinstance(v[0], str):
            v = v[0]
        return self.const_operand(v)

    def const_operand(self, v):
        if not isinstance(v, list) or not v:
            return None
        if v[0] == 'c':
            return C(v[1])
        if v[0] == 'n':
            return NUL
        if v[0] == 'f':
            return ('fn', v[1])
        if v[0] == 's':
            return P(('lit', v[1]))
        if v[0] == 'g':
            return P(('g', v[1]))
        return None

    def load(self, s, ptr, inst, check=True):
        if ptr is None or ptr[0] != 'p':
            return P(self.newsym(s, inst))
        base, path = ptr[1], ptr[2]
        key = (base, path)
        v = s.mem.get(key)
        if v is not None:
            return v
        if base[0] == 'lit':
            off = 0
            if path and type(path[-1]) is tuple and path[-1][0] in 'oi':
                off = path[-1][1]
            st = base[1]
            if off != '*' and 0 <= off <= len(st):
                return C(ord(st[off]) if off < len(st) else 0)
            return P(self.newsym(s, inst))
        v = self.loc_initial(s, ptr, inst)
        if v is not None:
            return v
        if any(type(e) is tuple and e[1] == '*' for e in path):
            return P(self.newsym(s, inst))
        if self.cur.loop[inst.bb]:
            r = root_of(base)
            if (r[0].startswith('r') and r[1] == inst.i) or depth(base) >= 2:
                sym = self.newsym(s, inst, org_of(('m', base, path)))
                s.mem[(subst(base, sym, ("r'",) + sym[1:]), path)] = P(sym)
                return P(sym)
        elif depth(base) >= 4:
            sym = self.newsym(s, inst, org_of(('m', base, path)))
            s.mem[key] = P(sym)
            return P(sym)
        return P(('m', base, path))

    def store(self, s, ptr, v, inst):
        if ptr is None or ptr[0] != 'p':
            return
        base, path = ptr[1], ptr[2]
        if any(type(e) is tuple and e[1] == '*' for e in path):
            # weak update of an array element: keep what is stored reachable
            s.mem[(base, path)] = v
            return
        n = len(path)
        for k in [k for k in s.mem if k[0] == base and len(k[1]) > n and k[1][:n] == path]:
            if k[1][0] in ('$zero', '$copy', '$src') or (len(k[1]) > n and isinstance(k[1][n], str) and k[1][n].startswith('$')):
                continue
            if type(k[1][n]) is tuple and k[1][n][0] == 'o':
                continue
            del s.mem[k]
        s.mem[(base, path)] = v

    def havoc(self, s, ptr, inst, n=0):
        """contents of what ptr points to become unknown"""
        if ptr[0] != 'p':
            return
        base, path = ptr[1], ptr[2]
        l = len(path)
        for k in [k for k in s.mem if k[0] == base and k[1][:l] == path]:
            s.mem[k] = P(self.newsym(s, inst, 'h%d.%s' % (n, '.'.join(map(str, k[1])))))
        if base[0] == 'al' and (base, path) not in s.mem:
            s.mem[(base, path)] = P(self.newsym(s, inst, 'h%d' % n))

    # ------------------------------------------------------------------ values
    def val(self, s, o):
        k = o[0]
        if k == 'v':
            v = s.env.get(o[1])
            if v is None:
                if o[1] < self.cur.fn.nargs:
                    return P(('a', o[1]))
                return P(('undef', o[1]))
            return v
        if k == 'c':
            return C(o[1])
        if k == 'n':
            return NUL
        if k == 's':
            return P(('lit', o[1]))
        if k == 'f':
            return ('fn', o[1])
        if k == 'g':
            return P(('g', o[1]))
        if k == 'ce':
            b = self.val(s, o[1])
            p = self.gep_elems(s, o[2])
            return self.addp(b, p) or P(('undef', 0))
        if k == 'u':
            return P(('undef', 0))
        if k == 'fp':
            return P(('undef', 1))
        return P(('undef', 2))

    def gep_elems(self, s, path):
        out = []
        for p in path:
            if p[0] == 'f':
                out.append(p[2])
            elif p[0] == 'i':
                v = self.val(s, p[1])
                n = self.const_of(s, v)
                if p[2] == 1:
                    out.append(('o', n if n is not None else '*'))
                else:
                    out.append(('i', n if n is not None else '*'))
            elif p[0] == 'p':
                v = self.val(s, p[1])
                n = self.const_of(s, v)
                if p[2] == 1:
                    out.append(('o', n if n is not None else '*'))
                else:
                    out.append(('i', n if n is not None else '*', 1))
        return out

    # ------------------------------------------------------------------ analysis
    def analyse(self, fn):
        fid = self.fid(fn)
        info = self.info.get(fid)
        if info is None:
            info = self.info[fid] = FnInfo(fn, self)
            self.future(info)
        self.cur = info
        info.exits = {}
        summ = Summary()
        summ.reads = info.reads
        if fid in self.sums:
            summ.needs = set(self.sums[fid].needs)
        self.summ = summ
        s0 = St()
        self.entry(s0, fn)
        seen = [set() for _ in range(info.n)]
        nst = [0] * info.n
        import heapq
        pending = {0: [s0]}
        work = [(0, 0)]
        steps = 0
        trunc = False
        while work:
            _, b = heapq.heappop(work)
            batch = pending.pop(b, None)
            if not batch:
                continue
            if len(batch) > self.JOIN1 or nst[b] > self.JOIN1:
                batch = self.join_states(batch, b, len(batch) > self.JOIN2 or nst[b] > self.JOIN2)
            for s in batch:
                k = s.key()
                if k in seen[b]:
                    continue
                if nst[b] >= self.MAXSTATES:
                    trunc = True
                    continue
                seen[b].add(k)
                nst[b] += 1
                res = self.exec_block(s, b)
                steps += len(fn.blocks[b])
                for nb, ns in res:
                    if nb in pending:
                        pending[nb].append(ns)
                    else:
                        pending[nb] = [ns]
                        heapq.heappush(work, (info.rpo.get(nb, 0), nb))
            if steps > self.MAXSTEPS:
                trunc = True
                break
        summ.trunc = trunc
        summ.outs = self.merge_outs(list(info.exits.values()))
        if self.final:
            self.stats['functions'] += 1
            self.stats['blocks'] += info.n
            self.stats['states'] += sum(nst)
            self.stats['insts'] += steps
            self.stats['outcomes'] += len(summ.outs)
            if trunc:
                self.stats['truncated'].append(fn.name)
        self.post_analyse(fn, summ)
        return summ

    def join_states(self, batch, b, hard):
        """merge states that agree on everything but facts; when `hard`, also those that agree on
        ownership and flags only (property simulation)"""
        d = {}
        for s in batch:
            k = (frozenset(s.env.items()), frozenset(s.mem.items()), frozenset(s.own.items()), frozenset(s.fl.items()))
            if k in d:
                self.join_facts(d[k], s)
            else:
                d[k] = s
        out = list(d.values())
        if not hard or len(out) <= 1:
            return out
        d = {}
        for s in out:
            k = (frozenset(s.own.items()), frozenset(s.fl.items()), self.join_key(s))
            if k in d:
                d[k] = self.join_full(d[k], s, b)
            else:
                d[k] = s
        return list(d.values())

    def join_key(self, s):
        return None

    def join_facts(self, a, b):
        for k in list(a.facts):
            g = b.facts.get(k)
            if g is None:
                del a.facts[k]
            elif g != a.facts[k]:
                f = self.hull(a.facts[k], g)
                if f == NOFACT:
                    del a.facts[k]
                else:
                    a.facts[k] = f

    @staticmethod
    def hull(x, y):
        return (min(x[0], y[0]), max(x[1], y[1]),
                frozenset(e for e in x[2] | y[2] if (e in x[2] or not x[0] <= e <= x[1]) and (e in y[2] or not y[0] <= e <= y[1]))
                | (frozenset([0]) if (x[0] > 0 or x[1] < 0 or 0 in x[2]) and (y[0] > 0 or y[1] < 0 or 0 in y[2]) else frozenset()))

    def factof(self, s, v):
        if v[0] == 'c':
            return (v[1], v[1], frozenset())
        if v[0] == 'p':
            if v[2] or v[1][0] in ('al', 'g', 'lit'):
                return (1, INF, frozenset())
            return self.getf(s, v[1])
        if v[0] == 'fn':
            return (1, INF, frozenset())
        if v[0] in ('cmp', 'not'):
            return (0, 1, frozenset())
        return NOFACT

    def join_full(self, a, b, blk):
        newf = {}
        memo = {}
        taken = set()

        def collect(t):
            taken.update(jsyms(t))
        for k, v in a.env.items():
            if b.env.get(k) == v:
                collect(v)
        for k, v in a.mem.items():
            collect(k[0])
            if b.mem.get(k) == v:
                collect(v)
        for k in b.mem:
            collect(k[0])
        for k in a.own:
            collect(k)

        def jv(x, y, loc):
            if x == y:
                return x
            if (x, y) in memo:
                return memo[(x, y)]
            f = self.hull(self.factof(a, x), self.factof(b, y))
            # a heap object on one side and NULL on the other: the object, maybe NULL
            r = None
            for v, w, sw in ((x, y, b), (y, x, a)):
                if v[0] == 'p' and v[1][0] in ('h', "h'") and not v[2] and self.const_of(sw, w) == 0:
                    r = v
            if r is None:
                base = ('j', blk, loc)
                n = 0
                while base in taken:
                    n += 1
                    base = ('j', blk, loc, n)
                taken.add(base)
                r = P(base)
                newf[base] = f if norm(f) else NOFACT
            else:
                newf[r[1]] = f
            memo[(x, y)] = r
            return r
        r = St()
        for k, v in a.env.items():
            if k in b.env:
                r.env[k] = jv(v, b.env[k], k)
        keys = list(a.mem)
        for k in b.mem:
            if k not in a.mem:
                keys.append(k)
        for k in keys:
            x, y = a.mem.get(k), b.mem.get(k)
            if k[1] and isinstance(k[1][-1], str) and k[1][-1].startswith('$'):
                if x == y:
                    r.mem[k] = x
                continue
            if x is None or y is None:
                if k[0][0] == 'al':
                    # uninitialised on one side
                    z = x if x is not None else y
                    r.mem[k] = z
                    continue
                init = P(('m', k[0], k[1]))
                if k[0][0] in ('h', "h'"):
                    init = NUL if (a if x is None else b).mem.get((k[0], ('$zero',))) else init
                x = init if x is None else x
                y = init if y is None else y
            r.mem[k] = jv(x, y, k)
        r.own = dict(a.own)
        r.fl = dict(a.fl)
        r.tr = a.tr
        r.facts = dict(a.facts)
        self.join_facts(r, b)
        for k in [k for k in r.facts if k in newf or any(contains(k, j) for j in newf if j[0] == 'j')]:
            del r.facts[k]
        for k, f in newf.items():
            if f == NOFACT:
                r.facts.pop(k, None)
            else:
                r.facts[k] = f
        return r

    def post_analyse(self, fn, summ):
        pass

    def entry(self, s, fn):
        for k in range(fn.nargs):
            s.env[k] = P(('a', k))

    def future(self, info):
        """field names that may still be loaded from each block on; fields whose values get released"""
        fn = info.fn
        gen = [set() for _ in range(info.n)]
        rel = set()
        for b in range(info.n):
            for i in fn.blocks[b]:
                if i.op == 'load':
                    gen[b].add(self.lastfield(fn, i.a[0]))
                elif i.op == 'store':
                    gen[b].add('w:' + self.lastfield(fn, i.a[1]))
                elif i.op == 'call':
                    for t in self.call_targets(fn, i):
                        sm = self.sums.get(self.fid(t))
                        if sm:
                            gen[b] |= sm.reads
                            for o in sm.outs:
                                for (wb, wp), _v in o.writes:
                                    fs = [x for x in wp if isinstance(x, str)]
                                    gen[b].add('w:' + (fs[-1] if fs else '*'))
                        else:
                            gen[b].add('?rec')
                    if i.callee in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'):
                        gen[b].add('?all')
        fr = [set(g) for g in gen]
        ch = True
        while ch:
            ch = False
            for b in reversed(info.order):
                new = set(fr[b])
                for sc in fn.succs(b):
                    new |= fr[sc]
                if len(new) != len(fr[b]):
                    fr[b] = new
                    ch = True
        info.fr = fr
        info.reads = set(x for x in set().union(*gen) if not x.startswith('w:')) if gen else set()

    def lastfield(self, fn, o):
        if o[0] == 'v' and o[1] in fn.insts:
            g = fn.insts[o[1]]
            if g.op == 'gep':
                for p in reversed(g.d['path']):
                    if p[0] == 'f':
                        return p[2]
                return '*'
            if g.op == 'alloca':
                return ''
        if o[0] == 'ce':
            for p in reversed(o[2]):
                if p[0] == 'f':
                    return p[2]
        return '*'

    # -- edges
    def edge(self, s, b, nb):
        """move a state along an edge: phis, liveness, pruning"""
        info = self.cur
        fn = info.fn
        blk = fn.blocks[nb]
        newv = {}
        for i in blk:
            if i.op != 'phi':
                break
            for o, pb in i.d['in']:
                if pb == b:
                    newv[i.i] = self.val(s, o)
                    break
        live = info.live[nb]
        env = {k: v for k, v in s.env.items() if k in live}
        env.update(newv)
        s.env = env
        if len(fn.preds[nb]) > 1 or True:
            self.prune(s, nb)
        return s

    def roots(self, s):
        for v in s.env.values():
            yield v

    def prune(self, s, nb):
        """drop facts/memory that cannot matter any more; detect unreachable owned objects"""
        info = self.cur
        # reachable heap objects
        reach = self.reachable(s)
        self.gc(s, reach, nb)
        fr = info.fr[nb] if nb is not None else set()
        allf = '?all' in fr or '?rec' in fr
        # symbols referenced
        refd = set()

        def refs(t):
            if type(t) is tuple:
                if t and t[0] == 'p' and len(t) == 3:
                    refs_base(t[1])
                elif t and t[0] in ('cmp', 'not', 'ctm', 'scmp', 'cte', 'ctv', 'lin', 'len'):
                    for x in t[1:]:
                        refs(x)

        def refs_base(b):
            refd.add(b)
        for v in s.env.values():
            refs(v)
        for k, v in s.mem.items():
            refs(v)
        dead = []
        for k in s.facts:
            b = k
            if b[0] == 'cmp':
                ok = True
                for x in b[2:]:
                    if type(x) is tuple and x[0] == 'p' and x[1] not in refd and not self.reloadable(x[1], fr, allf, s, reach):
                        ok = False
                if not ok:
                    dead.append(k)
                continue
            if b in refd:
                continue
            if self.reloadable(b, fr, allf, s, reach):
                continue
            if b[0] == 'a' or self.keep_fact(s, b):
                continue
            if self.OWN and b[0] == 'm' and depth(b) <= 2 and self.argrooted(b):
                # nullness of a value that is (or will be) overwritten decides what the write replaced
                lf = [x for x in b[2] if isinstance(x, str)]
                if 'w:' + (lf[-1] if lf else '*') in fr or s.mem.get((b[1], b[2]), P(b)) != P(b):
                    continue
            dead.append(k)
        for k in dead:
            self.drop_fact(s, k)
        if self.OWN:
            for b in [b for b in s.own if b[0] not in ('h', "h'", 'a')]:
                if b in refd or (b[0] == 'm' and root_of(b)[0] == 'a' and depth(b) <= 1):
                    continue
                if self.reloadable(b, fr, allf, s, reach):
                    continue
                self.forget_own(s, b)

    def forget_own(self, s, k):
        if s.own[k] in 'fn':
            og = org_of(k)
            if og and og[1]:
                self.summ.deep.add(og)
        del s.own[k]
        for m in [m for m in s.mem if m[0] == k]:
            v = s.mem.pop(m)
            self.escape(s, v)

    def keep_fact(self, s, b):
        return False

    def drop_fact(self, s, k):
        del s.facts[k]

    def reloadable(self, b, fr, allf, s, reach):
        """can the program name this symbol again by loading from memory?"""
        if b[0] != 'm':
            return False
        if not allf:
            lf = ''
            for e in reversed(b[2]):
                if isinstance(e, str):
                    lf = e
                    break
            else:
                lf = '*'
            if lf not in fr and not (lf == '*' and ('*' in fr)):
                return False
        r = b[1]
        while r[0] == 'm':
            r = r[1]
        if r[0] in ('a', 'g'):
            return True
        return r in reach

    def reachable(self, s, envroots=True):
        """bases reachable from live values, non-local memory and locals"""
        seen = set()
        work = []

        def push(t):
            if type(t) is tuple and t:
                if t[0] == 'p' and len(t) == 3:
                    b = t[1]
                    while True:
                        if b not in seen:
                            seen.add(b)
                            work.append(b)
                        if b[0] in ('m',):
                            b = b[1]
                        else:
                            break
                elif t[0] not in ('c', 'fn'):
                    for x in t[1:]:
                        push(x)
        if envroots:
            for v in s.env.values():
                push(v)
        bybase = {}
        for k, v in s.mem.items():
            bybase.setdefault(k[0], []).append((k[1], v))
        for b in bybase:
            if b[0] not in ('h', "h'") and not (b[0] == 'al' and not envroots):
                if b not in seen and (b[0] != 'm' or True):
                    if s.own.get(b) == 'f':
                        continue
                    rb = root_of(b)
                    if rb[0] in ('h', "h'"):
                        continue
                    if rb[0] == 'al' and not envroots:
                        continue
                    seen.add(b)
                    work.append(b)
        while work:
            b = work.pop()
            if s.own.get(b) == 'f':
                continue
            for path, v in bybase.get(b, ()):
                push(v)
        # things hanging below unwritten memory of a reachable object stay reachable
        ch = True
        while ch:
            ch = False
            for b in bybase:
                if b not in seen and b[0] == 'm' and root_of(b) in seen and s.own.get(root_of(b)) != 'f':
                    seen.add(b)
                    ch = True
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        for path, v in bybase.get(x, ()):
                            if v[0] == 'p' and v[1] not in seen:
                                seen.add(v[1])
                                stack.append(v[1])
        return seen

    def gc(self, s, reach, nb):
        dead = set()
        for k in s.mem:
            b = k[0]
            if b[0] in ('h', "h'"):
                if b not in reach:
                    dead.add(b)
            elif b[0] not in ('al', 'g') and b not in reach:
                r = root_of(b)
                if r[0] in ('a', 'g'):
                    continue
                if b not in reach:
                    dead.add(b)
        if self.OWN:
            for b in list(s.own):
                if b[0] in ('h', "h'") and b not in reach:
                    t = s.own.pop(b)
                    if t != 'f':
                        self.leaked(s, b, nb)
        if dead:
            for k in [k for k in s.mem if k[0] in dead]:
                del s.mem[k]

    def leaked(self, s, b, nb):
        pass

    # -- blocks
    def exec_block(self, s, b):
        fn = self.cur.fn
        states = [s]
        blk = fn.blocks[b]
        for i in blk[:-1]:
            if i.op == 'phi':
                continue
            nxt = []
            for st in states:
                r = self.step(st, i)
                if r is None:
                    nxt.append(st)
                else:
                    nxt.extend(r)
            states = nxt
            if not states:
                return []
            if len(states) > 1 and i.op == 'call':
                d = {}
                for st in states:
                    d.setdefault(st.key(), st)
                states = list(d.values())
        t = blk[-1]
        out = []
        for st in states:
            if t.op == 'ret':
                self.do_exit(st, t)
            elif t.op == 'br':
                succ = t.d['succ']
                if len(succ) == 1:
                    out.append((succ[0], self.edge(st, b, succ[0])))
                else:
                    c = self.val(st, t.a[0])
                    tv = self.truth(st, c)
                    if tv is not False:
                        s1 = st.copy() if tv is None else st
                        s1.tr = (t.l, '+', st.tr) if tv is None else s1.tr
                        if self.assume(s1, c, True) and self.on_branch(s1, t, c, True):
                            out.append((succ[0], self.edge(s1, b, succ[0])))
                    if tv is not True:
                        st.tr = (t.l, '-', st.tr) if tv is None else st.tr
                        if self.assume(st, c, False) and self.on_branch(st, t, c, False):
                            out.append((succ[1], self.edge(st, b, succ[1])))
            elif t.op == 'switch':
                v = self.val(st, t.a[0])
                cv = self.const_of(st, v)
                if cv is not None:
                    for k, sb in t.d['cases']:
                        if k == cv:
                            out.append((sb, self.edge(st, b, sb)))
                            break
                    else:
                        out.append((t.d['default'], self.edge(st, b, t.d['default'])))
                else:
                    for k, sb in t.d['cases']:
                        s1 = st.copy()
                        if self.assume_cmp(s1, 'eq', v, C(k)):
                            out.append((sb, self.edge(s1, b, sb)))
                    ok = True
                    for k, sb in t.d['cases']:
                        ok = ok and self.assume_cmp(st, 'ne', v, C(k))
                    if ok:
                        out.append((t.d['default'], self.edge(st, b, t.d['default'])))
        return out

    def on_branch(self, s, t, c, truth):
        return True

    # -- instructions
    def step(self, s, i):
        op = i.op
        if op == 'load':
            p = self.val(s, i.a[0])
            self.on_deref(s, p, i)
            if self.dead(s):
                return []
            s.env[i.i] = self.load_checked(s, p, i)
        elif op == 'store':
            p = self.val(s, i.a[1])
            v = self.val(s, i.a[0])
            self.on_deref(s, p, i)
            if self.dead(s):
                return []
            self.on_store(s, p, v, i)
            self.store(s, p, v, i)
        elif op == 'gep':
            b = self.val(s, i.a[0])
            s.env[i.i] = self.do_gep(s, b, i)
        elif op == 'alloca':
            s.env[i.i] = P(('al', i.i))
        elif op == 'icmp':
            x, y = self.val(s, i.a[0]), self.val(s, i.a[1])
            pred = i.d['pred']
            t = self.decide(s, pred, x, y)
            s.env[i.i] = C(1 if t else 0) if t is not None else ('cmp', pred, x, y)
        elif op == 'cast':
            v = self.val(s, i.a[0])
            k = i.d['kind']
            if k in ('zext', 'sext') and v[0] == 'c' and i.d.get('ot') == 'i1':
                v = C(1 if v[1] else 0) if k == 'zext' else C(-1 if v[1] else 0)
            elif k == 'zext' and v[0] == 'c' and v[1] < 0:
                bits = {'i8': 8, 'i16': 16, 'i32': 32}.get(i.d.get('ot'))
                if bits:
                    v = C(v[1] & ((1 << bits) - 1))
            elif k == 'trunc' and v[0] == 'c':
                bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i1': 1}.get(i.t)
                if bits:
                    n = v[1] & ((1 << bits) - 1)
                    if bits > 1 and n >= 1 << (bits - 1):
                        n -= 1 << bits
                    v = C(n)
            s.env[i.i] = v
        elif op == 'bin':
            s.env[i.i] = self.do_bin(s, i)
        elif op == 'call':
            return self.do_call(s, i)
        elif op == 'select':
            c = self.val(s, i.a[0])
            tv = self.truth(s, c)
            if tv is None:
                s2 = s.copy()
                out = []
                if self.assume(s, c, True):
                    s.env[i.i] = self.val(s, i.a[1])
                    out.append(s)
                if self.assume(s2, c, False):
                    s2.env[i.i] = self.val(s2, i.a[2])
                    out.append(s2)
                return out
            s.env[i.i] = self.val(s, i.a[1 if tv else 2])
        elif op == 'freeze':
            s.env[i.i] = self.val(s, i.a[0])
        else:
            if i.t:
                s.env[i.i] = P(self.newsym(s, i))
        return None

    def dead(self, s):
        return 'dead' in s.fl

    def load_checked(self, s, p, i):
        if p[0] == 'ctt':
            return p
        if p[0] == 'cte':
            return ('ctv', p[1])
        if p[0] == 'ctb':
            return ('ctt',)
        return self.load(s, p, i)

    def do_gep(self, s, b, i):
        if b[0] == 'ctt':
            p = i.d['path'][-1]
            return ('cte', self.val(s, p[1]))
        el = self.gep_elems(s, i.d['path'])
        if self.cur.loop[i.bb]:
            el = [(e[0], '*') + e[2:] if type(e) is tuple and (len(e) > 2 or e[0] == 'o') and e[1] != 0 else e for e in el]
        if self.CHAROPAQUE:
            el = [('o', '*') if type(e) is tuple and e[0] == 'o' and e[1] != 0 else e for e in el]
        r = self.addp(b, el)
        return r if r is not None else P(self.newsym(s, i))

    def do_bin(self, s, i):
        x, y = self.val(s, i.a[0]), self.val(s, i.a[1])
        op = i.d.get('kind')
        if op == 'and' and x[0] == 'ctv' and y[0] == 'c':
            return ('ctm', x[1], y[1])
        if op == 'xor' and y == C(-1) and x[0] in ('cmp', 'not') or op == 'xor' and y == C(1) and x[0] in ('cmp', 'not'):
            return x[1] if x[0] == 'not' else ('not', x)
        cx, cy = self.const_of(s, x), self.const_of(s, y)
        loop = self.cur.loop[i.bb]
        if cx is not None and cy is not None:
            r = None
            if op == 'add':
                r = cx + cy
            elif op == 'sub':
                r = cx - cy
            elif op == 'mul':
                r = cx * cy
            elif op == 'and':
                r = cx & cy
            elif op == 'or':
                r = cx | cy
            elif op == 'xor':
                r = cx ^ cy
            elif op == 'shl' and 0 <= cy < 64:
                r = cx << cy
            if r is not None and (not loop or -1 <= r <= 1):
                return C(r)
        if op == 'xor' and cy == -1 and x[0] == 'p' and i.t == 'i1':
            return ('not', x)
        if op in ('and', 'or') and i.t == 'i1':
            tx, ty = self.truth(s, x), self.truth(s, y)
            if op == 'and' and (tx is False or ty is False):
                return C(0)
            if op == 'or' and (tx or ty):
                return C(1)
        # sign facts
        lo, hi = -INF, INF
        fx = self.rng(s, x)
        fy = self.rng(s, y)
        if op == 'add':
            lo, hi = fx[0] + fy[0], fx[1] + fy[1]
        elif op == 'sub':
            lo, hi = fx[0] - fy[1], fx[1] - fy[0]
        elif op == 'and' and cy is not None and cy >= 0:
            lo, hi = 0, cy
        elif op in ('mul', 'or') and fx[0] >= 0 and fy[0] >= 0:
            lo = 0
        sym = self.newsym(s, i)
        if loop:
            lo = 1 if lo >= 1 else 0 if lo >= 0 else -INF
            hi = INF if hi >= 0 else -1
        lo = lo if lo > -(1 << 64) else -INF
        hi = hi if hi < (1 << 64) else INF
        if lo > -INF or hi < INF:
            s.facts[sym] = (lo, hi, frozenset())
        return P(sym)

    def rng(self, s, v):
        if v[0] == 'c':
            return (v[1], v[1])
        if v[0] == 'p' and not v[2]:
            f = self.getf(s, v[1])
            return (f[0], f[1])
        if v[0] in ('cmp', 'not'):
            return (0, 1)
        return (-INF, INF)

    # hooks
    def on_deref(self, s, p, i):
        pass

    def on_store(self, s, p, v, i):
        pass

    # -- calls
    def do_call(self, s, i):
        fn = self.cur.fn
        name = i.callee
        args = [self.val(s, o) for o in i.a]
        if name is None:
            cv = self.val(s, i.d['callee'])
            if cv[0] == 'fn':
                t = self.prog.resolve(cv[1], fn.mod)
                # the function may live in another module's scope
                if t is None:
                    for n, m in self.fieldfuncs.get(self.lastfield(fn, ['v', i.d['callee'][1]]), ()):
                        pass
                targets = [t] if t else self.call_targets(fn, i)
            else:
                targets = self.call_targets(fn, i)
            return self.call_known(s, i, targets, args) if targets else self.call_unknown(s, i, args)
        t = self.prog.resolve(name, fn.mod)
        h = self.models.get(name)
        if h is not None:
            return h(self, s, i, args)
        if t is not None:
            return self.call_known(s, i, [t], args)
        if name.startswith('llvm.'):
            return self.intrinsic(s, i, name, args)
        return self.call_extern(s, i, name, args)

    def intrinsic(self, s, i, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            for p in args[:2]:
                self.on_deref(s, p, i)
            if self.dead(s):
                return []
            self.memcpy(s, args[0], args[1], self.const_of(s, args[2]), i)
        elif name.startswith('llvm.memset'):
            self.on_deref(s, args[0], i)
            if args[0][0] == 'p' and self.const_of(s, args[1]) == 0:
                b, path = args[0][1], args[0][2]
                for k in [k for k in s.mem if k[0] == b and k[1][:len(path)] == path]:
                    del s.mem[k]
                if not path:
                    s.mem[(b, ('$zero',))] = C(1)
        elif i.t:
            s.env[i.i] = P(self.newsym(s, i))
        return None

    def memcpy(self, s, d, src, n, i):
        if d[0] != 'p' or src[0] != 'p':
            return
        db, dp = d[1], d[2]
        sb, sp = src[1], src[2]
        if any(type(e) is tuple for e in dp) or any(type(e) is tuple and e[0] == 'o' for e in sp):
            # element of an array: keep reachability
            return
        if n is None:
            # variable length: contents become an unknown copy; pointers stay reachable
            for k in [k for k in s.mem if k[0] == sb and k[1][:len(sp)] == sp]:
                s.mem[(db, dp + k[1][len(sp):])] = s.mem[k]
            return
        for k in [k for k in s.mem if k[0] == db and k[1][:len(dp)] == dp]:
            del s.mem[k]
        for k in [k for k in s.mem if k[0] == sb and k[1][:len(sp)] == sp]:
            rest = k[1][len(sp):]
            s.mem[(db, dp + rest)] = s.mem[k]
        if not dp and sb[0] not in ('al',) and (sb, ('$zero',)) not in s.mem and (sb, ('$copy',)) not in s.mem:
            s.mem[(db, ('$copy',))] = src

    def call_unknown(self, s, i, args):
        if i.t:
            s.env[i.i] = P(self.newsym(s, i))
        self.escape_args(s, i, args)
        return None

    def escape_args(self, s, i, args):
        for n, v in enumerate(args):
            if v[0] == 'p':
                self.havoc(s, v, i, n)

    def call_extern(self, s, i, name, args):
        return self.call_unknown(s, i, args)

    def call_known(self, s, i, targets, args):
        out = []
        known = False
        outs = []
        seenk = set()
        for t in targets:
            sm = self.sums.get(self.fid(t))
            if sm is None:
                if self.fid(t) in self.callees:
                    known = True       # recursion in progress: no outcome yet
                    continue
                return self.call_unknown(s, i, args)
            known = True
            self.on_call_summary(s, i, t, sm, args)
            for o in sm.outs:
                k = o.key()
                if k not in seenk:
                    seenk.add(k)
                    outs.append((o, sm))
        if not known:
            return self.call_unknown(s, i, args)
        for o, sm in outs:
            st = s.copy()
            if self.apply(st, i, o, sm, args):
                out.append(st)
        return out

    def on_call_summary(self, s, i, t, sm, args):
        pass

    def inst_base(self, st, i, b, args, memo):
        """instantiate a callee base term; returns a value"""
        if b in memo:
            return memo[b]
        t = b[0]
        if t == 'a':
            v = args[b[1]] if b[1] < len(args) else P(('undef', 3))
        elif t == 'm':
            bv = self.inst_base(st, i, b[1], args, memo)
            if bv[0] == 'p':
                v = self.load(st, self.addp(bv, b[2]), i, check=False)
            else:
                v = P(('k', i.i, 'null'))
        elif t == 'H':
            v = P(('h', i.i, b[1]))
        elif t == 'S':
            v = P(('k', i.i, b[1]))
        elif t in ('g', 'lit'):
            v = P(b)
        else:
            v = P(('k', i.i, 'u'))
        memo[b] = v
        return v

    def inst_val(self, st, i, v, args, memo):
        t = v[0]
        if t in ('c', 'fn'):
            return v
        if t == 'p':
            bv = self.inst_base(st, i, v[1], args, memo)
            if not v[2]:
                return bv
            if bv[0] == 'p':
                return self.addp(bv, v[2])
            return bv
        if t in ('cmp', 'not', 'ctm', 'scmp'):
            out = []
            for x in v:
                out.append(self.inst_val(st, i, x, args, memo) if type(x) is tuple and x and x[0] in ('c', 'p', 'fn', 'cmp', 'not', 'ctm', 'ctv') else x)
            return tuple(out)
        return P(('k', i.i, 'e'))

    def apply(self, st, i, o, sm, args):
        # fresh names created by this call
        loop = self.cur.loop[i.bb]
        names = [('h', i.i, h[0]) for h in o.heap] + [('k', i.i, f[0][1]) for f in o.facts if f[0][0] == 'S']
        if loop:
            used = set()
            iid = i.i
            st.env.pop(iid, None)
            terms = list(st.env.values()) + [k[0] for k in st.mem] + list(st.mem.values()) + list(st.own) + list(st.facts)
            for t in terms:
                if iid in iids(t):
                    for x in syms(t):
                        if x[0] in ('k', 'h') and len(x) > 1 and x[1] == iid:
                            used.add(x)
            for nm in sorted(used, key=repr):
                self.retire(st, nm, i)
        memo = {}
        for b, f in o.conds:
            v = self.inst_base(st, i, b, args, memo)
            if not self.meet(st, v, f):
                return False
        vals = []
        for (b, path), v in o.writes:
            bv = self.inst_base(st, i, b, args, memo)
            if bv[0] == 'c' or self.nonnull(st, bv) is False:
                return False
            vals.append((bv, path, self.inst_val(st, i, v, args, memo)))
        freed = [self.inst_base(st, i, b, args, memo) for b in o.freed]
        esc = [self.inst_base(st, i, b, args, memo) for b in o.esc]
        ret = self.inst_val(st, i, o.ret, args, memo) if o.ret is not None else None
        for b, f in o.facts:
            v = self.inst_base(st, i, b, args, memo)
            if not self.meet(st, v, f):
                return False
        for hid, tag, cont in o.heap:
            hb = ('h', i.i, hid)
            if tag is not None and self.OWN:
                st.own[hb] = tag
            for path, v in cont:
                st.mem[(hb, path)] = self.inst_val(st, i, v, args, memo)
        for v in freed:
            self.release(st, i, v, sm, args)
        if not self.ok(st):
            return False
        if sm.deep:
            self.deep_release(st, i, sm, args, o)
        for v in esc:
            self.escape(st, v)
        for bv, path, v in vals:
            if bv[0] == 'p':
                self.store(st, self.addp(bv, path), v, i)
        if ret is not None and i.t:
            st.env[i.i] = ret
        elif i.t:
            st.env[i.i] = P(self.newsym(st, i))
        return self.apply_flags(st, i, o, args)

    def ok(self, st):
        return True

    def apply_flags(self, st, i, o, args):
        return True

    def meet(self, st, v, f):
        if v[0] == 'c':
            return f[0] <= v[1] <= f[1] and v[1] not in f[2]
        if v[0] == 'fn':
            return f[1] != 0
        if v[0] in ('cmp', 'not'):
            t = self.truth(st, v)
            if t is not None:
                n = 1 if t else 0
                return f[0] <= n <= f[1] and n not in f[2]
            if f[0] > 0 or f[1] < 0 or 0 in f[2]:
                return self.assume(st, v, True)
            if f[0] == f[1] == 0:
                return self.assume(st, v, False)
            return True
        if v[0] == 'p':
            if v[2] or v[1][0] in ('al', 'g', 'lit'):
                return not (f[0] == f[1] == 0)
            c = self.getf(st, v[1])
            return self.setf(st, v[1], (max(f[0], c[0]), min(f[1], c[1]), f[2] | c[2]))
        return True

    def release(self, st, i, v, sm, args):
        pass

    def deep_release(self, st, i, sm, args, o):
        pass

    def escape(self, st, v):
        pass

    # -- exits
    def do_exit(self, s, t):
        info = self.cur
        fn = info.fn
        ret = self.val(s, t.a[0]) if t.a else None
        if ret is not None and ret[0] in ('cmp', 'not', 'ctm') and self.cur.fn.ret != 'ptr':
            # split on the returned condition so that callers can correlate
            tv = self.truth(s, ret)
            if tv is None:
                s2 = s.copy()
                if self.assume(s, ret, True):
                    self.exit_state(s, t, C(1))
                if self.assume(s2, ret, False):
                    self.exit_state(s2, t, C(0))
                return
            ret = C(1 if tv else 0)
        self.exit_state(s, t, ret)

    def exit_state(self, s, t, ret):
        s.env = {'ret': ret} if ret is not None else {}
        if ret is not None:
            c = self.const_of(s, ret)
            if c is not None and ret[0] != 'c':
                ret = C(c)
                s.env = {'ret': ret}
        self.on_exit(s, t, ret)
        o = self.make_outcome(s, ret)
        k = o.key()
        if k not in self.cur.exits:
            self.cur.exits[k] = o

    def on_exit(self, s, t, ret):
        pass

    def argrooted(self, b):
        while b[0] == 'm':
            b = b[1]
        return b[0] == 'a'

    def make_outcome(self, s, ret):
        o = Outcome()
        ren = {}
        heap = []
        facts = []

        def rn_base(b, d=0):
            if b in ren:
                return ren[b]
            k = b[0]
            if k in ('a', 'g', 'lit'):
                return b
            if k == 'm':
                r = root_of(b)
                if r[0] == 'a' and depth(b) <= 3:
                    return b
                if r[0] in ('h', 'g') and depth(b) <= 2:
                    return ('m', rn_base(b[1], d), b[2])
            if k == 'h':
                n = ('H', len(heap))
                ren[b] = n
                ent = [n[1], s.own.get(b), ()]
                heap.append(ent)
                f = s.facts.get(b)
                if f:
                    facts.append((n, f))
                if d < 2:
                    cont = []
                    for kk in sorted((kk for kk in s.mem if kk[0] == b), key=repr):
                        v = s.mem[kk]
                        if len(cont) < 24:
                            cont.append((kk[1], rn_val(v, d + 1)))
                    ent[2] = tuple(cont)
                return n
            n = ('S', len(ren))
            ren[b] = n
            f = s.facts.get(b)
            if f:
                facts.append((n, self.coarse(f)))
            return n

        def rn_val(v, d=0):
            if v[0] == 'p':
                return ('p', rn_base(v[1], d), v[2])
            if v[0] in ('c', 'fn'):
                return v
            if v[0] in ('cmp', 'not', 'ctm'):
                return ('p', rn_base(('expr', v), d), ())
            return ('p', rn_base(('expr', v), d), ())
        o.ret = rn_val(ret) if ret is not None else None
        conds = []
        for b, f in s.facts.items():
            if b[0] == 'a':
                conds.append((b, self.coarse(f)))
            elif b[0] == 'm' and self.export_fact(s, b):
                conds.append((b, self.coarse(f)))
        o.conds = tuple(sorted((c for c in conds if c[1] != NOFACT), key=repr))
        w = []
        for k in sorted((k for k in s.mem), key=repr):
            b = k[0]
            if s.own.get(b) == 'f' or s.own.get(root_of(b)) == 'f':
                continue
            r = root_of(b)
            if r[0] in ('a', 'g') and depth(b) <= 3 and not (k[1] and isinstance(k[1][0], str) and k[1][0].startswith('$')):
                v = s.mem[k]
                if v == P(('m', b, k[1])) or self.loadmemo(k, v):
                    continue
                if not self.export_write(s, k, v):
                    continue
                w.append((k, rn_val(v)))
        o.writes = tuple(w)
        fr = []
        for b, t in s.own.items():
            if t in 'fn' and (b[0] == 'a' or (b[0] == 'm' and self.argrooted(b) and depth(b) <= 1)):
                fr.append(b)
            if t in 'fn':
                og = org_of(b)
                if og and og[1]:
                    self.summ.deep.add(og)
        o.freed = tuple(sorted(fr, key=repr))
        esc = []
        for b, t in s.own.items():
            if t == 'e' and (b[0] == 'a'):
                esc.append(b)
        o.esc = tuple(sorted(esc, key=repr))
        o.heap = tuple((h[0], h[1], h[2]) for h in heap)
        o.facts = tuple(facts)
        o.fl = self.export_flags(s)
        return o

    @staticmethod
    def loadmemo(k, v):
        return v[0] == 'p' and v[1][0].startswith('r') and len(v[1]) > 2 and isinstance(v[1][2], tuple) and not v[2] and v[1][2] == org_of(('m', k[0], k[1]))

    def export_flags(self, s):
        return ()

    def export_fact(self, s, b):
        return False

    def export_write(self, s, k, v):
        return True

    @staticmethod
    def coarse(f):
        lo, hi, ex = f
        if lo == hi:
            return f
        if lo > 0:
            return (1, INF, frozenset())
        if hi < 0:
            return (-INF, -1, frozenset())
        if lo == 0:
            return (0, INF, frozenset([0]) if 0 in ex else frozenset())
        return (-INF, INF, frozenset([0]) if 0 in ex else frozenset())

    def merge_outs(self, outs):
        # drop empty conds duplicates: join outcomes that differ only in conds
        d = {}
        for o in outs:
            k = (o.ret, o.writes, o.freed, o.esc, o.heap, o.facts, o.fl)
            if k in d:
                p = d[k]
                p.conds = self.join_conds(p.conds, o.conds)
            else:
                d[k] = o
        outs = list(d.values())
        if len(outs) <= self.MAXOUT:
            return outs
        # coarse merge: by return class and flags; differing writes become unknown
        g = {}
        for o in outs:
            k = (self.retclass(o), o.fl)
            g.setdefault(k, []).append(o)
        res = []
        for k, lst in g.items():
            res.append(self.coarse_join(lst) if len(lst) > 1 else lst[0])
        return res

    def retclass(self, o):
        r = o.ret
        if r is None:
            return None
        if r[0] == 'c':
            return r if abs(r[1]) <= 1 else ('c', '+' if r[1] > 0 else '-')
        if r[0] == 'p' and r[1][0] == 'H':
            f = dict(o.facts).get(r[1], NOFACT)
            return 'H' + ('+' if 0 in f[2] or f[0] > 0 else '?')
        if r[0] == 'p':
            return 'P' if r[1][0] != 'S' else 'S'
        return 'x'

    def join_conds(self, a, b):
        da, db = dict(a), dict(b)
        out = []
        for k in da:
            if k in db:
                x, y = da[k], db[k]
                f = (min(x[0], y[0]), max(x[1], y[1]), frozenset(e for e in x[2] | y[2] if (e in x[2] or not x[0] <= e <= x[1]) and (e in y[2] or not y[0] <= e <= y[1])))
                if f != NOFACT:
                    out.append((k, f))
        return tuple(sorted(out, key=repr))

    def coarse_join(self, lst):
        o = Outcome()
        base = lst[0]
        o.conds = base.conds
        for x in lst[1:]:
            o.conds = self.join_conds(o.conds, x.conds)
        o.fl = base.fl
        # return: keep the first one's shape
        o.ret = base.ret
        keys = []
        for x in lst:
            for k, v in x.writes:
                if k not in keys:
                    keys.append(k)
        o.heap = ()
        facts = []
        heap = []
        nextid = [0]

        def fresh_h(tag, f, cont=()):
            n = nextid[0]
            nextid[0] += 1
            heap.append((n, tag, cont))
            if f:
                facts.append((('H', n), f))
            return P(('H', n))

        def fresh_s(f):
            n = nextid[0]
            nextid[0] += 1
            if f and f != NOFACT:
                facts.append((('S', n), f))
            return P(('S', n))
        if base.ret is not None and base.ret[0] == 'p' and base.ret[1][0] in ('H', 'S'):
            fs = [dict(x.facts).get(x.ret[1], NOFACT) if x.ret[0] == 'p' else (x.ret[1], x.ret[1], frozenset()) for x in lst]
            nn = all(0 in f[2] or f[0] > 0 or f[1] < 0 for f in fs)
            lo = min(f[0] for f in fs)
            hi = max(f[1] for f in fs)
            f = (lo, hi, frozenset([0]) if nn else frozenset())
            if base.ret[1][0] == 'H':
                tags = set()
                for x in lst:
                    for h in x.heap:
                        if x.ret[0] == 'p' and x.ret[1] == ('H', h[0]):
                            tags.add(h[1])
                o.ret = fresh_h(tags.pop() if len(tags) == 1 else None, f)
            else:
                o.ret = fresh_s(f)
        elif any(x.ret != base.ret for x in lst):
            if base.ret is not None and base.ret[0] == 'c':
                o.ret = fresh_s((min(x.ret[1] for x in lst), max(x.ret[1] for x in lst), frozenset()))
            else:
                o.ret = fresh_s(None)
        w = []
        for k in keys:
            vs = []
            for x in lst:
                d = dict(x.writes)
                if k in d:
                    v = d[k]
                    if v[0] == 'p' and v[1][0] == 'H':
                        tag = [h[1] for h in x.heap if h[0] == v[1][1]]
                        vs.append(('H', tag[0] if tag else None, dict(x.facts).get(v[1], NOFACT)))
                    elif v[0] == 'p' and v[1][0] == 'S':
                        vs.append(('S', dict(x.facts).get(v[1], NOFACT)))
                    else:
                        vs.append(('V', v))
                else:
                    vs.append(('none',))
            if all(v == vs[0] for v in vs):
                v = vs[0]
                if v[0] == 'H':
                    w.append((k, fresh_h(v[1], v[2])))
                elif v[0] == 'S':
                    w.append((k, fresh_s(v[1])))
                else:
                    w.append((k, v[1]))
            elif all(v[0] == 'H' or v == ('V', NUL) for v in vs):
                tags = set(v[1] for v in vs if v[0] == 'H')
                w.append((k, fresh_h(tags.pop() if len(tags) == 1 else None, None)))
            else:
                w.append((k, fresh_s(None)))
        o.writes = tuple(w)
        fr = None
        allf = set()
        for x in lst:
            allf |= set(x.freed)
            fr = set(x.freed) if fr is None else fr & set(x.freed)
        o.freed = tuple(sorted(fr, key=repr))
        esc = set()
        for x in lst:
            esc |= set(x.esc)
        esc |= (allf - fr)
        o.esc = tuple(sorted(esc, key=repr))
        o.heap = tuple(heap)
        o.facts = tuple(facts)
        return o
