"""Partition of the inputs of an operation: presence, list lengths, and the values the code itself distinguishes.

The interpreter notes every constant an opaque value was compared with; each such comparison splits the class of
inputs, and the parts in which it comes out the other way are explored as further scenarios."""
import heapq
from . import model
from .model import Node, pathname, WIDTH

SKIPCH = {34, 92} | set(range(33))   # handled by the text with every pair of special characters


def leafs(tree, name):
    """token name -> path of the leaf"""
    out = {}
    for path, node in tree.walk():
        for fn, v in node.f.items():
            if isinstance(v, tuple) and v[0] in ('str', 'num'):
                out[name + '.' + pathname(path + (fn,))] = path + (fn,)
    return out


def setleaf(tree, path, val):
    t = tree.copy()
    t.at(path[:-1]).f[path[-1]] = val
    return t


def show(txt):
    return ''.join(chr(c) if isinstance(c, int) and 32 <= c < 127 else '..' if isinstance(c, tuple) else '\\%d' % c for c in txt)


def refinements(P, tree, cmps, name='in', chars=True, skip=()):
    """(label, key, tree)"""
    lf = leafs(tree, name)
    for c in sorted(cmps, key=repr):
        if c[1] not in lf:
            continue
        path = lf[c[1]]
        lab = pathname(path)
        node = tree.at(path[:-1])
        if len(path) > 1 and node.struct in skip:
            continue
        cur = node.f[path[-1]]
        if cur[0] == 'num':
            if cur[1] is not None:
                continue
            ty = model.ftype(P, node.struct, path[-1])
            bits, sg = WIDTH.get(ty, (64, 0))
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
            if c[0] == 'n':
                v = c[2]
                if not sg and v < 0:
                    v &= (1 << bits) - 1
                for n in (v - 1, v, v + 1):
                    if lo <= n <= hi:
                        n2 = n - (1 << bits) if n >> (bits - 1) and n > 0 else n
                        yield '%s = %d' % (lab, n), (path, n), setleaf(tree, path, ('num', n2))
            elif c[0] == 'e' and c[2] in lf:
                continue
        elif cur[1] is None:
            tok = ('tok', c[1], 0)
            if c[0] == 's':
                for txt in (c[2], c[2] + (tok,), (tok,) + c[2] + (tok,)):
                    yield '%s = "%s"' % (lab, show(txt)), (path, txt), setleaf(tree, path, ('str', txt))
            elif c[0] == 'c' and chars and c[2] not in SKIPCH:
                for txt in ((c[2],), (c[2], tok), (tok, c[2], tok)):
                    yield '%s = "%s"' % (lab, show(txt)), (path, txt), setleaf(tree, path, ('str', txt))
            elif c[0] == 'e' and c[2] in lf and c[2] != c[1]:
                yield '%s = %s' % (lab, pathname(lf[c[2]])), (path, c[2]), setleaf(tree, path, ('str', (('tok', c[2], 0),)))


class Explorer:
    """iterate: for lab, tree in ex: ...; ex.feed(A.cmps)"""

    def __init__(self, P, base, depth=2, name='in', limit=2000, skip=()):
        self.skip = skip
        self.P = P
        self.k = 0
        self.q = [(0, self.seq(), (l, t, 0, frozenset())) for l, t in base]
        self.seen = set()
        self.depth = depth
        self.name = name
        self.limit = limit
        self.n = 0
        self.cur = None

    def __iter__(self):
        while self.q and self.n < self.limit:
            pr, k, self.cur = heapq.heappop(self.q)
            self.main = k == 1 or 0 < pr < 5
            self.n += 1
            yield self.cur[0], self.cur[1]

    def feed(self, cmps):
        l, t, d, known = self.cur
        if d >= self.depth or isinstance(t, list):
            return
        # below the first level only what a refinement newly brings up is refined further
        cmps = frozenset(cmps)
        for rl, key, rt in refinements(self.P, t, cmps - known if d else cmps, self.name, skip=self.skip):
            k = (l, key)
            if k in self.seen:
                continue
            self.seen.add(k)
            lab = rl if l == 'everything present' else '%s, %s' % (l, rl)
            # a text equal to a constant comes before the texts that contain it
            whole = isinstance(key[1], tuple) and any(isinstance(x, tuple) for x in key[1])
            heapq.heappush(self.q, ((1 + d + 2 * whole + (0 if self.main else 4)), self.seq(), (lab, rt, d + 1, cmps | known)))

    def seq(self):
        self.k += 1
        return self.k


def only(P, base, many=1):
    """nothing present but one attribute, or two"""
    n = model.nothing(P, base)
    for fn, v in n.f.items():
        if isinstance(v, tuple) and v[0] == 'enum' and fn != 'type':
            n.f[fn] = ('int0', 0)
    own = []
    for fn, v in base.f.items():
        if (base.struct, fn) in model.MANDATORY:
            n.f[fn] = v
            continue
        if v is None or isinstance(v, tuple) and (v[0] in ('int0', 'alias') or v[0] == 'enum' and fn == 'type'):
            continue
        if isinstance(v, tuple) and v[0] == 'bool':
            v = ('bool', 1)
        own.append((fn, v))
    for a in range(len(own)):
        for b in range(a) if many == 2 else [a]:
            t = n.copy()
            t.f[own[a][0]] = own[a][1]
            t.f[own[b][0]] = own[b][1]
            consistent(base, t)
            yield 'only %s' % own[a][0] + (' and %s' % own[b][0] if b != a else ''), t


def pairs(P, base, kinds):
    """two changes of attributes of the structure itself"""
    own = []
    for fn, v in base.f.items():
        sub = Node(base.struct, {fn: v})
        for lab, t in model.variations(P, sub, kinds):
            if '.' in lab.split(' ')[-1] or '[' in lab:
                continue
            if lab.startswith('special'):
                continue
            own.append((fn, lab, t.f[fn]))
    for a in range(len(own)):
        for b in range(a):
            if own[a][0] != own[b][0]:
                t = base.copy()
                t.f[own[a][0]] = own[a][2]
                t.f[own[b][0]] = own[b][2]
                consistent(base, t)
                yield '%s and %s' % (own[b][1], own[a][1]), t


def consistent(base, t):
    """a structure that has a stacktrace carries the type of the stacktrace"""
    for fn, v in t.f.items():
        if isinstance(v, Node) and v.struct.endswith('_stacktrace'):
            for g, x in base.f.items():
                if isinstance(x, tuple) and x[0] == 'enum':
                    t.f[g] = x
