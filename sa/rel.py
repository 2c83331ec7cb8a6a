"""Abstract interpretation of small functions over a finite domain of orderings.

Scalars of the two compared objects are opaque tokens; only their ordering relation
(<, =, >) is known.  Integers derived from them are sets of signs.  Everything else is
unknown, and an unknown branch is followed both ways.  No value of the program is ever
executed: the domain is finite and the result is the set of possible result signs."""
from .frontend import AnalysisError

TOP = ('top',)
MAXSTEP = 6000
MAXRES = 400


class Undecided(Exception):
    pass


def sg(*s):
    return ('sg', frozenset(s))


def flip(v):
    return ('sg', frozenset(-x for x in v[1]))


class Rel:
    def __init__(self, prog, rel, dispatch=None):
        self.prog = prog
        self.rel = rel              # token key -> '<' '=' '>'
        self.steps = 0
        self.noid = 0
        self.dispatch = dispatch or {}
        self.hooks = {}
        self.summ = {}              # callee name -> fn(self, args) -> value or None

    # ---- entry: run function with args; returns set of outcomes ('ret', v) / ('crash', where)
    def run(self, f, args, heap):
        self.steps = 0
        res = set()
        for v, _ in self.call(f, args, dict(heap), {}, 0):
            res.add(v)
        return res

    def order(self, x, y):
        """relation of two tokens, or None"""
        if x[0] == 't' and y[0] == 't':
            if x == y:
                return '='
            if x[1] == y[1]:
                r = self.rel.get(x[1], '=')
                if x[2] == 1 and y[2] == 0:
                    r = {'<': '>', '>': '<', '=': '='}[r]
                return r
        if x[0] == 'c' and y[0] == 'c':
            return '<' if x[1] < y[1] else '>' if x[1] > y[1] else '='
        return None

    def call(self, f, args, heap, dec, depth):
        if depth > 8:
            raise Undecided('recursion')
        out = []
        env = {k: a for k, a in enumerate(args)}
        stack = [(0, None, env, heap, dec)]
        while stack:
            b, prev, env, heap, dec = stack.pop()
            blk = f.blocks[b]
            # phis read the state before the block
            new = {}
            k = 0
            while k < len(blk) and blk[k].op == 'phi':
                for o, pb in blk[k].d['in']:
                    if pb == prev:
                        new[blk[k].i] = self.opv(env, o)
                k += 1
            env = dict(env)
            env.update(new)
            states = [(env, heap, dec)]
            dead = False
            for i in blk[k:]:
                self.steps += 1
                if self.steps > MAXSTEP:
                    raise Undecided('too many steps')
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                nxt = []
                for (e, h, d) in states:
                    r = self.step(f, i, e, h, d, depth, out)
                    nxt.extend(r)
                states = nxt
                if len(states) > MAXRES:
                    raise Undecided('too many states')
            t = blk[-1]
            for (e, h, d) in states:
                if t.op == 'ret':
                    v = self.opv(e, t.a[0]) if t.a else None
                    out.append((('ret', v), (h, d)))
                    if len(out) > MAXRES:
                        raise Undecided('too many results')
                elif t.op == 'br':
                    su = t.d['succ']
                    if len(su) == 1:
                        stack.append((su[0], b, e, h, d))
                    else:
                        c = self.opv(e, t.a[0])
                        for tv, d2 in self.truth(c, d):
                            stack.append((su[0] if tv else su[1], b, e, h, d2))
                elif t.op == 'switch':
                    c = self.opv(e, t.a[0])
                    if c[0] == 'c':
                        dst = t.d['default']
                        for val, bb in t.d['cases']:
                            if val == c[1]:
                                dst = bb
                        stack.append((dst, b, e, h, d))
                    else:
                        for s in set([t.d['default']] + [x[1] for x in t.d['cases']]):
                            stack.append((s, b, e, h, d))
                elif t.op == 'unreachable':
                    pass
        return out

    def truth(self, c, d):
        if c[0] == 'c':
            return [(c[1] != 0, d)]
        if c[0] == 'sg':
            r = []
            if 0 in c[1]:
                r.append((False, d))
            if c[1] - {0}:
                r.append((True, d))
            return r
        if c[0] == 'dec':
            if c[1] in d:
                return [(d[c[1]] == c[2], d)]
            return [(True, dict(d, **{}) | {c[1]: c[2]}), (False, d | {c[1]: not c[2]})]
        if c[0] == 't':
            k = ('nz', self.tk(c))
            if k in d:
                return [(d[k], d)]
            return [(True, d | {k: True}), (False, d | {k: False})]
        if c[0] in ('obj', 'loc', 'fn', 'str'):
            return [(True, d)]
        return [(True, d), (False, d)]

    def tk(self, t):
        return (t[1], t[2]) if self.rel.get(t[1], '=') != '=' else (t[1], 0)

    def opv(self, env, o):
        k = o[0]
        if k == 'v':
            return env.get(o[1], TOP)
        if k == 'c':
            return ('c', o[1])
        if k == 'n':
            return ('c', 0)
        if k == 's':
            return ('str', o[1])
        if k == 'f':
            return ('fn', o[1])
        if k == 'g':
            return ('loc', ('g', o[1]), ())
        if k == 'ce':
            b = self.opv(env, o[1])
            return self.gep(b, o[2], env)
        return TOP

    def gep(self, b, path, env):
        if b[0] == 'obj':
            b = ('loc', b[1], ())
        if b[0] != 'loc':
            return ('crash',) if b == ('c', 0) else TOP
        p = list(b[2])
        for e in path:
            if e[0] == 'f':
                p.append(e[2])
            elif e[0] in ('i', 'p'):
                v = self.opv(env, e[1])
                if v[0] != 'c':
                    return TOP
                if v[1] == 0 and e[0] == 'p':
                    continue
                p.append(v[1])
        return ('loc', b[1], tuple(p))

    def step(self, f, i, e, h, d, depth, out):
        op = i.op
        def done(v, h2=h, d2=d):
            e2 = dict(e)
            e2[i.i] = v
            return [(e2, h2, d2)]
        if op == 'alloca':
            self.noid += 1
            return done(('loc', ('al', i.i, self.noid), ()))
        if op == 'gep':
            v = self.gep(self.opv(e, i.a[0]), i.d['path'], e)
            return done(v)
        if op == 'load':
            p = self.opv(e, i.a[0])
            if p[0] == 'obj':
                p = ('loc', p[1], ())
            if p[0] == 'loc':
                key = (p[1], p[2])
                if key in h:
                    return done(h[key])
                if p[2] and (p[1], p[2][:-1]) in h and False:
                    pass
                g = self.gload(p)
                return done(g)
            if p == ('c', 0) or p[0] == 'crash' or (p[0] == 't' and False):
                out.append((('crash', '%s' % i.where()), (h, d)))
                return []
            return done(TOP)
        if op == 'store':
            v = self.opv(e, i.a[0])
            p = self.opv(e, i.a[1])
            if p[0] == 'obj':
                p = ('loc', p[1], ())
            if p[0] == 'loc':
                h2 = dict(h)
                h2[(p[1], p[2])] = v
                return [(e, h2, d)]
            return [(e, h, d)]
        if op == 'cast':
            v = self.opv(e, i.a[0])
            k = i.d['kind']
            if k == 'trunc' and v[0] == 'sg':
                if i.t != 'i1':
                    return done(sg(-1, 0, 1) if v[1] - {0} else v)
            if k == 'trunc' and v[0] == 't' and v[3] != 'bool':
                return done(('tt',) + v[1:])     # truncated token
            if k == 'trunc' and v[0] == 'c' and i.t == 'i1':
                return done(('c', v[1] & 1))
            if k == 'zext' and v[0] == 'sg' and i.d.get('ot') != 'i1':
                return done(TOP if -1 in v[1] else v)
            return done(v)
        if op == 'bin':
            x, y = self.opv(e, i.a[0]), self.opv(e, i.a[1])
            return done(self.bin(i, x, y))
        if op == 'icmp':
            x, y = self.opv(e, i.a[0]), self.opv(e, i.a[1])
            return done(self.icmp(i.d['pred'], x, y))
        if op == 'select':
            c = self.opv(e, i.a[0])
            r = []
            for tv, d2 in self.truth(c, d):
                r += done(self.opv(e, i.a[1] if tv else i.a[2]), h, d2)
            return r
        if op == 'freeze':
            return done(self.opv(e, i.a[0]))
        if op == 'call':
            return self.docall(f, i, e, h, d, depth, out)
        return done(TOP)

    def gload(self, p):
        return TOP

    def bin(self, i, x, y):
        k = i.d['kind']
        if k == 'sub':
            r = self.order(x, y)
            if x[0] == 'c' and y[0] == 'c':
                return ('c', x[1] - y[1])
            if r is not None:
                return sg({'<': -1, '=': 0, '>': 1}[r])
            if x == ('c', 0) and y[0] == 'sg':
                return flip(y)
        if k == 'add' and x[0] == 'c' and y[0] == 'c':
            return ('c', x[1] + y[1])
        if k == 'xor' and y[0] == 'c':
            if x[0] == 'c':
                return ('c', x[1] ^ y[1])
            if i.t == 'i1' and y[1] in (1, -1) and x[0] == 'dec':
                return ('dec', x[1], not x[2])
            if i.t == 'i1' and x[0] == 'sg':
                s = set()
                if 0 in x[1]:
                    s.add(1)
                if x[1] - {0}:
                    s.add(0)
                return ('sg', frozenset(s))
        if k == 'xor':
            r = self.order(x, y)
            if r:
                return sg(0) if r == '=' else sg(1, -1)
        if k == 'and' and x[0] == 'c' and y[0] == 'c':
            return ('c', x[1] & y[1])
        if k == 'or':
            if x[0] == 'c' and y[0] == 'c':
                return ('c', x[1] | y[1])
            # or of signs: zero only when both are
            s = self.signs(x), self.signs(y)
            if s[0] is not None and s[1] is not None:
                r = set()
                for a in s[0]:
                    for b in s[1]:
                        r |= {0} if not a and not b else ({1, -1} if a and b else {a or b})
                return ('sg', frozenset(r))
        if k == 'add':
            s = self.signs(x), self.signs(y)
            if s[0] is not None and s[1] is not None:
                r = set()
                for a in s[0]:
                    for b in s[1]:
                        r |= {a or b} if not (a and b) else ({a} if a == b else {-1, 0, 1})
                return ('sg', frozenset(r))
        if k == 'sub':
            s = self.signs(x), self.signs(y)
            if s[0] is not None and s[1] is not None:
                r = set()
                for a in s[0]:
                    for b in s[1]:
                        r |= {a or -b} if not (a and b) else ({a} if a == -b else {-1, 0, 1})
                return ('sg', frozenset(r))
        return TOP

    @staticmethod
    def signs(x):
        if x[0] == 'c':
            return frozenset([(x[1] > 0) - (x[1] < 0)])
        if x[0] == 'sg':
            return x[1]
        return None

    def icmp(self, pred, x, y):
        def by(rs):
            t = {'eq': {'='}, 'ne': {'<', '>'}, 'slt': {'<'}, 'ult': {'<'}, 'sgt': {'>'}, 'ugt': {'>'}, 'sle': {'<', '='}, 'ule': {'<', '='}, 'sge': {'>', '='}, 'uge': {'>', '='}}[pred]
            res = {r in t for r in rs}
            if len(res) == 1:
                return ('c', int(res.pop()))
            return sg(0, 1)
        r = self.order(x, y)
        if r is not None:
            return by([r])
        ptr = ('obj', 'loc', 'fn', 'str')
        if x[0] in ptr and y == ('c', 0) or y[0] in ptr and x == ('c', 0):
            return ('c', int(pred == 'ne')) if pred in ('eq', 'ne') else sg(0, 1)
        if x[0] in ptr and y[0] in ptr:
            same = x == y or (x[0] in ('obj', 'loc') and y[0] in ('obj', 'loc') and x[1] == y[1] and (x[2:] or ((),)) == (y[2:] or ((),)))
            return by(['=' if same else '<']) if pred in ('eq', 'ne') else sg(0, 1)
        sx, sy = self.signs(x), self.signs(y)
        if sx is not None and y == ('c', 0):
            return by([{-1: '<', 0: '=', 1: '>'}[s] for s in sx])
        if sy is not None and x == ('c', 0):
            return by([{-1: '>', 0: '=', 1: '<'}[s] for s in sy])
        if x[0] == 't' and x[3] == 'str' and y == ('c', 0):
            return ('c', int(pred == 'ne'))        # a present string
        if x[0] == 't' and y[0] == 'c' or y[0] == 't' and x[0] == 'c':
            t, c = (x, y) if x[0] == 't' else (y, x)
            if pred in ('eq', 'ne'):
                return ('dec', ('eqc', self.tk(t), c[1]), pred == 'eq')
            return ('dec', (pred, x[0] == 't', self.tk(t), c[1]), True)
        return sg(0, 1) if True else TOP

    STR = ('g_strcmp0', 'strcmp', 'strcasecmp', 'g_ascii_strcasecmp', 'strcoll')

    def docall(self, f, i, e, h, d, depth, out):
        args = [self.opv(e, o) for o in i.a]
        name = i.callee
        def done(v, h2=h, d2=d):
            e2 = dict(e)
            e2[i.i] = v
            return [(e2, h2, d2)]
        if name is None:
            c = self.opv(e, i.d['callee'])
            if c[0] == 'fn':
                name = c[1]
        if name in self.summ:
            v = self.summ[name](self, args)
            if v is not None:
                return done(v)
        if name in self.STR:
            x, y = args[0], args[1]
            nx, ny = x == ('c', 0), y == ('c', 0)
            if nx or ny:
                if name != 'g_strcmp0':
                    out.append((('crash', i.where()), (h, d)))
                    return []
                return done(sg(0) if nx and ny else sg(-1) if nx else sg(1))
            r = self.order(x, y)
            if r is not None:
                return done(sg({'<': -1, '=': 0, '>': 1}[r]))
            if x[0] == 'str' and y[0] == 'str':
                return done(sg((x[1] > y[1]) - (x[1] < y[1])))
            if 'str' in (x[0], y[0]) and 't' in (x[0], y[0]):
                # a token against a literal: one consistent answer per token
                t, c = (x, y) if x[0] == 't' else (y, x)
                if name in ('strcasecmp',):
                    return done(sg(-1, 0, 1))
                k = ('lit', self.tk(t), c[1])
                r = []
                for eq in ((d[k],) if k in d else (True, False)):
                    r += done(sg(0) if eq else sg(1), h, d | {k: eq})
                return r
            return done(sg(-1, 0, 1))
        if name in ('g_str_equal', 'strncmp', 'memcmp'):
            r = self.order(args[0], args[1])
            if name == 'g_str_equal' and r:
                return done(('c', int(r == '=')))
            if name == 'strncmp' and r == '=':
                return done(sg(0))
            return done(sg(-1, 0, 1))
        if name == '__assert_fail' or name == 'abort':
            out.append((('abort', i.where()), (h, d)))
            return []
        if name and name.startswith('llvm.dbg'):
            return [(e, h, d)]
        t = self.prog.resolve(name, f.mod) if name else None
        if t is not None:
            res = []
            for v, (h2, d2) in self.call(t, args, h, d, depth + 1):
                if v[0] in ('crash', 'abort'):
                    out.append((v, (h2, d2)))
                else:
                    res += done(v[1] if v[1] is not None else TOP, h2, d2)
            # merge duplicates
            seen, uniq = set(), []
            for s in res:
                k = (repr(s[0].get(i.i)), repr(sorted(s[1].items(), key=repr)), repr(sorted(s[2].items(), key=repr)))
                if k not in seen:
                    seen.add(k)
                    uniq.append(s)
            return uniq
        return done(TOP)


def kind_of(t):
    t = t.replace('const ', '')
    if t in ('bool', '_Bool'):
        return 'bool'
    if t == 'char*':
        return 'str'
    if t.startswith('struct ') and t.endswith('*'):
        return 'ptr'
    if t.startswith('struct '):
        return 'emb'
    if t.endswith('[]') or '[' in t:
        return 'arr'
    if t.endswith('*'):
        return 'ptr'
    return 'int'


def make_object(prog, struct, oid, side, heap, over=None, keyp=''):
    """fields of a compared object as tokens; over: field -> value"""
    over = over or {}
    st = prog.structs.get(struct)
    if not st:
        raise AnalysisError('struct %s not found' % struct)
    for m in st['members']:
        name, ty = m[0], m[3]
        if name in over:
            heap[(oid, (name,))] = over[name]
            continue
        k = kind_of(ty)
        if k in ('int', 'str'):
            heap[(oid, (name,))] = ('t', keyp + name, side, k)
        elif k == 'bool':
            heap[(oid, (name,))] = ('c', 0)
        elif k == 'ptr':
            heap[(oid, (name,))] = ('c', 0)
    return ('obj', oid)
