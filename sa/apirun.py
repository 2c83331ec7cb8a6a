"""Every exported operation on model structures, run abstractly on a partition of its inputs."""
import itertools, os, sys
from .absint import AbsInt, State, NULL, TOP, Undecided
from . import model, scen
from .model import bare
from .suite import getf, chain
from .frontend import AnalysisError

GENERIC = {'sr_stacktrace': '%s_stacktrace', 'sr_thread': '%s_thread', 'sr_frame': '%s_frame'}
OPAQUE = {'sr_location', 'sr_distances', 'sr_distances_part', 'sr_dendrogram', 'sr_cluster', 'sr_taint_flag',
          'sr_core_stracetrace_unwind_state', 'sr_deb_package', 'sr_disasm_state'}


def concrete(P, t, rt):
    b = bare(t)
    if b in GENERIC:
        n = 'sr_' + GENERIC[b] % rt
        return n if n in P.structs else 'sr_%s_stacktrace' % rt
    return b


def is_model(P, t):
    b = bare(t)
    return t.endswith('*') and not t.endswith('**') and b.startswith('sr_') and (b in P.structs or b in GENERIC) and b not in OPAQUE


def operations(P, pred=None):
    """(function, type or None, params) for exported functions whose parameters can all be modelled"""
    out = []
    for n, f in sorted(P.funcs.items()):
        if f.decl or f.internal or not f.sig or '/lib/' not in f.mod.src or f.vararg:
            continue
        prm = f.sig[1:]
        if not any(is_model(P, t) for t in prm):
            continue
        if pred and not pred(n, f):
            continue
        if any(t.endswith('**') and 'char' in t and t != 'char**' for t in prm) or any('(' in t for t in prm):
            continue
        rts = model.RT if any(bare(t) in GENERIC for t in prm if is_model(P, t)) else [None]
        for rt in rts:
            out.append((n, f, rt, prm))
    return out


def build(A, s, P, f, rt, prm, tree, first, others, name='in', same=False):
    args = []
    for k, t in enumerate(prm):
        if is_model(P, t):
            if k == first:
                args.append(mat_list(A, s, P, tree, name))
            else:
                args.append(mat_list(A, s, P, others[k], 'in%d' % k, name if same else None))
        elif t in ('char*', 'const char*'):
            args.append(A.token_str(s, 'arg%d' % k, ('tok', 'arg%d' % k, 0)))
        elif t == 'struct _GString*':
            g = A.named(s, 'buffer', st='input', kind='gstring')
            b = A.named(s, 'buffer text', st='input', kind='gbuf')
            s.h[(b, '$')] = ()
            s.h[(g, ('str',))] = ('p', b, ())
            s.h[(g, ('len',))] = ('c', 0)
            args.append(('p', g, ()))
        elif t.endswith('**'):
            c = A.new(s, 'al', 'cell%d' % k)
            s.h[(c, ())] = NULL
            args.append(('p', c, ()))
        elif bare(t) == 'sr_location' and t.endswith('*'):
            c = A.new(s, 'al', 'location')
            s.h[(c, ('line',))] = ('c', 1)
            s.h[(c, ('column',))] = ('c', 0)
            s.h[(c, ('message',))] = NULL
            args.append(('p', c, ()))
        elif t in model.WIDTH or t == '_Bool' or t.startswith('enum'):
            args.append(('c', 1))
        else:
            args.append(TOP)
    return args


def mat_list(A, s, P, tree, name, tok=None):
    tok = name if tok is None else tok
    if not isinstance(tree, list):
        return model.materialise(A, s, P, tree, name, tok=tok)
    prev = first = None
    for k, t in enumerate(tree):
        p = model.materialise(A, s, P, t, name if k == 0 else '%s[%d]' % (name, k), tok=tok if k == 0 else '%s[%d]' % (tok, k))
        if prev is None:
            first = p
        else:
            A.setf(s, prev[1], 'next', p)
        prev = p
    return first if first is not None else NULL


def scens(P, struct, kinds, small=True, lists=True):
    b = model.make(P, struct, 1)
    out = [('everything present', b), ('nothing present', model.nothing(P, b)), ('elements without attributes', model.bare_inner(P, b)),
           ('two of everything', model.make(P, struct, 2))]
    out += list(model.variations(P, b, kinds))
    out += [('two of everything, ' + l, t) for l, t in model.variations(P, out[3][1], [k for k in kinds if k in ('absent', 'empty', 'bool')])]
    out += list(model.last_alias(P, out[3][1]))
    out.append(('two of everything, equal', model.equal_elements(out[3][1])))
    if small:
        out = [(l, model.small(t)) for l, t in out]
    if lists and any(m[0] == 'next' for m in P.structs[struct]['members']):
        x = model.small(b) if small else b
        out.append(('a list of two', [x, x.copy()]))
        out.append(('a list of three', [x, x.copy(), x.copy()]))
        y = x.copy()
        y.tok = 'in'
        out.append(('a list of two equal elements', [x, y]))
        out.append(('a list of three, the last two equal', [x, model.named(x, 'other'), model.named(x, 'other')]))
        e = model.nothing(P, x)
        out.append(('a list of two without attributes', [e, e.copy()]))
    return out


def pick(P, f, rt, prm, mp, sts, setup):
    """opaque numbers where the operation allows, small constants where it counts up to one"""
    for small in (False, True):
        bases = {k: model.make(P, sts[k], 1) for k in mp}
        if small:
            bases = {k: model.small(b) for k, b in bases.items()}
        A = AbsInt(P, maxsteps=60000, maxstates=400)
        A.rtype = rt
        s = State()
        args = build(A, s, P, f, rt, prm, bases[mp[0]], mp[0], bases)
        if setup:
            setup(A, s, f.name, args)
        try:
            A.run(f, args, s)
            return small, bases
        except Undecided:
            if small:
                return small, bases


THOROUGH = 'thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
BUDGET = 40000000 if THOROUGH else 6000000     # interpreted instructions spent on refinements, per operation

KINDS = ('absent', 'empty', 'bool', 'zero', 'max', 'emptystr', 'kind')


def scalars(P, n, f, prm):
    """alternative values of the plain arguments: index -> list, the first being the default"""
    out = {}
    for k, t in enumerate(prm):
        if t == '_Bool':
            out[k] = [1, 0]
        elif t.startswith('enum'):
            vals = []
            for e in P.enums.items():
                if e[0] == t[5:] or 'enum ' + str(e[0]) == t:
                    vals = [v for _, v in (e[1].items() if isinstance(e[1], dict) else e[1])]
            vals = [v for v in vals if 0 <= v < 64]
            allb = 0
            for v in vals:
                allb |= v
            out[k] = [1, 0] + [v for v in vals if v > 1] + ([allb] if 'flags' in t and allb not in vals and allb != 1 else [])
        elif t in ('int', 'unsigned int', 'long', 'unsigned long', 'unsigned short'):
            out[k] = [1, 0, 2, 4]
    return out


def elements(P, prm, rt, sts):
    """(k, j, list member): argument j may be an element of a list of argument k"""
    out = []
    for k in sts:
        for j in sts:
            if k == j:
                continue
            for m in P.structs[sts[k]]['members']:
                if m[0] != 'next' and m[3].endswith('*') and bare(m[3]) == sts[j] and (sts[k], m[0]) not in model.ALIAS and (sts[k], m[0]) not in model.NOTLIST:
                    out.append((k, j, m[0]))
    return out


def run_op(P, n, f, rt, prm, kinds=KINDS, setup=None, maxstates=4000, depth=2, lists=True, pairs=True, budget=BUDGET, name='in', plain=False):
    """one operation on every part of the partition of its inputs: yields (label, tree, A, args, results or None, initial heap)"""
    mp = [k for k, t in enumerate(prm) if is_model(P, t)]
    try:
        sts = {k: concrete(P, prm[k], rt) for k in mp}
        small, bases = pick(P, f, rt, prm, mp, sts, setup)
    except AnalysisError:
        return
    twin = len(mp) == 2 and sts[mp[0]] == sts[mp[1]]

    def go(tree, first, mode, alter=None, ex=None, point=None):
        A = AbsInt(P, maxsteps=80000, maxstates=maxstates)
        A.rtype = rt
        s = State()
        others = {k: cp(tree) for k in bases} if mode == 'both' else bases
        args = build(A, s, P, f, rt, prm, tree, first, others, same=mode != 'other')
        for k, v in (alter or {}).items():
            args[k] = ('c', v)
        if point:
            k, j, fld, idx = point
            q = s.h[(args[k][1], (fld,))]
            for _ in range(idx):
                q = s.h[(q[1], ('next',))]
            args[j] = q
        A.alter = alter or {}
        A.mode = mode
        A.first = first
        A.point = point
        if setup:
            setup(A, s, n, args)
        inits = dict(s.h)
        A.init_state = s.copy()
        try:
            res = A.run(f, args, s)
            if ex is not None:
                ex.feed(A.cmps)
        except Undecided as e:
            res = None
            A.why = str(e)
        return tree, A, args, res, inits

    for first in mp:
        st = sts[first]
        base = bases[first]
        sc = scens(P, st, kinds, small, lists)
        if pairs:
            sc += [(l, model.small(t) if small else t) for l, t in scen.only(P, base)]
            for l2, b2 in (('', base), ('two of everything, ', model.make(P, st, 2))):
                b2 = model.small(b2) if small else b2
                sc += [(l2 + l, t) for l, t in scen.pairs(P, b2, ('absent', 'empty', 'bool', 'kind', 'zero'))]
                sc += [(l2 + l, t) for l, t in scen.only(P, b2, 2)]
        for mode in ('other', 'equal', 'both') if twin else ('other',):
            if first != mp[0] and mode == 'both':
                continue
            ex = scen.Explorer(P, sc, depth=0 if plain else depth, limit=3000 if BUDGET < 7000000 else 20000)
            for lab, tree in ex:
                if budget < 0 and ex.cur[2]:
                    break            # refinements only; the plain partition is always covered
                l2 = lab
                if first != mp[0]:
                    l2 = 'second argument: ' + l2
                if mode != 'other':
                    l2 += {'equal': ', otherwise equal arguments', 'both': ', in both arguments'}[mode]
                r = go(tree, first, mode, ex=ex)
                budget -= r[1].steps
                yield (l2,) + r
    # other values of the plain arguments
    first = mp[0]
    core = scens(P, sts[first], ('empty',), small, lists)
    if sts[first] in P.structs:
        t3 = model.make(P, sts[first], 3)
        t3 = model.small(t3) if small else t3
        core.append(('three of everything', t3))
        t2 = model.make(P, sts[first], 2)
        t2 = model.small(t2) if small else t2
        for l, x in (('two', t2), ('three', t3)):
            for w in ((0,), (1,), (2,), (0, 1, 2)):
                if l == 'three' or w != (2,):
                    core.append(('%s of everything, %s without attributes' % (l, 'all' if len(w) > 1 else 'element %d' % w), model.bare_nth(P, x, w)))
    for k, vals in scalars(P, n, f, prm).items():
        for v in vals[1:]:
            for lab, tree in core:
                yield ('%s = %d, %s' % (f.argnames[k] if k < len(f.argnames) else 'argument', v, lab),) + go(tree, first, 'other', {k: v})
    # an argument that is an element of a list of the other
    for k, j, fld in elements(P, prm, rt, sts):
        for cnt in (1, 2, 3):
            full = model.make(P, sts[k], cnt)
            if small:
                full = model.small(full)
            kinds_ = [('', full), (', elements without attributes', model.bare_inner(P, full))]
            kinds_ += [(', element %d without attributes' % w, model.bare_nth(P, full, (w,))) for w in range(cnt)]
            for (hint, t), idx in itertools.product(kinds_, range(cnt)):
                yield ('the %s is element %d of %d%s' % (f.argnames[j] if j < len(f.argnames) else 'argument', idx, cnt, hint),) + go(t, k, 'other', point=(k, j, fld, idx))


def cp(t):
    return [x.copy() for x in t] if isinstance(t, list) else t.copy()
