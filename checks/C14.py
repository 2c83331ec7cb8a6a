"""C14: generic operations act on every report type as the operation of that type does."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load, AnalysisError
from sa.absint import AbsInt, State, NULL, TOP, Undecided
from sa.sweep import *
from sa.apirun import is_model, GENERIC, scens, build, concrete, pick
from sa.suite import chain, getf, text, diff
from sa import model

# not provided for these types (documented by the empty slots of the method tables)
SINGLE = {'python', 'koops', 'ruby', 'js'}
UNSUPPORTED = {('sr_stacktrace_set_threads', t) for t in SINGLE} | {('sr_thread_set_next', t) for t in SINGLE} | {('sr_thread_cmp', t) for t in SINGLE}
TYPE = re.compile(r'(?:^|_)(gdb|core|python|koops|java|ruby|js)_')
TAG = 'enum sr_report_type'


def owner(P, name):
    """types whose structures the function takes, returns or looks into"""
    f = P.funcs.get(name) if isinstance(name, str) else name
    out = set()
    if f is None or not f.sig:
        return out
    for t in f.sig:
        m = TYPE.search(t)
        if m and 'struct sr_' in t:
            out.add(m.group(1))
    if not f.decl:
        for blk in f.blocks:
            for i in blk:
                if i.op == 'gep':
                    for e in i.d['path']:
                        if e[0] == 'f':
                            m = TYPE.search(e[1])
                            if m and e[1].startswith('sr_'):
                                out.add(m.group(1))
    return out


def run(c):
    P = load(groups=('lib',))
    c.explain = ('each generic stacktrace, thread and frame operation is interpreted for each of the seven report types on a partition of '
                 'inputs: it is provided (or listed as not provided), reaches only functions of that type, and has the result and effect of '
                 'the operation of that type; the dispatch tables are read from their initialisers: each type has its own methods, and what '
                 'a method can call belongs to the same type and passes on the same type mark')
    gen = [o for o in operations(P, lambda n, f: not SKIP(n)) if o[2]]
    if len({o[0] for o in gen}) < 25:
        raise AnalysisError('only %d generic operations' % len({o[0] for o in gen}))
    parallel(c, gen, lambda r, j: one(P, r, *j))
    tables(P, c)
    c.floor('provided', 150)
    c.floor('same type', 150)
    c.floor('same result', 300)
    c.floor('table entry', 180)


def specific(P, n, f, rt):
    """the operation of the type itself: (function, extra arguments)"""
    for g, names in (('sr_stacktrace_', ('sr_%s_stacktrace_',)), ('sr_thread_', ('sr_%s_thread_', 'sr_%s_stacktrace_')), ('sr_frame_', ('sr_%s_frame_',))):
        if n.startswith(g):
            for t in names:
                h = P.funcs.get(t % rt + n[len(g):])
                if h is not None and not h.decl:
                    if len(h.sig) == len(f.sig):
                        return h, []
                    if len(h.sig) == len(f.sig) + 1 and h.sig[-1] == '_Bool':
                        return h, [('c', 1 if 'verbose' in h.argnames else 0)]
    return None, None


FIELD = {'sr_thread_frames': 'frames', 'sr_frame_next': 'next', 'sr_thread_next': 'next', 'sr_stacktrace_threads': 'threads'}
SETTER = {'sr_thread_set_frames': 'frames', 'sr_frame_set_next': 'next', 'sr_thread_set_next': 'next', 'sr_stacktrace_set_threads': 'threads'}


def go(P, f, rt, prm, tree, mp, extra=()):
    A = AbsInt(P, maxsteps=80000)
    A.rtype = rt
    s = State()
    args = build(A, s, P, f, rt, prm, tree, mp[0], {k: tree if concrete(P, prm[k], rt) == tree_struct(tree) else model.make(P, concrete(P, prm[k], rt), 1) for k in mp})
    s0 = s.copy()
    try:
        res = A.run(f, args + list(extra), s)
    except Undecided:
        return A, args, s0, None
    return A, args, s0, res


def tree_struct(t):
    return (t[0] if isinstance(t, list) else t).struct


def canon(A, s, v):
    """what a caller can see of a result"""
    if v is None or v[0] != 'p':
        return v
    if v[1][0] == 'n':
        return v
    t = text(A, s, v)
    if t is not None:
        return ('text', t)
    return ('object',)


def heap(s):
    return {k: v for k, v in s.h.items() if k[0][0] == 'n' and not (v and v[0] == 'p' and v[1][0] == 'o')}


def one(P, c, n, f, rt, prm):
    mp = [k for k, t in enumerate(prm) if is_model(P, t)]
    st = concrete(P, prm[mp[0]], rt)
    name = opname(n, rt)
    small, bases = pick(P, f, rt, prm, mp, {k: concrete(P, prm[k], rt) for k in mp}, None)
    h, extra = specific(P, n, f, rt)
    single = st.endswith('_stacktrace') and 'sr_thread' in prm[mp[0]]
    for lab, tree in scens(P, st, ('absent', 'empty', 'bool', 'zero'), small):
        if single and isinstance(tree, list):
            continue
        A, args, s0, res = go(P, f, rt, prm, tree, mp)
        if res is None:
            c.add('undecided runs')
            continue
        if (n, rt) in UNSUPPORTED:
            if lab == 'everything present' and any(k == 'ret' for k, v, s in res):
                c.ob('now provided', name)
            continue
        if lab == 'everything present':
            c.ob('provided', name)
        for k, v, s in res:
            if k in ('assert', 'abort'):
                if lab == 'everything present':
                    c.violation('%s:%s' % (n, rt), f.where(), '%s fails an assertion: not provided for this type' % name)
            elif k == 'null' and lab == 'everything present':
                c.violation('%s:%s:null' % (n, rt), v, '%s calls or follows a null pointer' % name)
        c.ob('same type', '%s: %s' % (name, lab))
        for g in sorted(A.visited):
            if owner(P, g) - {rt}:
                c.violation('%s:%s:%s' % (n, rt, g), f.where(), '%s reaches %s, a function of another type' % (name, g))
        if n in FIELD or n in SETTER:
            fld = FIELD.get(n) or SETTER[n]
            for k, v, s in res:
                if k != 'ret':
                    continue
                c.ob('same result', '%s: %s' % (name, lab))
                if n in FIELD:
                    own = any(m[0] == fld for m in P.structs[st]['members'])
                    want = getf(s0, args[0], fld) if own else args[0] if fld == 'threads' else NULL
                    if v != want:
                        c.violation('%s:%s:field' % (n, rt), f.where(), '%s does not return %s when given: %s' % (name, 'the member ' + fld if own else 'the structure itself' if fld == 'threads' else 'nothing', lab))
                elif len(args) > 1 and getf(s, args[0], fld) != args[1]:
                    c.violation('%s:%s:field' % (n, rt), f.where(), '%s does not set the member %s when given: %s' % (name, fld, lab))
        if h is None:
            continue
        B, args2, t0, res2 = go(P, h, rt, prm, tree, mp, extra)
        if res2 is None:
            c.add('undecided runs')
            continue
        c.ob('same result', '%s: %s' % (name, lab))
        if sorted(k for k, v, s in res) != sorted(k for k, v, s in res2):
            c.violation('%s:%s:paths' % (n, rt), f.where(), '%s ends differently from %s when given: %s' % (name, h.name, lab))
            continue
        if len(res) != 1 or res[0][0] != 'ret':
            continue
        (k1, v1, s1), (k2, v2, s2) = res[0], res2[0]
        a, b = canon(A, s1, v1), canon(B, s2, v2)
        if a != b and TOP not in (a, b):
            c.violation('%s:%s:result' % (n, rt), f.where(), '%s returns something else than %s when given: %s' % (name, h.name, lab))
        elif a == ('object',):
            ds = diff(A, P, s2, v2, s1, v1, st)
            l1, l2 = len(chain(s1, v1)[0]), len(chain(s2, v2)[0])
            if ds or l1 != l2:
                c.violation('%s:%s:result' % (n, rt), f.where(), '%s returns something else than %s (%s) when given: %s' % (name, h.name, ds[:1] or 'length %d, not %d' % (l1, l2), lab))
        if heap(s1) != heap(s2) or {o for o in s1.objs if s1.objs[o]['st'] == 'freed' and o[0] == 'n'} != {o for o in s2.objs if s2.objs[o]['st'] == 'freed' and o[0] == 'n'}:
            c.violation('%s:%s:effect' % (n, rt), f.where(), '%s changes its argument otherwise than %s when given: %s' % (name, h.name, lab))


def callees(P, f, seen):
    if f is None or f.name in seen or f.decl:
        return
    seen[f.name] = f
    for blk in f.blocks:
        for i in blk:
            if i.op == 'call' and i.callee:
                callees(P, P.resolve(i.callee, f.mod), seen)


def tables(P, c):
    val = {rt: model.enumval(P, model.ENUM[rt]) for rt in model.RT}
    A = AbsInt(P)
    n = 0
    for m in P.mods:
        for g, d in m.globals.items():
            if d['decl'] or not isinstance(d.get('init'), list) or g != 'dtable':
                continue
            n += 1
            for rt, k in val.items():
                p = A.gload(State(), ('g', (g, m.src if d['internal'] else '')), (k,) if k else ())
                sub = '%s[%s]' % (m.src, rt)
                c.ob('table entry', sub)
                if p[0] != 'p':
                    c.violation('table:%s:%s' % (m.src, rt), m.src, 'no methods for type %s in the dispatch table of %s' % (rt, m.src))
                    continue
                g2, m2 = A.ginit(p[1][1])
                init = g2.get('init') if g2 else None
                if not isinstance(init, dict):
                    raise AnalysisError('methods of %s not found' % sub)
                for slot, v in init['fields'].items():
                    if not isinstance(v, list) or v[0] != 'f':
                        continue
                    fn = A.fnin(v[1], A.fnval(v[1], m2)[2])
                    c.ob('table entry', '%s.%s' % (sub, slot))
                    seen = {}
                    callees(P, fn, seen)
                    for name, h in seen.items():
                        o = owner(P, h) - {rt}
                        if o:
                            c.violation('slot:%s:%s:%s' % (rt, slot, name), h.where(), 'method %s of type %s (%s) reaches %s, a function of type %s' % (slot, rt, v[1], name, sorted(o)[0]))
                    if fn is not None and fn.internal:
                        for blk in fn.blocks:
                            for i in blk:
                                t = P.resolve(i.callee, fn.mod) if i.op == 'call' and i.callee else None
                                if t is None or not t.sig:
                                    continue
                                for k2, ty in enumerate(t.sig[1:]):
                                    if ty == TAG and k2 < len(i.a) and i.a[k2][0] == 'c' and i.a[k2][1] != val[rt]:
                                        c.violation('slot:%s:%s:tag' % (rt, slot), i.where(), 'method %s of type %s passes on the mark of another type' % (slot, rt))
    if n < 3:
        raise AnalysisError('only %d dispatch tables' % n)


main('C14', run)
