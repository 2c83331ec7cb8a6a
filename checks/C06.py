"""C06: releasing a structure releases everything it owns, exactly once, and nothing else."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.absint import NULL
from sa.sweep import *
from sa.apirun import concrete
from sa.suite import chain, getf
from sa import model


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every exported *_free operation is interpreted on a partition of its inputs: each object the argument owns (its texts, text '
                 'lists, and elements of its lists, recursively) is released exactly once on every path; with a flag the following '
                 'elements are released or untouched as a whole; nothing else is written or released')
    sweep(c, P, lambda *a: judge(P, *a), pred=lambda n, f: n.endswith('_free') and len(f.sig) in (2, 3), floor=20)
    c.floor('released exactly once', 900)


def owned(A, P, s, p, struct, out, rt, path=''):
    """oid -> (struct, field) of what one element owns, itself included"""
    out[p[1]] = (struct, path or 'itself')
    for m in P.structs[struct]['members']:
        fn, ty = m[0], m[3]
        v = getf(s, p, fn)
        if fn == 'next' or (struct, fn) in model.ALIAS or v is None or v[0] != 'p' or not ty.endswith('*'):
            continue
        if ty in ('char*', 'const char*'):
            out[v[1]] = (struct, fn)
        elif ty == 'char**':
            out[v[1]] = (struct, fn)
            for k in range(60):
                x = s.h.get((v[1], (k,) if k else ()))
                if x is None or x[0] != 'p':
                    break
                out[x[1]] = (struct, fn)
        else:
            st = model.bare(ty)
            if st == 'sr_stacktrace':
                st = 'sr_%s_stacktrace' % rt
            single = (struct, fn) in model.NOTLIST or not any(x[0] == 'next' for x in P.structs[st]['members'])
            for x in [v] if single else chain(s, v)[0]:
                owned(A, P, s, x, st, out, rt, fn)
    return out


def judge(P, r, j, lab, tree, A, args, k, v, s):
    n, f, rt, prm = j
    if k != 'ret' or args[0][0] != 'p':
        return
    name = opname(n, rt)
    st = concrete(P, prm[0], rt)
    s0 = A.init_state
    rtype = rt
    if st == 'sr_report':
        rtype = 'core'
    linked = any(m[0] == 'next' for m in P.structs[st]['members'])
    els = chain(s0, args[0])[0] if linked else [args[0]]
    r.ob('released exactly once', '%s: %s' % (name, lab))
    first = owned(A, P, s0, els[0], st, {}, rtype)
    rest = {}
    for e in els[1:]:
        owned(A, P, s0, e, st, rest, rtype)
    flag = A.alter.get(1, 1) if len(prm) > 1 and prm[1] == '_Bool' else None
    must = dict(first)
    may = {}
    if rest:
        done = [o for o in rest if s.objs[o]['st'] == 'freed']
        if flag == 1 or flag is None and done:
            must.update(rest)
        may = rest if flag is None else {}
    for oid, (ds, df) in must.items():
        if s.objs[oid]['st'] != 'freed':
            r.violation('%s:kept:%s.%s' % (n, ds, df), f.where(), '%s does not release %s (%s.%s) when given: %s' % (name, A.name(s, oid), ds, df, lab))
    for oid, o in s.objs.items():
        if o['st'] == 'freed' and oid not in must and oid not in may and o.get('was', 'input') == 'input' and oid[0] == 'n':
            r.violation('%s:extra:%s' % (n, o.get('freed_at')), o.get('freed_at'), '%s releases %s, which its argument does not own, when given: %s' % (name, A.name(s, oid), lab))
    for e in s.ev:
        if e[0] in ('dfree', 'badfree', 'uaf', 'uninit'):
            r.violation('%s:%s' % (e[1], e[0]), e[1], '%s: %s when given: %s' % (name, e[2], lab))
    # releasing nothing is allowed for every release operation that documents it; C02 covers the others


main('C06', run)
