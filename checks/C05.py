"""C05: a duplicate equals the original in every attribute and shares no memory with it."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.absint import NULL
from sa.sweep import *
from sa.apirun import concrete
from sa.suite import diff, chain, getf


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every exported *_dup operation is interpreted on a partition of its inputs (attributes absent, empty, lists of 0 to 3, '
                 'flags of the operation both ways): each attribute of the copy must carry the token of the original, list lengths '
                 'must agree, a list is copied to its end or cut after one element as the flag says, and no object of the original may be '
                 'reachable from the copy')
    sweep(c, P, lambda *a: judge(P, *a), pred=lambda n, f: n.endswith('_dup') and f.sig[0].endswith('*'), floor=20)
    c.floor('equal copy', 600)
    c.floor('nothing shared', 600)


def judge(P, r, j, lab, tree, A, args, k, v, s):
    n, f, rt, prm = j
    if k != 'ret' or v is None or args[0][0] != 'p':
        return
    name = opname(n, rt)
    st = concrete(P, prm[0], rt)
    if v[0] != 'p':
        r.violation('%s:none' % n, f.where(), '%s returns nothing when given: %s' % (name, lab))
        return
    s0 = A.init_state
    src, e0 = chain(s0, args[0])
    dst, e1 = chain(s, v)
    linked = any(m[0] == 'next' for m in P.structs[st]['members'])
    r.ob('equal copy', '%s: %s' % (name, lab))
    if linked:
        sib = A.alter.get(1, 1) if len(prm) > 1 and prm[1] == '_Bool' else None
        # without a flag the whole list or the single element may be copied, but never a part
        want = {len(src)} if sib == 1 else {1} if sib == 0 else {1, len(src)}
        if e1 is None or e1[0] == 'undef':
            r.violation('%s:next' % n, f.where(), '%s leaves the end of the copied list unset when given: %s' % (name, lab))
        elif len(dst) not in want:
            r.violation('%s:length' % n, f.where(), '%s copies %d of %d elements when given: %s' % (name, len(dst), len(src), lab))
    else:
        src, dst = src[:1], dst[:1]
    for x, y in zip(src, dst):
        sh = []
        for ds, df, where, msg in diff(A, P, s0, x, s, y, st, shared=sh):
            if msg == 'unknown':
                r.add('undecided runs')
                continue
            r.violation('%s:%s.%s' % (n, ds, df), f.where(), '%s: attribute %s of the copy %s when given: %s' % (name, where, msg, lab))
    r.ob('nothing shared', '%s: %s' % (name, lab))
    for oid in A.reach(s, [v]):
        o = s.objs.get(oid)
        if o and o['st'] in ('input', 'freed'):
            r.violation('%s:shared' % n, f.where(), '%s: the copy points to %s of the original when given: %s' % (name, A.name(s, oid), lab))
    for oid, path, at in s.log:
        if oid[0] == 'n':
            r.violation('%s:writes:%s' % (n, at), at, '%s modifies the original (%s) when given: %s' % (name, A.name(s, oid), lab))


main('C05', run)
