"""Operations sweep shared by the checks on exported operations."""
from .apirun import run_op, operations
from .frontend import AnalysisError
from .par import parallel

# text readers start from a cursor, not from a structure; the cursor rules are C01 and C09
SKIP = lambda n: '_parse' in n or n.startswith('sr_gdb_frame_skip')


def opname(n, rt):
    return n + (' (%s)' % rt if rt else '')


def roots(A, s, args, v):
    """what the caller can still reach: the result, and what was stored through pointer arguments"""
    r = [v] if v and v[0] == 'p' else []
    for a in args:
        if a[0] == 'p' and (a[1], ()) in s.h:
            x = s.h[(a[1], ())]
            if x and x[0] == 'p':
                r.append(x)
    return r


def dangling(A, s, args, v):
    """released memory that the surviving arguments or the result still point to"""
    live = [a for a in args if a[0] == 'p' and s.objs.get(a[1], {}).get('st') != 'freed']
    out = []
    for oid in A.reach(s, live + roots(A, s, args, v)):
        o = s.objs.get(oid)
        if o and o['st'] == 'freed':
            out.append((o.get('freed_at'), A.name(s, oid)))
    return out


def sweep(c, P, judge, pred=None, floor=350, ops=None, **kw):
    """judge(rec, n, rt, label, tree, A, args, k, v, s) for each path of each operation"""
    if ops is None:
        ops = operations(P, lambda n, f: not SKIP(n) and (pred is None or pred(n, f)))

    def one(r, j):
        seen = False
        for lab, tree, A, args, res, h0 in run_op(P, *j, **kw):
            if res is None:
                r.add('undecided runs')
                continue
            seen = True
            for k, v, s in res:
                judge(r, j, lab, tree, A, args, k, v, s)
        if seen:
            r.add('operations')
    tot = parallel(c, ops, one)
    if tot.get('operations', 0) < floor:
        raise AnalysisError('only %d operations analysed' % tot.get('operations', 0))
    return tot
