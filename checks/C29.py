"""C29: list operations keep exactly the elements they should, in order."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load, AnalysisError
from sa.absint import AbsInt, State, NULL, TOP, Undecided
from sa.sweep import *
from sa.apirun import concrete, is_model, mat_list
from sa.suite import chain, getf, text
from sa import model


def run(c):
    P = load(groups=('lib',))
    c.explain = ('each operation that appends, prepends, removes, cuts, sorts, merges or counts list elements is interpreted on lists of 0 to '
                 '4 elements and every position of its element argument: the list afterwards consists of exactly the objects the operation '
                 'promises, in order and terminated; removed elements are released, kept ones are not; the result tells what was done')
    ops = []
    for n, f, rt, prm in operations(P, lambda n, f: not SKIP(n)):
        k = kind(n)
        if k:
            ops.append((k, n, f, rt, prm))
    parallel(c, ops, lambda r, j: one(P, r, *j))
    c.count('list operations', len({o[1] for o in ops}))
    if len({o[1] for o in ops}) < 35:
        raise AnalysisError('only %d list operations' % len({o[1] for o in ops}))
    c.floor('list content', 700)


def kind(n):
    if n.startswith(('sr_callgraph', 'thread_', 'frame_')) and not n.startswith(('thread_remove', 'thread_frame_count')):
        return None
    for suffix, k in (('_append', 'append'), ('_prepend', 'prepend'), ('_remove_frame', 'remove'), ('_remove_frames_above', 'above'),
                      ('_remove_frames_below_n', 'below'), ('_limit_frame_depth', 'limit'), ('_remove_threads_except_one', 'except'),
                      ('_sort', 'sort'), ('_uniq', 'uniq'), ('_add_auth', 'auth'), ('_frame_count', 'count frames'), ('_get_thread_count', 'count threads'),
                      ('_count', 'count'), ('_get_last', 'last')):
        if n.endswith(suffix):
            return k


MODE = [()]     # positions of elements without attributes


def elems(P, st, n, name, equal=False):
    out = []
    for k in range(n):
        t = model.small(model.make(P, st, 1))
        if k in MODE[0]:
            t = model.bare_inner(P, model.nothing(P, t))
            for fn, v in t.f.items():
                if isinstance(v, tuple) and v and v[0] == 'num':
                    t.f[fn] = ('num', 0)
        if equal and k:
            t.tok = name
        out.append(t)
    return out


def lst(A, s, P, st, n, name, equal=False):
    p = mat_list(A, s, P, elems(P, st, n, name, equal), name) if n else NULL
    return p, [x[1] for x in chain(s, p)[0]]


def inner(P, st, fld):
    for m in P.structs[st]['members']:
        if m[0] == fld:
            return model.bare(m[3])


class Bad(Exception):
    pass


def want(s, p, ids, what):
    got, end = chain(s, p) if p is not None else ([], None)
    if [g[1] for g in got] != ids:
        raise Bad('%s consists of %s, expected %s' % (what, [nm(g[1]) for g in got] or 'nothing', [nm(x) for x in ids] or 'nothing'))
    if ids and end != NULL:
        raise Bad('%s is not terminated' % what)


def nm(o):
    return o[1] if o[0] == 'n' else 'a new element'


def states(s, kept, gone):
    for o in kept:
        if s.objs[o]['st'] == 'freed':
            raise Bad('%s is released though it is kept' % nm(o))
    for o in gone:
        if s.objs[o]['st'] != 'freed':
            raise Bad('%s is removed but not released' % nm(o))


def one(P, c, k, n, f, rt, prm):
    st = concrete(P, prm[0], rt)
    name = opname(n, rt)
    todo = [(m, l, p) for m in ((), (0,), (1,), (2,), (3,), (0, 1, 2, 3)) for l, p in cases(P, k, n, f, rt, prm, st)]
    for mode, label, prep in todo:
        if mode and k == 'uniq' and not ('equal' in label and len(mode) > 1):
            continue
        MODE[0] = mode
        if mode:
            label += ', %s without attributes' % ('all' if len(mode) > 1 else 'element %d' % mode)
        A = AbsInt(P, maxsteps=60000)
        A.rtype = rt
        s = State()
        args, judge = prep(A, s)
        try:
            res = A.run(f, args, s)
        except Undecided:
            c.add('undecided runs')
            continue
        for kk, v, t in res:
            c.ob('list content', '%s: %s' % (name, label))
            if kk != 'ret':
                c.violation('%s:%s' % (n, kk), v, '%s ends abnormally on %s' % (name, label))
                continue
            try:
                judge(t, v, A)
            except Bad as e:
                c.violation('%s:%s' % (n, k), f.where(), '%s: on %s, %s' % (name, label, e))


def truthy(v):
    return v is not None and v[0] == 'c' and v[1] & 1 == 1


def cases(P, k, n, f, rt, prm, st):
    if k in ('append', 'prepend'):
        for a in range(0, 4):
            for b in (1, 2) if k == 'append' else (1,):
                def prep(A, s, a=a, b=b):
                    p, ia = lst(A, s, P, st, a, 'list')
                    q, ib = lst(A, s, P, st, b, 'item')

                    def judge(t, v, A):
                        want(t, v, ia + ib if k == 'append' else ib + ia, 'the result')
                        states(t, ia + ib, [])
                    return [p, q], judge
                yield 'a list of %d and %d new' % (a, b), prep
    elif k in ('remove', 'above', 'below', 'limit', 'except', 'count frames', 'count threads'):
        fld = 'threads' if k in ('except', 'count threads') else 'frames'
        if k == 'limit':
            fld = 'threads'
        el = inner(P, st, fld)
        if el is None:
            return
        for a in range(0, 5):
            pos = [None]
            if k in ('remove', 'above', 'except'):
                pos = list(range(a)) + ['other'] if k != 'except' else list(range(a))
            elif k == 'below':
                pos = list(range(0, 5))
            elif k == 'limit':
                pos = list(range(1, 5))
            for x in pos:
                def prep(A, s, a=a, x=x):
                    t0 = model.small(model.make(P, st, 1))
                    t0.f[fld] = elems(P, el, a, 'e')
                    if k == 'limit':
                        for e in t0.f[fld]:
                            e.f['frames'] = elems(P, inner(P, el, 'frames'), 3, 'f')
                    p = model.materialise(A, s, P, t0, 'in')
                    ids = [y[1] for y in chain(s, getf(s, p, fld))[0]]
                    args = [p]
                    if k in ('remove', 'above', 'except'):
                        if x == 'other':
                            q = model.materialise(A, s, P, model.small(model.make(P, el, 1)), 'other')
                        else:
                            q = ('p', ids[x], ())
                        args.append(q)
                    elif k in ('below', 'limit'):
                        args.append(('c', x))
                    depth = {i: [y[1] for y in chain(s, getf(s, ('p', i, ()), 'frames'))[0]] for i in ids} if k == 'limit' else {}

                    def judge(t, v, A):
                        now = getf(t, p, fld)
                        if k == 'remove':
                            keep = [i for j, i in enumerate(ids) if j != x]
                            want(t, now, keep, 'the list')
                            states(t, keep, [i for i in ids if i not in keep])
                            if x == 'other':
                                states(t, [('n', 'other')], [])
                            if truthy(v) != (x != 'other'):
                                raise Bad('the result does not tell whether the element was removed')
                        elif k == 'above':
                            keep = ids if x == 'other' else ids[x:]
                            want(t, now, keep, 'the list')
                            states(t, keep, [i for i in ids if i not in keep])
                            if truthy(v) != (x != 'other'):
                                raise Bad('the result does not tell whether the element was found')
                        elif k == 'below':
                            want(t, now, ids[:x], 'the list')
                            states(t, ids[:x], ids[x:])
                        elif k == 'limit':
                            want(t, now, ids, 'the list')
                            for i in ids:
                                want(t, getf(t, ('p', i, ()), 'frames'), depth[i][:x], 'the frames of %s' % nm(i))
                                states(t, depth[i][:x], depth[i][x:])
                        elif k == 'except':
                            want(t, now, [ids[x]], 'the list')
                            states(t, [ids[x]], [i for i in ids if i != ids[x]])
                        else:
                            want(t, now, ids, 'the list')
                            if v != ('c', a):
                                raise Bad('the number returned is %s' % (v,))
                    return args, judge
                yield 'a list of %d%s' % (a, '' if x is None else ' and an element outside' if x == 'other' else ', argument %d' % x), prep
    elif k in ('sort', 'count', 'last', 'uniq'):
        if not any(m[0] == 'next' for m in P.structs[st]['members']):
            return
        for a in range(0, 5):
            if k == 'last' and a == 0:
                continue
            for eq in (False, True) if k == 'uniq' else (False,):
                def prep(A, s, a=a, eq=eq):
                    p, ids = lst(A, s, P, st, a, 'list', eq)

                    def judge(t, v, A):
                        if k == 'count':
                            want(t, p, ids, 'the list')
                            if v != ('c', a):
                                raise Bad('the number returned is %s' % (v,))
                        elif k == 'last':
                            if v[0] != 'p' or v[1] != ids[-1]:
                                raise Bad('the result is not the last element')
                        elif k == 'sort':
                            got, end = chain(t, v)
                            if sorted(g[1] for g in got) != sorted(ids):
                                raise Bad('the result consists of %s, expected a reordering of %s' % ([nm(g[1]) for g in got], [nm(x) for x in ids]))
                            if ids and end != NULL:
                                raise Bad('the result is not terminated')
                            states(t, ids, [])
                        elif not eq:
                            want(t, v, ids, 'the result')
                            states(t, ids, [])
                        else:
                            got, end = chain(t, v)
                            if len(got) != min(a, 1):
                                raise Bad('%d equal elements become %d' % (a, len(got)))
                            if a and end != NULL:
                                raise Bad('the result is not terminated')
                            states(t, [g[1] for g in got], [i for i in ids if i not in [g[1] for g in got]])
                    return [p], judge
                yield 'a list of %d%s' % (a, ' equal' if eq else ''), prep
    elif k == 'auth':
        for a in range(0, 4):
            def prep(A, s, a=a):
                t0 = model.small(model.make(P, st, 1))
                t0.f['auth_entries'] = elems(P, 'sr_report_custom_entry', a, 'e')
                p = model.materialise(A, s, P, t0, 'in')
                ids = [y[1] for y in chain(s, getf(s, p, 'auth_entries'))[0]]
                key, val = A.token_str(s, 'key', ('tok', 'key', 0)), A.token_str(s, 'value', ('tok', 'value', 0))

                def judge(t, v, A):
                    got, end = chain(t, getf(t, p, 'auth_entries'))
                    g = [x[1] for x in got]
                    new = [x for x in g if x not in ids]
                    if len(new) != 1 or [x for x in g if x in ids] != ids or end != NULL:
                        raise Bad('the entries are %s, expected one new and %s' % ([nm(x) for x in g], [nm(x) for x in ids]))
                    q = ('p', new[0], ())
                    if text(A, t, getf(t, q, 'key')) != (('tok', 'key', 0),) or text(A, t, getf(t, q, 'value')) != (('tok', 'value', 0),):
                        raise Bad('the new entry does not carry the given key and value')
                    if getf(t, q, 'key')[1] == key[1] or getf(t, q, 'value')[1] == val[1]:
                        raise Bad('the new entry keeps the texts of the caller')
                return [p, key, val], judge
            yield 'a report with %d entries' % a, prep


main('C29', run)
