"""C12: released memory is never used, released again or left reachable; nothing uninitialised is read."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.sweep import *
from sa.jsonmut import reader_jobs, run_docs
from sa.textsuite import run_all

WHAT = {'uaf', 'dfree', 'badfree', 'uninit', 'oob', 'constwrite'}


def run(c):
    P = load(groups=('lib',))
    c.explain = ('on every path of every exported operation: no access to a released object, no object released twice, no release of '
                 'static, local or interior memory, no decision or output based on memory never written, no text index beyond the '
                 'terminator, and afterwards no released object reachable from a surviving argument or the result')
    sweep(c, P, judge)
    jobs, R = reader_jobs(P)
    parallel(c, jobs, lambda r, job: docs(P, r, job))
    run_all(c, P, texts)
    c.floor('memory valid', 10000)


def judge(r, j, lab, tree, A, args, k, v, s):
    r.ob('memory valid', '%s: %s' % (opname(j[0], j[2]), lab))
    for e in s.ev:
        if e[0] in WHAT:
            r.violation('%s:%s' % (e[1], e[0]), e[1], '%s: %s when given: %s' % (opname(j[0], j[2]), e[2], lab))
    if k != 'ret':
        return
    for at, name in dangling(A, s, args, v):
        r.violation('%s:dangling:%s' % (j[0], at), at, '%s leaves a pointer to released memory (%s) when given: %s' % (opname(j[0], j[2]), name, lab))


def docs(P, r, job):
    for lab, A, err, res, em in run_docs(P, job):
        if res is None:
            r.add('undecided runs')
            continue
        for k, v, s, rv in res:
            r.ob('memory valid', '%s: a document where %s' % (job[0], lab))
            for e in s.ev:
                if e[0] in WHAT:
                    r.violation('%s:%s' % (e[1], e[0]), e[1], '%s: %s on a document where %s' % (job[0], e[2], lab))
            if k != 'ret':
                continue
            for oid in A.reach(s, [x for x in (v, s.h.get((em, ()))) if x and x[0] == 'p']):
                o = s.objs.get(oid)
                if o and o['st'] == 'freed':
                    r.violation('%s:dangling:%s' % (job[0], o.get('freed_at')), o.get('freed_at'), '%s returns released memory (%s) on a document where %s' % (job[0], A.name(s, oid), lab))


def texts(r, f, A, base, args, kd, res):
    if 'core_unwind' in f.mod.src:
        return
    for k, v, s in res:
        r.ob('memory valid', '%s: a text' % f.name)
        for e in s.ev:
            if e[0] in WHAT - {'oob'} and 'core_unwind' not in e[1]:
                r.violation('%s:%s' % (e[1], e[0]), e[1], '%s: %s on some text' % (f.name, e[2]))
        if k != 'ret':
            continue
        for at, name in dangling(A, s, args, v):
            r.violation('%s:dangling:%s' % (f.name, at), at, '%s leaves a pointer to released memory (%s) on some text' % (f.name, name))


main('C12', run)
