"""C11: nothing an operation allocates is lost."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.sweep import *
from sa.jsonmut import reader_jobs, run_docs
from sa.textsuite import run_all


def run(c):
    P = load(groups=('lib',))
    c.explain = ('on every path of every exported operation, each object allocated on the way is, when the operation returns, '
                 'released, part of the result, or stored in one of the arguments; the JSON readers are run on conforming '
                 'documents and on documents with one place missing or of another type, the text parsers on a text of which nothing is known')
    c.assumptions += ['allocation never fails (GLib aborts)']
    sweep(c, P, judge)
    jobs, R = reader_jobs(P)
    parallel(c, jobs, lambda r, job: docs(P, r, job))
    run_all(c, P, texts)
    c.floor('allocations accounted for', 10000)


def judge(r, j, lab, tree, A, args, k, v, s):
    if k != 'ret':
        return
    r.ob('allocations accounted for', '%s: %s' % (opname(j[0], j[2]), lab))
    for oid, o in A.leaks(s, roots(A, s, args, v)):
        r.violation('%s:leak:%s' % (j[0], o['site']), o['site'], '%s loses memory allocated here when given: %s' % (opname(j[0], j[2]), lab))


def docs(P, r, job):
    for lab, A, err, res, em in run_docs(P, job):
        if res is None:
            r.add('undecided runs')
            continue
        for k, v, s, rv in res:
            if k != 'ret':
                continue
            r.ob('allocations accounted for', '%s: a document where %s' % (job[0], lab))
            keep = [x for x in (v, s.h.get((em, ()))) if x and x[0] == 'p']
            for oid, o in A.leaks(s, keep):
                r.violation('%s:leak:%s' % (job[0], o['site']), o['site'], '%s loses memory allocated here on a document where %s' % (job[0], lab))


def texts(r, f, A, base, args, kd, res):
    for k, v, s in res:
        if k != 'ret':
            continue
        r.ob('allocations accounted for', '%s: a text' % f.name)
        keep = [x for x in [v] + args if x and x[0] == 'p']
        for oid, o in A.leaks(s, keep):
            r.violation('%s:leak:%s' % (f.name, o['site']), o['site'], '%s loses memory allocated here on some text' % f.name)


main('C11', run)
