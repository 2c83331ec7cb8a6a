"""C19: every operation on a structure comes to an end."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.sweep import *
from sa.jsonmut import reader_jobs, run_docs


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every exported operation and JSON reader is interpreted on a partition of its inputs: no path jumps back to a state it '
                 'has already been in without an undetermined decision in between, which would repeat forever')
    sweep(c, P, judge)
    jobs, R = reader_jobs(P)
    parallel(c, jobs, lambda r, job: docs(P, r, job))
    c.floor('comes to an end', 10000)


def judge(r, j, lab, tree, A, args, k, v, s):
    r.ob('comes to an end', '%s: %s' % (opname(j[0], j[2]), lab))
    if k == 'loop':
        r.violation('%s:loop' % v, v, '%s never ends when given: %s' % (opname(j[0], j[2]), lab))


def docs(P, r, job):
    for lab, A, err, res, em in run_docs(P, job, errs=('cell',)):
        if res is None:
            r.add('undecided runs')
            continue
        for k, v, s, rv in res:
            r.ob('comes to an end', '%s: a document where %s' % (job[0], lab))
            if k == 'loop':
                r.violation('%s:loop' % v, v, '%s never ends on a document where %s' % (job[0], lab))


main('C19', run)
