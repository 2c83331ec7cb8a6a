"""C10: a JSON reader that fails says why, one that succeeds does not, and the error pointer is optional."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.absint import NULL
from sa.suite import text
from sa.par import parallel
from sa.jsonmut import *


def run(c):
    P = load(groups=('lib',))
    c.explain = ('each JSON reader is interpreted on the documents its writer produces and on each of them with one place removed or '
                 'replaced by a value of another type, with and without an error pointer: every path ends by returning; a failure '
                 'stores an error text, a success stores none; without an error pointer nothing is stored')
    jobs, R = reader_jobs(P)
    left = set(R) - {j[0] for j in jobs}
    for n in sorted(left):
        c.count('reader without documents: ' + n, 1)
    parallel(c, jobs, lambda r, j: one(P, r, j))
    c.count('readers', len({j[0] for j in jobs}))
    c.floor('failure reported', 300)
    c.floor('success quiet', 300)


def one(P, c, job):
    rd = job[0]
    f = P.funcs[rd]
    name = rd + (' (%s)' % job[4] if job[2] == 'sr_report' else '')
    for lab, A, err, res, em in run_docs(P, job):
        if res is None:
            c.add('undecided runs')
            continue
        for k, v, s, rv in res:
            if k != 'ret':
                c.violation('%s:%s' % (v, k), v, '%s ends abnormally%s on a document where %s' % (name, '' if err == 'cell' else ' (without error pointer)', lab))
                continue
            if err != 'cell':
                c.ob('no error pointer', '%s: %s' % (name, lab))
                continue
            m = s.h.get((em, ()), NULL)
            # a reader with a result parameter returns a status
            failed = rv[0] == 'c' and rv[1] < 0 if rv is not None else v == NULL
            if rv is not None and rv[0] != 'c' or v[0] not in ('p', 'c'):
                c.add('undecided runs')
                continue
            if failed:
                c.ob('failure reported', '%s: %s' % (name, lab))
                if m == NULL or m[0] != 'p':
                    c.violation('%s:silent' % rd, f.where(), '%s fails without an error text on a document where %s' % (name, lab))
            else:
                c.ob('success quiet', '%s: %s' % (name, lab))
                if m != NULL:
                    c.violation('%s:errset' % rd, f.where(), '%s succeeds but sets an error text (%s) on a document where %s' % (name, jsonabs.show(text(A, s, m) or ()), lab))


main('C10', run)
