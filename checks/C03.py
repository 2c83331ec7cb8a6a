"""C03: whatever the attributes are, the JSON text produced is well-formed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.absint import Undecided
from sa import jsonabs
from sa.par import parallel
from sa.jsonsuite import *


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every *_to_json writer is interpreted abstractly on a partition of its inputs (each optional attribute '
                 'absent, lists of length 0 to 2, each flag set, each number zero, special characters in each string); '
                 'the abstract text must be derivable from the JSON grammar, numbers must be printed at the width and '
                 'signedness of the attribute, and member names must be unique')
    c.assumptions += ['strings are valid UTF-8', 'allocation does not fail']
    W = writers(P)
    if len(W) < 18:
        raise AnalysisError('only %d JSON writers found' % len(W))
    jobs = [(fn, st, flag, rt) for fn, st, flag in W for rt in rtypes(st)]
    jobs.sort(key=lambda j: -SIZE.get(j[1], 0))
    parallel(c, jobs, lambda r, j: one(P, r, *j))
    c.floor('well-formed', 2000)


def one(P, c, fn, st, flag, rt):
    ex = scenarios(P, st, rt)
    for lab, tree in ex:
        for fl in ((0, 1) if flag else (None,)):
            name = fn + ('' if st != 'sr_report' else ' (%s)' % rt)
            try:
                A, p, res = run_writer(P, fn, tree, [('c', fl)] if flag else [])
            except Undecided:
                c.add('undecided runs')
                continue
            ex.feed(A.cmps)
            c.ob('well-formed', '%s: %s' % (name, lab))
            for k, v, s in res:
                if k != 'ret':
                    continue
                t = written(A, s, v)
                if t is None:
                    c.violation('%s:notext' % fn, fn, '%s returns no text when %s' % (name, lab))
                    continue
                try:
                    n = jsonabs.parse(t, A)
                except jsonabs.Bad as e:
                    c.violation('%s:malformed' % fn, P.funcs[fn].where(), '%s, input "%s": malformed JSON: %s' % (name, lab, e))
                    continue
                except jsonabs.Top:
                    c.add('undecided runs')
                    continue
                for key, what in badnums(n):
                    c.violation('%s:num:%s' % (fn, key), P.funcs[fn].where(), '%s, input "%s": member "%s" is %s' % (name, lab, key, what))


def badnums(n, key=''):
    if n[0] == 'obj':
        for k, v in n[1]:
            yield from badnums(v, k if isinstance(k, str) else '?')
    elif n[0] == 'arr':
        for v in n[1]:
            yield from badnums(v, key)
    elif n[0] == 'int' and n[1][0] == 't' and n[1][3] != 'int':
        yield key, 'printed as %s of %s' % (n[1][3], n[1][1])


main('C03', run)
