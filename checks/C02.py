"""C02: no operation crashes because an optional attribute is absent or a list is empty."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load, AnalysisError
from sa.apirun import *
from sa.jsonsuite import incomplete
from sa.par import parallel

# text readers start from a cursor, not from a structure; the cursor rules are C01 and C09
SKIP = lambda n: '_parse' in n or n.startswith('sr_gdb_frame_skip')


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every exported operation of the library that takes a model structure (stacktraces, threads, frames, '
                 'packages, operating systems, reports; generic operations for each report type) is interpreted abstractly '
                 'with each optional attribute absent in turn, each list empty in turn, nothing present, and lists of 1 to 3; '
                 'no path may dereference an absent attribute, format it with %s, or fail an internal assertion')
    c.assumptions += ['required: reporter name and version of a report, key and value of a custom entry',
                      'string pointers handed out by libraries are valid']
    ops = operations(P, lambda n, f: not SKIP(n))
    tot = parallel(c, ops, lambda r, j: one(P, r, *j))
    if tot.get('operations', 0) < 350:
        raise AnalysisError('only %d operations analysed' % tot.get('operations', 0))
    c.floor('absent attribute', 10000)


def one(P, c, n, f, rt, prm):
    baseline = False
    seen = False
    for lab, tree, A, args, res, h0 in run_op(P, n, f, rt, prm):
        if res is None:
            c.add('undecided runs')
            continue
        seen = True
        if incomplete(tree) and n.startswith('sr_report_to_json'):
            continue
        c.ob('absent attribute', '%s%s: %s' % (n, ' (%s)' % rt if rt else '', lab))
        for k, v, s in res:
            what = None
            if k == 'null':
                what = 'follows a null pointer'
            elif k in ('assert', 'abort'):
                if lab == 'everything present':
                    baseline = True     # unsupported for this type whatever the attributes are: C14
                if baseline or A.alter:      # documented restrictions of the plain arguments
                    continue
                what = 'fails an assertion'
            if what:
                c.violation('%s:%s' % (v, k), v, '%s%s %s when given: %s' % (n, ' on %s' % rt if rt else '', what, lab))
            for e in s.ev:
                if e[0] == 'nullfmt':
                    c.violation('%s:fmt' % e[1], e[1], '%s%s: %s when given: %s' % (n, ' on %s' % rt if rt else '', e[2], lab))
    if seen:
        c.add('operations')


main('C02', run)
