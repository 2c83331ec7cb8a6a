"""C01: no input text makes a parser step outside the text, change it, or crash."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.textsuite import run_all

WHAT = {'past', 'under', 'inputwrite', 'constwrite', 'oob'}


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every function that takes a text or a cursor into one is interpreted on a text of which nothing is known: character '
                 'sets are tracked position by position and places in the text are related by their distance. No path reads behind '
                 'the terminator or before the first character, writes into the input, or ends abnormally')
    run_all(c, P, judge)
    c.floor('text kept to', 300)


def judge(r, f, A, base, args, kd, res):
    for x in res:
        r.ob('text kept to', '%s: a path that ends by %s' % (f.name, 'returning' if x[0] == 'ret' else x[0]))
    # generated table code works on a length that comes with the text
    found = {k: 1 for k in A.reports if '.gperf' not in k[1]}
    for kind, where, msg in found:
        if kind in WHAT:
            r.violation('%s:%s' % (where, kind), where, '%s (reached from %s)' % (msg, f.name))
    for k, v, s in res:
        for e in s.ev:
            if e[0] in WHAT and '.gperf' not in e[1]:
                r.violation('%s:%s' % (e[1], e[0]), e[1], '%s (reached from %s)' % (e[2], f.name))
        # an assertion about the other arguments (an enumerator) is the caller's business
        if k != 'ret' and not (k == 'assert' and 'num' in kd):
            r.violation('%s:%s' % (v, k), v, 'some text makes %s end abnormally: %s at %s' % (f.name, k, v))


main('C01', run)
