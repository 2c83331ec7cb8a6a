"""C24: what an operation obtains from the system it gives back."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.textabs import RESOURCES
from sa.errsuite import run_err


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every operation of the public headers with an error pointer, which are the ones that reach files, ELF files, core files '
                 'and the rpm database, is interpreted with each call into those libraries succeeding and failing: on each '
                 'path every descriptor is closed once, and every ELF handle, unwinding session, rpm transaction, iterator and tag '
                 'is released once or part of the result')
    c.assumptions += ['a call that fails has obtained nothing']
    run_err(c, P, judge)
    c.floor('descriptors closed', 20)
    c.floor('handles released', 10)


def judge(r, f, A, base, args, kd, res):
    for k, v, s in res:
        for e in s.ev:
            if e[0] == 'dres':
                r.violation('%s:twice:%s' % (f.name, e[1]), e[1], '%s: %s' % (f.name, e[2]))
        if k != 'ret':
            continue
        n = s.h.get((A.OPEN, ()))
        if n is not None:
            r.ob('descriptors closed', f.name)
        if n is not None and n[1] > 0:
            r.violation('%s:open' % f.name, f.where(), '%s returns with a descriptor it opened left open' % f.name)
        kept = A.reach(s, [x for x in [v] + args if x and x[0] == 'p'])
        if any(o['kind'] in RESOURCES for o in s.objs.values()):
            r.ob('handles released', f.name)
        for oid, o in s.objs.items():
            if o['st'] == 'live' and o['kind'] in RESOURCES and oid not in kept:
                r.violation('%s:kept:%s' % (f.name, o['site']), o['site'], '%s loses the %s obtained here' % (f.name, o['kind']))


main('C24', run)
