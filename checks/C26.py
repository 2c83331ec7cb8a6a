"""C26: an operation given an error pointer says why it failed, and says nothing when it succeeds."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.absint import NULL
from sa.errsuite import run_err, errarg, failed, listof

# a message may come along with what could be unwound
PARTIAL = ('_from_core_hook',)


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every operation of the public headers with an error pointer (other than the JSON readers) is interpreted with nothing '
                 'known about the texts, files and libraries it reads: on each path that returns failure (NULL, false, a negative number) '
                 'the caller\'s error pointer has been set to an allocated text that is not released again; on each path that returns '
                 'a result no message is left behind')
    c.assumptions += ['a stub for another implementation (libopcodes, libunwind, GDB) is analysed in the configuration that is built',
                      'NULL without a message from a function that returns a list is the empty list, unless NULL itself is returned']
    run_err(c, P, lambda r, f, A, base, args, kd, res: judge(P, r, f, A, base, args, kd, res))
    c.floor('failure explained', 60)
    c.floor('success is quiet', 20)


def judge(P, r, f, A, base, args, kd, res):
    cell = args[errarg(f)]
    if cell[0] != 'p':
        return
    for k, v, s in res:
        if k != 'ret' or v is None or v[0] == 'top':
            continue
        m = s.h.get((cell[1], ()))
        unset = m is None or m == NULL or m[0] == 'unt'
        if failed(f, v):
            # an empty list is a variable's value
            if unset and listof(P, f.sig[0]) and (A.NULLRET, ()) not in s.h:
                continue
            r.ob('failure explained', f.name)
            if unset:
                r.violation('%s:silent' % f.name, f.where(), '%s fails without a message' % f.name)
            elif m[0] == 'p' and m[1] in s.objs and s.objs[m[1]]['st'] == 'freed':
                r.violation('%s:dead' % f.name, f.where(), '%s fails with a message that was released' % f.name)
            elif m[0] == 'p' and (m[1][0] == 'lit' or m[2]):
                r.violation('%s:static' % f.name, f.where(), '%s fails with a message the caller cannot release' % f.name)
        elif not any(p in f.name for p in PARTIAL):
            r.ob('success is quiet', f.name)
            if not unset:
                r.violation('%s:noise' % f.name, f.where(), '%s succeeds but leaves an error message' % f.name)


main('C26', run)
