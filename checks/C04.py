"""C04: reading back what was written reproduces every attribute."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.absint import Undecided
from sa import jsonabs
from sa.suite import showv
from sa.par import parallel
from sa.jsonsuite import *


def run(c):
    P = load(groups=('lib',))
    c.explain = ('for every type with a JSON writer and reader, the abstract text written for a partition of inputs '
                 '(opaque token per attribute, presence, list lengths 0 to 2) is parsed and handed to the abstract '
                 'interpretation of the reader: each attribute of the result must carry the token of the same attribute '
                 'of the input, at full width, and the reader must report success without an error text')
    c.assumptions += ['json-c parses conforming JSON text and saturates integers at the range of the accessor used',
                      'not part of the format: %s' % ', '.join('%s.%s' % x for x in sorted(UNSERIALISED))]
    R = readers(P)
    W = [(fn, st, flag) for fn, st, flag in writers(P) if fn.replace('_to_json', '_from_json') in R]
    jobs = [(fn, st, flag, rt) for fn, st, flag in W for rt in rtypes(st)]
    jobs.sort(key=lambda j: -SIZE.get(j[1], 0))
    parallel(c, jobs, lambda r, j: one(P, r, *j))
    c.count('writer/reader pairs', len(W))
    c.floor('round trip', 2000)


def one(P, c, fn, st, flag, rt):
    rd = fn.replace('_to_json', '_from_json')
    ex = scenarios(P, st, rt)
    for lab, tree in ex:
        if st == 'sr_report' and tree.f.get('stacktrace') is None:
            continue
        for fl in ((0, 1) if flag else (None,)):
            if flag and fl == 0 and st != 'sr_core_thread' and 'recursive' in P.funcs[fn].argnames and st != 'sr_rpm_package':
                continue
            name = fn + ('' if st != 'sr_report' else ' (%s)' % rt)
            try:
                A, p, res = run_writer(P, fn, tree, [('c', fl)] if flag else [])
            except Undecided:
                c.add('undecided runs')
                continue
            A.rtype = rt
            for k, v, s1 in res:
                if k != 'ret':
                    continue
                t = written(A, s1, v)
                try:
                    node = jsonabs.parse(t, A) if t is not None else None
                except (jsonabs.Bad, jsonabs.Top):
                    continue     # C03
                if node is None:
                    continue
                try:
                    r2, em = run_reader(P, A, rd, node, s1, flag=fl if fl is not None else 1)
                except Undecided:
                    c.add('undecided runs')
                    continue
                c.ob('round trip', '%s: %s' % (name, lab))
                for k2, v2, s3, rv in r2:
                    if k2 != 'ret':
                        c.violation('%s:%s' % (rd, k2), v2, '%s ends abnormally (%s at %s) on what %s wrote for input "%s"' % (rd, k2, v2, fn, lab))
                        continue
                    if v2 == NULL or v2[0] != 'p':
                        c.violation('%s:rejects' % rd, P.funcs[rd].where(), '%s rejects what %s wrote for input "%s": %s' % (rd, name, lab, jsonabs.show(text(A, s3, s3.h.get((em, ()))) or ())))
                        continue
                    if s3.h.get((em, ())) not in (NULL, None):
                        c.violation('%s:errset' % rd, P.funcs[rd].where(), '%s sets an error text though it accepts what %s wrote for input "%s"' % (rd, name, lab))
                    expected_state(A, P, st, s1, p, rt)
                    for ds, df, where, msg in diff(A, P, s1, p, s3, v2, st, skip=UNSERIALISED):
                        if msg == 'unknown':
                            c.add('undecided runs')
                            continue
                        c.violation('%s.%s' % (ds, df), P.funcs[rd].where(), '%s -> %s, input "%s": attribute %s %s' % (name, rd, lab, where, msg))
            ex.feed(A.cmps)


main('C04', run)
