"""C07: structures come fully initialised out of constructors, readers and copies."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.absint import AbsInt, State, NULL, Undecided
from sa.sweep import *
from sa.suite import chain, getf
from sa.jsonmut import reader_jobs, run_docs
from sa import model

# a new report names this library as the reporter
DEFAULTS = {('sr_report', 'reporter_name'), ('sr_report', 'reporter_version')}


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every member of the structure each *_new returns and each *_init fills is written, pointers with NULL and the type '
                 'mark with the type of the structure; every member of every structure reachable from what an operation or a JSON '
                 'reader returns has been written')
    for n, f in sorted(P.funcs.items()):
        if f.decl or f.internal or not f.sig or '/lib/' not in f.mod.src:
            continue
        if n.endswith('_new') and len(f.sig) == 1 and f.sig[0].endswith('*'):
            new(P, c, n, f, model.bare(f.sig[0]), None)
        elif n.endswith('_init') and len(f.sig) == 2 and f.sig[1].endswith('*'):
            new(P, c, n, f, model.bare(f.sig[1]), f.sig[1])
    sweep(c, P, lambda *a: judge(P, *a), pred=lambda n, f: f.sig[0].endswith('*') and f.sig[0].startswith('struct sr_'), plain=True, floor=60)
    jobs, R = reader_jobs(P)
    parallel(c, jobs, lambda r, job: docs(P, r, job))
    c.floor('constructor', 30)
    c.floor('fully written', 2000)


def new(P, c, n, f, st, arg):
    if st not in P.structs or not st.startswith('sr_'):
        return
    A = AbsInt(P)
    s = State()
    args = []
    if arg:
        o = A.new(s, 'mem', 'the caller')
        s.objs[o]['struct'] = st
        args = [('p', o, ())]
    try:
        res = A.run(f, args, s)
    except Undecided:
        c.count('undecided constructor ' + n, 1)
        return
    for k, v, t in res:
        if k != 'ret':
            c.violation('%s:%s' % (n, k), v, '%s ends abnormally' % n)
            continue
        p = args[0] if arg else v
        if p[0] != 'p':
            c.violation('%s:none' % n, f.where(), '%s returns nothing' % n)
            continue
        for m in P.structs[st]['members']:
            fn, ty = m[0], m[3]
            x = getf(t, p, fn)
            c.ob('constructor', '%s: %s.%s' % (n, st, fn))
            if x is None and ty not in model.WIDTH and not ty.endswith('*') and not ty.startswith('enum') and ty not in ('_Bool', 'char'):
                continue                       # embedded aggregates
            if x is None or x[0] == 'undef':
                c.violation('%s:unset:%s' % (n, fn), f.where(), '%s leaves %s.%s unset' % (n, st, fn))
            elif ty.endswith('*') and (st, fn) not in DEFAULTS and st.startswith('sr_') and x != NULL and ty != 'void*':
                c.violation('%s:ptr:%s' % (n, fn), f.where(), '%s does not start with %s.%s empty' % (n, st, fn))
            elif ty == 'enum sr_report_type':
                rt = model.rtype_of(st)
                want = ('c', model.enumval(P, model.ENUM[rt] if rt else 'SR_REPORT_INVALID'))
                if x != want:
                    c.violation('%s:type' % n, f.where(), '%s marks the structure as type %s, not %s' % (n, x[1:], want[1]))


def unset(A, P, s, start):
    out = []
    for oid in A.reach(s, start):
        o = s.objs.get(oid)
        if not o or o['st'] != 'live' or o['kind'] != 'mem' or o.get('zero'):
            continue
        st = o.get('struct')
        if st in P.structs and st.startswith('sr_'):
            for m in P.structs[st]['members']:
                if m[3] in model.WIDTH or m[3].endswith('*') or m[3].startswith('enum') or m[3] == '_Bool':
                    x = s.h.get((oid, (m[0],)))
                    if x is None or x[0] == 'undef':
                        out.append((st, m[0], o['site']))
    return out


def judge(P, r, j, lab, tree, A, args, k, v, s):
    if k != 'ret' or v is None or v[0] != 'p':
        return
    r.ob('fully written', '%s: %s' % (opname(j[0], j[2]), lab))
    for st, fn, site in unset(A, P, s, [v]):
        r.violation('%s:unset:%s.%s' % (j[0], st, fn), site, '%s returns a structure whose %s.%s was never written when given: %s' % (opname(j[0], j[2]), st, fn, lab))


def docs(P, r, job):
    for lab, A, err, res, em in run_docs(P, job, errs=('cell',)):
        if res is None:
            r.add('undecided runs')
            continue
        for k, v, s, rv in res:
            if k == 'ret' and v is not None and v[0] == 'p':
                r.ob('fully written', '%s: a document where %s' % (job[0], lab))
                for st, fn, site in unset(A, P, s, [v]):
                    r.violation('%s:unset:%s.%s' % (job[0], st, fn), site, '%s returns a structure whose %s.%s was never written on a document where %s' % (job[0], st, fn, lab))


main('C07', run)
