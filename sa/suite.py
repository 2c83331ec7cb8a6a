"""Shared pieces of the checks built on the abstract interpreter."""
import time
from .absint import AbsInt, State, NULL, TOP, Undecided, lit
from . import model, jsonabs
from .frontend import AnalysisError


def getf(s, p, name):
    """field of an abstract object, None when never written"""
    if p[0] != 'p':
        return None
    v = s.h.get((p[1], p[2] + (name,)))
    if v is None:
        o = s.objs.get(p[1])
        if o is not None and o.get('zero'):
            return NULL
    return v


def chain(s, p, limit=50):
    out = []
    while p is not None and p[0] == 'p' and len(out) < limit:
        out.append(p)
        p = getf(s, p, 'next')
    return out, p


def text(A, s, p):
    if p is None:
        return None
    if p == NULL:
        return None
    return A.content(s, p, None) if p[0] == 'p' else ('?',)


def showv(v):
    if v is None:
        return 'nothing'
    if v == NULL:
        return '0/absent'
    if isinstance(v, tuple) and v and v[0] == 't':
        return 'the %s value of %s' % (v[3] if len(v) > 3 and v[3] != 'int' else 'input', v[1])
    if isinstance(v, tuple) and v and v[0] == 'c':
        return str(v[1])
    if isinstance(v, tuple) and v and isinstance(v[0], (int, tuple)):
        return '"%s"' % jsonabs.show(v, 60)
    return str(v)[:80]


def diff(A, P, sa, pa, sb, pb, struct, path='', skip=(), shared=None, out=None):
    """differences between two abstract objects of one structure type"""
    if out is None:
        out = []
    for m in P.structs[struct]['members']:
        fn, ty = m[0], m[3]
        where = '%s%s' % (path, fn)
        if fn == 'next' or (struct, fn) in skip:
            continue
        va, vb = getf(sa, pa, fn), getf(sb, pb, fn)
        if vb is None or vb[0] == 'undef':
            out.append((struct, fn, where, 'never set in the result'))
            continue
        if vb == TOP:
            out.append((struct, fn, where, 'unknown'))
            continue
        if ty in ('char*', 'const char*'):
            ta, tb = text(A, sa, va), text(A, sb, vb)
            if ta != tb:
                out.append((struct, fn, where, 'is %s, expected %s' % (showv(tb), showv(ta))))
            elif shared is not None and tb is not None and vb[1] == va[1]:
                shared.append((struct, fn, where))
        elif ty == 'char**':
            la, lb = strv(A, sa, va), strv(A, sb, vb)
            if la != lb:
                out.append((struct, fn, where, 'is %s, expected %s' % (lb, la)))
            elif shared is not None and vb[0] == 'p' and va[1] == vb[1]:
                shared.append((struct, fn, where))
        elif ty.endswith('*'):
            st = model.bare(ty)
            if st == 'sr_stacktrace':
                if va[0] == 'p' and vb[0] == 'p':
                    st = 'sr_%s_stacktrace' % A.rtype
            if va == NULL or vb == NULL:
                if va != vb:
                    out.append((struct, fn, where, 'is %s, expected %s' % ('absent' if vb == NULL else 'present', 'absent' if va == NULL else 'present')))
                continue
            if vb[0] != 'p':
                out.append((struct, fn, where, 'unknown'))
                continue
            if (struct, fn) in model.ALIAS:
                # must designate the same position of the result's own list
                lst = model.ALIAS[(struct, fn)]
                la, lb = chain(sa, getf(sa, pa, lst))[0], chain(sb, getf(sb, pb, lst))[0]
                ia = [k for k, x in enumerate(la) if x[1] == va[1]]
                ib = [k for k, x in enumerate(lb) if x[1] == vb[1]]
                if ia != ib:
                    out.append((struct, fn, where, 'designates element %s of the result\'s %s, expected %s' % (ib or 'outside', lst, ia or 'outside')))
                continue
            single = (struct, fn) in model.NOTLIST or ty == 'struct sr_stacktrace*' or not any(x[0] == 'next' for x in P.structs[st]['members'])
            if single:
                la, lb = [va], [vb]
            else:
                la, ea = chain(sa, va)
                lb, eb = chain(sb, vb)
                if eb is None or eb[0] == 'undef':
                    out.append((struct, fn, where, 'list is not terminated'))
                if len(la) != len(lb):
                    out.append((struct, fn, where, 'has %d elements, expected %d' % (len(lb), len(la))))
            for k, (x, y) in enumerate(zip(la, lb)):
                if shared is not None and x[1] == y[1]:
                    shared.append((struct, fn, where))
                    continue
                diff(A, P, sa, x, sb, y, st, '%s%s.' % (where, '' if single else '[%d]' % k), skip, shared, out)
        else:
            if va != vb:
                out.append((struct, fn, where, 'is %s, expected %s' % (showv(vb), showv(va))))
    return out


def strv(A, s, p):
    if p is None or p == NULL:
        return None
    out = []
    for k in range(50):
        v = s.h.get((p[1], (k,) if k else ()))
        if v is None:
            o = s.objs.get(p[1])
            if o is not None and o.get('zero'):
                break
            out.append('unterminated')
            break
        if v == NULL:
            break
        out.append(jsonabs.show(text(A, s, v) or ()))
    return out


def interp(P, fn, tree=None, extra=(), prep=None, maxstates=4000, **kw):
    """one abstract run of fn on a model tree; -> (A, initial pointer, results)"""
    A = AbsInt(P, maxstates=maxstates)
    for k, v in kw.items():
        setattr(A, k, v)
    s = State()
    args = []
    p = None
    if tree is not None:
        p = model.materialise(A, s, P, tree, 'in')
        args.append(p)
    if prep:
        args += prep(A, s)
    args += list(extra)
    f = P.funcs.get(fn)
    if f is None:
        raise AnalysisError('anchor function %s not found' % fn)
    if f.nargs != len(args):
        raise AnalysisError('%s takes %d parameters, the check supplies %d' % (fn, f.nargs, len(args)))
    return A, p, A.run(f, args, s)


def reroot(A, s):
    """a fresh state that keeps the objects of s as inputs"""
    n = State()
    n.h = dict(s.h)
    n.objs = dict(s.objs)
    n.n = s.n
    return n
