"""Documents a JSON reader may be given: conforming ones with one member missing, repeated in the wrong type, or replaced."""
from . import model, jsonabs, scen
from .absint import NULL, Undecided
from .jsonsuite import writers, readers, rtypes, run_writer, run_reader, written, SIZE

OTHER = [('null', ('null',)), ('a boolean', ('bool', ('c', 1))), ('a number', ('int', ('c', 7))), ('a negative number', ('int', ('c', -1))),
         ('a text', ('str', (('tok', 'other', 0),))), ('an empty text', ('str', ())), ('an empty list', ('arr', ())),
         ('an empty object', ('obj', ())), ('a list with an empty object', ('arr', (('obj', ()),))),
         ('a list with null', ('arr', (('null',),))), ('a list with a number', ('arr', (('int', ('c', 7)),))),
         ('a fraction', ('double', ('top',)))]


def places(n, path=()):
    yield path, n
    if n[0] == 'obj':
        for k, v in n[1]:
            yield from places(v, path + (k,))
    elif n[0] == 'arr':
        for k, v in enumerate(n[1]):
            yield from places(v, path + (k,))


def put(n, path, val):
    """val None removes the place"""
    if not path:
        return val
    k = path[0]
    if n[0] == 'obj':
        out = []
        for kk, v in n[1]:
            if kk == k:
                v = put(v, path[1:], val)
                if v is None:
                    continue
            out.append((kk, v))
        return ('obj', tuple(out))
    out = []
    for j, v in enumerate(n[1]):
        if j == k:
            v = put(v, path[1:], val)
            if v is None:
                continue
        out.append(v)
    return ('arr', tuple(out))


def name(path):
    return ''.join('[%d]' % p if isinstance(p, int) else '.' + (p if isinstance(p, str) else jsonabs.show(p)) for p in path).lstrip('.') or 'the document'


def mutations(node):
    yield 'conforming', node
    for path, n in list(places(node)):
        if path:
            yield 'without %s' % name(path), put(node, path, None)
        for lab, o in OTHER:
            if o[0] == n[0] and o[0] not in ('arr', 'obj', 'int', 'str', 'null'):
                continue
            if o == n:
                continue
            yield '%s is %s' % (name(path), lab), put(node, path, o)
    top = [path for path, n in places(node) if path and not isinstance(path[-1], int) and len(path) <= 2]
    for a in range(len(top)):
        for b in range(a):
            if top[a][:len(top[b])] != top[b]:
                yield 'without %s and %s' % (name(top[b]), name(top[a])), put(put(node, top[a], None), top[b], None)


def documents(P, fn, st, flag, rt, fl=1):
    """(label, A, node) for documents derived from what the writer produces"""
    b = model.make(P, st, 1, rt)
    two = model.make(P, st, 2, rt)
    for path, x in list(two.walk()):
        for fld, v in x.f.items():
            if isinstance(v, tuple) and v and v[0] == 'bool':
                x.f[fld] = ('bool', 1)
    for base, tree in (('', b), ('two elements: ', two), ('nothing: ', model.nothing(P, b)), ('empty elements: ', model.bare_inner(P, b))):
        from .jsonsuite import incomplete
        if incomplete(tree):
            continue
        try:
            A, p, res = run_writer(P, fn, tree, [('c', fl)] if flag else [])
        except Undecided:
            yield base, None, None
            continue
        for k, v, s in res[:1]:
            t = written(A, s, v) if k == 'ret' else None
            if t is None:
                continue
            try:
                node = jsonabs.parse(t, A)
            except (jsonabs.Bad, jsonabs.Top):
                continue
            for lab, m in mutations(node):
                if base.startswith('two') and '[1]' not in lab and '[0]' not in lab:
                    continue
                yield base + lab, A, m


def reader_jobs(P):
    R = readers(P)
    jobs = [(fn.replace('_to_json', '_from_json'), fn, st, flag, rt) for fn, st, flag in writers(P)
            if fn.replace('_to_json', '_from_json') in R for rt in rtypes(st)]
    jobs.sort(key=lambda j: -SIZE.get(j[2], 0))
    # readers without a writer of the same name, fed with documents of the writer of their structure
    rest = set(R) - {j[0] for j in jobs}
    for rd in sorted(rest):
        if rd == 'sr_stacktrace_from_json':
            for r in model.RT:
                w = 'sr_%s_stacktrace_to_json' % r
                if w in P.funcs:
                    jobs.append((rd, w, 'sr_%s_stacktrace' % r, False, r))
        elif rd == 'sr_js_platform_from_json':
            jobs.append((rd, None, None, False, 'js'))
    return jobs, R


def run_docs(P, job, errs=('cell', 'none')):
    """yields (label, A, err mode, results or None, error cell)"""
    from .absint import AbsInt
    rd, w, st, flag, rt = job
    if w is None:
        n = ('obj', (('engine', ('str', (('tok', 'in.engine', 0),))), ('runtime', ('str', (('tok', 'in.runtime', 0),)))))
        docs = [(lab, AbsInt(P), m) for lab, m in mutations(n)]
        n = ('obj', (('engine', ('str', tuple(b'V8'))), ('runtime', ('str', tuple(b'Node.js')))))
        docs += [(lab, AbsInt(P), m) for lab, m in mutations(n)]
    else:
        docs = documents(P, w, st, flag, rt)
        if flag and st == 'sr_rpm_package':
            # the single form has the first place of the list form
            docs = [d + (1,) for d in docs] + [('single: ' + l, A, n, 0) for l, A, n in documents(P, w, st, flag, rt, 0)]
    for lab, A, node, *how in docs:
        if A is None:
            yield lab, None, None, None, None
            continue
        A.rtype = rt
        fl = how[0] if how else 1
        if rd == 'sr_stacktrace_from_json':
            fl = model.enumval(P, model.ENUM[rt])
        for err in errs:
            try:
                A.cmps = set()
                r, em = run_reader(P, A, rd, node, None, err, flag=fl)
            except Undecided as e:
                yield lab, A, err, None, None
                continue
            yield lab, A, err, r, em
