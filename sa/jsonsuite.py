"""JSON writers and readers of the analysed program, run on the abstract models."""
from .absint import AbsInt, State, NULL, TOP, Undecided
from . import model, jsonabs, scen
from .suite import interp, reroot, diff, getf, chain, text, strv
from .frontend import AnalysisError
from .model import bare

# attributes that are not part of the JSON format (neither written nor read)
UNSERIALISED = {('sr_rpm_package', 'consistency'), ('sr_core_thread', 'id'), ('sr_koops_stacktrace', 'reason')}


def writers(P):
    out = []
    for n, f in sorted(P.funcs.items()):
        if f.decl or f.internal or not n.endswith('_to_json') or not f.sig or f.sig[0] != 'char*' or len(f.sig) < 2:
            continue
        st = bare(f.sig[1])
        if st in P.structs and f.sig[1].endswith('*') and st != 'sr_stacktrace' and f.sig[2:] in ([], ['_Bool']):
            out.append((n, st, len(f.sig) == 3))
    return out


def readers(P):
    out = {}
    for n, f in sorted(P.funcs.items()):
        if f.decl or f.internal or not n.endswith('_from_json') or not f.sig:
            continue
        if 'struct json_object*' not in f.sig:
            continue
        out[n] = f
    return out


def scenarios(P, struct, rtype='core', kinds=('absent', 'empty', 'bool', 'zero', 'max', 'special', 'emptystr')):
    """explorer over the partition of the inputs (see scen.py)"""
    b = model.make(P, struct, 1, rtype)
    two = model.make(P, struct, 2, rtype)
    base = [('everything present', b), ('nothing present', model.nothing(P, b)), ('empty elements', model.bare_inner(P, b)),
            ('two elements', two), ('two equal elements', model.equal_elements(two))]
    base += list(model.last_alias(P, two))
    own = {st for fn, st, flag in writers(P)} - {struct}
    base += list(model.variations(P, b, kinds, (own, ('absent', 'empty', 'bool'))))
    base += list(scen.only(P, b))
    base += list(scen.pairs(P, b, ('absent', 'empty', 'bool', 'zero')))
    return scen.Explorer(P, [(l, t) for l, t in base if not incomplete(t)], skip=own)


def incomplete(tree):
    """attributes the interface requires are missing"""
    if not isinstance(tree, list) and tree.struct == 'sr_report':
        if tree.f.get('reporter_name') is None or tree.f.get('reporter_version') is None:
            return True
        for e in tree.f.get('auth_entries') or ():
            if any(v is None for v in e.f.values()):
                return True
    return False


def rtypes(struct):
    return ['core', 'python', 'koops', 'java', 'ruby', 'js'] if struct == 'sr_report' else [model.rtype_of(struct) or 'core']


def written(A, s, v):
    return s.h.get((v[1], '$')) if v[0] == 'p' else None


def run_writer(P, fn, tree, extra):
    A, p, res = interp(P, fn, tree, extra=extra)
    return A, p, res


def run_reader(P, A, fn, node, s1=None, err='cell', flag=1):
    """-> (results, error cell oid).  Result values are normalised to the produced object or NULL."""
    f = P.funcs[fn]
    s = reroot(A, s1) if s1 is not None else State()
    em = A.new(s, 'al', 'error_message')
    s.h[(em, ())] = NULL
    out = None
    args = []
    for t in f.sig[1:]:
        if t == 'struct json_object*':
            args.append(A.jptr(node) if node != ('null',) else NULL)
        elif t == 'char**':
            args.append(('p', em, ()) if err == 'cell' else NULL)
        elif t == '_Bool':
            args.append(('c', flag))
        elif t.endswith('**'):
            out = A.new(s, 'al', 'result')
            s.h[(out, ())] = NULL
            args.append(('p', out, ()))
        elif t == 'enum sr_report_type':
            args.append(('c', flag))
        else:
            raise AnalysisError('%s has an unhandled parameter type %s' % (fn, t))
    res = []
    for k, v, st in A.run(f, args, s):
        if k == 'ret' and out is not None:
            rv = st.h.get((out, ()), NULL)
            res.append((k, rv, st, v))
        else:
            res.append((k, v, st, None))
    return res, em


def tolerated(A, tree, struct, fname, where, s1, p):
    """differences the format documents: the attribute is only written together with another"""
    return False


def expected_state(A, P, tree_root_struct, s1, p, rtype):
    """the input as the format can represent it (attributes that are only meaningful together)"""
    s = s1

    def walk(q, struct):
        for m in P.structs[struct]['members']:
            fn, ty = m[0], m[3]
            v = getf(s, q, fn)
            if v is None or v == NULL or v[0] != 'p' or not ty.endswith('*') or ty in ('char*', 'const char*', 'char**'):
                continue
            st = bare(ty)
            if st == 'sr_stacktrace':
                st = 'sr_%s_stacktrace' % rtype
            if fn == 'next' or (struct, fn) in model.ALIAS or st not in P.structs:
                continue
            for x in chain(s, v)[0]:
                walk(x, st)
        for fl, of in (('special_file', 'file_name'), ('special_function', 'function_name')):
            if any(m[0] == fl for m in P.structs[struct]['members']) and getf(s, q, of) == NULL:
                s.h[(q[1], (fl,))] = ('c', 0)            # a mark of an absent name is not recorded
        if struct == 'sr_java_frame' and getf(s, q, 'file_name') == NULL:
            s.h[(q[1], ('file_line',))] = ('c', 0)       # a line without a file is not recorded
        if struct == 'sr_core_frame' and getf(s, q, 'fingerprint') == NULL:
            s.h[(q[1], ('fingerprint_hashed',))] = ('c', 1)     # default when there is no fingerprint
        if struct == 'sr_core_stacktrace' and getf(s, q, 'crash_thread') == NULL:
            s.h[(q[1], ('crash_thread',))] = getf(s, q, 'threads')   # documented: the first one
        if struct == 'sr_report' and rtype == 'koops':
            s.h[(q[1], ('user_root',))] = ('c', 0)       # not applicable to kernel oopses
            s.h[(q[1], ('user_local',))] = ('c', 1)
    walk(p, tree_root_struct)


# rough cost of a structure, to start the long jobs first
SIZE = {'sr_report': 9, 'sr_core_stacktrace': 5, 'sr_java_stacktrace': 5, 'sr_koops_stacktrace': 7, 'sr_python_stacktrace': 4, 'sr_ruby_stacktrace': 4, 'sr_js_stacktrace': 4, 'sr_rpm_package': 4}
