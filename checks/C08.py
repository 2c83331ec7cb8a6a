"""C08: comparison functions are complete, antisymmetric and width-preserving."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.check import main
from sa.frontend import load, AnalysisError
from sa.rel import Rel, make_object, kind_of, Undecided

# function -> (struct, identity fields, ignored fields, extra args)
CMP = {
    'sr_gdb_frame_cmp': ('sr_gdb_frame', 'function_name function_type source_file source_line library_name signal_handler_called number', 'address', [('c', 1)]),
    'sr_gdb_frame_cmp#nonumber': ('sr_gdb_frame', 'function_name function_type source_file source_line library_name signal_handler_called', 'address number', [('c', 0)]),
    'sr_core_frame_cmp': ('sr_core_frame', 'build_id build_id_offset function_name file_name fingerprint', 'address', []),
    'sr_koops_frame_cmp': ('sr_koops_frame', 'address reliable function_name function_offset function_length module_name from_address from_function_name from_function_offset from_function_length from_module_name special_stack', '', []),
    'sr_java_frame_cmp': ('sr_java_frame', 'name file_name file_line class_path is_native is_exception', 'message', []),
    'sr_python_frame_cmp': ('sr_python_frame', 'function_name file_name file_line special_function special_file line_contents', '', []),
    'sr_js_frame_cmp': ('sr_js_frame', 'function_name file_name file_line line_column', '', []),
    'sr_ruby_frame_cmp': ('sr_ruby_frame', 'function_name file_name file_line special_function block_level rescue_level', '', []),
    'sr_rpm_package_cmp': ('sr_rpm_package', 'name version release epoch architecture install_time', '', []),
    'sr_rpm_package_cmp_nevra': ('sr_rpm_package', 'name version release epoch architecture', 'install_time', []),
    'sr_rpm_package_cmp_nvr': ('sr_rpm_package', 'name version release', 'epoch architecture install_time', []),
    'sr_rpm_consistency_cmp': ('sr_rpm_consistency', 'path owner_changed group_changed mode_changed md5_mismatch size_changed major_number_changed minor_number_changed symlink_changed modification_time_changed', '', []),
    'sr_location_cmp': ('sr_location', 'line column message', '', [('c', 1)]),
    'sr_location_cmp#nomessage': ('sr_location', 'line column', 'message', [('c', 0)]),
}
# cmp_distance: (must-see fields when everything else is equal and present, ignored)
DIST = {
    'sr_gdb_frame_cmp_distance': ('sr_gdb_frame', 'function_name library_name', 'number source_line address function_type source_file'),
    'sr_core_frame_cmp_distance': ('sr_core_frame', 'function_name', 'address file_name'),
    'sr_koops_frame_cmp_distance': ('sr_koops_frame', 'function_name', 'address function_offset function_length from_address from_function_offset'),
    'sr_java_frame_cmp_distance': ('sr_java_frame', 'name', 'message file_line'),
    'sr_python_frame_cmp_distance': ('sr_python_frame', 'function_name file_name special_function special_file', 'file_line line_contents'),
    'sr_js_frame_cmp_distance': ('sr_js_frame', 'function_name file_name file_line', 'line_column'),
    'sr_ruby_frame_cmp_distance': ('sr_ruby_frame', 'function_name file_name special_function', 'file_line block_level rescue_level'),
}


def signs(outs):
    s = set()
    for o in outs:
        if o[0] != 'ret':
            s.add(o[0] if o[0] == 'abort' else ('crash', o[1]))
            continue
        v = o[1]
        if v is None:
            s.add('?')
        elif v[0] == 'c':
            s.add((v[1] > 0) - (v[1] < 0))
        elif v[0] == 'sg':
            s |= set(v[1])
        elif v[0] == 't':
            s.add('?')
        else:
            s.add('?')
    return s


def run(c):
    P = load()
    R = Rel(P, {})
    und = [0]

    def scenario(f, struct, rel, o0, o1, extra):
        r = Rel(P, rel)
        heap = {}
        a = make_object(P, struct, 'A', 0, heap, o0)
        b = make_object(P, struct, 'B', 1, heap, o1)
        try:
            return signs(r.run(f, [a, b] + extra, heap))
        except Undecided:
            und[0] += 1
            return None

    def decide(f, name, struct, ident, ign, extra, strict, distance=False):
        st = {m[0]: m[3] for m in P.structs[struct]['members']}
        bools = [n for n, t in st.items() if kind_of(t) == 'bool']
        for x in ident + ign:
            if x not in st:
                raise AnalysisError('%s has no field %s' % (struct, x))

        def fail(rule, fld, msg):
            c.violation('%s|%s|%s' % (rule, name, fld), f.where(), '%s: %s' % (name, msg))
        # equal objects compare equal, whatever the flags and absent attributes
        base = [dict()]
        for b in bools[:4]:
            base.append({b: ('c', 1)})
        for n, t in st.items():
            if kind_of(t) == 'str':
                base.append({n: ('c', 0)})
        for o in base:
            s = scenario(f, struct, {}, o, dict(o), extra)
            if s is None:
                continue
            c.ob('equal', '%s with %s' % (name, o or 'all fields equal'))
            bad = s - {0, '?'}
            if distance and s <= {0, -1}:
                bad = set()            # unknown names never match
            if bad:
                cr = [x for x in bad if isinstance(x, tuple)]
                fail('equal', next(iter(o), 'all'), 'two objects with all fields equal%s %s' % (
                    ' (%s %s)' % (next(iter(o)), 'NULL' if kind_of(st[next(iter(o))]) == 'str' else 'set') if o else '',
                    'make it dereference NULL at %s' % cr[0][1] if cr else 'do not compare equal (result %s)' % sorted(map(str, s))))
        for x in ident:
            k = kind_of(st[x])
            pairs = []
            if k == 'bool':
                pairs = [({}, {x: ('c', 0)}, {x: ('c', 1)}), ({}, {x: ('c', 1)}, {x: ('c', 0)})]
            else:
                pairs = [({x: '<'}, {}, {}), ({x: '>'}, {}, {})]
            res = []
            for rel, a, b in pairs:
                res.append(scenario(f, struct, rel, a, b, extra))
            if None not in res and not any('?' in r for r in res):
                c.ob('distinguishes', '%s: only %s differs' % (name, x))
                cr = [y for r in res for y in r if isinstance(y, tuple)]
                if cr:
                    fail('crash', x, 'objects differing in %s dereference NULL at %s' % (x, cr[0][1]))
                elif 0 in res[0] or 0 in res[1]:
                    why = 'can compare equal' if (res[0] | res[1]) - {0} else 'compare equal'
                    fail('distinguishes', x, 'objects that differ only in %s %s' % (x, why))
                elif strict:
                    c.ob('antisymmetric', '%s: %s' % (name, x))
                    if not (len(res[0]) == 1 and len(res[1]) == 1 and next(iter(res[0])) == -next(iter(res[1]))):
                        fail('antisymmetric', x, 'swapping objects that differ only in %s does not swap the sign (%s / %s)' % (x, sorted(map(str, res[0])), sorted(map(str, res[1]))))
            if k == 'str' and not distance:
                r0 = scenario(f, struct, {}, {x: ('c', 0)}, {}, extra)
                r1 = scenario(f, struct, {}, {}, {x: ('c', 0)}, extra)
                if r0 is not None and r1 is not None and '?' not in r0 | r1:
                    c.ob('absent', '%s: %s missing in one object' % (name, x))
                    cr = [y for y in r0 | r1 if isinstance(y, tuple)]
                    if cr:
                        fail('crash', x, 'a missing %s is dereferenced at %s' % (x, cr[0][1]))
                    elif 0 in r0 or 0 in r1:
                        fail('absent', x, 'an object without %s compares equal to one that has it' % x)
            elif k == 'str':
                for a, b in (({x: ('c', 0)}, {}), ({}, {x: ('c', 0)})):
                    s = scenario(f, struct, {}, a, b, extra)
                    if s is None:
                        continue
                    c.ob('absent', '%s: %s missing in one object' % (name, x))
                    cr = [y for y in s if isinstance(y, tuple)]
                    if cr:
                        fail('crash', x, 'a missing %s is dereferenced at %s' % (x, cr[0][1]))
        for x in ign:
            r = scenario(f, struct, {x: '<'}, {}, {}, extra)
            if r is None or '?' in r:
                continue
            c.ob('ignores', '%s: %s' % (name, x))
            ok = r <= {0, -1} if distance and strict is False and 0 in r else r == {0}
            if not ok:
                fail('ignores', x, 'the result depends on %s (documented to be left out)' % x)

    for key, (struct, ident, ign, extra) in CMP.items():
        f = c.need(P, key.split('#')[0])
        decide(f, key, struct, ident.split(), ign.split(), extra, True)
    for key, (struct, ident, ign) in DIST.items():
        f = c.need(P, key)
        decide(f, key, struct, ident.split(), ign.split(), [], False, True)

    # core frames without usable function names: build id + offset, then fingerprints decide
    f = c.need(P, 'sr_core_frame_cmp_distance')
    N = ('c', 0)
    for o, rel, nz, msg in (({'function_name': N, 'fingerprint': N}, {'build_id_offset': '<'}, True, 'frames without names differing only in build_id_offset'),
                            ({'function_name': N, 'fingerprint': N}, {'build_id_offset': '>'}, True, 'frames without names differing only in build_id_offset (other way)'),
                            ({'function_name': N, 'fingerprint': N}, {'build_id': '<'}, True, 'frames without names differing only in build_id'),
                            ({'function_name': N}, {'fingerprint': '<', 'build_id': '<'}, True, 'frames from different builds with different fingerprints'),
                            ({'function_name': N}, {'build_id': '<'}, False, 'frames from different builds with equal fingerprints'),
                            ({'function_name': N}, {'build_id_offset': '<'}, False, 'frames at different offsets with equal fingerprints'),
                            ({'function_name': N}, {}, False, 'equal frames without names')):
        r = scenario(f, 'sr_core_frame', rel, o, dict(o), [])
        if r is None or '?' in r:
            continue
        c.ob('distance', 'sr_core_frame_cmp_distance: ' + msg)
        if nz and 0 in r or not nz and r - {0}:
            c.violation('distance|sr_core_frame_cmp_distance|' + msg, f.where(), 'sr_core_frame_cmp_distance: %s: result %s' % (msg, sorted(map(str, r))))
    # generic comparison never treats different types as equal, and dispatches on the common type
    for name, struct in (('sr_frame_cmp', 'sr_frame'), ('sr_thread_cmp', 'sr_thread'), ('sr_frame_cmp_distance', 'sr_frame')):
        f = c.need(P, name)
        for x, y in ((1, 2), (2, 1), (4, 7)):
            heap = {('A', ('type',)): ('c', x), ('B', ('type',)): ('c', y)}
            try:
                r = signs(Rel(P, {}).run(f, [('obj', 'A'), ('obj', 'B')], heap))
            except Undecided:
                continue
            c.ob('types', '%s: report types %d and %d' % (name, x, y))
            if 0 in r or '?' in r and len(r) == 1:
                c.violation('types|%s' % name, f.where(), '%s can return 0 for objects of different report types' % name)

    # containers: every element is compared, pairwise, and lengths count
    LISTS = [('sr_core_thread_cmp', 'sr_core_thread', 'frames', 'sr_core_frame', 'sr_core_frame_cmp'),
             ('sr_gdb_thread_cmp', 'sr_gdb_thread', 'frames', 'sr_gdb_frame', 'sr_gdb_frame_cmp'),
             ('sr_java_thread_cmp', 'sr_java_thread', 'frames', 'sr_java_frame', 'sr_java_frame_cmp'),
             ('sr_java_stacktrace_cmp', 'sr_java_stacktrace', 'threads', 'sr_java_thread', 'sr_java_thread_cmp'),
             ('sr_rpm_consistency_cmp_recursive', None, None, 'sr_rpm_consistency', 'sr_rpm_consistency_cmp')]
    THREADF = {'sr_core_thread_cmp': '', 'sr_gdb_thread_cmp': 'number', 'sr_java_thread_cmp': 'name', 'sr_java_stacktrace_cmp': ''}
    for name, cont, fld, elem, ecmp in LISTS:
        f = c.need(P, name)
        c.need(P, ecmp)

        def build(n, m, diff, crel):
            heap = {}
            heads = []
            for side, cnt in (('A', n), ('B', m)):
                for k in range(cnt):
                    make_object(P, elem, '%s%d' % (side, k), 0 if side == 'A' else 1, heap, {'next': ('obj', '%s%d' % (side, k + 1)) if k + 1 < cnt else ('c', 0)}, 'e%d.' % k)
                h = ('obj', side + '0') if cnt else ('c', 0)
                if cont:
                    heads.append(make_object(P, cont, side, 0 if side == 'A' else 1, heap, {fld: h}))
                else:
                    heads.append(h)
            r = Rel(P, crel)

            def elemcmp(self, args):
                x, y = args[0], args[1]
                if x[0] == 'obj' and y[0] == 'obj' and x[1][1:] == y[1][1:]:
                    if x[1][0] == y[1][0]:
                        return ('c', 0)
                    k = int(x[1][1:])
                    s = diff.get(k, 0)
                    if x[1][0] == 'B':
                        s = -s
                    return ('sg', frozenset([s]))
                return ('sg', frozenset([-1, 0, 1]))
            r.summ[ecmp] = elemcmp
            try:
                return signs(r.run(f, heads, heap))
            except Undecided:
                und[0] += 1
                return None

        def listob(n, m, diff, want_nonzero, msg, key, crel={}):
            s = build(n, m, diff, crel)
            if s is None or '?' in s:
                return
            c.ob('elements', '%s: %s' % (name, msg))
            cr = [y for y in s if isinstance(y, tuple)]
            if cr:
                c.violation('crash|%s|%s' % (name, key), f.where(), '%s: %s: dereferences NULL at %s' % (name, msg, cr[0][1]))
            elif want_nonzero and 0 in s or not want_nonzero and s - {0}:
                c.violation('elements|%s|%s' % (name, key), f.where(), '%s: %s, yet the result is %s' % (name, msg, sorted(map(str, s))))
        for n in range(0, 4):
            listob(n, n, {}, False, 'equal lists of %d elements' % n, 'equal%d' % n)
        for n, m in ((0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2)):
            listob(n, m, {}, True, 'lists of %d and %d elements' % (n, m), 'len%d-%d' % (n, m))
        for n in (1, 2, 3):
            for k in range(n):
                for sgn in (1, -1):
                    listob(n, n, {k: sgn}, True, 'lists of %d that differ in element %d' % (n, k), 'diff%d.%d' % (n, k))
        if cont:
            for x in THREADF[name].split():
                listob(1, 1, {}, True, 'containers that differ only in %s' % x, x, {x: '<'})
                listob(0, 0, {}, True, 'empty containers that differ only in %s' % x, x + '0', {x: '>'})
    c.count('undecided_scenarios', und[0])
    c.floor('distinguishes', 75)
    c.floor('equal', 80)
    c.floor('elements', 55)
    c.explain = ('Every comparison function is interpreted over the finite domain of ordering relations between the same field of its two '
                 'arguments (all fields equal / exactly one field smaller or greater / one field absent), with lists of up to three elements for '
                 'containers; the set of possible result signs is computed from the current IR and checked: equal objects give 0, an identity '
                 'field that differs never gives 0 (a truncated wide difference may), swapping arguments swaps the sign, documented-ignored fields do not matter.')
    c.assumptions = ['differences of 32-bit unsigned fields are taken to keep their sign', 'lists longer than three elements behave as lists of three (the loops carry no counter)']


if __name__ == '__main__':
    main('C08', run)
