"""Abstract inputs: trees of model structures built from the struct layouts of the analysed program.

A tree names, per field, an opaque token (any text / any number), a presence choice, or a list
of sub-trees.  Field kinds come from the program's own debug types, so a new field is picked
up without changing this file."""
from .absint import AbsInt, State, NULL, TOP, lit
from .frontend import AnalysisError

RT = ['gdb', 'core', 'python', 'koops', 'java', 'ruby', 'js']
ENUM = {'core': 'SR_REPORT_CORE', 'gdb': 'SR_REPORT_GDB', 'python': 'SR_REPORT_PYTHON', 'koops': 'SR_REPORT_KERNELOOPS',
        'java': 'SR_REPORT_JAVA', 'ruby': 'SR_REPORT_RUBY', 'js': 'SR_REPORT_JAVASCRIPT'}


def enumval(P, name):
    for e in P.enums.values():
        items = e.items() if isinstance(e, dict) else e
        for k, v in items:
            if k == name:
                return v
    raise AnalysisError('enum constant %s not found' % name)


def rtype_of(struct):
    for r in RT:
        if struct.startswith('sr_%s_' % r):
            return r
    return None


class Node:
    def __init__(self, struct, fields):
        self.struct = struct
        self.f = fields          # name -> leaf value
        self.tok = None          # name of the opaque values, when it is not the name of the object

    def copy(self):
        n = Node(self.struct, {})
        n.tok = self.tok
        for k, v in self.f.items():
            if isinstance(v, Node):
                n.f[k] = v.copy()
            elif isinstance(v, list):
                n.f[k] = [x.copy() if isinstance(x, Node) else x for x in v]
            else:
                n.f[k] = v
        return n

    def at(self, path):
        n = self
        for p in path:
            if isinstance(p, tuple):
                n = n.f[p[0]][p[1]]
            else:
                n = n.f[p]
        return n

    def walk(self, path=()):
        yield path, self
        for k, v in self.f.items():
            if isinstance(v, Node):
                yield from v.walk(path + (k,))
            elif isinstance(v, list):
                for j, x in enumerate(v):
                    if isinstance(x, Node):
                        yield from x.walk(path + ((k, j),))


def js_platform(P):
    """the encoding of the one known JavaScript platform, as the program computes it"""
    if 'sr_js_platform_from_string' not in P.funcs:
        raise AnalysisError('sr_js_platform_from_string not found')
    A = AbsInt(P)
    s = State()
    r = A.run(P.funcs['sr_js_platform_from_string'], [('p', ('lit', 'Node.js'), ()), NULL, NULL], s)
    if len(r) != 1 or r[0][0] != 'ret' or r[0][1][0] != 'c' or r[0][1][1] == 0:
        raise AnalysisError('JavaScript platform encoding not determined: %s' % (r and r[0][:2],))
    return r[0][1][1]


def bare(t):
    return t.replace('struct ', '').replace('const ', '').rstrip('*').strip()


WIDTH = {'unsigned int': (32, 0), 'int': (32, 1), 'unsigned long': (64, 0), 'long': (64, 1), 'unsigned short': (16, 0),
         'unsigned char': (8, 0), 'unsigned long long': (64, 0), 'long long': (64, 1)}
NOTLIST = {('sr_gdb_stacktrace', 'crash'), ('sr_report', 'operating_system')}
MANDATORY = {('sr_report', 'reporter_name'), ('sr_report', 'reporter_version')}   # a report without them is incomplete, its writer asserts them
ALIAS = {('sr_core_stacktrace', 'crash_thread'): 'threads'}


def make(P, struct, n=1, rtype='core', depth=0):
    """full tree: everything present, every list with n elements"""
    if struct not in P.structs:
        raise AnalysisError('structure %s not found' % struct)
    f = {}
    for m in P.structs[struct]['members']:
        name, ty = m[0], m[3]
        if name == 'next':
            continue
        if ty == 'enum sr_report_type':
            f[name] = ('enum', rtype_of(struct) or rtype)
        elif ty.startswith('enum'):
            f[name] = ('int0', 1)
        elif ty == '_Bool':
            f[name] = ('bool', 0)
        elif ty in ('char*', 'const char*'):
            f[name] = ('str', None)
        elif ty == 'char**':
            f[name] = ('strv', 2)
        elif (struct, name) == ('sr_js_stacktrace', 'platform'):
            f[name] = ('num', js_platform(P))
        elif ty in WIDTH:
            f[name] = ('num', None)
        elif (struct, name) in ALIAS:
            f[name] = ('alias', ALIAS[(struct, name)], 0)
        elif ty == 'struct sr_stacktrace*':
            f[name] = make(P, 'sr_%s_stacktrace' % rtype, n, rtype)
        elif ty.endswith('*') and bare(ty) in P.structs and bare(ty).startswith('sr_'):
            if (struct, name) in NOTLIST:
                f[name] = make(P, bare(ty), n, rtype)
            else:
                f[name] = [make(P, bare(ty), n, rtype) for _ in range(n)]
        else:
            raise AnalysisError('field %s.%s has unhandled type %s' % (struct, name, ty))
    return Node(struct, f)


def ftype(P, struct, name):
    for m in P.structs[struct]['members']:
        if m[0] == name:
            return m[3]


def materialise(A, s, P, node, name, side=0, tok=None):
    """-> pointer to the abstract object; tok: name of the opaque values (two structures built with one tok are equal)"""
    tok = node.tok or (name if tok is None else tok)
    oid = A.named(s, name)
    s.objs[oid] = dict(s.objs[oid], struct=node.struct)
    for m in P.structs[node.struct]['members']:
        fn, ty = m[0], m[3]
        if fn == 'next':
            if (oid, ('next',)) not in s.h:
                A.setf(s, oid, 'next', NULL)
            continue
        v = node.f[fn]
        nm = name + '.' + fn
        tk = tok + '.' + fn
        if v is None or v == []:
            A.setf(s, oid, fn, NULL)
        elif isinstance(v, Node):
            A.setf(s, oid, fn, materialise(A, s, P, v, nm, side, tk))
        elif isinstance(v, list):
            prev = None
            for k, x in enumerate(v):
                p = materialise(A, s, P, x, '%s[%d]' % (nm, k), side, '%s[%d]' % (tk, k))
                if prev is None:
                    A.setf(s, oid, fn, p)
                else:
                    A.setf(s, prev[1], 'next', p)
                prev = p
        elif v[0] == 'enum':
            A.setf(s, oid, fn, ('c', enumval(P, ENUM[v[1]])))
        elif v[0] == 'bool' or v[0] == 'int0':
            A.setf(s, oid, fn, ('c', v[1]))
        elif v[0] == 'num':
            if v[1] is None:
                A.toksize[tk] = WIDTH[ty][0]
                A.toksigned[tk] = WIDTH[ty][1]
                A.setf(s, oid, fn, ('t', tk, side, 'int'))
            else:
                A.setf(s, oid, fn, ('c', v[1]))
        elif v[0] == 'str':
            so = A.named(s, nm + '$')
            if v[1] is None:
                s.h[(so, '$')] = (('tok', tk, side),)
            else:
                s.h[(so, '$')] = tuple(v[1]) if not isinstance(v[1], str) else lit(v[1])
            A.setf(s, oid, fn, ('p', so, ()))
        elif v[0] == 'strv':
            vo = A.named(s, nm + '$v')
            for k in range(v[1]):
                so = A.named(s, '%s[%d]$' % (nm, k))
                s.h[(so, '$')] = (('tok', '%s[%d]' % (tk, k), side),)
                s.h[(vo, (k,) if k else ())] = ('p', so, ())
            s.h[(vo, (v[1],) if v[1] else ())] = NULL
            A.setf(s, oid, fn, ('p', vo, ()))
        elif v[0] == 'alias':
            # pointer to an element of a sibling list
            lst = node.f[v[1]]
            if lst:
                A.setf(s, oid, fn, ('p', ('n', '%s.%s[%d]' % (name, v[1], min(v[2], len(lst) - 1))), ()))
            else:
                A.setf(s, oid, fn, NULL)
    return ('p', oid, ())


def pathname(path):
    return '.'.join('%s[%d]' % p if isinstance(p, tuple) else p for p in path)


def variations(P, tree, kinds=('absent', 'empty', 'bool', 'zero', 'special'), nested=None):
    """(label, tree) for single changes of the full tree; nested: (structures, kinds) for elements explored on their own"""
    allk = kinds
    for path, node in list(tree.walk()):
        kinds = nested[1] if nested and path and node.struct in nested[0] else allk
        for fn, v in node.f.items():
            label = pathname(path + (fn,))

            def mut(val):
                t = tree.copy()
                t.at(path).f[fn] = val
                return t
            if v is None:
                continue
            if isinstance(v, list) or isinstance(v, Node):
                if 'empty' in kinds:
                    t = mut([] if isinstance(v, list) else None)
                    yield 'no ' + label, t
            elif v[0] == 'str':
                if 'absent' in kinds:
                    yield 'no ' + label, mut(None)
                if 'special' in kinds:
                    yield 'special characters in ' + label, mut(('str', SPECIAL))
                if 'emptystr' in kinds:
                    yield 'empty ' + label, mut(('str', ''))
            elif v[0] == 'strv':
                if 'absent' in kinds:
                    yield 'no ' + label, mut(None)
                if 'empty' in kinds:
                    yield 'empty ' + label, mut(('strv', 0))
            elif v[0] == 'enum':
                if 'kind' in kinds and fn != 'type' and v[1] != 'gdb':
                    t = mut(('int0', 0))
                    for g, x in node.f.items():
                        if isinstance(x, Node) and x.struct.endswith('_stacktrace'):
                            t.at(path).f[g] = None
                    yield 'no ' + label, t
            elif v[0] == 'bool':
                if 'bool' in kinds:
                    yield 'set ' + label, mut(('bool', 1))
            elif v[0] == 'num':
                if (node.struct, fn) == ('sr_js_stacktrace', 'platform'):
                    continue
                if 'max' in kinds and ftype(P, node.struct, fn) in WIDTH:
                    b, sg = WIDTH[ftype(P, node.struct, fn)]
                    yield 'largest ' + label, mut(('num', (1 << b - 1) - 1 if sg else -1))
                if 'zero' in kinds:
                    yield 'zero ' + label, mut(('num', 0))
            elif v[0] == 'alias':
                if 'absent' in kinds:
                    yield 'no ' + label, mut(None)




def debruijn(alpha, n):
    """a sequence with every n characters of the alphabet, one after the other"""
    seq = []
    a = [0] * len(alpha) * n

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, len(alpha)):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    seq += seq[:n - 1]
    return tuple(alpha[k] for k in seq)


# quote, backslash, slash, the named and two unnamed control characters, letters that follow a backslash in JSON
SPECIAL = ((('tok', 'text1', 0),) + debruijn([34, 92, 47, 10, 9, 13, 8, 12, 1, 27, 31, 110, 117], 2) + (('tok', 'text3', 0),)
           + debruijn([34, 92, 10, 110], 3) + (0xc3, 0xa9, ('tok', 'text2', 0)))


def nothing(P, tree):
    """every optional thing absent"""
    t = tree.copy()
    for fn, v in t.f.items():
        if isinstance(v, list):
            t.f[fn] = []
        elif isinstance(v, Node) or v is None or v[0] in ('str', 'strv', 'alias'):
            t.f[fn] = None
    return t


def bare_inner(P, tree):
    """every nested element present but without any content"""
    t = tree.copy()
    for path, n in list(t.walk()):
        for fn, v in n.f.items():
            if v is not None and not isinstance(v, (list, Node)) and v[0] in ('str', 'strv', 'alias'):
                n.f[fn] = None
    return t


def bare_nth(P, tree, which):
    """the elements at the positions `which` of each list are without any content"""
    t = tree.copy()
    for path, n in list(t.walk()):
        if path and isinstance(path[-1], tuple) and path[-1][1] in which:
            for fn, v in n.f.items():
                if v is not None and not isinstance(v, (list, Node)) and v[0] in ('str', 'strv', 'alias'):
                    n.f[fn] = None
    return t


def small(tree, v=2):
    """numbers are small constants (for code that counts up to an attribute)"""
    t = tree.copy()
    for path, n in list(t.walk()):
        for fn, x in n.f.items():
            if isinstance(x, tuple) and x and x[0] == 'num' and x[1] is None:
                n.f[fn] = ('num', v)
    return t


def equal_elements(tree, name='in'):
    """the elements of each list carry equal values"""
    t = tree.copy()
    for path, n in list(t.walk()):
        if path and n.struct != 'sr_report_custom_entry' and any(isinstance(p, tuple) and p[1] for p in path):
            n.tok = name + '.' + pathname([(p[0], 0) if isinstance(p, tuple) else p for p in path])
    return t


def last_alias(P, tree):
    """a pointer into a list designates its last element"""
    for path, n in list(tree.walk()):
        for fn, v in n.f.items():
            if isinstance(v, tuple) and v and v[0] == 'alias' and len(n.f[v[1]] or ()) > 1:
                t = tree.copy()
                t.at(path).f[fn] = ('alias', v[1], len(n.f[v[1]]) - 1)
                yield '%s is the last of two' % pathname(path + (fn,)), t


def named(tree, tok):
    t = tree.copy()
    t.tok = tok
    return t
