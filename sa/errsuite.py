"""The operations of the public headers that are given an error pointer (the JSON readers have their own suite)."""
import glob, os, re
from .frontend import REPO
from .absint import NULL
from .textsuite import run_all


def public(P):
    names = set()
    for h in glob.glob(os.path.join(REPO, 'include', '**', '*.h'), recursive=True) + glob.glob(os.path.join(REPO, 'lib', '*.h')):
        t = re.sub(r'/\*.*?\*/', ' ', open(h, errors='replace').read(), flags=re.S)
        names |= set(re.findall(r'\b(sr_\w+)\s*\(', t))
    return names


def errarg(f):
    for k, (n, t) in enumerate(zip(f.argnames, f.sig[1:])):
        if t == 'char**' and n.startswith('err'):
            return k
    return None


def roots(P):
    pub = public(P)
    out = []
    for f in P.all_funcs:
        if not f.sig or f.internal or '/lib/' not in f.mod.src or f.nargs != len(f.sig) - 1 or f.name not in pub:
            continue
        if errarg(f) is None or 'json' in f.name:
            continue
        out.append(f)
    return out


def listof(P, t):
    """the type is a pointer to an entry of a list, so that NULL may be the empty one"""
    st = P.structs.get(t[len('struct '):-1]) if t.startswith('struct ') and t.endswith('*') else None
    return st is not None and any(m[0] == 'next' for m in st['members'])


def failed(f, v):
    t = f.sig[0]
    if t == 'int':
        return v[0] == 'c' and v[1] < 0
    return v == NULL or v == ('c', 0)


def run_err(c, P, judge, floor=20):
    return run_all(c, P, judge, floor=floor, roots=roots(P))
