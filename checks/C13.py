"""C13: operations that only answer questions leave their arguments untouched."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.sweep import *

QUERY = re.compile(r'(_cmp|_cmp_\w+|_to_json|_dup|_to_text|_to_short_text|_to_str|_quality\w*|_count|_counts|_get_\w+|_find_\w+|_is_\w+|_distance|'
                   r'_format_funs|_(bt|dup)hash_text|_frames|_threads|_next|_one_thread_only)$|^distance_\w+$|^sr_distance$')
CHANGES = re.compile(r'_set_|_remove_|_normalize|_no_normalization')


def query(n, f=None):
    return bool(QUERY.search(n)) and not CHANGES.search(n)


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every operation that compares, finds, counts, measures, copies, hashes or formats is interpreted on a partition of its '
                 'inputs: no path stores to, releases, or relinks any object of its arguments (appending to the text buffer given for the '
                 'purpose excepted)')
    sweep(c, P, judge, pred=query, floor=220)
    c.floor('argument untouched', 8000)


def judge(r, j, lab, tree, A, args, k, v, s):
    n, f, rt, prm = j
    r.ob('argument untouched', '%s: %s' % (opname(n, rt), lab))
    for oid, path, at in s.log:
        if oid in (('n', 'buffer'), ('n', 'buffer text')) or oid[0] == 'g':
            continue
        if oid[0] == 'n':
            r.violation('%s:%s' % (n, at), at, '%s %s %s%s of its argument when given: %s' % (
                opname(n, rt), 'releases' if path == 'free' else 'modifies', A.name(s, oid), '' if path == 'free' else ''.join('.' + str(x) for x in path), lab))


main('C13', run)
