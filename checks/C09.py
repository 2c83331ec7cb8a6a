"""C09: a parser that fails leaves the input where it was and says why."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa.check import main
from sa.frontend import load
from sa.absint import NULL
from sa.textsuite import run_all

# skips to the end of the text when there is no further line
OTHER = {'sr_skip_to_next_line_location'}


def run(c):
    P = load(groups=('lib',))
    c.explain = ('every exported function that moves a cursor through a text is interpreted on a text of which nothing is known: on each '
                 'path that reports failure (NULL, false, 0) the caller\'s cursor is the one it passed and, for functions that take a '
                 'location and whose failure depends on the text alone, the location has a message; each path that reports success has '
                 'moved the cursor forward or left it, within the same text')
    run_all(c, P, judge)
    c.floor('failure leaves the input', 150)
    c.floor('failure explained', 80)


def judge(r, f, A, base, args, kd, res):
    if 'cursor' not in kd or f.internal or f.name in OTHER:
        return
    cell = args[kd.index('cursor')]
    loc = args[kd.index('location')] if 'location' in kd else None
    for k, v, s in res:
        if k != 'ret':
            continue
        x = s.h.get((cell[1], ()))
        inside = x is not None and x[0] == 'p' and x[1][0] == 'x'
        same = inside and x[1] == base and (A.off(x) or 0) == 0
        failed = v == NULL or v == ('c', 0)
        if not inside:
            if not (x is not None and x[0] == 'top'):
                r.violation('%s:lost' % f.name, f.where(), '%s leaves the cursor outside the text' % f.name)
            continue
        if failed:
            r.ob('failure leaves the input', f.name)
            if not same:
                r.violation('%s:moved' % f.name, f.where(), '%s reports failure on some text after it moved the input' % f.name)
            if loc is not None and 'num' not in kd:
                r.ob('failure explained', f.name)
                m = s.h.get((loc[1], ('message',)))
                if m is None or m == NULL or m[0] == 'unt':
                    r.violation('%s:silent' % f.name, f.where(), '%s reports failure on some text without a message in the location' % f.name)
        else:
            r.ob('success stays in the text', f.name)


main('C09', run)
