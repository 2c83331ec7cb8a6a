"""Every function that reads text, one job per source file (the functions of a file share summaries)."""
import os, time
from .parsers import Engine, kinds
from .par import parallel
from .frontend import AnalysisError

# file names and directory names are handed to the system, not read; the JSON reader has its own suite
SKIPFILES = ('disasm.c', 'elves.c', 'normalize_hash', 'gperf', 'core_unwind', 'json.c')


def is_cursor(f):
    return 'const char**' in f.sig[1:]


def text_roots(P):
    out = []
    for f in P.all_funcs:
        if not f.sig or '/lib/' not in f.mod.src or f.nargs != len(f.sig) - 1:
            continue
        base = os.path.basename(f.mod.src)
        if is_cursor(f):
            if base != 'disasm.c':
                out.append(f)
            continue
        if 'const char*' not in f.sig[1:] or any(x in base or x in f.where() for x in SKIPFILES):
            continue
        if '_get_by_' in f.name or 'json_text' in f.name or base == 'utils.c' and '_file' in f.name:
            continue
        kd = kinds(f)
        if f.internal and ('struct' in kd or base == 'abrt.c'):
            continue
        made = {k for k, t in zip(kd, f.sig[1:]) if k == 'struct' and t[7:-1] + '_new' not in P.funcs}
        if kd[f.sig[1:].index('const char*')] == 'text' and not made and set(kd) <= {'text', 'str', 'out', 'location', 'num', 'gstring', 'struct'}:
            out.append(f)
    from .errsuite import roots
    return out + [f for f in roots(P) if f not in out]


def run_all(c, P, judge, floor=100, roots=None):
    """judge(rec, f, A, base, args, kd, res) once for each function"""
    if roots is None:
        roots = text_roots(P)
    jobs = {}
    for f in roots:
        jobs.setdefault(f.mod.src, []).append(f)
    # the cursor functions first: the others use their summaries
    size = lambda fs: sum(len(b) for f in fs for b in f.blocks)
    order = sorted(jobs.values(), key=lambda fs: -size(fs))

    def one(r, fs):
        mine = {f.name for f in fs}
        seen = set()

        def report(f, A, base, args, kd, res):
            if f.name in mine and f.name not in seen:
                seen.add(f.name)
                judge(r, f, A, base, args, kd, res)
        E = Engine(P, report)
        for f in sorted(fs, key=lambda f: (not is_cursor(f), f.name)):
            if f.name in seen or f.name in E.undecided:
                continue
            t0 = time.time()
            try:
                E.analyse(f)
            except AnalysisError:
                raise
            except Exception:
                if os.environ.get('SA_DEBUG'):
                    raise
                E.undecided[f.name] = 'construct'
            if os.environ.get('SA_DEBUG'):
                print('%6.1f %s' % (time.time() - t0, f.name), flush=True)
        for n in sorted(E.undecided):
            if n in mine:
                r.add('undecided text functions')
                if os.environ.get('SA_DEBUG'):
                    print('undecided', n, E.undecided[n])
        r.add('text functions', len(seen))
        for n, st in E.stats.items():
            if n in mine:
                r.add('steps', st[0])
                r.add('characters read', st[5])
    tot = parallel(c, order, one)
    if tot.get('text functions', 0) < floor:
        raise AnalysisError('only %d text functions analysed' % tot.get('text functions', 0))
    return tot
