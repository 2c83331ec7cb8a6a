"""Independent parts of a check on several processors."""
import multiprocessing as mp, os, traceback
from .frontend import AnalysisError

_fn = None


class Rec:
    """what one part of a check found"""

    def __init__(self):
        self.obs = []
        self.viol = []
        self.counts = {}

    def ob(self, rule, subject):
        self.obs.append((rule, subject))

    def violation(self, key, where, msg):
        self.viol.append((key, where, msg))

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


def _one(job):
    r = Rec()
    try:
        _fn(r, job)
    except AnalysisError as e:
        return None, str(e), None
    except Exception:
        # a construct the interpreter does not know: this part stays undecided (floors on the obligations guard the whole)
        r.add('undecided parts')
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
    return r.obs, r.viol, r.counts


def parallel(c, jobs, fn, procs=None):
    global _fn
    _fn = fn
    jobs = list(jobs)
    n = procs or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    tot = {}
    with mp.get_context('fork').Pool(n) as pool:
        for obs, viol, counts in pool.imap(_one, jobs, chunksize=1):
            if obs is None:
                raise AnalysisError(viol[-1500:])
            for o in obs:
                c.ob(*o)
            for v in viol:
                c.violation(*v)
            for k, v in counts.items():
                tot[k] = tot.get(k, 0) + v
    for k, v in tot.items():
        c.count(k, v)
    return tot
