"""Check harness: obligations, violations, known findings, evidence, exit status."""
import json, os, sys, time, traceback
from .frontend import AnalysisError, HERE

KNOWN = os.path.join(HERE, 'known_findings.txt')


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if not l.startswith('known: '):
                continue
            parts = l[len('known: '):].split(' ', 2)
            kv = dict(p.split('=', 1) for p in parts[:2])
            if kv.get('property') == prop:
                out[kv['key']] = parts[2] if len(parts) > 2 else ''
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.viol = {}
        self.oblig = []          # (rule, subject)
        self.counts = {}
        self.assumptions = []
        self.explain = ''
        self.rules = {}
        self.quiet = []

    # an obligation the rule decided
    def ob(self, rule, subject):
        self.oblig.append((rule, subject))
        self.rules[rule] = self.rules.get(rule, 0) + 1

    def violation(self, key, where, msg):
        key = key.replace(' ', '_')
        if key not in self.viol:
            self.viol[key] = (where, msg)

    def count(self, name, n):
        self.counts[name] = n

    def floor(self, rule, n):
        """fail as analysis-broken when a rule found fewer instances than confirmed by hand"""
        if self.rules.get(rule, 0) < n:
            raise AnalysisError('rule %s matched %d instances, expected at least %d' % (rule, self.rules.get(rule, 0), n))

    def need(self, prog, name):
        f = prog.funcs.get(name)
        if f is None:
            raise AnalysisError('anchor function %s not found' % name)
        return f

    def finish(self):
        known = load_known(self.prop)
        new = {k: v for k, v in self.viol.items() if k not in known}
        ev = os.path.join(HERE, 'evidence')
        os.makedirs(ev, exist_ok=True)
        samples = ['%s: %s' % o for o in self.oblig[:3]]
        step = max(1, len(self.oblig) // 12)
        samples += ['%s: %s' % o for o in self.oblig[3::step]][:12]
        cov = dict(explanation=self.explain, obligations=len(self.oblig), discharged=len(self.oblig) - min(len(self.viol), len(self.oblig)),
                   rules=self.rules, samples=samples, known_findings=sorted(k for k in self.viol if k in known))
        cov.update(self.counts)
        rec = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(ev, self.prop + '.json'), 'w') as o:
            json.dump(rec, o, indent=1)
        for k, (w, m) in sorted(self.viol.items()):
            if k in known:
                print('KNOWN-FINDING: property=%s %s [%s] %s' % (self.prop, k, w, m))
        if new:
            rp = os.path.join(ev, self.prop + '.violations.txt')
            with open(rp, 'w') as o:
                for k, (w, m) in sorted(new.items()):
                    o.write('%s\n  at %s\n  %s\n' % (k, w, m))
            for k, (w, m) in sorted(new.items()):
                print('%s: %s  [%s]' % (w, m, k))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('%s: held on %d obligations (%s), %d known findings, %s undecided, %.1f s' % (
            self.prop, len(self.oblig), ', '.join('%s %d' % x for x in sorted(self.rules.items())), len(self.viol), self.counts.get('undecided runs', 0) + self.counts.get('undecided parts', 0), time.time() - self.t0))
        return 0


def main(prop, fn):
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
    c = Check(prop, tier)
    try:
        fn(c)
        if not c.oblig:
            raise AnalysisError('no obligations found')
        rc = c.finish()
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (prop, e))
        rc = 2
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
