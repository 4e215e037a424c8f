"""Verdicts, known findings and evidence of one check."""
import json, os, sys, time
from load import VERIF, AnalysisBroken

class Report:
    def __init__(self, pid, technique, level='other'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.obl = 0
        self.ok = 0
        self.viol = {}         # key -> text
        self.undecided = {}
        self.counts = {}
        self.samples = []
        self.rules = {}
        self.technique = technique

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def rule(self, name, text):
        self.rules[name] = text

    def check(self, good, key, text, sample=None):
        """one obligation"""
        self.obl += 1
        if good:
            self.ok += 1
            if sample is not None and len(self.samples) < 8: self.samples.append(sample)
        else:
            self.viol.setdefault(key, text() if callable(text) else text)
        return good

    def skip(self, key, why):
        self.undecided.setdefault(key, str(why))

    def floor(self, n, what='decided obligations'):
        if self.obl < n:
            raise AnalysisBroken('%s: only %d %s, expected at least %d' % (self.pid, self.obl, what, n))

    def finish(self):
        kf = {}
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p):
            for e in json.load(open(p)).get('findings', []):
                if e['property'] == self.pid: kf[e['key']] = e
        new = {k: v for k, v in self.viol.items() if k not in kf}
        evd = os.path.join(VERIF, 'evidence')
        os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
        cov = {'explanation': self.technique, 'obligations': self.obl, 'discharged': self.ok,
               'rules': self.rules, 'counts': self.counts, 'samples': self.samples,
               'undecided': [{'site': k, 'reason': v} for k, v in sorted(self.undecided.items())][:200],
               'undecided_total': len(self.undecided),
               'known_findings_seen': sorted(k for k in self.viol if k in kf)}
        ev = {'property': self.pid, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': self.level, 'coverage': cov,
              'assumptions': ['the C++ front end (clang 18) resolves names and types as the build compiler does',
                              'floating point arithmetic is treated as exact real arithmetic; operand locations that are not declared aliased are distinct'],
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k in sorted(self.viol):
            if k in kf: print('KNOWN-FINDING: property=%s %s' % (self.pid, kf[k]['what']))
        print('%s: %d obligations, %d discharged, %d undecided sites, %s' % (self.pid, self.obl, self.ok, len(self.undecided),
              ', '.join('%s=%s' % x for x in sorted(self.counts.items()))))
        if new:
            rp = os.path.join(evd, 'replay', self.pid + '.txt')
            with open(rp, 'w') as f:
                for k, v in sorted(new.items()): f.write('[%s]\n%s\n\n' % (k, v))
            for k, v in sorted(new.items())[:40]:
                print('  %s: %s' % (k, v.replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0
