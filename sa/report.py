"""Collects obligations, decides the exit status, writes the evidence."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


def known_findings(prop):
    """{key: description} of recorded findings of a property"""
    out = {}
    try:
        with open(KNOWN, encoding='utf-8') as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith('finding: '):
                    continue
                head, _, rest = line[9:].partition(' :: ')
                fs = dict(x.split('=', 1) for x in head.split(' ', 1))
                if fs.get('property') == prop:
                    out[fs.get('key', '').strip()] = rest
    except FileNotFoundError:
        pass
    return out


class Report(object):

    def __init__(self, prop, rule, tier='quick', seed=1):
        self.prop = prop
        self.rule = rule
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.done = []          # (rule, what)
        self.bad = {}           # key -> detail
        self.undec = []         # (rule, what, why)
        self.counts = {}
        self.minimum = {}
        self.notes = []
        self.assumptions = []

    def ok(self, rule, what, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n
        self.done.append((rule, what))

    def violation(self, rule, where, detail):
        self.counts[rule] = self.counts.get(rule, 0) + 1
        key = '%s|%s' % (rule, where)
        self.bad.setdefault(key, []).append(detail)

    def undecided(self, rule, what, why):
        self.counts[rule] = self.counts.get(rule, 0) + 1
        self.undec.append((rule, what, why))

    def require(self, rule, n):
        """fewer than n obligations means the analysis lost its subject"""
        self.minimum[rule] = n

    def note(self, s):
        self.notes.append(s)

    def finish(self):
        known = known_findings(self.prop)
        new = {k: v for k, v in self.bad.items() if k not in known}
        for k in sorted(self.bad):
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop,
                                                         known[k]))
        lost = [r for r, n in sorted(self.minimum.items())
                if self.counts.get(r, 0) < n]
        evdir = os.environ.get('VERIF_EVIDENCE') or \
            os.path.join(ROOT, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        rules = sorted(self.counts)
        expl = ('%s Obligations per rule: %s. Violations: %d, known: %d, '
                'undecided (no alarm raised): %d.' % (
                    self.rule,
                    ', '.join('%s=%d' % (r, self.counts[r]) for r in rules),
                    len(new), len(self.bad) - len(new), len(self.undec)))
        cov = {
            'explanation': expl,
            'obligations': sum(self.counts.values()),
            'discharged': len(self.done),
            'by_rule': self.counts,
            'undecided': ['%s: %s: %s' % u for u in self.undec[:40]],
            'analysed': sorted(set('%s: %s' % d for d in self.done))[:400],
            'notes': self.notes[:60],
        }
        ev = {
            'property': self.prop,
            'tier': self.tier,
            'seed': self.seed,
            'level': 'other',
            'coverage': cov,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
            'assumptions': self.assumptions,
        }
        with open(os.path.join(evdir, '%s.json' % self.prop), 'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True, default=str)
            fh.write('\n')
        for u in self.undec[:20]:
            print('undecided: %s: %s: %s' % u)
        if new:
            rp = os.path.join(evdir, '%s.violation.txt' % self.prop)
            with open(rp, 'w', encoding='utf-8') as fh:
                for k in sorted(new):
                    fh.write(k + '\n')
                    for d in new[k][:5]:
                        fh.write('    %s\n' % (d,))
            for k in sorted(new)[:20]:
                print('%s: %s' % (k, str(new[k][0])[:400]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if lost:
            for r in lost:
                print('analysis lost its subject: rule %s has %d of at '
                      'least %d obligations' % (
                          r, self.counts.get(r, 0), self.minimum[r]))
            return 2
        print('property=%s held on %d obligations (%d undecided) in %.1fs'
              % (self.prop, sum(self.counts.values()), len(self.undec),
                 time.time() - self.t0))
        return 0
