"""Collects obligations and violations of one check, writes evidence and the report."""
import json, os, time
from build import VERIF


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = []            # (key, text)
        self.obl = 0
        self.rules = {}           # rule -> [obligations, discharged]
        self.samples = []
        self.analysed = {}
        self.assume = []
        self.level = 'other'
        self.explanation = ''
        self.seen = set()
        self.open = []

    def ok(self, rule, what=None):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        r[1] += 1
        if what and len(self.samples) < 60 and (rule, what) not in self.seen:
            self.seen.add((rule, what))
            self.samples.append('%s: %s' % (rule, what))

    def bad(self, rule, where, text, key=None):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        k = key or '%s|%s' % (rule, where)
        if k not in [v[0] for v in self.viol]:
            self.viol.append((k, '%s: %s: %s' % (where, rule, text)))

    def check(self, cond, rule, where, text, what=None):
        if cond:
            self.ok(rule, what or where)
        else:
            self.bad(rule, where, text)
        return cond

    def need(self, rule, n):
        """at least n instances of a rule, else the analysis has lost its footing"""
        from build import Broken
        got = self.rules.get(rule, [0, 0])[0]
        if got < n:
            raise Broken('rule %r matched %d instances, expected at least %d' % (rule, got, n))

    def undecided(self, what, why):
        self.open.append('%s: %s' % (what, why))

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def known(self):
        out = {}
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('known: '):
                    f = l[7:].split(' ', 2)
                    if f[0] == 'property=' + self.prop:
                        out[f[1][4:]] = f[2] if len(f) > 2 else ''
        return out

    def finish(self):
        known = self.known()
        real = [v for v in self.viol if v[0].replace(' ', '_') not in known]
        for k, text in self.viol:
            if k.replace(' ', '_') in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        obl = sum(r[0] for r in self.rules.values())
        dis = sum(r[1] for r in self.rules.values())
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level,
            'coverage': {
                'explanation': self.explanation, 'obligations': obl, 'discharged': dis,
                'rules': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in sorted(self.rules.items())},
                'analysed': self.analysed, 'undecided': self.open, 'samples': self.samples[:60],
            },
            'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(real),
        }
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join('evidence', self.prop + '.report.txt')
        with open(os.path.join(VERIF, rp), 'w') as f:
            for k, t in self.viol:
                f.write('%s\n    [%s]\n' % (t, k))
        print('%s: %d obligations, %d discharged (%.1fs)' % (self.prop, obl, dis, time.time() - self.t0))
        for t in self.open[:20]:
            print('UNDECIDED %s' % t[:300])
        if real:
            for k, t in real[:25]:
                print('  ' + t)
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0
