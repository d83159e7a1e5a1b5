"""Findings, counts and evidence of one check."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.counts = {}
        self.samples = {}
        self.viol = []
        self.undec = []
        self.lost = []
        self.floors = 0
        self.rules = []
        self.units = 0
        self.fns = set()

    def rule(self, text):
        self.rules.append(text)

    def ob(self, kind, where, ok=True):
        """one obligation looked at"""
        c = self.counts.setdefault(kind, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1
        sm = self.samples.setdefault(kind, [])
        if len(sm) < 12 and where not in sm:
            sm.append(where)

    def seen(self, fn):
        self.fns.add(fn['f'])

    def violate(self, where, rule, msg, key):
        """where: 'file:line'; key: stable identity of the construct (used by known findings)"""
        v = {'where': where, 'rule': rule, 'what': msg, 'key': key}
        if v not in self.viol:
            self.viol.append(v)

    def undecided(self, where, why):
        if (where, why) not in self.undec:
            self.undec.append((where, why))

    def lose(self, what):
        self.lost.append(what)

    def floor(self, kind, n):
        have = self.counts.get(kind, [0])[0]
        self.floors += n
        if have < n:
            self.lose('%d instances of "%s" found, at least %d expected' % (have, kind, n))

    def finish(self, assumptions=()):
        known = known_findings().get(self.prop, {})
        new, old = [], []
        for v in self.viol:
            (old if v['key'] in known else new).append(v)
        n = sum(c[0] for c in self.counts.values())
        cov = {
            'explanation': 'Static analysis of the current source: ' + ' '.join(self.rules),
            'units_parsed': self.units,
            'functions_analysed': len(self.fns),
            'obligations': n,
            'discharged': sum(c[1] for c in self.counts.values()),
            'by_kind': {k: {'checked': c[0], 'met': c[1]} for k, c in self.counts.items()},
            'instances': self.samples,
            'undecided': [{'where': w, 'why': y} for w, y in self.undec],
            'known_findings': old,
            'lost_anchors': self.lost,
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'other', 'coverage': cov, 'assumptions': list(assumptions),
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        d = VERIF + '/evidence'
        os.makedirs(d, exist_ok=True)
        with open('%s/%s.json' % (d, self.prop), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for v in old:
            print('KNOWN-FINDING: property=%s %s %s' % (self.prop, v['where'], v['what']))
        for k, c in self.counts.items():
            print('  %-60s %d checked, %d met' % (k, c[0], c[1]))
        for w, y in self.undec:
            print('  undecided %s: %s' % (w, y))
        if new:
            rp = '%s/%s.replay.txt' % (d, self.prop)
            with open(rp, 'w') as f:
                for v in new:
                    f.write('%s\n  rule: %s\n  %s\n  key: %s\n' % (v['where'], v['rule'], v['what'], v['key']))
            for v in new:
                print('%s: [%s] %s\n   key: %s' % (v['where'], v['rule'], v['what'], v['key']))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(rp, VERIF)))
            return 1
        if self.lost:
            for w in self.lost:
                print('ANCHOR LOST: ' + w)
            # part of what the rule hangs on is gone: undecided; most of it gone: no answer
            if n * 2 < self.floors or not n:
                return 2
        print('%s: held on everything analysed (%d obligations, %d functions)' % (self.prop, n, len(self.fns)))
        return 0


def known_findings():
    """known_findings.txt: lines 'known: property=<id> key=<key> -- text' and 'fixed: ...' (which suppress nothing)"""
    res = {}
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known: property='):
                rest = ln[len('known: property='):]
                pid, _, rest = rest.partition(' ')
                key = rest.partition('key=')[2].partition(' -- ')[0].strip()
                res.setdefault(pid, {})[key] = rest
    return res
