"""Violations, known findings, evidence."""
import json, os, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.viol = []      # dicts
        self.counts = {}    # what was analysed
        self.notes = []
        self.functions = set()
        self.samples = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def analysed(self, func):
        self.functions.add(func['id'] if isinstance(func, dict) else func)

    def violate(self, rule, key, loc, msg):
        """key: stable identity of the failing construct (no line numbers)"""
        for v in self.viol:
            if v['rule'] == rule and v['key'] == key:
                return
        self.viol.append({'rule': rule, 'key': key, 'file': loc[0] if loc else '', 'line': loc[1] if loc else 0, 'msg': msg})

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def known(self):
        out = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('known: property=%s ' % self.prop):
                    key = line.split(' key=', 1)[1].split(' :: ')[0].strip()
                    out[key] = line.split(' :: ', 1)[1] if ' :: ' in line else ''
        return out

    def new(self):
        known = self.known()
        return [v for v in self.viol if v['rule'] + '/' + v['key'] not in known]

    def finish(self, tier, seed, level, rules, assumptions, db):
        known = self.known()
        new, old = [], []
        for v in self.viol:
            k = v['rule'] + '/' + v['key']
            (old if k in known else new).append(v)
        for v in old:
            print('KNOWN-FINDING: property=%s %s (%s:%s) %s' % (self.prop, v['rule'] + '/' + v['key'], v['file'], v['line'], known[v['rule'] + '/' + v['key']]))
        replay = ''
        if new:
            od = os.path.join(VERIF, 'out')
            os.makedirs(od, exist_ok=True)
            replay = os.path.join(od, self.prop + '.violation.json')
            json.dump(new, open(replay, 'w'), indent=1)
            for v in new:
                print('%s:%s: [%s] %s' % (v['file'], v['line'], v['rule'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
        ev = {
            'property': self.prop, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': {
                'explanation': 'Static analysis of the current source: ' + '; '.join('%s=%d' % kv for kv in sorted(self.counts.items())),
                'analysed': self.counts,
                'functions_analysed': len(self.functions),
                'translation_units': len(db.tus) if db else 0,
                'rules': rules,
                'samples': self.samples,
            },
            'violations': len(new),
            'known_findings': [v['rule'] + '/' + v['key'] for v in old],
            'assumptions': assumptions,
            'wall_s': round(time.time() - self.t0, 3),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        return 1 if new else 0
