"""Verdicts, known findings and evidence."""
import json, os, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Report:
    def __init__(self, pid, technique):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.viol = {}       # key -> text
        self.obl = {}        # key -> 'discharged' | 'residual' | 'violated' | 'not analysed'
        self.how = {}
        self.cov = {'technique': technique}
        self.assume = []

    def ok(self, key, how=''):
        self.obl[key] = 'discharged'
        if how:
            self.how[key] = how

    def agreed(self, key, how=''):
        """value number and specification equal under every valuation tried"""
        if self.obl.get(key) == 'violated':
            return
        self.obl[key] = 'agreed'
        if how:
            self.how[key] = how

    def count(self, what, n):
        c = self.cov.setdefault('counts', {})
        c[what] = c.get(what, 0) + n

    def residual(self, key, why):
        """neither proved nor refuted: recorded, silent"""
        if self.obl.get(key) == 'violated':
            return
        self.obl[key] = 'residual'
        self.how[key] = why

    def bad(self, key, text):
        self.obl[key] = 'violated'
        if key not in self.viol:
            self.viol[key] = text

    def floor(self, what, n, least):
        """a rule that matches too few instances proves nothing"""
        self.cov.setdefault('floors', {})[what] = {'found': n, 'least': least}
        if n < least:
            self.bad('floor:' + what, 'only %d %s found where at least %d are known to exist: the rule no longer sees its instances' % (n, what, least))

    def finish(self):
        known = []
        p = os.path.join(VERIF, 'known-findings.jsonl')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('{'):
                    d = json.loads(l)
                    if d.get('property') == self.pid and d.get('status') == 'known':
                        known.append(d)
        new = {}
        seen = []
        for k, t in sorted(self.viol.items()):
            m = [d for d in known if d['key'] == k]
            if m:
                seen.append(m[0])
            else:
                new[k] = t
        for d in seen:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, d['what']))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        out = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
        if new:
            with open(out, 'w') as f:
                for k, t in new.items():
                    f.write('[%s] %s\n%s\n\n' % (self.pid, k, t))
        elif os.path.exists(out):
            os.unlink(out)
        n = {}
        for v in self.obl.values():
            n[v] = n.get(v, 0) + 1
        cov = dict(self.cov)
        cov['obligations'] = len(self.obl)
        cov['discharged'] = n.get('discharged', 0)
        cov['agreed_under_valuations'] = n.get('agreed', 0)
        cov['residual'] = n.get('residual', 0)
        cov['violated'] = n.get('violated', 0)
        cov.setdefault('explanation', '')
        cov['residual_obligations'] = {k: self.how.get(k, '') for k, v in sorted(self.obl.items()) if v == 'residual'}
        cov['samples'] = [k + (': ' + self.how[k] if k in self.how else '') for k, v in sorted(self.obl.items()) if v in ('discharged', 'agreed')][:12]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        print('%s: %d obligations, %d discharged, %d agreed, %d residual, %d violated (%.1fs)' % (self.pid, len(self.obl), n.get('discharged', 0), n.get('agreed', 0), n.get('residual', 0), len(new), time.time() - self.t0))
        for k, t in new.items():
            print('  %s: %s' % (k, t.splitlines()[0][:400]))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.pid, out))
            return 1
        return 0
