"""Obligations, violations, known findings, evidence."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Only:
    """a report that keeps, of failed obligations, those whose key contains one of some aspects; others belong to other properties"""

    def __init__(self, rep, aspects):
        self._r, self._a = rep, aspects

    def __getattr__(self, k):
        return getattr(self._r, k)

    def __setattr__(self, k, v):
        if k in ('_r', '_a'):
            object.__setattr__(self, k, v)
        else:
            setattr(self._r, k, v)

    def _mine(self, key):
        return any(a in key for a in self._a)

    def oblige(self, key, ok, text='', where=''):
        if ok or self._mine(key):
            return self._r.oblige(key, ok, text, where)

    def undecided(self, key, why):
        if self._mine(key):
            self._r.undecided(key, why)


def known_findings():
    """{(property, key): text} of open findings in known_findings.txt"""
    r = {}
    f = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                r[(d['property'], d['key'])] = d['what']
    return r


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.n = 0
        self.ok = 0
        self.viol = []          # (key, text, where)
        self.seen = set()
        self.functions = set()
        self.paths = 0
        self.sites = 0
        self.samples = []
        self.rule = ''
        self.assumptions = []
        self.floors = []
        self.extra = {}
        self.keys = set()
        self.und = {}

    def oblige(self, key, ok, text='', where=''):
        """one proof obligation; key is stable and line-number free"""
        self.n += 1
        self.keys.add(key.split('|')[0])
        if ok:
            self.ok += 1
            if len(self.samples) < 12 and (self.n % 37 == 1):
                self.samples.append(key)
        else:
            if key not in self.seen:
                self.seen.add(key)
                self.viol.append((key, text, where))
        return ok

    def undecided(self, key, why):
        """the two normal forms differ but no point separates them, or a path could not be followed"""
        self.n += 1
        self.und.setdefault(key, str(why)[:200])

    def floor(self, what, have, want):
        self.floors.append({'what': what, 'have': have, 'floor': want})
        if have < want:
            t = 'only %s %s analysed, at least %s expected' % (have, what, want)
            if self.und:
                # explained by constructs the analysis could not follow: no verdict, no alarm
                self.undecided('floor:' + what, t)
            else:
                self.oblige('floor:' + what, False, t + ': the anchor of this check is gone')

    def finish(self):
        kf = known_findings()
        new = []
        known = []
        for v in self.viol:
            w = kf.get((self.pid, v[0]))
            (known if w else new).append(v + (w,))
        rp = os.path.join(VERIF, 'replay')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, self.pid + '.txt')
        with open(path, 'w') as f:
            for key, text, where, w in new:
                f.write('%s\n  at %s\n  %s\n\n' % (key, where or '-', text))
        for key, text, where, w in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        for key, text, where, w in new[:8]:
            print('%s at %s: %s' % (key, where or '-', text[:600]))
        if len(new) > 8:
            print('... and %d more, see %s' % (len(new) - 8, path))
        ev = {
            'property': self.pid,
            'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'obligations': self.n,
                'obligations_met': self.ok,
                'distinct_obligation_keys': len(self.keys),
                'paths_summarised': self.paths,
                'functions_analysed': len(self.functions),
                'functions': sorted(x for x in self.functions if 'carron::' in x)[:120],
                'floors': self.floors,
                'undecided': len(self.und),
                'undecided_list': ['%s: %s' % x for x in list(self.und.items())[:40]],
                'known_findings': [k[0] for k in known],
                'samples': self.samples,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        ev['coverage'].update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        for k, w in list(self.und.items())[:4]:
            print('undecided %s: %s' % (k, w))
        print(('OK' if self.ok else 'UNDECIDED') + ' %s: %d obligations (%d undecided) over %d paths in %d functions, %.1f s' % (self.pid, self.n, len(self.und), self.paths, len(self.functions), time.time() - self.t0))
        return 0
