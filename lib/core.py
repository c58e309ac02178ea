"""Reporting: evidence, violations, known findings."""
import hashlib, json, os, sys, time, traceback
from . import build

EVID = os.path.join(build.VERIF, 'evidence')
KNOWN = os.path.join(build.VERIF, 'known-findings.txt')
MAX_SHOWN = 5


def known_findings(prop):
    """lines `finding: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing"""
    res = {}
    try:
        with open(KNOWN) as fh:
            for l in fh:
                if l.startswith('finding: property=%s ' % prop):
                    rest = l.split(' ', 2)[2].strip()
                    key, _, what = rest.partition(' ')
                    res[key.removeprefix('key=')] = what
    except FileNotFoundError:
        pass
    return res


class Ctx:
    def __init__(self, prop, tier, seed, level):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.viol = {}
        self.nviol = 0
        self.known = known_findings(prop)
        self.seen_known = {}
        self.notes = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def violation(self, desc, replay, key=None):
        """key identifies the failing input for the known-findings file"""
        if key is None:
            key = hashlib.sha256(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:16]
        if key in self.known:
            self.seen_known[key] = self.known[key]
            return
        self.nviol += 1
        if key in self.viol or len(self.viol) >= MAX_SHOWN:
            return
        self.viol[key] = (desc, replay)

    def finish(self):
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        for k, what in self.known.items():
            if k in self.seen_known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        paths = []
        for i, (key, (desc, replay)) in enumerate(self.viol.items()):
            p = os.path.join(EVID, 'replay', '%s-%d.json' % (self.prop, i + 1))
            with open(p, 'w') as fh:
                json.dump({'property': self.prop, 'key': key, 'what': desc, 'replay': replay}, fh, indent=1, default=str)
            paths.append(p)
            print('--- %s: %s' % (self.prop, desc[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(p, build.VERIF)))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': dict(self.cov, samples=self.samples or ['none']), 'wall_s': round(time.time() - self.t0, 2),
              'assumptions': self.assumptions, 'violations': self.nviol}
        tmp = os.path.join(EVID, '%s.json.tmp' % self.prop)
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.rename(tmp, os.path.join(EVID, self.prop + '.json'))
        short = {k: v for k, v in self.cov.items() if isinstance(v, (int, float))}
        print('%s %s: %s, %d violations, %.1f s' % (self.prop, self.tier, ', '.join('%s=%s' % x for x in short.items()), self.nviol, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.viol else 0
