"""Shared plumbing: evidence, known findings, verdict lines."""
import json, os, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = os.cpu_count() or 4
T0 = time.time()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def known_findings(prop):
    """Entries of known_findings.json that are recorded (not fixed) for prop."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [e for e in json.load(open(path)).get('findings', []) if e['property'] == prop]


class Report:
    """Collects one check's results and ends the process with the verdict."""

    def __init__(self, prop):
        self.prop = prop
        self.violations = []   # (title, detail dict) confirmed on the real code
        self.known = []
        self.problems = []     # reasons why the run cannot answer
        self.coverage = {}
        self.assumptions = []
        self.level = 'model_checking'
        self.findings = known_findings(prop)

    def violation(self, title, detail):
        """A confirmed violation.  Known findings are matched by their exact key."""
        for f in self.findings:
            if f['key'] == title or (f.get('match') and all(str(detail.get(k)) == str(v) for k, v in f['match'].items())):
                if f['key'] not in [k['key'] for k in self.known]:
                    self.known.append(f)
                return
        self.violations.append((title, detail))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level,
            'coverage': self.coverage, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - T0, 2), 'violations': len(self.violations),
        }
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if self.violations:
            rdir = os.path.join(BUILD, 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.prop + '.json')
            with open(path, 'w') as f:
                json.dump([{'title': t, 'detail': d} for t, d in self.violations], f, indent=1, default=str)
            for t, d in self.violations[:5]:
                print('  %s' % t)
                for k, v in d.items():
                    print('      %s: %s' % (k, str(v)[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            sys.stdout.flush()
            os._exit(1)
        if self.problems:
            for p in self.problems:
                print('INCONCLUSIVE property=%s %s' % (self.prop, p))
            sys.stdout.flush()
            os._exit(2)
        c = self.coverage
        print('OK property=%s paths=%s solver_queries=%s replayed=%s wall=%.1fs' % (
            self.prop, c.get('states'), c.get('solver_queries'), c.get('traces_validated_against_impl'), time.time() - T0))
        sys.stdout.flush()
        os._exit(0)
