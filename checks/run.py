#!/usr/bin/env python3
"""run.py PROPERTY [--thorough]: decide one property from /repo's current source. Exit 0 held, 1 violated, 2 no answer."""
import sys, os, time, json, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core
from core import AnalysisError

class Ctx:
    def __init__(self, pid, thorough):
        self.pid = pid; self.thorough = thorough
        self.viol = {}       # key -> text
        self.counts = {}
        self.samples = []
        self.notes = []
        self.assumptions = []
        self._F = None
    @property
    def F(self):
        if self._F is None: self._F = core.load()
        return self._F
    def load(self, tus):
        self._F = core.load(tus); return self._F
    def violation(self, key, file, line, text):
        """key: stable identity of the violating construct (no line numbers)"""
        if file: file = file.replace(core.REPO + '/', '')
        self.viol.setdefault(key, f'{file or "?"}:{line or "?"}: {text}')
    def count(self, name, k=1): self.counts[name] = self.counts.get(name, 0) + k
    def ok(self, instance):
        self.count('obligations_discharged')
        if len(self.samples) < 12: self.samples.append(instance)

def known():
    out = {}
    p = os.path.join(core.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                rest = l[len('finding: '):]
                prop, key, text = rest.split(' | ', 2)
                out[(prop.split('=')[1], key.split('=', 1)[1])] = text
    return out

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    thorough = '--thorough' in sys.argv
    if not args: print('usage: run.py PROPERTY [--thorough]'); return 2
    pid = args[0]
    import registry
    t0 = time.time()
    c = Ctx(pid, thorough)
    spec = registry.CHECKS.get(pid)
    if spec is None:
        print(f'{pid}: no check'); return 2
    err = None
    try:
        mod = __import__(spec['module'])
        getattr(mod, spec.get('func', 'check_' + pid))(c)
        n_ob = c.counts.get('obligations_discharged', 0) + len(c.viol)
        if n_ob < spec.get('min_obligations', 1):
            raise AnalysisError(f'only {n_ob} obligations found, at least {spec.get("min_obligations", 1)} expected: the rule matched nothing')
    except AnalysisError as e:
        err = f'{type(e).__name__}: {e}'
    except RecursionError as e:
        err = 'RecursionError'
    except Exception as e:
        err = traceback.format_exc()
    kn = known()
    real = {}
    for k, t in c.viol.items():
        if (pid, k) in kn: print(f'KNOWN-FINDING: property={pid} {t}  [{k}]')
        else: real[k] = t
    d = os.path.join(core.VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
    replay = os.path.join(d, f'{pid}.violations.txt')
    if real:
        with open(replay, 'w') as f:
            for k, t in sorted(real.items()): f.write(f'{t}\n  rule instance: {k}\n')
    elif os.path.exists(replay): os.remove(replay)
    cov = dict(c.counts)
    cov['explanation'] = spec['note'] + (' Notes: ' + ' '.join(c.notes) if c.notes else '')
    cov['technique'] = spec['technique']
    cov['samples'] = c.samples or ['-']
    if c._F: cov['functions_in_facts'] = len(c._F.fn); cov['translation_units'] = len(c._F.tus)
    if err: cov['analysis_error'] = err[-1500:]
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=spec.get('level', 'other'),
              coverage=cov, assumptions=spec.get('assumptions', []) + c.assumptions, wall_s=round(time.time() - t0, 2), violations=len(real))
    json.dump(ev, open(os.path.join(d, pid + '.json'), 'w'), indent=1)
    for k, t in sorted(real.items()):
        print(f'{t}  [{k}]')
    if real:
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    if err:
        print(f'{pid}: analysis gives no answer: {err}')
        return 2
    print(f'{pid}: held; {c.counts} in {ev["wall_s"]} s')
    return 0
if __name__ == '__main__':
    sys.exit(main())
