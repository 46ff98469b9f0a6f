"""Concrete reading of the contracts: the real code, real numpy and shapely, in the repository's interpreter.
Used to replay counter-models, to search for failing inputs, and to cross-check the shims."""
import contextlib
import hashlib
import importlib
import io
import json
import math
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np                                             # noqa: E402
from pydv import prop                                          # noqa: E402
from pydv.prop import holds                                    # noqa: E402
from pydv.errors import Skip, OutOfReach                       # noqa: E402

NICE = [0., 1., -1., 2., -2., 3., -3., .5, -.5, 4., -4., 1.5, -1.5, .25, 5., -5., 10., -10.]
ANG = [0., math.pi / 2, math.pi, -math.pi / 2, math.pi / 4, -math.pi / 4, 3 * math.pi / 4, math.pi / 6, 2 * math.pi, 1., -1.]


class Failed(Exception):
    pass


class Timeout(BaseException):
    pass


class ConcreteH:
    sym = False
    eq, ne, le, lt, ge, gt = map(staticmethod, (prop.eq, prop.ne, prop.le, prop.lt, prop.ge, prop.gt))
    and_, or_, not_, imp, iff, eqv = map(staticmethod, (prop.and_, prop.or_, prop.not_, prop.imp, prop.iff, prop.eqv))
    T, F = prop.T, prop.F

    def __init__(self, assignment=None, rng=None):
        self.given = assignment or {}
        self.rng = rng or random.Random(0)
        self.inputs = {}
        self.counter = {}
        self.checks = 0
        self.failures = []
        self.style = self.rng.choice(['nice', 'mixed', 'mixed', 'generic', 'generic', 'tiny', 'big'])
        self.notes = {}

    def _name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def mod(self, name):
        return importlib.import_module(name)

    def _draw(self):
        r, s = self.rng, self.style
        u = r.random()
        if s == 'nice' or s == 'mixed' and u < .5:
            return r.choice(NICE)
        if s == 'tiny' and u < .5:
            return r.gauss(0, .02)
        if s == 'big' and u < .5:
            return r.gauss(0, 50)
        return r.gauss(0, 3)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, gen=None):
        n = self._name(name)
        v = self.given.get(n)
        if v is None:
            for _ in range(50):
                v = gen(self.rng) if gen else self._draw()
                if pos or nonneg:
                    v = abs(v)
                if pos and v < 1e-3 and not gen:
                    continue
                if lo is not None and hi is not None and not gen and not (lo <= v <= hi):
                    v = self.rng.choice([lo, hi, self.rng.uniform(lo, hi), self.rng.uniform(lo, hi), self.rng.uniform(lo, hi)])
                if lo is not None and v < lo or hi is not None and v > hi:
                    if lo is not None and hi is None:
                        v = lo + abs(v)
                    elif hi is not None and lo is None:
                        v = hi - abs(v)
                    else:
                        continue
                break
        v = float(v)
        if pos and not v > 0 or nonneg and not v >= 0 or lo is not None and v < lo or hi is not None and v > hi:
            raise Skip()
        self.inputs[n] = v
        return v

    def angle(self, name, lo=None, hi=None, **k):
        def g(r):
            return r.choice(ANG) if r.random() < .4 else r.uniform(-4, 4)
        return self.real(name, lo=lo, hi=hi, gen=g)

    def int(self, name, lo=None, hi=None):
        n = self._name(name)
        v = self.given.get(n)
        if v is None:
            a = lo if lo is not None else (hi - 8 if hi is not None else -4)
            b = hi if hi is not None else a + 8
            v = self.rng.randint(a, b)
        v = int(v)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip()
        self.inputs[n] = v
        return v

    def vec(self, name, gen=None):
        if gen is not None:
            p = None

            def g(i):
                def f(r):
                    nonlocal p
                    if p is None:
                        p = gen(r)
                    return p[i]
                return f
            return np.array([self.real(name + '.x', gen=g(0)), self.real(name + '.y', gen=g(1))])
        return np.array([self.real(name + '.x'), self.real(name + '.y')])

    def arr(self, *xs):
        return np.array(list(xs), dtype=float)

    def choose(self, name, options):
        n = '?' + self._name(name)
        k = self.given.get(n)
        if k is None:
            k = self.rng.randrange(len(options))
        k = int(k) % len(options)
        self.inputs[n] = k
        return options[k]

    def data(self, name, gen):
        """concrete-only structured input (JSON-able)"""
        n = '$' + self._name(name)
        v = self.given.get(n)
        if v is None:
            v = gen(self.rng)
        self.inputs[n] = v
        return v

    def assume(self, p):
        if not holds(p, lenient=False):
            raise Skip()

    def check(self, name, p, kind='post'):
        self.checks += 1
        if not holds(p):
            self.failures.append((name, repr(p)[:300]))
            raise Failed(name)

    def lemma(self, name, p):
        self.check(name, p)

    def by(self, name, goal, facts, abstract=(), assume=True):
        self.check(name, goal)

    def decide(self, p):
        return holds(p, lenient=False, tol=0.)

    def cos(self, a): return math.cos(a)
    def sin(self, a): return math.sin(a)
    def sqrt(self, a): return math.sqrt(a) if a > 0 else 0.
    def abs(self, a): return abs(a)
    def ite(self, c, a, b): return a if holds(c, lenient=False, tol=0.) else b
    def min(self, *a): return min(a)
    def max(self, *a): return max(a)
    def div(self, a, b): return a / b
    def frac(self, a, b): return a / b
    pi = math.pi
    def use(self, *a, **k): pass
    def loops(self, *a, **k): pass
    def note(self, *a): pass
    def unroll(self, n): pass
    def reached(self): pass
    def inst(self, *ks): pass
    def inst2(self, *ks): pass
    def same_angles(self): pass
    def open_draws(self): pass

    def seq(self, n, at, is_list=True):
        r = [at(k) for k in range(n)]
        return r if is_list else np.array(r)

    def rows(self, name, n):
        return np.array([self.vec('%s[%d]' % (name, k)) for k in range(n)]).reshape(-1, 2)

    def reals(self, name, n, fact=None):
        r = np.array([self.real('%s[%d]' % (name, k)) for k in range(n)])
        if fact:
            for k in range(n):
                self.assume(fact(k, r[k]))
        return r

    def raises(self, f, *exc):
        try:
            f()
        except exc:
            return True
        return False

    # adversarial randomness: every draw anywhere in its range, extremes included
    @contextlib.contextmanager
    def random_outcomes(self):
        H = self
        old = {k: getattr(np.random, k) for k in ('uniform', 'rand', 'normal', 'randint', 'random', 'random_sample')}
        mode = H.rng.choice(['uniform', 'uniform', 'edges', 'mixed', 'same'])
        same = H.rng.random()

        def u01(lo, hi, name='rnd'):
            def g(r):
                if mode == 'same':
                    x = same
                elif mode == 'edges' or mode == 'mixed' and r.random() < .5:
                    x = r.choice([0., 0., 1 - 2 ** -53, .5])
                else:
                    x = r.random()
                return lo + (hi - lo) * x
            n = H._name(name)
            v = H.given.get(n)
            v = float(g(H.rng) if v is None else v)
            H.inputs[n] = v
            return v

        def many(f, size):
            if size is None or size == ():
                return f()
            a = np.empty(size)
            for i in np.ndindex(*a.shape):
                a[i] = f()
            return a
        np.random.uniform = lambda low=0., high=1., size=None: many(lambda: u01(low, high), size)
        np.random.rand = lambda *n: many(lambda: u01(0, 1), n)
        np.random.random = np.random.random_sample = lambda size=None: many(lambda: u01(0, 1), size)

        def normal(loc=0., scale=1., size=None):
            if scale < 0:
                raise ValueError('scale < 0')

            def f():
                n = H._name('normal')
                v = H.given.get(n)
                v = float(v) if v is not None else (loc + scale * H.rng.choice([0., H.rng.gauss(0, 1), 8., -8., H.rng.gauss(0, 4)]))
                H.inputs[n] = v
                return v
            return many(f, size)
        np.random.normal = normal

        def randint(low, high=None, size=None, **k):
            lo, hi = (0, low) if high is None else (low, high)

            def f():
                n = H._name('randint')
                v = H.given.get(n)
                v = int(v) if v is not None and lo <= int(v) < hi else H.rng.randrange(lo, hi)
                H.inputs[n] = v
                return v
            if size is None:
                return f()
            return many(f, size).astype(int)
        np.random.randint = randint
        try:
            yield
        finally:
            for k, v in old.items():
                setattr(np.random, k, v)


def _alarm(*_):
    raise Timeout()


def run_once(unit, assignment, rng, seconds=20.):
    """-> (status, H, message): ok / skip / fail"""
    H = ConcreteH(assignment, rng)
    seed = int((assignment or {}).get('_seed', rng.randrange(2 ** 31)))
    H.inputs['_seed'] = seed
    H.aux = random.Random(seed)              # further draws, replayed with the seed
    np.random.seed(seed)
    random.seed(seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            unit.f(H)
        return 'ok', H, ''
    except Skip:
        return 'skip', H, ''
    except Failed as e:
        return 'fail', H, str(e)
    except Timeout:
        return 'fail', H, 'does not terminate within %g s' % seconds
    except OutOfReach as e:
        return 'skip', H, str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        rep = [f for f in tb if f.filename.startswith(REPO + '/')]
        where = '%s:%d' % (os.path.relpath(rep[-1].filename, REPO), rep[-1].lineno) if rep else 'contract'
        return 'fail' if rep else 'error', H, 'exception %s: %s at %s%s' % (
            type(e).__name__, str(e)[:200], where, '' if rep else '\n' + ''.join(traceback.format_exception(e))[-800:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    job = json.load(open(sys.argv[1]))
    from pydv import contract
    import contracts
    contracts.load(job['pid'])
    units = {u.key: u for u in contract.UNITS[job['pid']]}
    out = {'units': {}}
    import warnings
    warnings.simplefilter('ignore')
    for t in job['tasks']:
        u = units[t['unit']]
        r = out['units'].setdefault(t['unit'], {'evaluations': 0, 'skipped': 0, 'distinct': 0, 'failures': [],
                                                'errors': [], 'samples': []})
        seen = set()
        if t.get('assign') is not None:
            for a in t['assign']:
                st, H, msg = run_once(u, a, random.Random(1))
                r['evaluations' if st in ('ok', 'fail') else 'skipped'] += 1
                if st == 'fail':
                    r['failures'].append({'inputs': H.inputs, 'message': msg, 'detail': H.failures})
                if st == 'error':
                    r['errors'].append(msg)
            continue
        t0 = time.time()
        i = 0
        while i < t['trials'] and time.time() - t0 < t['seconds']:
            rng = random.Random('%s/%s/%d' % (job['seed'], t['unit'], i))
            i += 1
            st, H, msg = run_once(u, None, rng)
            if st == 'skip':
                r['skipped'] += 1
                continue
            if st == 'error':
                r['errors'].append(msg)
                if len(r['errors']) > 3:
                    break
                continue
            r['evaluations'] += 1
            h = hashlib.md5(json.dumps({k: v for k, v in H.inputs.items() if k != '_seed'}, sort_keys=True, default=str).encode()).hexdigest()
            if h not in seen:
                seen.add(h)
                r['distinct'] += 1
            if len(r['samples']) < 2:
                r['samples'].append(H.inputs)
            if st == 'fail':
                st2, H2, msg2 = run_once(u, H.inputs, random.Random(1))
                if st2 == 'fail':
                    r['failures'].append({'inputs': H.inputs, 'message': msg, 'detail': H.failures})
                    if len(r['failures']) >= t.get('max_failures', 1):
                        break
                else:
                    r['failures'].append({'inputs': H.inputs, 'message': msg + ' (not reproduced: %s)' % msg2,
                                          'detail': H.failures, 'flaky': True})
    json.dump(out, open(sys.argv[2], 'w'), default=str)


if __name__ == '__main__':
    main()
