"""Runtime contracts on the real code: the stated properties evaluated on the
functions of /repo for generated inputs.  Used to replay what the verifier
refutes, and as the bounded stand-in for functions outside its reach."""
import os
import sys
import traceback
import warnings
warnings.simplefilter('ignore')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
REPO = os.environ.get('VP_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import numpy as np  # noqa: E402

CASES = {}


class Broken(Exception):
    """a contract of the property does not hold"""


class Undecided(Exception):
    """the harness cannot drive the code (renamed internals etc.)"""


class Case(object):
    def __init__(self, pid, name, fn, n, thorough, timeout, key):
        self.pid, self.name, self.fn, self.n, self.thorough = pid, name, fn, n, thorough
        self.timeout, self.key = timeout, key


def case(pid, name, n=20, thorough=None, timeout=240, key=None):
    def deco(fn):
        CASES.setdefault(pid, []).append(Case(pid, name, fn, n, thorough or n * 8, timeout, key))
        return fn
    return deco


class Gen(object):
    def __init__(self, seed, it):
        self.seed, self.it = seed, it
        self.r = np.random.default_rng([seed, it, 77])
        self.log = {}

    def int(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))

    def choice(self, xs):
        return xs[int(self.r.integers(0, len(xs)))]

    def flag(self, p=0.5):
        return bool(self.r.random() < p)

    def normal(self, *shape):
        return self.r.standard_normal(shape)

    def uniform(self, lo, hi, *shape):
        return self.r.uniform(lo, hi, shape) if shape else float(self.r.uniform(lo, hi))

    def points(self, n=None, d=2, scale=20.0, offset=40.0):
        n = n or self.int(3, 9)
        return self.r.standard_normal((n, d)) * scale + offset


def need(cond, msg, **kw):
    if not bool(cond):
        raise Broken(msg + ('' if not kw else ' ' + ', '.join('%s=%s' % (k, _s(v)) for k, v in kw.items())))


def _s(v):
    t = np.array2string(v, threshold=12, precision=6) if isinstance(v, np.ndarray) else repr(v)
    return t[:300]


def close(a, b, tol=1e-8, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(np.nan_to_num(a, nan=1.5e300), np.nan_to_num(b, nan=1.5e300)))
    s = scale if scale is not None else max(1.0, float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= tol * s)


def need_close(a, b, msg, tol=1e-8, scale=None):
    if not close(a, b, tol, scale):
        a_, b_ = np.asarray(a, float), np.asarray(b, float)
        d = 'shapes %s vs %s' % (a_.shape, b_.shape) if a_.shape != b_.shape else \
            'max difference %g' % (np.max(np.abs(a_ - b_)) if a_.size else 0)
        raise Broken('%s: %s; got %s expected %s' % (msg, d, _s(a_), _s(b_)))


def raises(exc, f, msg):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Broken('%s: raised %s(%s) instead of %s' % (msg, type(e).__name__, e, _n(exc)))
    raise Broken('%s: returned %s instead of raising %s' % (msg, _s(r), _n(exc)))


def _n(exc):
    return exc.__name__ if isinstance(exc, type) else '/'.join(e.__name__ for e in exc)


def in_repo(tb):
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(REPO + os.sep):
            return True
    return False


def run_iter(c, seed, it):
    """-> (status, message): ok | broken | undecided"""
    import random
    g = Gen(seed, it)
    np.random.seed((seed * 1000003 + it) % (2 ** 32 - 1))
    random.seed(seed * 1000003 + it)
    try:
        c.fn(g)
        return 'ok', ''
    except Broken as e:
        return 'broken', str(e)[:1500]
    except Undecided as e:
        return 'undecided', str(e)[:500]
    except Exception as e:
        tb = sys.exc_info()[2]
        txt = ''.join(traceback.format_exception(type(e), e, tb))[-1800:]
        if in_repo(tb) and not _harness_api(e, tb):
            return 'broken', 'the code raised %s: %s\n%s' % (type(e).__name__, str(e)[:300], txt)
        return 'undecided', txt


def _harness_api(e, tb):
    """a call from the harness whose signature or attribute does not exist any more"""
    fr = traceback.extract_tb(tb)
    last = os.path.abspath(fr[-1].filename)
    return not last.startswith(REPO + os.sep) and isinstance(e, (AttributeError, ImportError)) and \
        last.startswith('/verif')


def run_case(c, seed, tier):
    n = c.n if tier == 'quick' else c.thorough
    done = 0
    out = dict(case=c.name, iterations=0, status='ok', message='', it=None, key=c.key)
    for it in range(n):
        st, msg = run_iter(c, seed, it)
        done += 1
        if st == 'broken':
            out.update(status='broken', message=msg, it=it)
            break
        if st == 'undecided':
            out.update(status='undecided', message=msg, it=it)
            break
    out['iterations'] = done
    return out
