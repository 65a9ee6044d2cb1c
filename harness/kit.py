"""Recorder kit: runs the code under test and turns results into trace events.

Everything in here projects observed values to integers; it does not judge them.
"""
import concurrent.futures as cf
import contextlib
import importlib
import io
import json
import math
import os
import signal
import sys
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

NA = -2000000000
BIG = 2000000000
LIM = 1900000000
SCEN_TIMEOUT = int(os.environ.get('VERIF_SCEN_TIMEOUT', '120'))


class Timeout(Exception):
    pass


def q(x, scale=1):
    """one value as a scaled integer"""
    if x is None:
        return NA
    try:
        x = float(x)
    except (TypeError, ValueError):
        return BIG
    if math.isnan(x):
        return NA
    x = x * scale
    if math.isinf(x) or abs(x) > LIM:
        return BIG if x > 0 else -BIG
    return int(round(x))


def qs(seq, scale=1):
    """a sequence of values as scaled integers"""
    a = np.asarray(seq, dtype=float).ravel() * scale
    na = np.isnan(a)
    hi = a > LIM
    lo = a < -LIM
    a = np.where(na | hi | lo, 0, a)
    r = np.rint(a).astype(np.int64)
    r[na] = NA
    r[hi] = BIG
    r[lo] = -BIG
    return [int(v) for v in r]


def call(f, *args, **kw):
    """run code under test; returns (result, exception name or '')"""
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return f(*args, **kw), ''
    except Timeout:
        raise
    except Exception as e:  # the spec decides whether it may fail
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        return None, type(e).__name__


class Draws:
    """replaces the uniform random numbers of numpy by a chosen sequence"""

    NAMES = ('random', 'rand', 'random_sample', 'uniform', 'ranf', 'sample')

    def __init__(self, values):
        self.values = list(values)
        self.i = 0

    def one(self):
        v = self.values[self.i % len(self.values)]
        self.i += 1
        return v

    def arr(self, size):
        if size is None:
            return self.one()
        n = int(np.prod(size))
        return np.array([self.one() for _ in range(n)]).reshape(size)

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in self.NAMES if hasattr(np.random, n)}
        np.random.random = lambda size=None: self.arr(size)
        np.random.random_sample = lambda size=None: self.arr(size)
        np.random.ranf = lambda size=None: self.arr(size)
        np.random.sample = lambda size=None: self.arr(size)
        np.random.rand = lambda *s: self.arr(s if s else None)
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * self.arr(size)
        return self

    def __exit__(self, *exc):
        for n, f in self.old.items():
            setattr(np.random, n, f)


def _alarm(signum, frame):
    raise Timeout()


def _run_one(job):
    modname, idx, name, func, args = job
    mod = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(SCEN_TIMEOUT)
    cov = os.environ.get('VERIF_COV')
    if cov:
        import cover

        cover.start(REPO)
    np.random.seed((idx * 7919 + 13) % (2**32))
    try:
        tr = getattr(mod, func)(**args)
    except Timeout:
        tr = {'ev': [{'op': 'crash', 'exc': 'Timeout', 'where': name}]}
    except Exception as e:
        # the recorder could not make sense of what the code returned
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        tr = {'ev': [{'op': 'crash', 'exc': type(e).__name__, 'where': traceback.format_exc()[-600:]}]}
    finally:
        signal.alarm(0)
        if cov:
            cover.save(cov)
    if isinstance(tr, list):
        tr = {'ev': tr}
    tr['name'] = name
    return tr


def main():
    modname, tier, seed, out = sys.argv[1:5]
    mod = importlib.import_module(modname)
    import melodist

    assert os.path.realpath(melodist.__file__).startswith(os.path.realpath(REPO)), melodist.__file__
    rng = np.random.RandomState(int(seed) % (2**32))
    jobs = []
    for i, (name, func, args) in enumerate(mod.scenarios(tier, rng)):
        jobs.append((modname, i, name, func, args))
    only = os.environ.get('VERIF_ONLY')
    if only:
        jobs = [j for j in jobs if only in j[2]]
    if os.environ.get('VERIF_DEBUG'):
        res = [_run_one(j) for j in jobs]
    else:
        with cf.ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1)) as ex:
            res = list(ex.map(_run_one, jobs, chunksize=max(1, min(8, len(jobs) // 64 or 1))))
    with open(out, 'w') as f:
        json.dump(res, f, separators=(',', ':'), allow_nan=False)


if __name__ == '__main__':
    # run under the module name 'kit' so that the drivers share this module
    import kit

    kit.main()
