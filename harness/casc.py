"""scenario material shared by the precipitation drivers"""
import numpy as np
import pandas as pd

from kit import q, qs  # noqa: F401


def new_stats():
    import melodist

    return melodist.cascade.CascadeStatistics()


def sample_stats(nlev=5):
    s = new_stats()
    s.fill_with_sample_data()
    s.threshold = np.linspace(0.4, 9.0, nlev)
    return s


def random_stats(rng, nlev=5, zeros=0.3, thr=None):
    """random table in steps of 1/1000; some entries are exactly zero"""
    s = new_stats()
    for b in range(2):
        for y in range(4):
            while True:
                a = rng.randint(1, 400, 3) * (rng.rand(3) > zeros)
                if a.sum() > 0:
                    break
            a = np.floor(a / a.sum() * 1000)
            a[np.argmax(a)] += 1000 - a.sum()
            s.p01[b, y], s.p10[b, y], s.pxx[b, y] = a / 1000.0
            while True:
                w = rng.randint(1, 400, 7) * (rng.rand(7) > zeros)
                if w.sum() > 0:
                    break
            w = np.floor(w / w.sum() * 1000)
            w[np.argmax(w)] += 1000 - w.sum()
            s.wxx[:, b, y] = w / 1000.0
    s.threshold = rand_thr(rng, nlev) if thr is None else np.array(thr, float)
    return s


def rand_thr(rng, nlev):
    return np.sort(rng.choice([0.05, 0.1, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0], nlev, replace=nlev > 11))


def onehot_stats(rng, nlev=5, thr=None, p=(0.3, 0.3, 0.4)):
    """every class has exactly one possible split"""
    s = new_stats()
    for b in range(2):
        for y in range(4):
            c = rng.choice(3, p=p)
            s.p01[b, y], s.p10[b, y], s.pxx[b, y] = [float(c == i) for i in range(3)]
            s.wxx[:, b, y] = 0
            s.wxx[rng.randint(7), b, y] = 1.0
    s.threshold = rand_thr(rng, nlev) if thr is None else np.array(thr, float)
    return s


def enc_stats(s):
    return {
        'p01': s.p01, 'p10': s.p10, 'pxx': s.pxx, 'wxx': s.wxx,
        'threshold': s.threshold, 'percentile': s.percentile,
    }


def dec_stats(d):
    s = new_stats()
    s.p01, s.p10, s.pxx, s.wxx = (np.array(d[k], float) for k in ('p01', 'p10', 'pxx', 'wxx'))
    s.threshold = np.array(d['threshold'], float)
    s.percentile = d['percentile']
    return s


def tab(s):
    """the probabilities of a table in ppm, as the spec reads them"""
    f = lambda a: [[q(v, 1e6) for v in row] for row in np.asarray(a)]
    return {'p01': f(s['p01']), 'p10': f(s['p10']), 'pxx': f(s['pxx']), 'w': [f(m) for m in s['wxx']]}


def day_index(start, n, drop=()):
    idx = pd.date_range(start, periods=n, freq='D')
    return idx[[i for i in range(n) if i not in drop]]


def sig(total):
    """power-of-ten scale that gives the total 8 digits"""
    if total is None or not np.isfinite(total) or total <= 0:
        return 1e6
    return 10.0 ** (7 - int(np.floor(np.log10(total))))


def by_day(out, idx):
    """sub-daily series -> list of lists per listed day, and number of stamps on other days"""
    days = {d.date(): [] for d in idx}
    extra = 0
    for ts, v in zip(out.index, out.values):
        k = ts.date()
        if k in days:
            days[k].append(v)
        else:
            extra += 1
    return [days[d.date()] for d in idx], extra


def totals_event(op, daily, out, exc, per, master=None):
    sc = [sig(v) for v in daily.values]
    e = {'op': op, 'exc': exc, 'per': per, 'days': [q(v, s) for v, s in zip(daily.values, sc)], 'out': [], 'extra': 0}
    if not exc:
        if out is None:
            e['exc'] = 'NoResult'
        else:
            lists, e['extra'] = by_day(out, daily.index)
            e['out'] = [qs(x, s) for x, s in zip(lists, sc)]
    if master is not None:
        e['master'] = master
    return e
