"""C22: gap counts, complete days, daily aggregation"""
import json
import os

import numpy as np
import pandas as pd

from kit import NA, call, q, qs

COLS = ('temp', 'precip', 'glob', 'hum', 'wind', 'ssd')
# the days the recorded times count from
NULS = [pd.Timestamp(x) for x in ('2015-12-30', '2016-02-27', '1969-12-31', '2099-12-30', '2015-01-30', '1900-02-27', '2037-10-29')]


def scenarios(tier, rng):
    big = tier == 'thorough'
    gen = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'gen-AggregateMC.json')))
    cases = []
    for s in gen:
        c = s['c']
        t = [60 * (c['first'] + i + (c['wide'] if c['at'] and i >= c['at'] else 0)) for i in range(c['n'])]
        cases.append(dict(times=t, shift=c['shift']))
    if not big:  # the enumeration is replayed in a random selection, all corners of the gap-free part always
        cases = [c for i, c in enumerate(cases) if len(set(np.diff(c['times']))) <= 1 or rng.rand() < 0.4]
    out = []
    for i in range(0, len(cases), 60):
        out.append(('enumerated-%d' % i, 'trims', dict(cases=cases[i:i + 60])))
    extra = []
    for i in range(60 if big else 30):
        n = int(rng.randint(1, 90)) if i % 10 else 1500
        t = 60 * (int(rng.randint(24)) + np.arange(n) + np.cumsum(rng.rand(n) < 0.05) * int(rng.randint(1, 30)))
        if i % 5 == 1:
            t = t + 30  # no full hours at all
        if i % 5 == 2:  # half-hourly readings
            t = t[0] + 30 * np.arange(n)
        if i % 5 == 3:  # starting at half past the first hour
            t = 60 * [0, 8, 5, 0, 0, 0][i % 6] + 30 + 30 * np.arange(n + 60)
        extra.append(dict(times=[int(x) for x in t], shift=[0, 8, 5, 24, -1, 30][i % 6] if i % 5 == 3 else [0, 8, int(rng.randint(24)), 24, -1, 30][i % 6]))
    out.append(('random-trims', 'trims', dict(cases=extra)))
    g = []
    for i in range(160 if big else 80):
        step = [3600, 86400, 300, 60, 1, 600][i % 6]
        n = int([0, 1, 2, 5, 40, 300][rng.randint(6)])
        d = np.full(max(n - 1, 0), step)
        if i % 4:
            k = rng.rand(len(d)) < [0, 0.05, 0.3, 1.0][i % 4]
            d[k] = d[k] * rng.randint(0, 4, k.sum()) + [0, 1, -1, step // 2][rng.randint(4)] * (rng.rand(k.sum()) < 0.5)
        if i % 3 == 0:    # whole days between two readings
            k = rng.rand(len(d)) < 0.2
            d[k] = step + 86400 * rng.randint(1, 3, k.sum())
        g.append(dict(d=[int(x) for x in d], n=n, step=step, ms=bool(i % 9 == 8 and step <= 60), kw=[{}, dict(verbose=False), dict(print_all=True), dict(print_max=0), dict(print_max=2, verbose=True)][i % 5]))
    for i in range(0, len(g), 20):
        out.append(('gaps-%d' % i, 'gap_counts', dict(cases=g[i:i + 20])))
    out.append(('no-frame', 'no_frame', {}))
    for i in range(90 if big else 36):
        n = int([1, 5, 24, 30, 60, 100][rng.randint(6)]) if i % 18 != 10 else int(rng.randint(9000, 11000))
        out.append(('daily-%d' % i, 'daily', dict(first=int(rng.randint(24)), n=n, seed=int(rng.randint(1 << 30)), cols=[c for j, c in enumerate(COLS) if i % 7 == 0 or rng.rand() < 0.5] or ['hum'],
                                                 miss=['none', 'hours', 'day', 'all', 'most'][i % 5], gap=['no', 'hours', 'day', 'no'][i // 5 % 4], step=[60, 60, 60, 30][i % 4], name=bool(i % 6 == 5))))
    return out


def stamps(times, nul):
    return pd.DatetimeIndex([nul + pd.Timedelta(minutes=int(m)) for m in times])


def trims(cases):
    import melodist

    ev = []
    for k, c in enumerate(cases):
        idx = stamps(c['times'], NULS[k % 7])
        if k % 11 == 3:
            idx.name = 'date'
        df = pd.DataFrame({'a': np.arange(1.0, len(idx) + 1), 'b': np.nan}, index=idx)
        keep = df.copy()
        res, exc = call(melodist.util.drop_incomplete_days, df, **({} if c['shift'] == 0 and len(idx) % 2 else dict(shift=c['shift'])))
        e = {'op': 'drop', 'times': c['times'], 'shift': c['shift'], 'exc': exc, 'kept': [], 'same': 0, 'input': int(df.equals(keep))}
        if not exc:
            e['kept'] = qs(res['a'].values)
            pos = [k - 1 for k in e['kept']]
            e['same'] = int(all(0 <= p < len(df) for p in pos) and res.equals(keep.iloc[pos]))
        ev.append(e)
    return ev


def gap_counts(cases):
    import melodist

    ev = []
    for k, c in enumerate(cases):
        t = [0] + list(np.cumsum(c['d'])) if c['n'] else []
        step, unit = c['step'], 1
        if c['ms']:
            unit = 1000
            t = [x * 1000 + (1 if i % 7 == 3 else 0) for i, x in enumerate(t)]
        idx = pd.DatetimeIndex([NULS[k % 7] + pd.Timedelta(hours=k % 24) + pd.Timedelta(milliseconds=int(x) * (1000 // unit)) for x in t])
        df = pd.DataFrame({'a': np.zeros(len(idx))}, index=idx)
        res, exc = call(melodist.util.detect_gaps, df, step, **c['kw'])
        ev.append({'op': 'gaps', 'times': [int(x) for x in t], 'step': step * unit, 'n': q(res), 'exc': exc})
    return ev


def no_frame():
    import melodist

    ev = []
    for x in (None, 5, 'x'):
        res, exc = call(melodist.util.detect_gaps, x, 3600)
        ev.append({'op': 'invalid', 'n': q(res) if not exc and isinstance(res, int) else NA, 'exc': exc})
    return ev


def daily(first, n, seed, cols, miss, gap, step, name):
    import melodist

    rng = np.random.RandomState(seed)
    nul = NULS[seed % 7]
    times = 60 * first + step * np.arange(n)
    if gap == 'hours':
        times = times[rng.rand(n) < 0.8]
    elif gap == 'day':
        times = times[(times // 1440 != 1)]
    if not len(times):
        times = np.array([60 * first])
    n = len(times)
    df = pd.DataFrame(index=stamps(times, nul))
    base = dict(temp=280, precip=1, glob=100, hum=60, wind=3, ssd=30)
    for c in cols:
        v = np.round(base[c] + base[c] * 0.1 * rng.normal(0, 1, n), 3)
        if c in ('precip', 'ssd', 'glob'):
            v = np.where(rng.rand(n) < 0.5, 0, np.abs(v))
        if c == 'temp' and seed % 3 == 0:
            v = v - 283  # negative values
        if seed % 4 == 1:  # exact zeros, and some values that come again
            v[rng.rand(n) < 0.1] = 0.0
            v = np.round(v, 0) if seed % 8 == 1 else v
        if miss == 'hours':
            v[rng.rand(n) < 0.3] = np.nan
        elif miss == 'day':
            v[times // 1440 == 0] = np.nan
        elif miss == 'all':
            v[:] = np.nan
        elif miss == 'most':
            v[rng.rand(n) < 0.93] = np.nan
        df[c] = v
    if name:
        df.index.name = 'date'
    keep = df.copy()
    res, exc = call(melodist.util.daily_from_hourly, df)
    e = {'op': 'daily', 'day': [int(x) for x in times // 1440], 'col': {c: qs(keep[c].values, 1e4) for c in cols}, 'exc': exc, 'rdays': [], 'rcols': [], 'res': {}, 'input': int(df.equals(keep) and df.index.name == keep.index.name)}
    if not exc:
        e['rdays'] = [q((d - nul) / pd.Timedelta(days=1), 1) if d == d.normalize() else -1 for d in res.index]
        e['rcols'] = list(res.columns)
        e['res'] = {c: qs(res[c].values, 1e4) for c in res.columns}
    return [e]
