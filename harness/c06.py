"""C06: seasons"""
import numpy as np
import pandas as pd

import c05
import casc
from kit import call, q, qs

VOL = [1.1, 3.3, 7.7, 30.1, 0.55]
THR = [0.6, 1.2, 2.4, 5.0, 10.0]


def partitions(rng, i):
    """lists of month lists; some leave months out, some wrap or are scattered"""
    m = np.arange(1, 13)
    k = i % 6
    if k == 0:
        return [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]]
    if k == 1:
        p = rng.permutation(m)
        return [sorted(int(x) for x in p[:6]), sorted(int(x) for x in p[6:])]
    if k == 2:  # unsorted and incomplete
        p = rng.permutation(m)
        return [[int(x) for x in p[:4]], [int(x) for x in p[4:9]]]
    if k == 3:
        return [[int(x)] for x in m]
    if k == 4:
        r = np.roll(m, rng.randint(12))
        a, b = sorted(rng.choice(range(1, 12), 2, replace=False))
        return [[int(x) for x in r[:a]], [int(x) for x in r[a:b]], [int(x) for x in r[b:]]]
    return [[int(x) for x in m]]


def half_stats(rng):
    """one split per class; divisions only into equal halves"""
    s = casc.onehot_stats(rng, 5, thr=THR)
    s.wxx[:] = 0
    s.wxx[3] = 1.0
    return s


def scenarios(tier, rng):
    big = tier == 'thorough'
    out = []
    for i in range(90 if big else 36):
        seasons = partitions(rng, i)
        if i % 6 == 5:    # months of two seasons take turns
            seasons = [list(range(1 + i // 6 % 2, 13, 2)), list(range(2 - i // 6 % 2, 13, 2))]
        lst = i % 3 == 0
        st = [[casc.enc_stats(half_stats(rng)) for _ in range(5 if lst else 1)] for _ in seasons]
        start = ['2015-11-20', '2016-02-10', '2015-12-30', '2017-06-29', '2014-01-31', '2019-04-25'][rng.randint(6)]
        n = int(rng.randint(25, 80))
        if i % 12 == 7:  # the same months in several years
            start, n = ['2014-12-11', '1999-09-25', '2035-06-29', '1967-03-02'][rng.randint(4)], int(rng.randint(400, 760))
        v = rng.choice(VOL, n) * (rng.rand(n) < 0.6)
        v[rng.rand(n) < 0.08] = np.nan
        out.append(('season-%d' % i, 'disagg', dict(seasons=seasons, st=st, start=start, v=[float(x) for x in v], shift=int([0, 0, 7, -5, 1, 30][i // 6 % 6]), gap=bool(i % 7 == 4))))
    for i in range(18 if big else 6):
        out.append(('estimate-%d' % i, 'estimate', dict(seed=int(rng.randint(1 << 30)), seasons=partitions(rng, i) if i % 6 != 3 else [[1, 7], [2, 8], [12, 3]], avg=bool(i % 2), arr=bool(i % 4 < 2),
                                                     via='stats' if i % 2 else 'direct')))
    for i in range(24 if big else 12):
        out.append(('subset-%d' % i, 'subset', dict(seed=int(rng.randint(1 << 30)), i=i)))
    return out


def subset(seed, i):
    import melodist

    rng = np.random.RandomState(seed)
    idx = pd.date_range('%d-%02d-01' % (rng.choice([2015, 1968, 1899, 2037, 1999]), rng.randint(1, 13)), periods=int(rng.randint(1, 800)), freq='D')
    if i % 3 == 1:
        idx = idx[rng.rand(len(idx)) < 0.8].insert(0, idx[0]).unique().sort_values()
    df = pd.DataFrame({'a': np.arange(len(idx))}, index=idx)
    ev = []
    for m in (None, 'all', [int(x) for x in rng.permutation(12)[:1 + i % 6] + 1], np.array([12, 1, 2]), [4]):
        res, exc = call(melodist.seasonal_subset, df, **({} if m is None else dict(months=m)))
        ev.append({'op': 'subset', 'months': list(range(1, 13)) if m is None or isinstance(m, str) else [int(x) for x in m], 'exc': exc, 'month': [int(x) for x in idx.month],
                   'rows': [] if exc else [int(x) + 1 for x in res.a]})
    return {'ev': ev, 'spec': 'SeasonTrace'}


def disagg(seasons, st, start, v, shift, gap):
    import melodist

    idx = pd.date_range(start, periods=len(v), freq='D')
    daily = pd.DataFrame({'precip': v}, index=idx)
    if gap:
        daily = daily.drop(daily.index[[3, 4, 11]])
    full = daily.precip.reindex(idx)
    stats = [[casc.dec_stats(x) for x in s] for s in st]
    for s in stats:
        if len(s) > 1:
            for lev, x in enumerate(s):
                x.threshold = np.array([THR[lev]])

    def f():
        s = melodist.Station(lon=8.86, lat=51.0, timezone=1)
        s.data_daily = daily
        s.statistics = melodist.StationStatistics()
        s.statistics.precip.months = [np.array(m) for m in seasons]
        s.statistics.precip.stats = [x[0] if len(x) == 1 else x for x in stats]
        s.disaggregate_precipitation('cascade', shift=shift)
        return s.data_disagg.precip

    res, exc = call(f)
    ev = [{'op': 'start'}]
    for m, s in zip(seasons, st):
        tabs = [casc.tab(x) for x in s]
        ev.append({'op': 'season', 'months': m, 'tabs': tabs if len(tabs) == 5 else tabs * 5, 'thr': qs(THR, 1e6), 'shift': shift})
    ev.append({'op': 'result', 'exc': exc, 'out': [] if exc else qs(res.values, 1e6)})
    return {'ev': ev, 'spec': 'SeasonTrace', 'days': qs(full.values, 1e6), 'month': [int(x) for x in idx.month], 'maxday': q(np.nanmax(full.values), 1e6)}


def estimate(seed, seasons, avg, arr, via):
    import melodist

    rng = np.random.RandomState(seed)
    n = 1900
    v = c05.synth(rng, n, wet=(1, 30), dry=(1, 40), miss=0.03)
    idx = pd.date_range('%d-%02d-05 03:00' % (rng.choice([2013, 1899, 1967, 2036]), rng.randint(1, 13)), periods=n, freq='6h')
    df = pd.DataFrame({'precip': v * c05.U}, index=idx)
    months = [np.array(m) for m in seasons] if arr else seasons

    def f():
        if via == 'stats':
            s = melodist.StationStatistics(df)
            s.calc_precipitation_stats(months=months, avg_stats=avg)
            return s.precip.stats
        return melodist.build_casc(df, months=months, avg_stats=avg)

    res, exc = call(f)
    ev = c05.season_events(res, exc, seasons, 5, avg)
    return {'ev': ev, 'spec': 'CascadeStatsTrace', 'perc': 500, 'obs': [q(x) for x in v], 'month': [int(m) for m in idx.month]}
