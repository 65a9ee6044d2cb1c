"""C02: daily totals under every precipitation method"""
import numpy as np
import pandas as pd

import casc
import world
from kit import Draws, call, q

STARTS = ['2015-12-29', '2016-02-27', '2014-06-30', '2011-03-26', '2019-10-25', '2000-01-01']

DATA = []  # statistics estimated from synthetic data


def daily_series(rng, n, style):
    if style == 'mixed':
        v = rng.choice([0, 0, 0.1, 0.3, 1, 2.5, 7.7, 18.2, 63.1], n) * rng.choice([1, 1, 1.01], n)
    elif style == 'extreme':
        v = rng.choice([0, 0.001, 0.01, 0.02, 950.0, 1825.0, 33.3], n)
    elif style == 'wet':
        v = np.round(rng.gamma(0.7, 8, n) + 0.1, 1)
    elif style == 'dry':
        v = np.zeros(n)
    elif style == 'single':
        v = np.zeros(n)
        v[rng.randint(n)] = 12.3
    elif style == 'edges':
        v = np.zeros(n)
        v[0], v[-1] = 5.5, 3.25
    v = v.astype(float)
    return v


def scenarios(tier, rng):
    big = tier == 'thorough'
    reps = 6 if big else 1
    styles = ['mixed', 'extreme', 'wet', 'dry', 'single', 'edges']
    out = []

    def days(n):
        style = styles[rng.randint(6)]
        v = daily_series(rng, n, style)
        if rng.rand() < 0.5:
            v[rng.rand(n) < 0.25] = np.nan
        drop = []
        if n > 3 and rng.rand() < 0.4:
            drop = [int(rng.randint(1, n - 1))]
        start = STARTS[rng.randint(len(STARTS))]
        keep = [i for i in range(n) if i not in drop]
        return dict(start=start, n=n, drop=drop, v=[float(x) for x in v[keep]])

    for r in range(reps):
        for i in range(20):
            out.append(('equal-%d-%d' % (r, i), 'equal', dict(d=days(rng.randint(1, 12)), via='station' if i % 2 else 'direct')))
        for i in range(24):
            d = days(rng.randint(1, 8))
            n = len(d['v'])
            m = rng.choice([0, 0, 0, 1, 2, 5, 13, 120, 301] if i % 3 else [0, 0, 0, 1, 700, 1500, 3000], (n, 24))
            m[rng.rand(n) < 0.25] = 0
            if i % 4 == 0:  # a total of exactly one on some day, in one or two hours
                m[-1] = 0
                m[-1, [5, 17 if i % 8 else 5]] = 5 if i % 8 else 10
            out.append(('master-%d-%d' % (r, i), 'master', dict(d=d, m=m.tolist(), via='station' if i % 2 else 'direct',
                                                               nanday=bool(i % 5 == 0), cut=bool(i % 3 == 1),
                                                               zerodiv=[None, 'uniform', 'zero'][i // 2 % 3])))
        # several years
        d = days(int(rng.randint(740, 1100)))
        d['start'] = world.YEARS[rng.randint(6)]
        m = rng.choice([0, 0, 0, 1, 2, 5, 13, 120, 301], (len(d['v']), 24))
        m[rng.rand(len(m)) < 0.2] = 0
        out.append(('equal-years-%d' % r, 'equal', dict(d=d, via='station' if r % 2 else 'direct')))
        out.append(('master-years-%d' % r, 'master', dict(d=d, m=m.tolist(), via='station' if r % 2 else 'direct', nanday=False, cut=False, zerodiv='uniform')))
        out.append(('cascade-years-%d' % r, 'cascade', dict(d=d, st=make(rng, 'random', 5, False), hourly=True, level=9, draws=None, via=['station', 'direct'][r % 2])))
        kinds = ['sample', 'random', 'onehot', 'short', 'data']
        draws = [None, None, None, [0.0], [1 - 2.0**-53], [0.0, 1 - 2.0**-53], [0.5, 1 - 2.0**-53, 0.25], [1e-300, 0.999999999]]
        for i in range(80):
            k = kinds[i % 5]
            nl = 5
            lst = bool(i % 3 == 0)
            st = make(rng, k, nl, lst)
            out.append(('cascade-%d-%d-%s' % (r, i, k), 'cascade', dict(d=days(rng.randint(2, 14)), st=st, hourly=True, level=9,
                        draws=draws[rng.randint(len(draws))], via=['direct', 'station', 'raw'][i % 3])))
        for i in range(18):
            k = kinds[i % 4]
            nl = [9, 10, 11][i % 3]
            st = make(rng, k, nl, bool((i // 3) % 2))
            out.append(('fivemin-%d-%d-L%d' % (r, i, nl), 'cascade', dict(d=days(rng.randint(2, 5 if nl == 9 else 4)), st=st, hourly=False, level=nl,
                        draws=draws[rng.randint(len(draws))], via='raw')))
        for i in range(12):
            cut = [int(x) for x in sorted(rng.choice(range(1, 12), 2, replace=False))]
            m = [int(x) for x in np.roll(np.arange(1, 13), rng.randint(12))]
            seasons = [m[:cut[0]], m[cut[0]:cut[1]], m[cut[1]:]]
            out.append(('seasons-%d-%d' % (r, i), 'seasons', dict(seed=int(rng.randint(1 << 30)), seasons=seasons,
                        start=STARTS[rng.randint(len(STARTS))], n=int(rng.randint(70, 130)))))
    return out


def make(rng, kind, nl, lst):
    def one():
        if kind == 'sample':
            return casc.sample_stats(nl)
        if kind == 'random':
            return casc.random_stats(rng, nl)
        if kind == 'onehot':
            return casc.onehot_stats(rng, nl)
        if kind == 'short':  # probabilities that miss 1 by rounding
            s = casc.random_stats(rng, nl)
            for a in (s.p01, s.p10, s.pxx, s.wxx):
                a *= 1 - 1e-7
            return s
        if not DATA:
            import melodist

            idx = pd.date_range('2010-01-01', periods=24 * 60, freq='h')
            p = pd.DataFrame({'precip': rng.gamma(0.4, 2, len(idx)) * (rng.rand(len(idx)) < 0.4)}, index=idx)
            r, exc = call(melodist.build_casc, p, hourly=True)
            DATA.append(r[0] if r else casc.sample_stats(nl))
        return casc.dec_stats(casc.enc_stats(DATA[0]))

    if lst:
        l = [one() for _ in range(nl)]
        for s in l:
            s.threshold = s.threshold[:1]
        return [casc.enc_stats(s) for s in l]
    return [casc.enc_stats(one())]


def series(d):
    idx = casc.day_index(d['start'], d['n'], d['drop'])
    return pd.Series(d['v'], index=idx, name='precip')


def station(daily):
    import melodist

    s = melodist.Station(lon=8.86, lat=51.0, timezone=1)
    s.data_daily = pd.DataFrame({'precip': daily})
    return s


def equal(d, via):
    import melodist

    daily = series(d)
    if via == 'direct':
        out, exc = call(melodist.disagg_prec, pd.DataFrame({'precip': daily}), method='equal')
    else:
        def f():
            s = station(daily)
            s.disaggregate_precipitation('equal')
            return s.data_disagg.precip.reindex([t for t in s.data_disagg.index if t.normalize() in daily.index])
        out, exc = call(f)
    return [casc.totals_event('equal', daily, out, exc, 24)]


def master(d, m, via, nanday, cut, zerodiv):
    import melodist

    daily = series(d)
    idx = pd.DatetimeIndex([t + pd.Timedelta(hours=h) for t in daily.index for h in range(24)])
    mv = np.array(m, float).ravel() / 10
    if nanday:
        mv[:24] = np.nan
    ms = pd.Series(mv, index=idx)
    if cut:     # a master record that lacks some hours of its dry days
        ms = ms[[h not in (3, 4, 17) or (mv[24 * i:24 * i + 24] > 0).any() for i in range(len(daily)) for h in range(24)]]
    kw = {} if zerodiv is None else dict(zerodiv=zerodiv)
    enc = [[q(v, 10) for v in mv[24 * i:24 * i + 24]] for i in range(len(daily))]
    if via == 'direct':
        out, exc = call(melodist.disagg_prec, daily, method='masterstation', hourly_data_obs=ms, **kw)
    else:
        def f():
            s = station(daily)
            full = ms if cut and len(s.data_disagg) == len(idx) else ms.reindex(s.data_disagg.index)
            s.disaggregate_precipitation('masterstation', master_precip=full, **kw)
            return s.data_disagg.precip.reindex(idx)
        out, exc = call(f)
    e = casc.totals_event('master', daily, out, exc, 24, enc)
    e['uniform'] = int(zerodiv != 'zero')
    return [e]


def cascade(d, st, hourly, level, draws, via):
    import melodist

    daily = series(d)
    st = [casc.dec_stats(s) for s in st]
    opt = st[0] if len(st) == 1 else st

    def f():
        if via == 'raw':
            return melodist.disagg_prec_cascade(daily, opt, hourly=hourly, level=level)
        if via == 'direct':
            return melodist.disagg_prec(daily, method='cascade', cascade_options=opt)
        s = station(daily)
        s.statistics = melodist.StationStatistics()
        s.statistics.precip.stats = [opt]
        s.statistics.precip.months = [np.arange(12) + 1]
        s.disaggregate_precipitation('cascade')
        return s.data_disagg.precip.reindex([t for t in s.data_disagg.index if t.normalize() in daily.index])

    if draws is None:
        out, exc = call(f)
    else:
        with Draws(draws):
            out, exc = call(f)
    return [casc.totals_event('cascade' if hourly else 'fivemin', daily, out, exc, 24 if hourly else 288)]


def seasons(seed, seasons, start, n):
    import melodist

    rng = np.random.RandomState(seed)
    idx = pd.date_range(start, periods=n, freq='D')
    daily = pd.Series(np.round(rng.gamma(0.5, 6, n), 3) * (rng.rand(n) < 0.6), index=idx)
    daily[rng.rand(n) < 0.1] = np.nan
    cnt = pd.Series([next(i for i, m in enumerate(seasons) if t.month in m) for t in idx]).value_counts()
    if cnt.min() < 2:
        # a season with a single day cannot be disaggregated; leave it out
        few = cnt.index[cnt < 2]
        keep = [t for t in idx if next(i for i, m in enumerate(seasons) if t.month in m) not in few]
    else:
        keep = list(idx)

    def f():
        s = station(daily)
        s.statistics = melodist.StationStatistics()
        s.statistics.precip.stats = [casc.sample_stats() for _ in seasons]
        s.statistics.precip.months = seasons
        s.disaggregate_precipitation('cascade')
        return s.data_disagg.precip

    out, exc = call(f)
    if out is not None:
        ks = set(keep)
        out = out[[t.normalize() in ks for t in out.index]]
    return [casc.totals_event('cascade', daily[keep], out, exc, 24)]
