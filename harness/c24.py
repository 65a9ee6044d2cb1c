"""C24: diurnal statistics of observations"""
import numpy as np
import pandas as pd

import world
from kit import NA, call, q, qs

LON, TZ = 8.86, 1


def scenarios(tier, rng):
    big = tier == 'thorough'
    out = []
    starts = [world.first_day(rng), '2015-12-10', '2016-02-01', '2013-06-20', '2014-10-25', '2016-01-01', '2011-03-01']
    for i in range(36 if big else 14):
        kind = ['solid', 'hours', 'days', 'sparse', 'ends', 'columns', 'rows'][i % 7]
        n = int([45, 75, 100, 30][i % 4])
        out.append(('obs-%d-%s' % (i, kind), 'observe', dict(start=starts[i % 7], n=n, kind=kind, seed=int(rng.randint(1 << 30)), lon=float([8.86, -100.0, 0.0, 150.5][i % 4]), tz=float([1, -6.5, 0, 10.25][i % 4]), direct=bool(i % 3 == 2),
                                                            name=bool(i % 5 == 1))))
    out.append(('year', 'observe', dict(start='2015-01-01', n=365, kind='hours', seed=int(rng.randint(1 << 30)), lon=8.86, tz=1, direct=False, only=('course', 'shift', 'category'))))
    out.append(('leap', 'observe', dict(start='2016-01-01', n=366, kind='rows', seed=int(rng.randint(1 << 30)), lon=8.86, tz=1, direct=False, only=('course', 'shift', 'category'))))
    out.append(('years', 'observe', dict(start='2013-11-10', n=450 if big else 400, kind='days', seed=int(rng.randint(1 << 30)), lon=8.86, tz=1, direct=False, only=('course', 'shift', 'category'))))
    for i in range(30 if big else 12):
        out.append(('line-%d' % i, 'line', dict(seed=int(rng.randint(1 << 30)), n=int(rng.randint(3, 25)), noise=[0, 4, 20][i % 3])))
    return out


def line(seed, n, noise):
    """the regression itself and the statistics that come with it"""
    import melodist

    rng = np.random.RandomState(seed)
    x = rng.permutation(81)[:n] - 40
    y = np.clip(rng.randint(-3, 4) * x // 3 + rng.randint(-noise, noise + 1, n) + rng.randint(-9, 10), -60, 60)
    y[0] = y[1] + 1 + abs(noise)  # never flat
    two, exc = call(melodist.util.linregress, pd.Series(x.astype(float)), pd.Series(y.astype(float)))
    five, exc2 = call(melodist.util.linregress, pd.Series(x.astype(float)), pd.Series(y.astype(float)), return_stats=True)
    e = {'op': 'line', 'exc': exc or exc2, 'x': [int(v) for v in x], 'y': [int(v) for v in y], 'short': 0, 'long': 0, 'same': 0, 'a0': 0, 'a1': 0, 'r': 0, 'se': 0, 'p': 0}
    if not e['exc']:
        e.update(short=len(two), long=len(five), same=int(tuple(two[:2]) == tuple(five[:2])), a1=q(two[0], 1e4), a0=q(two[1], 1e4))
        if len(five) == 5:
            e.update(r=q(five[2], 1e4), p=q(five[3], 1e4), se=q(five[4], 1e4))
    return [e]


def observations(start, n, kind, rng, seed=0):
    idx = pd.date_range(start, periods=24 * n, freq='h')
    h = np.asarray(idx.hour)
    day = np.arange(len(idx)) // 24
    doy = np.asarray(idx.dayofyear)
    amp = rng.uniform(1, 7, n)[day]
    t = 281 - 9 * np.cos(2 * np.pi * (doy - 20) / 365) + rng.normal(0, 3, n)[day] + amp * np.cos(2 * np.pi * (h - rng.uniform(12, 17, n)[day]) / 24) + rng.normal(0, 0.4, len(idx))
    df = pd.DataFrame(index=idx)
    df['temp'] = np.round(t, 2)
    df['hum'] = np.round(np.clip(75 - 3 * (t - 281) + rng.normal(0, 8, n)[day], 20, 100), 1)
    df['precip'] = np.round(rng.gamma(0.5, 2, len(idx)) * (rng.rand(len(idx)) < 0.12) * (rng.rand(n) < 0.5)[day], 1)
    df['glob'] = np.round(np.maximum(0, -np.cos(2 * np.pi * h / 24)) * rng.uniform(50, 800, n)[day], 1)
    df['wind'] = np.round(np.maximum(0 if seed % 2 else 0.1, rng.gamma(3, 1.2, n)[day] * (1 + (0.9 if seed % 2 else 0.35) * np.cos(2 * np.pi * (h - 14) / 24) + rng.normal(0, 0.2, len(idx)))), 1)
    v = df.values
    if kind == 'hours':
        v[rng.rand(*v.shape) < 0.1] = np.nan
    if kind in ('days', 'columns'):
        for d in range(n):
            for c in range(v.shape[1]):
                if rng.rand() < 0.1:
                    v[24 * d:24 * d + 24, c] = np.nan
    if kind == 'sparse':
        v[np.repeat(rng.rand(n) < 0.3, 24)] = np.nan
        v[h % 3 != 0] = np.nan
    df = pd.DataFrame(v, index=idx, columns=df.columns)
    df.loc[df.index.month == (df.index[0].month % 12) + 1, 'glob'] += 5
    return df


def observe(start, n, kind, seed, lon, tz, direct, name=False, only=()):
    import melodist

    rng = np.random.RandomState(seed)
    grid = observations(start, n, kind, rng, seed)
    obs = grid.copy()
    if kind == 'ends':  # first and last day only in part
        a, b = int(rng.randint(1, 23)), int(rng.randint(1, 23))
        obs = obs.iloc[a:len(obs) - b]
    if kind == 'rows':  # rows absent instead of missing
        obs = obs[(rng.rand(len(obs)) < 0.95) & (np.asarray(obs.index.day) % 11 != 4)]
    grid = obs.reindex(grid.index)
    if name:
        obs.index.name = 'time'
    dates = grid.index[::24]
    base = {'month': [int(m) for m in dates.month]}
    doy = [int(x) for x in dates.dayofyear]
    s = melodist.StationStatistics(obs, lon=lon, lat=51.0, timezone=tz)
    ev = []

    def table(f, scale):
        return [[NA if f is None or m not in f.columns or h not in f.index else q(f[m].loc[h], scale) for h in range(24)] for m in range(1, 13)]

    def use(name):
        return not only or name in only

    if use('course'):
        # temperatures relative to 273.15 K leave room for more digits
        tv = qs(grid.temp.values - 273.15, 1e5)
        _, exc = call(s.calc_temperature_stats)
        ev.append(dict(base, op='course', scaled=1, v=tv, exc=exc, course=[] if exc else table(s.temp.mean_course, 1e6)))
        sh = None if exc else s.temp.max_delta
        if direct:
            sh, exc = call(melodist.get_shift_by_data, obs.temp, lon, 51.0, tz)
        ev.append(dict(base, op='shift', doy=doy, lon=q(lon, 1e4), tz=int(4 * tz), v=tv, exc=exc, shift=[] if exc else [q(sh.get(m), 1e4) for m in range(1, 13)]))
        if direct:
            c, exc = call(melodist.util.calculate_mean_daily_course_by_month, obs.wind)
            ev.append(dict(base, op='course', scaled=0, v=qs(grid.wind.values, 1e4), exc=exc, course=[] if exc else table(c, 1e4)))
        _, exc = call(s.calc_radiation_stats)
        ev.append(dict(base, op='course', scaled=0, v=qs(grid.glob.values, 1e4), exc=exc, course=[] if exc else table(s.glob.mean_course, 1e4)))
    if use('category'):
        _, exc = call(s.calc_humidity_stats)
        mh = s.hum.month_hour_precip_mean
        tab = [] if exc else [[[q(mh.get((m, h, w)), 1e4) for w in (False, True)] for h in range(24)] for m in range(1, 13)]
        ev.append(dict(base, op='category', v=qs(grid.hum.values, 1e4), precip=qs(grid.precip.values, 1e3), exc=exc, table=tab))
        if use('dew'):
            if direct and not exc:  # with its statistics the regression is the same
                p, exc = call(melodist.humidity.calculate_dewpoint_regression, obs, return_stats=True)
                if not exc:
                    s.hum.a1, s.hum.a0 = p[:2]
            ev.append(dict(base, op='dew', t=qs(grid.temp.values, 1e4), hum=qs(grid.hum.values, 1e4), exc=exc, a0=q(s.hum.a0, 1e4), a1=q(s.hum.a1, 1e6)))
    if use('wind'):
        if direct:
            p, exc = call(melodist.fit_cosine_function, obs.wind)
            a, b, ts = (0, 0, 0) if exc else p
        else:
            _, exc = call(s.calc_wind_stats)
            a, b, ts = (s.wind.a, s.wind.b, s.wind.t_shift)
        ev.append(dict(base, op='wind', v=qs(grid.wind.values, 1e4), exc=exc, a=q(a, 1e6), b=q(b, 1e6), s=q(np.fmod(ts, 24) if ts is not None else None, 1e4)))
    return ev
