"""C13: radiation disaggregation"""
import numpy as np
import pandas as pd

import world
from kit import call, qs

METHODS = ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course')


def scenarios(tier, rng):
    out = []
    for k in range(120 if tier == 'thorough' else 36):
        lat = float(np.round(rng.uniform(-89, 89) if k % 3 else rng.choice([-1, 1]) * rng.uniform(64, 82), 2))
        out.append(('rad-%d' % k, 'run', dict(seed=int(rng.randint(1 << 30)), lat=lat, lon=float(np.round(rng.uniform(-180, 180), 2)),
                                              n=int(rng.choice([1, 2, 20, 70])), via=['station', 'direct', 'supplied', 'scalar'][k % 4], miss=k % 5 == 4,
                                              start=world.first_day(rng))))
    for k in range(6 if tier == 'thorough' else 2):
        out.append(('years-%d' % k, 'run', dict(seed=int(rng.randint(1 << 30)), lat=float(rng.uniform(-60, 60)), lon=10.0, n=int(rng.randint(740, 1000)), via=['station', 'direct'][k % 2],
                                                miss=k % 4 > 1, start=world.YEARS[rng.randint(6)])))
    for k in range(60 if tier == 'thorough' else 24):
        out.append(('model-%d' % k, 'model', dict(seed=int(rng.randint(1 << 30)), lat=float(np.round(rng.uniform(-60, 60), 2)), n=int(rng.choice([1, 3, 9, 40, 75] + [800] * (k == 7))),
                                                  drop=k % 3 != 0, monthly=k % 2 == 0, miss=k % 5 == 4, start=['2015-12-20', '2016-02-20', '2014-07-15', world.first_day(rng)][k % 4])))
    return out


def model(seed, lat, n, drop, monthly, miss, start):
    import melodist

    rng = np.random.RandomState(seed)
    idx = pd.date_range(start, periods=n, freq='D')
    df = world.daily(idx, rng)
    df['tmax'] = np.round(np.maximum(df.tmax, df.tmin.rolling(2).max().shift(-1).fillna(0)) + rng.uniform(0.5, 10, n), 2)
    sun = melodist.util.get_sun_times(idx, 11.0, lat, 1)
    pot = pd.Series(np.round(rng.uniform(20, 400, n), 3), index=idx)
    df['ssd'] = np.round(sun.daylength * rng.uniform(0, 1, n), 2)
    if miss:
        for c in ('ssd', 'tmin', 'tmax'):
            df.loc[rng.rand(n) < 0.2, c] = np.nan
    there = np.ones(n, int)
    if drop and n > 2:
        there[1:-1] = rng.rand(n - 2) > 0.2
    sub = df[there == 1]
    par = pd.DataFrame({'a': np.round(rng.uniform(0.1, 0.3, 12), 3), 'b': np.round(rng.uniform(0.3, 0.6, 12), 3),
                        'A': np.round(rng.uniform(0.5, 0.9, 12), 3), 'C': np.round(rng.uniform(1.2, 2.6, 12), 3)}, index=range(1, 13))
    if not monthly:
        par[:] = par.iloc[[0] * 12].values
    g = (lambda c: par[c]) if monthly else (lambda c: float(par[c].iloc[0]))
    ev = []
    q4 = lambda x: qs(x, 1e4)  # noqa: E731
    for m in ('pot_rad_via_ssd', 'pot_rad_via_bc'):
        if m == 'pot_rad_via_ssd':
            p = pot[there == 1]
            r, exc = call(melodist.angstroem, sub.ssd, sun.daylength[there == 1], p, g('a'), g('b'))
        else:
            p = pot if seed % 2 else pot[there == 1]
            r, exc = call(melodist.bristow_campbell, sub.tmin, sub.tmax, p, g('A'), g('C'))
        cal = df.copy()
        cal[there == 0] = np.nan
        e = {'op': 'model', 'm': m, 'exc': exc, 'month': [int(x) for x in idx.month], 'there': [int(x) for x in there], 'ssd': q4(cal.ssd), 'dlen': qs(sun.daylength, 5e5),
             'tmin': q4(cal.tmin), 'tmax': q4(cal.tmax), 'potd': q4(pot), 'rows': 0, 'foreign': 0, 'out': [], **{c: q4(par[c]) for c in par}}
        if not exc:
            e.update(rows=len(r), foreign=int(sum(t not in sub.index for t in r.index)), out=q4(r.reindex(idx)))
        ev.append(e)
    return {'ev': ev}


def run(seed, lat, lon, n, via, miss, start):
    import melodist

    rng = np.random.RandomState(seed)
    tz = int(round(lon / 15))
    idx = pd.date_range(start, periods=n, freq='D')
    hidx = pd.date_range(start, periods=24 * n, freq='h')
    df = world.daily(idx, rng)
    sun = melodist.util.get_sun_times(idx, lon, lat, tz)
    pot = melodist.potential_radiation(hidx, lon, lat, tz)
    if via == 'supplied':
        pot = pd.Series(np.round(np.maximum(0, 500 * np.sin((hidx.hour - 6 + rng.uniform(-2, 2)) * np.pi / 12) + rng.normal(0, 60, 24 * n)), 2), index=hidx)
        pot[hidx.hour < 4] = 0.0
        pot[np.isin(hidx.date, [d.date() for d in idx[rng.rand(n) < 0.2]])] = 0.0
    given = pot
    if via == 'supplied' and seed % 3:  # potential radiation for more days than are to be disaggregated
        pad = [pd.Series(np.round(np.maximum(0, 400 * np.sin((np.arange(24 * k) % 24 - 6) * np.pi / 12)), 2), index=pd.date_range(f, periods=24 * k, freq='h'))
               for k, f in ((seed % 7, idx[0] - pd.Timedelta(days=seed % 7)), (seed % 5, idx[-1] + pd.Timedelta(days=1)))]
        given = pd.concat([pad[0], pot, pad[1]])
    pm = pot.resample('D').mean()
    df['glob'] = np.round(pm * rng.uniform(0, 1.3, n) * (1 + 2 * (seed % 3 == 0)), 3)
    df['ssd'] = np.round(sun.daylength * rng.uniform(0, 1, n) * (rng.rand(n) < 0.8), 2)
    # the temperature range stays positive also with the next day's minimum
    df['tmax'] = np.round(np.maximum(df.tmax, df.tmin.rolling(2).max().shift(-1).fillna(0)) + rng.uniform(0.5, 10, n), 2)
    if miss:
        for c in ('glob', 'ssd', 'tmin', 'tmax'):
            df.loc[rng.rand(n) < 0.15, c] = np.nan
    s = world.station(df, rng, lon=lon, lat=lat, tz=tz)
    g = s.statistics.glob
    for tab in (g.angstroem, g.bristcamp):
        tab[:] = np.round(tab.values.astype(float), 4)
    g.mean_course = g.mean_course.round(3)
    ang, bc, course = g.angstroem, g.bristcamp, g.mean_course
    if via == 'scalar':
        a, b, A, C = 0.21, 0.55, 0.7, 2.3
        ang = pd.DataFrame({'a': a, 'b': b}, index=range(1, 13))
        bc = pd.DataFrame({'a': A, 'c': C}, index=range(1, 13))
    ev = []
    for m in METHODS:
        if via == 'station':
            def f():
                s.disaggregate_radiation(method=m)
                return s.data_disagg.glob
        elif via == 'supplied':
            def f():
                s.disaggregate_radiation(method=m, pot_rad=given)
                return s.data_disagg.glob
        elif via == 'scalar':
            def f():
                return melodist.disaggregate_radiation(df, sun_times=sun, pot_rad=pot, method=m, angstr_a=a, angstr_b=b, bristcamp_a=A, bristcamp_c=C, mean_course=course)
        else:
            def f():
                return melodist.disaggregate_radiation(df, sun_times=sun, pot_rad=None if m == 'mean_course' else pot, method=m, angstr_a=ang.a, angstr_b=ang.b,
                                                       bristcamp_a=bc.a, bristcamp_c=bc.c, mean_course=course)
        r, exc = call(f)
        q4 = lambda x: qs(x, 1e4)  # noqa: E731
        ev.append({'op': 'rad', 'm': m, 'exc': exc, 'month': [int(x) for x in idx.month], 'pot': q4(pot), 'glob': q4(df.glob), 'ssd': q4(df.ssd),
                   'dlen': qs(sun.daylength, 5e5), 'tmin': q4(df.tmin), 'tmax': q4(df.tmax), 'a': q4(ang.a), 'b': q4(ang.b), 'A': q4(bc.a), 'C': q4(bc.c),
                   'course': [q4(np.asarray(course)[:, k]) for k in range(12)] if m == 'mean_course' else [], 'out': [] if exc else q4(r)})
    ev.append({'op': 'rejected', 'exc': call(melodist.disaggregate_radiation, df, sun_times=sun, pot_rad=pot, method='nonsense')[1]})
    return {'ev': ev}
