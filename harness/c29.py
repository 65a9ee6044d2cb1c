"""C29: unknown days as missing values and as absent rows"""
import json
import os

import numpy as np
import pandas as pd

import hist
import world
from kit import call, qs


def scenarios(tier, rng):
    gen = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'gen-AbsenceMC.json')))
    kinds = sorted(k['kind'] for k in gen if 'absent' in k['kind'])
    if len(kinds) > 900:
        kinds = [kinds[i] for i in sorted(rng.permutation(len(kinds))[:900])]
    out = []
    for i, k in enumerate(kinds):
        out.append(('days-%d' % i, 'days', dict(kind=k, seed=i, start=['2016-02-26', '2015-12-29', '2014-06-28'][i % 3], part=i)))
    for i in range(40 if tier == 'thorough' else 8):
        n = int(rng.randint(20, 80)) if i % 8 else int(rng.randint(400, 500))
        kind = [str(x) for x in rng.choice(['value', 'missing', 'absent'], n, p=[0.8, 0.08, 0.12])]
        kind[0] = kind[0].replace('absent', 'missing')
        kind[-1] = kind[-1].replace('absent', 'missing')
        kind[n // 2] = 'absent'
        out.append(('days-long-%d' % i, 'days', dict(kind=kind, seed=1000 + i, start='2015-11-%02d' % rng.randint(1, 29) if i % 3 else world.first_day(rng), part=i)))
    for i in range(40 if tier == 'thorough' else 12):
        out.append(('obs-%d' % i, 'obs', dict(seed=int(rng.randint(1 << 30)), how=['hours', 'days', 'night', 'half'][i % 4])))
    return out


def days(kind, seed, start, part):
    n = len(kind)
    rng = np.random.RandomState(seed)
    idx = pd.date_range(start, periods=n, freq='D')
    full = world.daily(idx, rng)
    full['tmax'] = np.maximum(full.tmax, full.tmin.rolling(2).max().shift(-1).fillna(0) + 0.5).round(2)
    full[[k != 'value' for k in kind]] = np.nan
    gap = full[[k != 'absent' for k in kind]]
    s = world.station(world.daily(idx, rng), rng)
    ev = []
    for k, (var, method, kw) in enumerate(world.CALLS):
        # random methods, and methods that connect listed days (not claimed)
        if method in ('random', 'cascade', 'linear_dewpoint_variation') or (k + part) % 3:
            continue
        a, e0 = call(world.run_direct, s, full, var, method, kw)
        b, e1 = call(world.run_direct, s, gap, var, method, kw)
        ev.append({'op': 'days', 'm': var + ' ' + method, 'per': 24, 'exc0': e0, 'exc': e1, 'base': [] if e0 else qs(a, 1e4), 'out': [] if e1 else qs(b, 1e4)})

        def station():
            z = world.station(gap, np.random.RandomState(5))
            if var == 'humidity':
                z.data_disagg['temp'] = pd.Series(280 + 5 * np.cos((np.asarray(z.data_disagg.index.hour) - 14) / 4.0), index=z.data_disagg.index)
            world.run_station(z, var, method, kw)
            return z.data_disagg[world.COLUMN[var]]

        if part % 5 == 0:
            s2 = world.station(gap, np.random.RandomState(5))
            a, e0 = call(world.run_direct, s2, full, var, method, kw)
            b, e1 = call(station)
            # a station adds the rows itself
            ev.append({'op': 'summary', 'm': 'station ' + var + ' ' + method, 'tol': 2, 'exc0': e0, 'exc': e1, 'base': [] if e0 else qs(a, 1e4), 'out': [] if e1 else qs(b, 1e4)})
    return {'kind': kind, 'ev': ev}


def obs(seed, how):
    import melodist

    rng = np.random.RandomState(seed)
    full = hist.make_obs(1 + seed % 2)
    n = len(full)
    day = np.arange(n) // 24
    if how == 'hours':
        lost = rng.rand(n) < 0.1
    elif how == 'days':
        lost = (rng.rand(day.max() + 1) < 0.15)[day]
    elif how == 'night':
        lost = (np.asarray(full.index.hour) < 5) & (rng.rand(day.max() + 1) < 0.5)[day]
    else:
        lost = (np.asarray(full.index.hour) >= 12) & (rng.rand(day.max() + 1) < 0.3)[day]
    lost[:24] = lost[-24:] = False
    full.loc[lost] = np.nan
    gap = full[~lost]
    lon, lat, tz = 8.86, 51.0, 1
    u = melodist.util
    dd = u.daily_from_hourly(hist.make_obs(1 + seed % 2))
    sun = u.get_sun_times(dd.index, lon, lat, tz)

    def stats(x, f):
        s = melodist.StationStatistics(x, lon=lon, lat=lat, timezone=tz)
        return f(s)

    def temp(s):
        s.calc_temperature_stats()
        return np.concatenate([np.ravel(s.temp.max_delta), np.ravel(s.temp.mean_course)])

    def hum(s):
        s.calc_humidity_stats()
        # a category without observations: no entry or a missing value
        table = s.hum.month_hour_precip_mean.reindex(pd.MultiIndex.from_product([[2, 3, 4, 5], range(24), [False, True]])).values
        return np.concatenate([[s.hum.a0, s.hum.a1 * 100], table])

    def wind(s):
        s.calc_wind_stats()
        w = s.wind
        return [w.a * np.cos(np.pi * w.t_shift / 12), w.a * np.sin(np.pi * w.t_shift / 12), w.b]

    def rad(s):
        s.calc_radiation_stats(dd, sun.daylength)
        return np.concatenate([np.ravel(s.glob.angstroem), np.ravel(s.glob.bristcamp), np.ravel(s.glob.mean_course)])

    ev = []
    for name, f, sc, tol in (('temperature', temp, 1e4, 2), ('humidity', hum, 1e4, 2), ('wind', wind, 1e4, 5), ('radiation', rad, 1e4, 20)):
        a, e0 = call(stats, full, f)
        b, e1 = call(stats, gap, f)
        ev.append({'op': 'summary', 'm': name, 'tol': tol, 'exc0': e0, 'exc': e1, 'base': [] if e0 else qs(a, sc), 'out': [] if e1 else qs(b, sc)})
    a, e0 = call(u.daily_from_hourly, full)
    b, e1 = call(u.daily_from_hourly, gap)
    ev.append({'op': 'summary', 'm': 'aggregation', 'tol': 2, 'exc0': e0, 'exc': e1, 'base': [] if e0 else qs(a.values, 1e4), 'out': [] if e1 else qs(b.values, 1e4)})
    return {'kind': ['value'], 'ev': ev}
