"""C27: parts of a series give the same hours as the whole"""
import json
import os

import numpy as np
import pandas as pd

import c03
import world
from kit import call, qs

MORE = {
    'sine_sun': ('temperature', 'sine_min_max', dict(min_max_time='sun_loc')),
    'sine_mean_sun': ('temperature', 'sine_mean', dict(min_max_time='sun_loc')),
    'sine_shift_night': ('temperature', 'sine_min_max', dict(min_max_time='sun_loc_shift', mod_nighttime=True)),
    'hum_kept': ('humidity', 'minimal', dict(preserve_daily_mean=True)),
    'precip_equal': ('precipitation', 'equal', {}),
    'precip_master': ('precipitation', 'masterstation', {}),
}
PLACES = [(8.86, 51.0, 1), (-71.3, -33.4, -4), (151.2, -8.0, 10)]


def scenarios(tier, rng):
    pats = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'gen-WindowMC.json')))
    by = {}
    for p in pats:
        by.setdefault(p['m'], []).append([p['a'], p['b']])
    n = max(b for v in by.values() for _, b in v)
    out = []
    for i, m in enumerate(sorted(by)):
        for k in range(3):
            out.append(('%s-all-%d' % (m, k), 'run', dict(m=m, n=n, wins=sorted(by[m]), start=['2016-02-27', '2015-12-30', '2014-06-29'][k], seed=k, lost=k == 1, place=(i + k) % 3)))
        for k in range(10 if tier == 'thorough' else 1):
            N = int(rng.randint(40, 130))
            wins = []
            for _ in range(6):
                a = int(rng.randint(1, N))
                wins.append([a, int(rng.randint(a, N + 1))])
            first = pd.Timestamp('2015-11-%02d' % rng.randint(1, 29))
            days = pd.date_range(first, periods=N)
            # windows of whole months
            for mm in sorted(set(days.month)):
                pos = np.flatnonzero(days.month == mm)
                wins.append([max(1, int(pos[0])), min(N, int(pos[-1]) + 2)])
            out.append(('%s-long-%d' % (m, k), 'run', dict(m=m, n=N, wins=wins, start=str(first.date()), seed=50 + k, lost=bool(k % 2), place=k % 3)))
        # several years: the same days of different years, leap days, turns of the year, a year cut off
        for k in range(3 if tier == 'thorough' else 1):
            N = int(rng.randint(740, 900))
            first = world.YEARS[rng.randint(6)]
            days = pd.date_range(first, periods=N)
            wins = [[int(rng.randint(360, 375)), N], [1, int(rng.randint(360, 375))]]
            for _ in range(3):
                a = int(rng.randint(2, 320))
                wins += [[a, a + 12], [a + 365, min(N, a + 365 + 12)]]
            for t in days[(days.day == 1) & np.isin(days.month, [1, 3])]:
                a = int((t - days[0]).days)
                wins.append([max(1, a - 2), min(N, a + 3)])
            out.append(('%s-years-%d' % (m, k), 'run', dict(m=m, n=N, wins=wins, start=first, seed=70 + k, lost=bool((i + k) % 2), place=(i + k) % 3)))
    return out


def run(m, n, wins, start, seed, lost, place):
    import melodist

    rng = np.random.RandomState(seed)
    idx = pd.date_range(start, periods=n, freq='D')
    lon, lat, tz = PLACES[place]
    full = world.daily(idx, rng)
    if lost:
        for c in full.columns:
            if c != 'precip':
                full.loc[rng.rand(n) < 0.1, c] = np.nan
    hidx = pd.date_range(start, periods=24 * n, freq='h')
    temp = pd.Series(278 + 6 * np.cos((np.arange(24 * n) % 24 - 14) * np.pi / 12) + np.arange(24 * n) % 700 * 0.01, index=hidx)
    other = pd.Series(np.round(rng.gamma(1, 1, 24 * n), 2), index=hidx)
    var, method, kw = c03.CALL[m] if m in c03.CALL else MORE.get(m, (None, None, None))

    def once(a, b):
        df = full.iloc[a - 1:b].copy()

        def f():
            if m == 'sun_times':
                return melodist.util.get_sun_times(df.index, lon, lat, tz).values.ravel()
            if m == 'potential':
                return melodist.potential_radiation(hidx[24 * (a - 1):24 * b], lon, lat, tz).values
            if m == 'aggregate':
                r = melodist.util.daily_from_hourly(pd.DataFrame(dict(temp=temp, precip=other, glob=other, hum=other, wind=other, ssd=other)).iloc[24 * (a - 1):24 * b])
                return r.values.ravel()
            s = world.station(df, np.random.RandomState(5), lon=lon, lat=lat, tz=tz)
            if var == 'humidity':
                s.data_disagg['temp'] = temp.iloc[24 * (a - 1):24 * b]
            world.run_station(s, var, method, kw)
            return s.data_disagg[world.COLUMN[var]].values

        r, exc = call(f)
        return ([] if exc else qs(r, 1e4)), exc

    base, exc0 = once(1, n)
    tr = {'m': m, 'n': n, 'per': len(base) // n, 'month': [int(x) for x in idx.month], 'base': base, 'ev': []}
    for a, b in wins:
        o, exc = once(a, b)
        tr['ev'].append({'op': 'window', 'a': a, 'b': b, 'exc': exc or exc0, 'out': o})
    return tr
