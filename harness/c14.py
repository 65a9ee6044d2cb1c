"""C14: calibration of the radiation models"""
import numpy as np
import pandas as pd

import world
from kit import call, qs

HOW = ('all', 'seasonal', 'monthly')


def scenarios(tier, rng):
    out = []
    k = 0
    for rep in range(5 if tier == 'thorough' else 1):
        for how in HOW:
            for cols in ('both', 'ssd', 'temp', 'none', 'nolength', 'tminonly'):
                k += 1
                out.append(('fit-%s-%s-%d' % (how, cols, rep), 'fit', dict(seed=int(rng.randint(1 << 30)), how=how, cols=cols, miss=k % 3 == 0,
                                                                      lat=float(np.round(rng.uniform(-55, 55), 2)), years=1 + (k % 5 == 0))))
            # polar nights, and series that do not cover all months
            out.append(('polar-%s-%d' % (how, rep), 'fit', dict(seed=int(rng.randint(1 << 30)), how=how, cols='both', miss=bool(rep % 2), lat=float(np.round(rng.choice([-1, 1]) * rng.uniform(66, 84), 2)), years=1)))
            out.append(('short-%s-%d' % (how, rep), 'fit', dict(seed=int(rng.randint(1 << 30)), how=how, cols='both', miss=bool(rep % 2), lat=float(np.round(rng.uniform(-70, 70), 2)), years=0)))
        out.append(('nodaily-%d' % rep, 'fit', dict(seed=int(rng.randint(1 << 30)), how='all', cols='nodaily', miss=False, lat=40.0, years=1)))
        out.append(('again-%d' % rep, 'again', dict(seed=int(rng.randint(1 << 30)))))
    return out


def data(seed, miss, lat, years, few=False):
    import melodist

    rng = np.random.RandomState(seed)
    lon, tz = float(np.round(rng.uniform(-170, 170), 2)), 0
    tz = int(round(lon / 15))
    start = pd.Timestamp(world.first_day(rng))
    idx = pd.date_range(start, periods=366 * years or int(rng.randint(40, 130)), freq='D')
    hidx = pd.date_range(start, periods=24 * len(idx), freq='h')
    pot = melodist.potential_radiation(hidx, lon, lat, tz)
    sun = melodist.util.get_sun_times(idx, lon, lat, tz)
    df = world.daily(idx, rng)
    n = len(idx)
    df['tmax'] = np.round(np.maximum(df.tmax, df.tmin.rolling(2).max().shift(-1).fillna(0)) + rng.uniform(0.5, 10, n), 2)
    share = rng.uniform(0, 1, n) * (rng.rand(n) < 0.85)    # some days without sunshine
    share[rng.rand(n) < 0.05] = 1.0
    df['ssd'] = np.round(sun.daylength * share, 2)
    # every month has its own relation of sunshine and radiation
    a = rng.uniform(0.1, 0.35, 13)[idx.month]
    b = rng.uniform(0.3, 0.6, 13)[idx.month]
    tr = np.clip(a * np.where(share == 0, 0.5, 1) + b * share + rng.normal(0, 0.05, n), 0.02, 0.95)
    obs = pd.Series(np.round(pot.values * np.repeat(tr, 24), 3), index=hidx)
    if few:  # a month with few days
        few = (idx.month == 1 + seed % 12) & ((idx.day < 9) | (idx.day > 9 + 3 + seed % 3))
        df.loc[few, ['ssd', 'tmin', 'tmax']] = np.nan
    if miss:
        for c in ('ssd', 'tmin', 'tmax'):
            df.loc[rng.rand(n) < 0.07, c] = np.nan
        d = np.repeat(rng.rand(n) < 0.07, 24)
        obs[d] = np.nan
    return lon, tz, df, sun, pot, obs


def observe(s):
    g = s.glob
    return {'fa': qs(g.angstroem.a, 1e6), 'fb': qs(g.angstroem.b, 1e6), 'fA': qs(g.bristcamp.a, 1e6), 'fC': qs(g.bristcamp.c, 1e6)}


def one(s, df, sun, pot, obs, how, cols):
    before = observe(s)
    d = df.drop(columns={'ssd': ['tmin', 'tmax'], 'temp': ['ssd'], 'none': ['ssd', 'tmin', 'tmax'], 'tminonly': ['tmax', 'ssd']}.get(cols, []))
    kw = dict(how=how)
    if cols != 'nodaily':
        kw['data_daily'] = d
        if cols != 'nolength':
            kw['day_length'] = sun.daylength
    r, exc = call(s.calc_radiation_stats, **kw)
    e = {'op': 'fit', 'exc': exc, 'how': how, 'hasSsd': int(cols in ('both', 'ssd')), 'hasT': int(cols in ('both', 'temp', 'nolength')),
         'month': [int(x) for x in df.index.month], 'ssd': qs(df.ssd, 1e4), 'dlen': qs(sun.daylength, 5e5), 'tmin': qs(df.tmin, 1e4), 'tmax': qs(df.tmax, 1e4),
         'potd': qs(pot.resample('D').mean(), 1e4), 'obs': qs(obs.resample('D').mean(), 1e4)}
    e.update(observe(s))
    e.update({'d' + k[1]: v for k, v in before.items()})
    return e


def make(lon, lat, tz, obs):
    import melodist

    s = melodist.StationStatistics(data=pd.DataFrame({'glob': obs}), lon=lon, lat=lat, timezone=tz)
    return s


def fit(seed, how, cols, miss, lat, years):
    lon, tz, df, sun, pot, obs = data(seed, miss, lat, years, how != 'all' and years > 0)
    s = make(lon, lat, tz, obs)
    return {'ev': [one(s, df, sun, pot, obs, how, cols)]}


def again(seed):
    """several calibrations of one object: only models with data change"""
    lon, tz, df, sun, pot, obs = data(seed, True, 48.0, 1)
    s = make(lon, 48.0, tz, obs)
    return {'ev': [one(s, df, sun, pot, obs, h, c) for h, c in (('monthly', 'ssd'), ('all', 'temp'), ('seasonal', 'none'), ('seasonal', 'both'), ('all', 'nolength'))]}
