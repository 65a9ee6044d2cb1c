"""C10, C11: humidity"""
import numpy as np
import pandas as pd

import world
from kit import call, qs

DEW = ('minimal', 'dewpoint_regression', 'linear_dewpoint_variation')


def scenarios(tier, rng):
    out = []
    for k in range(120 if tier == 'thorough' else 30):
        out.append(('dew-%d' % k, 'run', dict(seed=int(rng.randint(1 << 30)), methods=DEW, via=['station', 'direct'][k % 2], keeps=(False,),
                                              n=int(rng.choice([1, 2, 5, 40])), level=float([0, -8, -30, 15, 38, -55][k % 6]), miss=k % 5 == 4)))
    for k in range(6 if tier == 'thorough' else 2):
        out.append(('years-%d' % k, 'run', dict(seed=int(rng.randint(1 << 30)), methods=DEW, via=['station', 'direct'][k % 2], keeps=(False,), n=int(rng.randint(740, 1000)),
                                                level=[0.0, 12.0][k % 2], miss=k % 3 == 2, start=world.YEARS[rng.randint(6)])))
    for k in range(40 if tier == 'thorough' else 10):
        out.append(('convert-%d' % k, 'convert', dict(seed=int(rng.randint(1 << 30)))))
    return out


def frame(rng, n, level, miss, start=None):
    start = start or world.first_day(rng)
    idx = pd.date_range(start, periods=n, freq='D')
    df = world.daily(idx, rng)
    # around `level` deg C, both sides of freezing where level is near 0
    base = 273.15 + level + rng.uniform(-6, 6, n)
    df['tmin'] = np.round(base - rng.uniform(0.5, 6, n), 2)
    df['tmax'] = np.round(base + rng.uniform(0.5, 6, n), 2)
    if n > 1:
        df.loc[idx[n // 2], ['tmin', 'tmax']] = [273.15, 277.4]
    hidx = pd.date_range(start, periods=24 * n, freq='h')
    lo, hi = np.repeat(df.tmin.values, 24), np.repeat(df.tmax.values, 24)
    w = (1 + np.cos((np.arange(24 * n) % 24 - 14) * np.pi / 12)) / 2 + rng.normal(0, 0.08, 24 * n)
    t = pd.Series(np.round(lo + (hi - lo) * w, 4), index=hidx)
    t[rng.rand(24 * n) < 0.02] = 273.15
    df.loc[rng.rand(n) < 0.25, 'precip'] = 0.03
    if rng.rand() < 0.5:  # bone-dry and saturated air, traces of rain and floods
        for c, v in (('hum', 100.0), ('hum', 0.0), ('hum', 3.5), ('hum_min', 0.0), ('hum_max', 100.0), ('precip', 0.0001), ('precip', 400.0), ('tmin', df.tmin.iloc[0])):
            df.loc[rng.rand(n) < 0.15, c] = v
        df['hum_max'] = np.maximum(df.hum_max, df.hum_min)
        df['tmin'] = np.minimum(df.tmin, df.tmax - 0.4)
    if miss:
        df.loc[rng.rand(n) < 0.15, 'precip'] = np.nan
        t[rng.rand(24 * n) < 0.1] = np.nan
        for c in ('tmin', 'tmax', 'hum', 'hum_min', 'hum_max'):
            df.loc[rng.rand(n) < 0.15, c] = np.nan
    return df, t


def event(df, t, m, keep, par, f):
    r, exc = call(f)
    tab = []
    if m == 'month_hour_precip_mean':
        x = par['month_hour_precip_mean']
        tab = [[[qs([x.loc[(mo, h, w)]], 1e4)[0] for w in (False, True)] for h in range(24)] for mo in range(1, 13)]
    none = [0] * len(df)
    return {'op': 'hum', 'm': m, 'keep': int(keep), 'exc': exc, 'month': [int(x) for x in df.index.month],
            'tmin': qs(df.tmin, 1e4), 'tmax': qs(df.tmax, 1e4), 'hum': qs(df.hum, 1e4) if 'hum' in df else none,
            'hmin': qs(df.hum_min, 1e4), 'hmax': qs(df.hum_max, 1e4), 'precip': qs(df.precip, 1e4), 't': qs(t, 1e4),
            'a0': int(round(par['a0'] * 1e4)), 'a1': int(round(par['a1'] * 1e4)), 'kr': int(par['kr']), 'table': tab,
            'out': [] if exc else qs(r, 1e4)}


def run(seed, methods, via, keeps, n, level, miss, start=None):
    import melodist

    rng = np.random.RandomState(seed)
    df, t = frame(rng, n, level, miss, start)
    s = world.station(df, rng)
    st = s.statistics.hum
    st.update(a1=float(np.round(rng.uniform(0.85, 1.1), 4)), kr=int(rng.choice([6, 12])))
    st.update(a0=float(np.round((273.15 + level) * (1 - st.a1) + rng.uniform(-4, 3), 4)))
    if seed % 2:  # categories of every humidity, or without one
        x = st.month_hour_precip_mean
        for v in (0.0, 100.0, 1.25, np.nan):
            x[rng.rand(len(x)) < 0.05] = v
    par = dict(st)
    ev = []
    for m in methods:
        for keep in keeps:
            if via == 'station':
                def f():
                    s.data_disagg['temp'] = t
                    s.disaggregate_humidity(method=m, preserve_daily_mean=keep)
                    return s.data_disagg.hum
            else:
                def f():
                    kw = dict(month_hour_precip_mean=par['month_hour_precip_mean']) if m == 'month_hour_precip_mean' else {}
                    if m in DEW:
                        kw.update(a0=par['a0'], a1=par['a1'], kr=par['kr'])
                    return melodist.disaggregate_humidity(df, method=m, temp=t, preserve_daily_mean=keep, **kw)
            ev.append(event(df, t, m, keep, par, f))
    if via == 'direct':
        for m, kw in (('linear_dewpoint_variation', dict(a0=1.0, a1=1.0, kr=7)), ('linear_dewpoint_variation', dict(a0=1.0, a1=1.0)),
                      ('dewpoint_regression', dict(a0=1.0)), ('nonsense', {})):
            ev.append({'op': 'rejected', 'exc': call(melodist.disaggregate_humidity, df, method=m, temp=t, **kw)[1]})
    return {'ev': ev}


def convert(seed):
    import melodist

    rng = np.random.RandomState(seed)
    n = 60
    t = np.round(273.15 + rng.uniform(-60, 60, n), 4)
    t[:3] = [273.15, 273.1499, 273.1501]
    h = np.round(np.exp(rng.uniform(np.log(0.5), np.log(100), n)) if rng.rand() < 0.5 else rng.uniform(1, 100, n), 2)
    h[rng.rand(n) < 0.2] = 100
    if rng.rand() < 0.5:
        t[10], h[11] = np.nan, np.nan
    idx = pd.date_range('2010-01-01', periods=n, freq='h')
    T, H = pd.Series(t, index=idx), pd.Series(h, index=idx)
    ev = []
    vp, exc1 = call(melodist.util.vapor_pressure, T, H)
    td, exc2 = call(melodist.util.dewpoint_temperature, T, H)
    ev.append({'op': 'convert', 'exc': exc1 or exc2, 't': qs(t, 1e4), 'hum': qs(h, 1e4),
               'vp': [] if exc1 else qs(np.asarray(vp) / 6.112, 1e6), 'td': [] if exc2 else qs(td, 1e4)})
    # scalar humidity: saturation
    vp, exc1 = call(melodist.util.vapor_pressure, T, 100)
    ev.append({'op': 'convert', 'exc': exc1, 't': qs(t, 1e4), 'hum': [1000000] * n,
               'vp': [] if exc1 else qs(np.asarray(vp) / 6.112, 1e6), 'td': qs(t, 1e4)})
    return {'ev': ev}
