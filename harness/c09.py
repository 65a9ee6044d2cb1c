"""C09: polar nights"""
import json
import os

import numpy as np
import pandas as pd

import world
from c07 import event
from kit import call  # noqa: F401


def scenarios(tier, rng):
    pats = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'gen-PolarMC.json')))
    pats = [p for p in pats if any(p['pol'])]
    if tier == 'quick':
        pats = [pats[i] for i in rng.permutation(len(pats))[:600]]
    out = [('pattern-%d' % k, 'pattern', dict(pats=pats[k:k + 60])) for k in range(0, len(pats), 60)]
    for k in range(48 if tier == 'thorough' else 12):
        south = bool(rng.randint(2))
        lat = float(np.round(rng.uniform(66.3, 82), 2)) * (-1 if south else 1)
        lon = float(np.round(rng.uniform(-170, 170), 2))
        n = int(rng.choice([60, 130, 200]))
        start = pd.Timestamp('2012-%s-01' % ('04' if south else '10')) + pd.Timedelta(days=int(rng.randint(0, 80)))
        out.append(('site-%d' % k, 'site', dict(lat=lat, lon=lon, tz=int(round(lon / 15)), start=str(start)[:10], n=n, seed=int(rng.randint(1 << 30)), miss=k % 3 == 2)))
    for k in range(60 if tier == 'thorough' else 16):
        out.append(('spells-%d' % k, 'spells', dict(seed=int(rng.randint(1 << 30)), miss=k % 3 == 2)))
    return out


def pattern(pats):
    """patterns of polar and normal days enumerated by TLC"""
    import melodist

    ev = []
    for p in pats:
        n = len(p['pol'])
        idx = pd.date_range('2016-12-30', periods=n, freq='D')
        tmin = np.array(p['tmin']) / 1e4
        df = pd.DataFrame({'tmin': tmin, 'tmax': tmin + 6, 'temp': tmin + 3}, index=idx)
        sun = pd.DataFrame({'sunrise': 10.0, 'sunnoon': 12.0, 'daylength': [1.0 if x else 4.0 for x in p['pol']]}, index=idx)
        ev.append(event(df, sun, None, None, 'sine_min_max', 'sun_loc', False, lambda: melodist.disaggregate_temperature(
            df, method='sine_min_max', min_max_time='sun_loc', sun_times=sun), op='polar'))
    return {'ev': ev}


def hide(df, pol, rng):
    """missing days inside the spells (not next to the normal days that join them)"""
    n = len(df)
    ok = [d for d in range(n) if all(pol[x] for x in range(max(0, d - 1), min(n, d + 2)))]
    for d in ok:
        if rng.rand() < 0.2:
            df.loc[df.index[d], rng.choice(['tmin', 'tmax'])] = np.nan


def untie(df):
    """two days whose averages are equal but for the rounding of their sums have no defined trend"""
    lo, hi = df.tmin.values.copy(), df.tmax.values.copy()
    for d in range(1, len(df)):
        while abs(lo[d] + hi[d] - lo[d - 1] - hi[d - 1]) < 1e-6 and (lo[d], hi[d]) != (lo[d - 1], hi[d - 1]):
            hi[d] = np.round(hi[d] + 0.01, 2)
    df['tmax'] = hi


VARIANTS = [('sine_min_max', 'sun_loc', False), ('sine_min_max', 'fix', False), ('sine_min_max', 'sun_loc_shift', True), ('sine_mean', 'sun_loc', False)]


def site(lat, lon, tz, start, n, seed, miss):
    import melodist

    rng = np.random.RandomState(seed)
    idx = pd.date_range(start, periods=n, freq='D')
    df = world.daily(idx, rng)
    untie(df)
    sun = melodist.util.get_sun_times(idx, lon, lat, tz)
    if miss:
        hide(df, np.asarray(sun.daylength < 3), rng)
    s = world.station(df, rng, lon=lon, lat=lat, tz=tz)
    ev = []
    for m, mmt, night in VARIANTS:
        def f():
            s.disaggregate_temperature(method=m, min_max_time=mmt, mod_nighttime=night)
            return s.data_disagg.temp

        ev.append(event(df, sun, s.statistics.temp.max_delta, None, m, mmt, night, f, op='polar'))
    return {'ev': ev}


def spells(seed, miss):
    """several short spells, hours of sunrise and noon moving from day to day"""
    import melodist

    rng = np.random.RandomState(seed)
    n = int(rng.randint(3, 30))
    idx = pd.date_range('2013-12-2%d' % rng.randint(10), periods=n, freq='D')
    df = world.daily(idx, rng)
    untie(df)
    pol = np.repeat(rng.rand(n) < 0.5, rng.randint(1, 4, n))[:n]
    sun = pd.DataFrame(index=idx)
    sun['sunrise'] = np.round(rng.uniform(7, 11.4, n), 2)
    sun['sunnoon'] = np.round(rng.uniform(11.6, 13.4, n), 2)
    sun['daylength'] = np.where(pol, rng.choice([0, 2.99], n), rng.choice([3.0, 3.01, 8], n))
    if miss:
        hide(df, pol, rng)
    delta = pd.Series(rng.uniform(-1, 4, 12), index=range(1, 13))
    ev = []
    for m, mmt, night in VARIANTS:
        ev.append(event(df, sun, delta, None, m, mmt, night, lambda: melodist.disaggregate_temperature(
            df, method=m, min_max_time=mmt, mod_nighttime=night, sun_times=sun, max_delta=delta), op='polar'))
    return {'ev': ev}
