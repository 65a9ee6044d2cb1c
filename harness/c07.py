"""C07, C08: temperature outside polar nights"""
import json
import os

import numpy as np
import pandas as pd

import world
from kit import call, qs

MMT = ('fix', 'sun_loc', 'sun_loc_shift')


def event(df, sun, delta, course, m, mmt, night, f, op='temp'):
    """run f() and record it with its inputs"""
    r, exc = call(f)
    mc = [] if course is None else [qs(np.asarray(course)[:, k], 1e6) for k in range(12)]
    z = np.zeros(len(df))
    return {'op': op, 'm': 'sine_min_max' if m == 'sine' else m, 'mmt': mmt, 'night': int(night), 'exc': exc,
            'month': [int(x) for x in df.index.month],
            'tmin': qs(df.tmin, 1e4), 'tmax': qs(df.tmax, 1e4), 'tmean': qs(df.temp, 1e4) if 'temp' in df else [],
            'sunrise': qs(z if sun is None else sun.sunrise, 1e4), 'noon': qs(z if sun is None else sun.sunnoon, 1e4),
            'dlen': qs(z + 12 if sun is None else sun.daylength, 1e4),
            'delta': [] if delta is None else qs(delta, 1e4), 'course': mc,
            'out': [] if exc else qs(r, 1e4)}


def special(df, rng, kind):
    n = len(df)
    if kind == 'celsius':
        df[['temp', 'tmin', 'tmax']] -= 273.15
    elif kind == 'cold':
        df[['temp', 'tmin', 'tmax']] -= 45
    elif kind == 'flat':
        df['tmax'] = df.tmin
        df['temp'] = df.tmin
    elif kind == 'jumpy':
        b = 273 + rng.uniform(-30, 30, n)
        w = rng.choice([0, 0.1, 5, 25], n)
        df['tmin'], df['tmax'], df['temp'] = b, b + w, b + w * rng.uniform(0, 1, n)
    elif kind == 'outside':  # means that do not lie between minimum and maximum
        df['temp'] = np.round(np.where(rng.rand(n) < 0.5, df.tmin - rng.uniform(0, 4, n), df.tmax + rng.uniform(0, 4, n)), 2)
    elif kind == 'missing':
        for c in ('temp', 'tmin', 'tmax'):
            df.loc[rng.rand(n) < 0.15, c] = np.nan
    elif kind == 'nomean':
        del df['temp']
    return df


METHODS = ['sine_min_max', 'sine', 'mean_course_min_max']


def scenarios(tier, rng, methods=METHODS):
    out = []
    n = 160 if tier == 'thorough' else 36
    for k in range(n):
        lat = float(np.round(rng.uniform(-63, 63), 3))
        lon = float(np.round(rng.uniform(-180, 180), 3))
        tz = int(round(lon / 15.0)) + int(rng.randint(-1, 2)) if k % 2 else int(np.ceil(lon / 15.0))
        kind = ['plain', 'cold', 'flat', 'jumpy', 'missing', 'nomean'][k % 6]
        if kind == 'nomean' and methods is not METHODS:
            kind = 'outside'
        start = world.first_day(rng)
        out.append(('site-%d-%s' % (k, kind), 'site', dict(lat=lat, lon=lon, tz=tz, kind=kind, start=start,
                                                      n=int(rng.choice([1, 2, 3, 12, 45])), seed=int(rng.randint(1 << 30)), methods=methods)))
    # several years: every day of the year, months that come again
    for k in range(6 if tier == 'thorough' else 2):
        out.append(('years-%d' % k, 'site', dict(lat=float(rng.uniform(-60, 60)), lon=10.0, tz=1, kind=['plain', 'missing'][k % 2], start=world.YEARS[rng.randint(6)],
                                                 n=int(rng.randint(740, 1100)), seed=int(rng.randint(1 << 30)), methods=methods, only=k)))
    # hours chosen freely through the sun times handed in
    for k in range(60 if tier == 'thorough' else 12):
        out.append(('times-%d' % k, 'times', dict(seed=int(rng.randint(1 << 30)), methods=methods)))
    if methods is METHODS:
        cfgs = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'gen-TemperatureMC.json')))
        for k in range(0, len(cfgs), 64):
            out.append(('replay-%d' % k, 'replay', dict(cfgs=cfgs[k:k + 64])))
    return out


def configs(methods):
    for m in methods:
        if m.startswith('sine'):
            for t in MMT:
                for n in (False, True) if m != 'sine_mean' else (False,):
                    yield m, dict(min_max_time=t, mod_nighttime=n)
        else:
            yield m, {}


def site(lat, lon, tz, kind, start, n, seed, methods, only=None):
    import melodist

    rng = np.random.RandomState(seed)
    idx = pd.date_range(start, periods=n, freq='D')
    df = special(world.daily(idx, rng), rng, kind)
    s = world.station(df, rng, lon=lon, lat=lat, tz=tz)
    sun = melodist.util.get_sun_times(idx, lon, lat, tz)
    ev = []
    cfgs = list(configs(methods))
    if only is not None:  # some of them, in turn
        cfgs = [c for i, c in enumerate(cfgs) if i % 4 == only % 4 or not c[1]]
    for m, kw in cfgs:
        # sunrise must precede noon by the clock for the hours to make sense
        if kw and kw['min_max_time'] != 'fix' and not (sun.sunrise < sun.sunnoon).all():
            continue

        def f():
            s.disaggregate_temperature(method=m, **kw)
            return s.data_disagg.temp

        ev.append(event(df, sun, s.statistics.temp.max_delta, s.statistics.temp.mean_course if not kw else None, m,
                        kw.get('min_max_time', ''), kw.get('mod_nighttime', False), f))
    return {'ev': ev}


def times(seed, methods):
    import melodist

    rng = np.random.RandomState(seed)
    n = int(rng.randint(2, 40))
    idx = pd.date_range('2015-11-20', periods=n, freq='D')
    df = special(world.daily(idx, rng), rng, rng.choice(['plain', 'jumpy', 'missing', 'celsius']))
    sun = pd.DataFrame(index=idx)
    sun['sunrise'] = rng.uniform(0.6, 11.4, n)
    sun['sunnoon'] = rng.uniform(11.6, 15.2, n)
    sun['daylength'] = 2 * (sun.sunnoon - sun.sunrise) + 3.1
    delta = pd.Series(rng.uniform(-6, 6, 12), index=range(1, 13))
    course = world.station(world.daily(idx, rng), rng).statistics.temp.mean_course
    ev = []
    for m, kw in configs(methods):
        d = dict(kw)
        if m.startswith('mean_course'):
            d['mean_course'] = course
        else:
            d.update(sun_times=sun, max_delta=delta)
        ev.append(event(df, sun, delta, course if m.startswith('mean_course') else None, m, kw.get('min_max_time', ''), kw.get('mod_nighttime', False),
                        lambda: melodist.disaggregate_temperature(df, method=m, **d)))
    if 'sine_min_max' in methods:
        # fixed hours need no sun times at all
        ev.append(event(df, None, None, None, 'sine_min_max', 'fix', False, lambda: melodist.disaggregate_temperature(df)))
    return {'ev': ev}


def replay(cfgs):
    """configurations enumerated by TLC from the design model"""
    import melodist

    ev = []
    for c in cfgs:
        n = len(c['tmin'])
        idx = pd.date_range('2016-02-28', periods=n, freq='D')
        df = pd.DataFrame({'tmin': np.array(c['tmin']) / 1e4, 'tmax': np.array(c['tmax']) / 1e4}, index=idx)
        sun = pd.DataFrame({'sunrise': float(c['m']), 'sunnoon': float(c['M'] - 2), 'daylength': 10.0}, index=idx)
        ev.append(event(df, sun, None, None, 'sine_min_max', 'sun_loc', c['night'], lambda: melodist.disaggregate_temperature(
            df, method='sine_min_max', min_max_time='sun_loc', mod_nighttime=c['night'], sun_times=sun)))
    return {'ev': ev}
