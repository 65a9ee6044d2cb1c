"""C01: time axes"""
import json
import os

import numpy as np
import pandas as pd

import casc
import world
from kit import call


def axis(index, step='h'):
    """maximal runs of consecutive steps as [y, m, d, h, n]; anything irregular starts a run of its own"""
    index = pd.DatetimeIndex(index)
    dt = pd.Timedelta('1h') if step == 'h' else pd.Timedelta('5min')
    runs = []
    prev = None
    for ts in index:
        if prev is not None and ts - prev == dt:
            runs[-1][4] += 1
        else:
            h = ts.hour if (ts.minute, ts.second, ts.microsecond) == (0, 0, 0) else -1
            runs.append([ts.year, ts.month, ts.day, h, 1])
        prev = ts
    return runs


def gen():
    pats = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'gen-CalendarMC.json')))
    return sorted(p['listed'] for p in pats if p['listed'][-1] == p['cur'])


def scenarios(tier, rng):
    pats = gen()
    out = []
    for i, p in enumerate(pats):
        out.append(('station-%d' % i, 'station', dict(days=p, seed=i, part=i, freq=bool(i % 2))))
        out.append(('direct-%d' % i, 'direct', dict(days=p, seed=i, part=i)))
    for i, p in enumerate(pats):
        out.append(('index-%d' % i, 'index', dict(days=p, level=9 + i % 3 if i % 4 == 0 else 0)))
    # longer series
    for i in range(24 if tier == 'thorough' else 6):
        idx = pd.date_range('%d-%02d-%02d' % (rng.randint(1896, 2104), rng.randint(1, 13), rng.randint(1, 29)), periods=int(rng.randint(30, 420)), freq='D')
        keep = rng.rand(len(idx)) < [0.97, 1.1][i % 2]
        keep[0] = keep[-1] = True
        d = [[t.year, t.month, t.day] for t in idx[keep]]
        out.append(('station-long-%d' % i, 'station', dict(days=d, seed=1000 + i, part=i, freq=True)))
        out.append(('direct-long-%d' % i, 'direct', dict(days=d, seed=1000 + i, part=i)))
        out.append(('index-long-%d' % i, 'index', dict(days=d, level=0)))
    # few days far apart, and blocks of absent days
    for i in range(12 if tier == 'thorough' else 4):
        idx = pd.date_range('%d-%02d-%02d' % (rng.randint(1950, 2040), rng.randint(1, 13), rng.randint(1, 29)), periods=int(rng.randint(150, 600)), freq='D')
        keep = np.ones(len(idx), bool)
        for _ in range(1 + i % 3):
            a = int(rng.randint(2, len(idx) - 60))
            keep[a:a + int(rng.randint(20, 58))] = False
        if i % 4 == 3:
            keep = rng.rand(len(idx)) < 0.03
        keep[0] = keep[-1] = True
        d = [[t.year, t.month, t.day] for t in idx[keep]]
        out.append(('station-block-%d' % i, 'station', dict(days=d, seed=2000 + i, part=i, freq=True)))
        out.append(('direct-block-%d' % i, 'direct', dict(days=d, seed=2000 + i, part=i)))
        out.append(('index-block-%d' % i, 'index', dict(days=d, level=0)))
    # a single absent day in a year
    for i in range(2):
        idx = pd.date_range(['2015-02-10', '2016-09-03'][i], periods=330, freq='D').delete([[17], [328]][i])
        out.append(('index-year-%d' % i, 'index', dict(days=[[t.year, t.month, t.day] for t in idx], level=0)))
    return out


def pick(part, n=9):
    return [c for k, c in enumerate(world.CALLS) if (k + part) % max(1, len(world.CALLS) // n) == 0]


def station(days, seed, part, freq):
    import melodist

    rng = np.random.RandomState(seed)
    idx = pd.DatetimeIndex(['%d-%02d-%02d' % tuple(d) for d in days])
    df = world.daily(idx, rng)
    s, exc = call(world.station, df, rng)
    e = {'op': 'assign', 'days': days, 'exc': exc, 'axis': [], 'cols': [], 'filled': []}
    ev = [e]
    if exc:
        return ev
    e['axis'] = axis(s.data_disagg.index)
    e['cols'] = [str(c) for c in s.data_disagg.columns]
    e['filled'] = [str(c) for c in s.data_disagg.columns if s.data_disagg[c].notna().any()]
    for var, method, kw in pick(part):
        if var == 'precipitation' and method == 'cascade' and len(s.data_daily) < 2:
            continue  # a single day cannot be disaggregated by the cascade
        before = s.data_disagg.copy()
        if var == 'humidity' and before.temp.isnull().all():
            call(s.disaggregate_temperature, method='sine_min_max')
            before = s.data_disagg.copy()
        _, exc = call(world.run_station, s, var, method, kw)
        f = s.data_disagg
        ev.append({'op': 'fill', 'var': world.COLUMN[var], 'm': method, 'exc': exc, 'axis': axis(f.index), 'cols': [str(c) for c in f.columns],
                   'changed': [str(c) for c in f.columns if c in before and len(f) == len(before) and not np.array_equal(f[c].values, before[c].values, equal_nan=True)],
                   'filled': [str(c) for c in f.columns if f[c].notna().any()]})
    return ev


def direct(days, seed, part):
    rng = np.random.RandomState(seed)
    idx = pd.DatetimeIndex(['%d-%02d-%02d' % tuple(d) for d in days])
    df = world.daily(idx, rng)
    s = world.station(df, rng)
    ev = []
    for var, method, kw in pick(part):
        if var == 'precipitation' and method == 'cascade' and len(df) < 2:
            continue
        r, exc = call(world.run_direct, s, df, var, method, kw)
        ev.append({'op': 'direct', 'fn': var + '/' + method, 'days': days, 'exc': exc, 'axis': [] if exc else axis(r.index)})
    if 2 <= len(df) < 6 and part % 6 == 0:
        import melodist

        L = [9, 10, 11][part // 6 % 3]
        r, exc = call(melodist.disagg_prec_cascade, df.precip, casc.random_stats(rng, L), hourly=False, level=L)
        ev.append({'op': 'direct5', 'days': days, 'exc': exc, 'axis': [] if exc else axis(r.index, '5')})
    if not ev:
        r, exc = call(world.run_direct, s, df, 'wind', 'equal', {})
        ev.append({'op': 'direct', 'fn': 'wind/equal', 'days': days, 'exc': exc, 'axis': [] if exc else axis(r.index)})
    return ev


def index(days, level):
    """the index helpers, with and without the absent days"""
    import melodist

    idx = pd.DatetimeIndex(['%d-%02d-%02d' % tuple(d) for d in days])
    ev = []
    for fill in (False, True):
        r, exc = call(melodist.util.hourly_index, idx, fill_gaps=fill)
        ev.append({'op': 'index', 'per': 24, 'fill': fill, 'days': days, 'exc': exc, 'axis': [] if exc else axis(r)})
        if (len(days) < 30 or len(days) == 329) and hasattr(melodist.precipitation, 'fmin_index'):
            r, exc = call(melodist.precipitation.fmin_index, idx, fill_gaps=fill)
            ev.append({'op': 'index', 'per': 288, 'fill': fill, 'days': days, 'exc': exc, 'axis': [] if exc else axis(r, '5')})
        if level and hasattr(melodist.precipitation, 'sub_level_index'):
            r, exc = call(melodist.precipitation.sub_level_index, idx, fill_gaps=fill, **({} if level == 9 and len(days) % 2 else dict(level=level)))
            e = {'op': 'sublevel', 'level': level, 'fill': fill, 'days': days, 'exc': exc, 'rows': []}
            if not exc:
                for ts in r:
                    d = [ts.year, ts.month, ts.day]
                    if not e['rows'] or e['rows'][-1][0] != d:
                        e['rows'].append([d, []])
                    e['rows'][-1][1].append(3600 * ts.hour + 60 * ts.minute + ts.second)
            ev.append(e)
    return ev
