"""C23: interpolation of daily readings"""
import json
import os

import numpy as np
import pandas as pd

from kit import NA, call, qs

OTHER = ('nearest', 'quadratic', 'cubic', 'zero', 'slinear', 'pchip', 'akima')
LINEAR = ('linear', 'time', 'index', 'values')    # the same on an hourly axis


def val(h, d):
    return (20000 + 5000 * ((3 * h + 5 * d) % 7)) / 1e4


def scenarios(tier, rng):
    big = tier == 'thorough'
    gen = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'gen-InterpMC.json')))
    cases = []
    for s in gen:
        c = s['c']
        hours = sorted(c['hours'])
        miss = {tuple(m) for m in c['missing']}
        col = [[float('nan') if (h, d) in miss else val(h, d) for d in (1, 2, 3)] for h in hours]
        cases.append(dict(hour=hours, col=col, limit=c['limit'], dir=c['dir'], start='2016-02-28', method='linear'))
    out = []
    for i in range(0, len(cases), 40):
        out.append(('enumerated-%d' % i, 'many', dict(cases=cases[i:i + 40])))
    for i in range(120 if big else 40):
        n = int(rng.randint(1, 9))
        k = int(rng.randint(1, 5))
        hour = [int(h) for h in rng.choice(24, k, replace=False)]
        col = np.round(rng.normal(15, 25, (k, n)), 2)
        col[rng.rand(k, n) < [0, 0.2, 0.6][i % 3]] = np.nan
        start = ['2015-12-29', '2016-02-27', '2014-03-29', '2019-06-30', '1899-12-30'][i % 5]
        c = dict(hour=hour, col=col.tolist(), limit=[24, None, int(rng.randint(1, 60)), 1, 5][i % 5], dir=['both', 'both', 'forward', 'backward'][i % 4], start=start, method=['linear', 'linear', 'time', 'index', 'linear', 'values'][i % 6], area=[None, None, 'inside', None, 'outside', None, None][i % 7])
        out.append(('linear-%d' % i, 'many', dict(cases=[c])))
    for i in range(6 if big else 2):  # longer than a year
        n, k = int(rng.randint(370, 430)), 2
        col = np.round(rng.normal(15, 25, (k, n)), 2)
        col[rng.rand(k, n) < 0.2] = np.nan
        out.append(('year-%d' % i, 'many', dict(cases=[dict(hour=[int(h) for h in rng.choice(24, k, replace=False)], col=col.tolist(), limit=[24, 7][i % 2], dir='both',
                                                            start=['2015-12-29', '2036-11-03'][i % 2], method='linear')])))
    for i in range(36 if big else 18):
        n, k = 6, 3
        col = np.round(rng.normal(15, 10, (k, n)), 2)
        col[rng.rand(k, n) < 0.15] = np.nan
        hour = [int(h) for h in rng.choice(24, k, replace=False)]
        out.append(('other-%d' % i, 'many', dict(cases=[dict(hour=hour, col=col.tolist(), limit=24, dir='both', start='2015-12-29', method=OTHER[i % len(OTHER)])])))
    for i, (hour, n) in enumerate([([0], 1), ([23], 1), ([0, 23], 2), (list(range(24)), 2), ([12], 40)]):
        col = np.round(rng.normal(280, 5, (len(hour), n)), 2).tolist()
        out.append(('shape-%d' % i, 'many', dict(cases=[dict(hour=hour, col=col, limit=24, dir='both', start='2015-12-30', method='linear', default=True)])))
    for i in range(6):  # the default limit with long stretches between readings
        col = np.round(rng.normal(280, 5, (1 + i % 2, 6)), 2)
        col[:, 1:4 + i % 2] = np.nan
        out.append(('default-%d' % i, 'many', dict(cases=[dict(hour=[int(rng.randint(12)), 13][:1 + i % 2], col=col.tolist(), limit=24, dir='both', start='2015-12-30', method='linear', default=True)])))
    # days absent from the assigned frame are missing readings
    for i in range(4):
        col = np.round(rng.normal(280, 5, (2, 7)), 2)
        col[:, [2, 4 - i % 2]] = np.nan
        out.append(('absent-%d' % i, 'many', dict(cases=[dict(hour=[6 + i, 17], col=col.tolist(), limit=[24, 6, None, 3][i], dir='both', start='2015-12-27', method='linear', absent=[2, 4 - i % 2])])))
    return out


def many(cases):
    return [one(**c) for c in cases]


def one(hour, col, limit, dir, start, method, default=False, absent=(), area=None):
    import melodist

    n = len(col[0])
    idx = pd.date_range(start, periods=n, freq='D')
    df = pd.DataFrame({'R%d' % h: c for h, c in zip(hour, col)}, index=idx)
    df = df.drop(df.index[list(absent)])
    s = melodist.Station(lon=8.86, lat=51.0, timezone=1, data_daily=df)
    kw = dict() if default else dict(method=method, limit=limit, limit_direction=dir)
    if area is not None:
        kw['limit_area'] = area
    res, exc = call(s.interpolate, {'R%d' % h: h for h in hour}, **kw)
    hidx = pd.DatetimeIndex([d + pd.Timedelta(hours=h) for d in idx for h in range(24)])
    return {'op': 'linear' if method in LINEAR else 'other', 'area': area or '', 'hour': hour, 'col': [qs(c, 1e4) for c in col], 'days': n, 'limit': 1000000 if limit is None else limit, 'dir': dir, 'exc': exc,
            'out': [] if exc else qs(res.values, 1e4), 'axis': int(exc == '' and len(res) == len(hidx) and bool((res.index == hidx).all()))}
