"""C12: wind"""
import numpy as np
import pandas as pd

import world
from kit import Draws, call, qs


def scenarios(tier, rng):
    big = tier == 'thorough'
    out = []
    for k in range(120 if big else 30):
        out.append(('wind-%d' % k, 'run', dict(seed=int(rng.randint(1 << 30)), n=int(rng.choice([1, 2, 6, 50])), via=['station', 'direct'][k % 2], miss=k % 3 == 2, start=world.first_day(rng))))
    for k in range(4 if big else 1):
        out.append(('years-%d' % k, 'run', dict(seed=int(rng.randint(1 << 30)), n=int(rng.randint(740, 1100)), via=['station', 'direct'][k % 2], miss=k % 3 == 2, start=world.YEARS[rng.randint(6)])))
    # draws at the edges of the unit interval
    for k, v in enumerate([[0.0], [1 - 2.0**-53], [2.0**-53], [0.0, 1 - 2.0**-53, 0.5], [1e-300], [1 - 1e-12, 0.0]]):
        out.append(('edge-%d' % k, 'edge', dict(draws=v)))
    for k in range(8 if big else 3):
        out.append(('sample-%d' % k, 'sample', dict(seed=int(rng.randint(1 << 30)))))
    return out


def disagg(s, via, m, par):
    import melodist

    if via == 'station':
        s.statistics.wind.update(**par)
        s.disaggregate_wind(method=m)
        return s.data_disagg.wind.values
    return np.asarray(melodist.disaggregate_wind(s.data_daily.wind, method=m, **par))


def run(seed, n, via, miss, start):
    rng = np.random.RandomState(seed)
    df = world.daily(pd.date_range(start, periods=n, freq='D'), rng)
    df.loc[rng.rand(n) < 0.2, 'wind'] = 0.0
    df.loc[rng.rand(n) < 0.1, 'wind'] = 60.0
    if miss:
        df.loc[rng.rand(n) < 0.3, 'wind'] = np.nan
    s = world.station(df, rng)
    ev = []
    for _ in range(3):
        p = dict(a=float(np.round(rng.uniform(-1.2, 1.2), 4)), b=float(np.round(rng.uniform(0.7, 1.3), 4)), t_shift=float(np.round(rng.uniform(-24, 30), 4)))
        for m in ('equal', 'cosine', 'random'):
            r, exc = call(disagg, s, via, m, p)
            ev.append({'op': m, 'exc': exc, 'wind': qs(df.wind, 1e4), 'a': int(round(p['a'] * 1e4)), 'b': int(round(p['b'] * 1e4)),
                       'shift': int(round(p['t_shift'] * 1e4)), 'out': [] if exc else qs(r, 1e4)})
    ev.append({'op': 'rejected', 'exc': call(disagg, s, via, 'nonsense', p)[1]})
    return {'ev': ev}


def edge(draws):
    import melodist

    w = pd.Series([3.2, 0.0, np.nan, 11.0], index=pd.date_range('2011-02-27', periods=4, freq='D'))
    with Draws(draws):
        r, exc = call(melodist.disaggregate_wind, w, method='random')
    return [{'op': 'random', 'exc': exc, 'wind': qs(w, 1e4), 'out': [] if exc else qs(r, 1e4)}]


def sample(seed):
    import melodist

    np.random.seed(seed)
    n = 1250
    w = pd.Series(np.random.uniform(2, 20, n), index=pd.date_range('2011-02-27', periods=n, freq='D'))
    r, exc = call(melodist.disaggregate_wind, w, method='random')
    f = [] if exc else qs(np.asarray(r) / np.repeat(w.values, 24), 1e6)
    return [{'op': 'sample', 'exc': exc, 'wind': [0] * n, 'out': f}]
