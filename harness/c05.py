"""C05: estimated cascade statistics"""
import numpy as np
import pandas as pd

import casc
from kit import call, q

U = 0.125  # mm per unit: exactly representable, so sums and comparisons are exact


def synth(rng, n, wet=(1, 60), dry=(1, 90), miss=0.0):
    """alternating wet and dry spells of very different lengths, in units"""
    v = []
    while len(v) < n:
        k = int(np.exp(rng.uniform(np.log(wet[0]), np.log(wet[1]))))
        s = np.exp(rng.uniform(0, 4))
        v += [int(x) for x in np.ceil(rng.gamma(0.8, s, k)) * (rng.rand(k) < 0.85)]
        v += [0] * int(np.exp(rng.uniform(np.log(dry[0]), np.log(dry[1]))))
    v = np.array(v[:n], float)
    v[rng.rand(n) < miss] = np.nan
    if np.nansum(v[:n // 2]) == 0:  # every level needs a wet box
        v[0] = 5
    return v


def frame(v, start, freq):
    return pd.DataFrame({'precip': np.asarray(v, float) * U}, index=pd.date_range(start, periods=len(v), freq=freq))


def scenarios(tier, rng):
    out = []
    big = tier == 'thorough'
    for i in range(60 if big else 22):
        n = int(rng.choice([64, 65, 70, 95, 127, 129, 200, 333])) if i % 3 == 0 else int(rng.randint(900, 2600))
        miss = 0.08 if i % 4 == 1 else 0.0
        out.append(('est-%d' % i, 'est', dict(seed=int(rng.randint(1 << 30)), n=n, miss=miss, perc=[50, 50, 25, 75, 0, 100, 12.5, 87.5, 37.5, 62.5][i % 10],
                                           avg=bool(i % 2), hourly=True, level=9, via=['direct', 'stats', 'direct'][i % 3], repeat=bool(i % 5 == 2))))
    for i in range(9 if big else 3):
        nl = [9, 10, 11][i % 3]
        out.append(('est5-%d' % nl, 'est', dict(seed=int(rng.randint(1 << 30)), n=2 ** (nl + 1) + 37, miss=0.02, perc=[62.5, 75, 25][i % 3], avg=bool((i // 3 + i) % 2), hourly=False, level=nl,
                                             via='direct', repeat=False)))
    # few wet boxes in few classes: fallbacks
    for i in range(12 if big else 6):
        out.append(('sparse-%d' % i, 'est', dict(seed=int(rng.randint(1 << 30)), n=400 + i, miss=0.0, perc=50, avg=bool(i % 2), hourly=True, level=9, via='direct', repeat=False,
                                              sparse=1 + 2 * i)))
    # hour-long showers: some classes without divided boxes -> uniform weights
    for i in range(12 if big else 5):
        out.append(('showers-%d' % i, 'est', dict(seed=int(rng.randint(1 << 30)), n=1800 + i, miss=0.0, perc=50, avg=bool(i % 2), hourly=True, level=9, via='direct', repeat=False,
                                               showers=True)))
    return out


def table_event(op, s, **kw):
    e = {'op': op, 'tab': casc.tab({'p01': s.p01, 'p10': s.p10, 'pxx': s.pxx, 'wxx': s.wxx}),
         'thr': [q(x, 1000 / U) for x in np.ravel(s.threshold)], 'perc': q(s.percentile, 10)}
    e.update(kw)
    return e


def season_events(res, exc, months, nl, avg):
    ev = []
    for k, m in enumerate(months):
        ev.append({'op': 'season', 'months': [int(x) for x in m], 'levels': nl, 'exc': exc})
        if exc:
            break
        s = res[k]
        if avg:
            ev += [{'op': 'level', 'rec': 0} for _ in range(nl)]
            ev.append(table_event('avg', s))
        else:
            if len(s) != nl:
                ev.append({'op': 'number of levels'})
            else:
                ev += [table_event('level', x, rec=1) for x in s]
    return ev


def est(seed, n, miss, perc, avg, hourly, level, via, repeat, sparse=0, showers=False):
    import melodist

    rng = np.random.RandomState(seed)
    if sparse:
        v = np.zeros(n)
        pos = rng.choice(n // 32 * 32, sparse, replace=False)
        v[pos] = rng.randint(1, 50, sparse)
    elif showers:
        # pairs at the finest level are never both wet in some classes
        v = np.zeros(n)
        i = 0
        while i < n:
            k = 2 * rng.randint(1, 8) - 1
            for j in range(i, min(n, i + k), 2):
                v[j] = rng.randint(1, 60)
            i += k + rng.randint(1, 90)
    elif hourly:
        v = synth(rng, n, miss=miss)
    else:
        v = synth(rng, n, wet=(1, 700), dry=(1, 700), miss=miss)
    df = frame(v, '2013-11-20' if hourly else '2013-12-30 05:00', 'h' if hourly else '5min')
    nl = 5 if hourly else level
    months = [list(range(1, 13))]

    def f():
        if via == 'stats':
            st = melodist.StationStatistics(df)
            st.calc_precipitation_stats(avg_stats=avg, percentile=perc)
            return st.precip.stats
        return melodist.build_casc(df, hourly=hourly, level=level, avg_stats=avg, percentile=perc)

    res, exc = call(f)
    ev = season_events(res, exc, months, nl, avg)
    if repeat:
        res, exc = call(f)
        ev += season_events(res, exc, months, nl, avg)
    return {'ev': ev, 'perc': q(perc, 10), 'obs': [q(x) for x in v], 'month': [int(m) for m in df.index.month]}
