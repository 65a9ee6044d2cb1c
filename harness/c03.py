"""C03: missing daily values"""
import json
import os

import numpy as np
import pandas as pd

import world
from kit import call, qs

CALL = {
    'sine_min_max': ('temperature', 'sine_min_max', dict(min_max_time='fix')),
    'sine_min_max_night': ('temperature', 'sine_min_max', dict(min_max_time='fix', mod_nighttime=True)),
    'sine_mean': ('temperature', 'sine_mean', dict(min_max_time='fix')),
    'mean_course_min_max': ('temperature', 'mean_course_min_max', {}),
    'mean_course_mean': ('temperature', 'mean_course_mean', {}),
    'hum_equal': ('humidity', 'equal', {}),
    'hum_minimal': ('humidity', 'minimal', {}),
    'hum_regression': ('humidity', 'dewpoint_regression', {}),
    'hum_linear': ('humidity', 'linear_dewpoint_variation', {}),
    'hum_min_max': ('humidity', 'min_max', {}),
    'hum_category': ('humidity', 'month_hour_precip_mean', {}),
    'wind_equal': ('wind', 'equal', {}),
    'wind_cosine': ('wind', 'cosine', {}),
    'wind_random': ('wind', 'random', {}),
    'pot_rad': ('radiation', 'pot_rad', {}),
    'pot_rad_via_ssd': ('radiation', 'pot_rad_via_ssd', {}),
    'pot_rad_via_bc': ('radiation', 'pot_rad_via_bc', {}),
    'rad_mean_course': ('radiation', 'mean_course', {}),
}
COLS = ['temp', 'tmin', 'tmax', 'glob', 'ssd', 'hum', 'hum_min', 'hum_max', 'wind']
USES_TEMP = ('hum_minimal', 'hum_regression', 'hum_linear', 'hum_min_max')


def scenarios(tier, rng):
    pats = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'gen-MissingMC.json')))
    by = {}
    for p in pats:
        by.setdefault(p['m'], []).append(sorted(p['mask']))
    out = []
    for m in sorted(by):
        masks = sorted(by[m])
        for k in range(0, len(masks), 45):
            for via in ('station', 'direct'):
                if via == 'direct' and (k // 45) % 2:
                    continue
                out.append(('%s-%s-%d' % (m, via, k), 'run', dict(m=m, masks=masks[k:k + 45], n=4, start=['2016-02-27', '2015-12-30', '2014-07-03'][k // 45 % 3], seed=k, via=via)))
        # longer series, random masks, several months
        for k in range(6 if tier == 'thorough' else 1):
            n = int(rng.randint(35, 75))
            ms = []
            for _ in range(4):
                ms.append([[COLS[rng.randint(len(COLS))], int(rng.randint(1, n + 1))] for _ in range(rng.randint(1, 25))])
            for c in COLS:  # a whole column missing for a while
                if rng.rand() < 0.5:
                    a = int(rng.randint(1, n - 5))
                    ms.append([[c, d] for d in range(a, a + 5)])
            # hum_category ignores these columns, precip is not masked at random
            out.append(('%s-long-%d' % (m, k), 'run', dict(m=m, masks=ms, n=n, start='2015-12-%02d' % rng.randint(1, 29), seed=100 + k, via='station')))
        if tier == 'thorough' or rng.rand() < 0.4:  # several years
            n = int(rng.randint(740, 800))
            ms = [[[COLS[rng.randint(len(COLS))], int(rng.randint(1, n + 1))] for _ in range(60)] for _ in range(2)]
            out.append(('%s-years' % m, 'run', dict(m=m, masks=ms, n=n, start=['2015-12-05', '1999-03-01', '2037-11-11'][rng.randint(3)], seed=300, via='station')))
    return out


def run(m, masks, n, start, seed, via):
    rng = np.random.RandomState(seed)
    idx = pd.date_range(start, periods=n, freq='D')
    var, method, kw = CALL[m]
    full = world.daily(idx, rng)
    # the temperature range stays positive also with the next day's minimum
    full['tmax'] = np.maximum(full.tmax, full.tmin.rolling(2).max().shift(-1).fillna(0) + 0.5).round(2)
    hidx = pd.date_range(start, periods=24 * n, freq='h')
    temp = pd.Series(278 + 6 * np.cos((np.arange(24 * n) % 24 - 14) * np.pi / 12) + np.arange(24 * n) % 700 * 0.01, index=hidx)
    tnan = temp.copy()
    if n > 4:
        tnan[rng.rand(24 * n) < 0.05] = np.nan
    ref = world.station(full, np.random.RandomState(5))

    def once(df, t):
        def f():
            np.random.seed(4)
            if via == 'direct' and var != 'humidity':
                return world.run_direct(ref, df, var, method, kw)
            s = world.station(df, np.random.RandomState(5))
            if var == 'humidity':
                s.data_disagg['temp'] = t
            getattr(s, 'disaggregate_' + var)(method=method, **kw)
            return s.data_disagg[world.COLUMN[var]]

        r, exc = call(f)
        return ([] if exc else qs(r.values, 1e4)), exc

    base, exc0 = once(full, temp)
    tr = {'m': m, 'n': n, 'month': [int(x) for x in idx.month], 'base': base, 'hasT': int(m in USES_TEMP), 'ev': []}
    for mask in masks:
        df = full.copy()
        for c, d in mask:
            df.loc[idx[d - 1], c] = np.nan
        t = tnan if m in USES_TEMP else temp
        o, exc = once(df, t)
        if exc0:
            exc = exc0
        tr['ev'].append({'op': 'mask', 'mask': mask, 'exc': exc, 'out': o, 't': qs(t.values, 100) if m in USES_TEMP else []})
    return tr
