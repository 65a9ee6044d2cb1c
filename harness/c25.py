"""C25: daily values, hourly values and back"""
import numpy as np
import pandas as pd

import world
from kit import call, q, qs

CALL = {
    'sine_mean': ('temperature', 'sine_mean', {}),
    'mean_course_mean': ('temperature', 'mean_course_mean', {}),
    'mean_course_min_max': ('temperature', 'mean_course_min_max', {}),
    'sine_min_max': ('temperature', 'sine_min_max', {}),
    'hum_equal': ('humidity', 'equal', {}),
    'hum_kept': ('humidity', 'minimal', dict(preserve_daily_mean=True)),
    'wind_equal': ('wind', 'equal', {}),
    'wind_cosine': ('wind', 'cosine', {}),
    'pot_rad': ('radiation', 'pot_rad', {}),
    'rad_mean_course': ('radiation', 'mean_course', {}),
    'precip_equal': ('precipitation', 'equal', {}),
    'precip_cascade': ('precipitation', 'cascade', {}),
    'precip_master': ('precipitation', 'masterstation', {}),
}
STARTS = ['2016-02-26', '2015-12-20', '2014-06-28', '2011-10-25', '2000-02-20']


def scenarios(tier, rng):
    out = []
    for i in range(30 if tier == 'thorough' else 5):
        for m in CALL:
            kw = dict(CALL[m][2])
            if m in ('sine_mean', 'sine_min_max'):
                kw['min_max_time'] = ['fix', 'sun_loc', 'sun_loc_shift'][i % 3] if m == 'sine_mean' else 'fix'
                if m == 'sine_min_max':
                    kw['mod_nighttime'] = bool(i % 2)
            out.append(('%s-%d' % (m, i), 'cycle', dict(m=m, kw=kw, n=int([3, 7, 24, 45, 2][i % 5]) if i % 10 != 4 else 400, start=STARTS[i % 5] if i % 10 != 4 else world.YEARS[rng.randint(6)], seed=int(rng.randint(1 << 30)), lost=i % 2 == 1,
                                                      lat=[51.0, 38.2, -33.0, 60.0, 5.0][i % 5])))
    return out


def cycle(m, kw, n, start, seed, lost, lat):
    import melodist

    rng = np.random.RandomState(seed)
    var, method, _ = CALL[m]
    col = world.COLUMN[var]
    idx = pd.date_range(start, periods=n, freq='D')
    df = world.daily(idx, rng)
    if lost:
        for c in df.columns:
            df.loc[rng.rand(n) < 0.15, c] = np.nan
    if m == 'hum_kept':
        df['hum'] = df.hum.clip(40, 75)

    def run(d):
        s = world.station(d, np.random.RandomState(seed + 1), lat=lat)
        for x in s.statistics.precip.stats:  # no ties, which rounding of the sums would decide
            x.threshold = np.asarray(x.threshold) + 0.01234567
        np.random.seed(7)
        if var == 'humidity':
            s.disaggregate_temperature(method='sine_min_max')
        world.run_station(s, var, method, kw)
        return s

    def f():
        a = run(df)
        back = melodist.util.daily_from_hourly(a.data_disagg[[col]])
        d2 = df.copy()
        for c in back.columns:
            if c in d2:
                d2[c] = back[c]
        b = run(d2)
        return a, back, b

    r, exc = call(f)
    e = {'op': 'cycle', 'm': m, 'var': col, 'n': n, 'exc': exc, 'daily': {c: qs(df[c].values, 1e4) for c in df.columns}, 'hours': [], 'again': [], 'back': {}, 'b': 10000}
    if not exc:
        a, back, b = r
        e['hours'] = qs(a.data_disagg[col].values, 1e4)
        e['again'] = qs(b.data_disagg[col].values, 1e4)
        e['back'] = {c: qs(back[c].values, 1e4) for c in back.columns}
        e['b'] = q(a.statistics.wind.b, 1e4)
    return [e]
