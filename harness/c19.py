"""C19: statistics survive saving to and loading from JSON"""
import copy
import json
import os
import tempfile

import numpy as np
import pandas as pd

import hist
import kit
import world

import melodist

SEASONS = [None, [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]], [[5, 6, 7, 8, 9, 10], [11, 12, 1, 2, 3, 4]], [[m] for m in range(1, 13)], [[1, 2]]]


def scenarios(tier, rng):
    res = []
    for name in ('json', 'jsonlong'):
        for i, h in enumerate(hist.read(name)):
            res.append(('%s%d' % (name, i), 'run', dict(h=h)))
    n = 40 if tier == 'quick' else 400
    for k in range(n):
        res.append(('round%d' % k, 'around', dict(seed=int(rng.randint(1 << 30)), k=k)))
    return res


def run(h):
    return hist.replay(h)


def observations(rng, k):
    days = int([3, 15, 40, 100, 200, 366, 500][k % 7])
    idx = pd.date_range(pd.Timestamp('2015-01-01') + pd.Timedelta(days=int(rng.randint(365))), periods=24 * days, freq='h')
    if k % 5 == 2:     # the first month has a few hours only
        idx = idx[np.argmax(np.asarray(idx.month) != idx[0].month) - 9:] if (idx.month != idx[0].month).any() else idx[14:]
    h = np.asarray(idx.hour)
    n = len(idx)
    df = pd.DataFrame(index=idx)
    df['temp'] = np.round(280 + 5 * np.cos(2 * np.pi * (h - 14) / 24) + rng.normal(0, 2, n), 2)
    df['hum'] = np.round(np.clip(70 + rng.normal(0, 15, n), 5, 100), 1)
    df['wind'] = np.round(np.maximum(0, 3 + np.cos(2 * np.pi * (h - 15) / 24) + rng.normal(0, 1, n)), 2)
    wet = rng.rand(n) < 0.2
    if k % 3:
        wet = pd.Series(wet).rolling(4, min_periods=1).max().values > 0
    if k % 11 == 5:
        wet[:] = False
    df['precip'] = np.round(wet * rng.gamma(0.7, 1.5, n), 1)
    df['glob'] = np.round(np.maximum(0, -np.cos(2 * np.pi * h / 24)) * rng.uniform(100, 800, n), 1)
    if k % 6 in (3, 4, 5):  # a month whose readings are all missing
        for c in ('temp', 'glob', 'hum')[k % 2:]:
            df.loc[df.index.month == idx[n // 2].month, c] = np.nan
    if k % 4 == 3:
        for c in df.columns:
            df.loc[df.index[rng.rand(n) < 0.05], c] = np.nan
    return df


def around(seed, k):
    rng = np.random.RandomState(seed)
    obs = observations(rng, k)
    d = world.daily(pd.date_range(obs.index[0].normalize(), periods=min(len(obs) // 24, 40), freq='D'), rng)
    s = melodist.Station(id=1, name='x', lon=8.86, lat=51.0, timezone=1, data_daily=d)
    s.statistics = melodist.StationStatistics(obs)
    st = s.statistics
    done = []
    for g, p in (('temp', .7), ('hum', .7), ('wind', .7), ('precip', .8), ('rad', .5), ('fit', .5)):
        if rng.rand() > p or k == 0:
            continue
        done.append(g)
        if g == 'precip':
            kit.call(st.calc_precipitation_stats, months=copy.deepcopy(SEASONS[rng.randint(len(SEASONS))]), avg_stats=bool(rng.randint(2)),
                     percentile=[50, 50, 75, 90][rng.randint(4)])
        elif g == 'rad':
            kit.call(st.calc_radiation_stats)
        elif g == 'fit':
            if len(obs) < 24 * 366:
                how = ['all', 'seasonal'][rng.randint(2)]
                kit.call(st.calc_radiation_stats, d, s.sun_times.daylength, how=how)
            else:
                full = world.daily(pd.date_range(obs.index[0], periods=len(obs) // 24, freq='D'), rng)
                sun = melodist.util.get_sun_times(full.index, s.lon, s.lat, s.timezone)
                kit.call(st.calc_radiation_stats, full, sun.daylength, how=['all', 'seasonal', 'monthly'][rng.randint(3)])
        else:
            kit.call(getattr(st, dict(temp='calc_temperature_stats', hum='calc_humidity_stats', wind='calc_wind_stats')[g]))
    before = copy.deepcopy(hist.groups(st))
    tmp = tempfile.mkdtemp(dir=os.environ['VERIF_WORK'])
    f = os.path.join(tmp, 's.json')

    def go():
        st.to_json(f)
        return melodist.StationStatistics.from_json(f), json.load(open(f))

    try:
        r, exc = kit.call(go)
    finally:
        if os.path.exists(f):
            os.remove(f)
        os.rmdir(tmp)
    e = dict(op='round', exc=exc, done=' '.join(done))
    if exc:
        return [e]
    new, first = r
    a, b = hist.groups(st), hist.groups(new)
    e['st'] = {g: hist.qdiff(a[g], b[g]) for g in a}
    e['kept'] = kit.q(max(hist.diff(before[g], a[g]) for g in a), hist.SCALE)
    e['text'] = kit.q(hist.diff(first, json.loads(st.to_json())), hist.SCALE)
    e['resaved'] = kit.q(hist.diff(first, json.loads(new.to_json())), hist.SCALE)
    s2 = melodist.Station(id=2, name='y', lon=8.86, lat=51.0, timezone=1, data_daily=d)
    s2.statistics = new
    dis = []
    for var, m in (('temp', 'sine_shift'), ('temp', 'course_mean'), ('hum', 'regression'), ('hum', 'category'), ('wind', 'cosine'),
                   ('glob', 'via_ssd'), ('glob', 'via_bc'), ('glob', 'course'), ('precip', 'cascade')):
        r1 = kit.call(hist.disaggregate, s, var, m, hist.same)[1]
        r2 = kit.call(hist.disaggregate, s2, var, m, hist.same)[1]
        dis.append([r1, r2, kit.q(hist.frame_diff(s.data_disagg[var], s2.data_disagg[var]), hist.SCALE)])
    e['dis'] = dis
    return [e]
