"""replay of station histories: every operation of the specification on real objects

The expected contents named by the tokens of the specification are produced by fresh
objects that have seen nothing but the inputs of the token.
"""
import copy
import io
import json
import os
import tempfile

import numpy as np
import pandas as pd

import kit
import world

import melodist  # noqa: E402  (kit puts the repository on the path)

LON = {0: None, 1: 8.86, 2: 25.4}
LAT = {0: None, 1: 51.0, 2: 38.2}
TZ = {0: None, 1: 1, 2: 3}
SCALE = 1e9
SEED = 4711


def make_daily(v):
    return make_daily_memo(v).copy()


def make_obs(v):
    return make_obs_memo(v).copy()


def new_daily(v):
    if v == 1:
        return world.daily(pd.date_range('2016-03-29', periods=6, freq='D'), np.random.RandomState(11))
    df = world.daily(pd.date_range('2016-04-03', periods=7, freq='D'), np.random.RandomState(12))
    return df[df.index != pd.Timestamp('2016-04-06')]    # a gap, hence no frequency


def new_obs(v):
    rng = np.random.RandomState(100 + v)
    idx = pd.date_range('2016-03-19' if v == 1 else '2016-03-23', periods=24 * (25 if v == 1 else 19), freq='h')
    h = np.asarray(idx.hour)
    d = np.asarray(idx.dayofyear)
    df = pd.DataFrame(index=idx)
    df['temp'] = np.round(278 + 5 * v + 4 * np.cos(2 * np.pi * (h - 13 - v) / 24) + 3 * np.sin(d / 2.0) + rng.normal(0, 0.4, len(idx)), 2)
    df['hum'] = np.round(70 - 4 * v - 15 * np.cos(2 * np.pi * (h - 15) / 24) + rng.normal(0, 3, len(idx)), 1)
    df['wind'] = np.round(np.maximum(0, 3 + v + np.cos(2 * np.pi * (h - 15 + v) / 24) + rng.normal(0, 0.5, len(idx))), 2)
    wet = np.zeros(len(idx), dtype=bool)
    for i in range(1, len(idx)):
        wet[i] = rng.rand() < (0.75 if wet[i - 1] else 0.08 + 0.04 * v)
    wet &= (d % 4 != 0)
    df['precip'] = np.round(rng.gamma(0.7, 1.5, len(idx)) * wet + 0.1 * wet, 1)
    cloud = np.repeat(rng.uniform(0.3, 0.9, len(idx) // 24), 24)
    df['glob'] = np.round(np.maximum(0, -np.cos(2 * np.pi * h / 24)) * 700 * cloud, 1)
    return df


_memo = {}


def memo(f):
    def g(*a):
        k = (f.__name__, json.dumps(a, sort_keys=True))
        if k not in _memo:
            _memo[k] = f(*a)
        return _memo[k]
    return g


@memo
def make_daily_memo(v):
    return new_daily(v)


@memo
def make_obs_memo(v):
    return new_obs(v)


# ------------------------------------------------------------------ fresh objects
CALL = {
    'sine_fix': ('temperature', 'sine_min_max', dict(min_max_time='fix')),
    'sine_night': ('temperature', 'sine_min_max', dict(min_max_time='fix', mod_nighttime=True)),
    'sine_mean_sun': ('temperature', 'sine_mean', dict(min_max_time='sun_loc')),
    'sine_shift': ('temperature', 'sine_min_max', dict(min_max_time='sun_loc_shift')),
    'course_min_max': ('temperature', 'mean_course_min_max', {}),
    'course_mean': ('temperature', 'mean_course_mean', {}),
    'minimal': ('humidity', 'minimal', {}),
    'minimal_keep': ('humidity', 'minimal', dict(preserve_daily_mean=True)),
    'regression': ('humidity', 'dewpoint_regression', {}),
    'linear': ('humidity', 'linear_dewpoint_variation', {}),
    'min_max': ('humidity', 'min_max', {}),
    'category': ('humidity', 'month_hour_precip_mean', {}),
    'cosine': ('wind', 'cosine', {}),
    'random': ('wind', 'random', {}),
    'pot_rad': ('radiation', 'pot_rad', {}),
    'via_ssd': ('radiation', 'pot_rad_via_ssd', {}),
    'via_bc': ('radiation', 'pot_rad_via_bc', {}),
    'course': ('radiation', 'mean_course', {}),
    'cascade': ('precipitation', 'cascade', {}),
    'master': ('precipitation', 'masterstation', {}),
}
LONG = dict(temp='temperature', hum='humidity', wind='wind', glob='radiation', precip='precipitation')
COLS = ('temp', 'hum', 'wind', 'glob', 'precip')


def disaggregate(s, var, m, hand):
    name, method, kw = CALL[m] if m != 'equal' else (LONG[var], 'equal', {})
    kw = dict(kw)
    if m == 'master':
        kw['master_precip'] = hand(world.master_for(s.data_disagg.index))
    np.random.seed(SEED)
    getattr(s, 'disaggregate_' + name)(method=method, **kw)


def calibrate(stats, g, hand, daily=None, day_length=None):
    if g == 'temp':
        stats.calc_temperature_stats()
    elif g == 'hum':
        stats.calc_humidity_stats()
    elif g == 'wind':
        stats.calc_wind_stats()
    elif g == 'precip':
        stats.calc_precipitation_stats()
    elif g == 'seasons':
        stats.calc_precipitation_stats(months=hand([[3], [4, 5]]), avg_stats=False)
    elif g == 'rad':
        stats.calc_radiation_stats()
    else:
        stats.calc_radiation_stats(hand(daily), hand(day_length))


MONTHS, HOURS, AB, AC = pd.Index(range(1, 13)), pd.Index(range(24)), pd.Index(['a', 'b']), pd.Index(['a', 'c'])
CELLS = pd.MultiIndex.from_product([range(1, 13), range(24), [False, True]])


def plain(x):
    """cascade statistics (one per season, or per season and level) as nested plain data"""
    if x is None or isinstance(x, (int, float, str, np.ndarray)):
        return x
    if isinstance(x, (list, tuple)):
        return [plain(c) for c in x]
    return {k: plain(v) for k, v in sorted(vars(x).items())}


def groups(stats):
    """the parameters of a statistics object as plain data, by group of the specification"""
    def table(x, rows, cols=None):
        if x is None:
            return None
        if not x.index.equals(rows) or (cols is not None and not x.columns.equals(cols)):
            x = x.reindex(rows) if cols is None else x.reindex(index=rows, columns=cols)
        return np.asarray(x, dtype=float)

    p = stats.precip
    return dict(
        temp=[table(stats.temp.max_delta, MONTHS), table(stats.temp.mean_course, HOURS, MONTHS)],
        hum=[stats.hum.a0, stats.hum.a1, stats.hum.kr, table(stats.hum.month_hour_precip_mean, CELLS)],
        wind=[stats.wind.a, stats.wind.b, stats.wind.t_shift],
        precip=[None if p.months is None else [[int(x) for x in m] for m in p.months],
                plain(p.stats)],
        gm=[table(stats.glob.mean_course, HOURS, MONTHS)],
        ga=[table(stats.glob.angstroem, MONTHS, AB), table(stats.glob.bristcamp, MONTHS, AC)],
    )


def diff(a, b):
    """largest difference of two nested structures; infinite when they differ in shape or in what is missing"""
    if a is None or b is None:
        return 0.0 if a is None and b is None else np.inf
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return np.inf
        return max([0.0] + [diff(a[k], b[k]) for k in a])
    if isinstance(a, str) or isinstance(b, str):
        return 0.0 if a == b else np.inf
    if isinstance(a, (list, tuple)) and any(x is None or isinstance(x, (dict, list, tuple, np.ndarray)) for x in a):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return np.inf
        return max([0.0] + [diff(x, y) for x, y in zip(a, b)])
    x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if x.shape != y.shape or not np.array_equal(np.isnan(x), np.isnan(y)):
        return np.inf
    ok = ~np.isnan(x) & (x != y)
    return float(np.max(np.abs(x[ok] - y[ok]))) if ok.any() else 0.0


def qdiff(a, b):
    """in 1e-9, 0 only for identical contents"""
    d = diff(a, b)
    return 0 if d == 0 else max(1, kit.q(d, SCALE))


def frame_diff(a, b):
    if a is None or b is None:
        return 0.0 if a is None and b is None else np.inf
    if not isinstance(b, type(a)) or not a.index.equals(b.index):
        return np.inf
    if isinstance(a, pd.DataFrame) and list(a.columns) != list(b.columns):
        return np.inf
    return diff(a.values.astype(float), b.values.astype(float))


def same(x):
    return x


@memo
def fresh_group(tok, which):
    """contents of one group of statistics"""
    if tok['m'] == 'none':
        return copy.deepcopy(groups(melodist.StationStatistics())[which]), None
    lon, lat, tz = tok.get('loc', (1, 1, 1))
    s = melodist.StationStatistics(make_obs(tok['obs']), lon=LON[lon], lat=LAT[lat], timezone=TZ[tz])
    daily = sun = None
    if tok['m'] == 'radfit':
        d = fresh_daily(tok['d'])
        daily, sun = d.data_daily, melodist.util.get_sun_times(d.data_daily.index, LON[lon], LAT[lat], TZ[tz]).daylength
    calibrate(s, tok['m'], same, daily, sun)
    return copy.deepcopy(groups(s)[which]), s


@memo
def fresh_daily(v):
    return melodist.Station(data_daily=make_daily(v))


STATVAR = dict(temp=('temp',), hum=('hum',), wind=('wind',), precip=('precip',), gm=('glob', 'mean_course'), ga=('glob', 'angstroem', 'bristcamp'))


@memo
def fresh_column(var, tok):
    lon, lat, tz = tok.get('loc', (1, 1, 1))
    s = melodist.Station(id=9, name='fresh', lon=LON[lon], lat=LAT[lat], timezone=TZ[tz], data_daily=make_daily(tok['d']))
    if 's' in tok and tok['s']['m'] != 'none':
        which = {'temp': 'temp', 'hum': 'hum', 'wind': 'wind', 'precip': 'precip'}.get(var, 'gm' if tok['m'] == 'course' else 'ga')
        src = fresh_group(tok['s'], which)[1]
        for name in ('temp', 'hum', 'wind', 'precip', 'glob'):
            if STATVAR[which][0] == name:
                getattr(s.statistics, name).update(copy.deepcopy(dict(getattr(src, name))))
    if 'u' in tok and tok['u']['m'] != 'none':
        s.data_disagg['temp'] = fresh_column('temp', tok['u'])
    disaggregate(s, var, tok['m'], same)
    return s.data_disagg[var].copy()


@memo
def fresh_sun(tok):
    lon, lat, tz = tok['loc']
    return melodist.util.get_sun_times(fresh_daily(tok['d']).data_daily.index, LON[lon], LAT[lat], TZ[tz])


# ------------------------------------------------------------------ rejected calls
def rejected(s, k, hand):
    d = make_daily(1)

    def assign(x):
        s.data_daily = hand(x)

    def stats(x):
        s.statistics = x

    def obs(x):
        s.statistics.data = hand(x)

    def text(c):  # words instead of numbers in the last month: a calibration that fails half-way
        return d.assign(**{c: d[c].astype(object).where(d.index.month != d.index[-1].month, 'calm')})

    cel = d.copy()
    cel[['tmin', 'tmax']] -= 273.15
    num = d.reset_index(drop=True)
    twice = pd.concat([d.iloc[:2], d.iloc[1:]])
    hourly = pd.DataFrame({'precip': 1.0}, index=pd.date_range('2016-03-29', periods=48, freq='h'))
    half = pd.DataFrame({'precip': 1.0}, index=pd.date_range('2016-03-29', periods=48, freq='30min'))
    {
        1: lambda: s.disaggregate_wind(method='x'),
        2: lambda: s.disaggregate_humidity(method='x'),
        3: lambda: s.disaggregate_temperature(method='x'),
        4: lambda: s.disaggregate_radiation(method='x'),
        5: lambda: s.disaggregate_precipitation(method='x'),
        6: lambda: s.disaggregate_temperature(method='sine_max', min_max_time='sun_loc'),
        7: lambda: s.disaggregate_precipitation(method='masterstation'),
        8: lambda: assign(None),
        9: lambda: assign(d.precip),
        10: lambda: assign(cel),
        11: lambda: assign(num),
        12: lambda: assign(d.iloc[::-1]),
        13: lambda: assign(twice),
        14: lambda: assign(hourly),
        15: lambda: assign(d.iloc[:0]),
        16: lambda: stats(3),
        17: lambda: stats(None),
        18: lambda: obs(d),
        19: lambda: obs(None),
        20: lambda: s.statistics.calc_radiation_stats(hand(d), how='x'),
        21: lambda: s.statistics.calc_radiation_stats(hand(text('ssd')), hand(pd.Series(12.0, index=d.index)), how='monthly'),
        22: lambda: obs(half),
        23: lambda: s.statistics.calc_radiation_stats(hand(text('tmin')), hand(pd.Series(12.0, index=d.index)), how='seasonal'),
        24: lambda: s.statistics.calc_radiation_stats(hand(text('tmax').drop(columns='ssd')), how='monthly'),
    }[k]()


def overwrite(x):
    """the caller changes everything inside a station in place"""
    if x is None or isinstance(x, (int, float, str, bool)):
        return
    if isinstance(x, melodist.Station):
        for y in (x.data_daily, x.data_disagg, x.sun_times, x.statistics):
            overwrite(y)
        x.id = x.name = 'changed'
    elif isinstance(x, melodist.StationStatistics):
        for y in (x.data, x.temp, x.hum, x.wind, x.precip, x.glob):
            overwrite(y)
    elif isinstance(x, pd.DataFrame):
        for i in range(x.shape[1]):
            x.iloc[:, i] = 444.5
    elif isinstance(x, pd.Series):
        x.iloc[:] = 444.5
    elif isinstance(x, np.ndarray):
        x[...] = 4
    elif isinstance(x, dict):
        for k in x:
            overwrite(x[k])
            if isinstance(x[k], (int, float)):
                x[k] = 4.5
    elif isinstance(x, list):
        for i, y in enumerate(x):
            overwrite(y)
            if isinstance(y, (int, float)):
                x[i] = 4
    elif hasattr(x, '__dict__'):
        overwrite(vars(x))


# ------------------------------------------------------------------ replay
class World:
    def __init__(self):
        self.s = [melodist.Station(id=1, name='a', lon=LON[1], lat=LAT[1], timezone=TZ[1]), None]
        self.spare = melodist.StationStatistics()
        self.handed = []      # objects of the caller with a copy of their contents

    def hand(self, x):
        if isinstance(x, (pd.DataFrame, pd.Series)):
            self.handed.append([x, x.copy(deep=True)])
        elif isinstance(x, (list, dict)):
            self.handed.append([x, copy.deepcopy(x)])
        return x

    def changed(self):
        n = 0
        for x, was in self.handed:
            if isinstance(x, (pd.DataFrame, pd.Series)):
                n += not (x.equals(was) and x.index.equals(was.index) and x.index.freq == was.index.freq
                          if isinstance(x.index, pd.DatetimeIndex) else x.equals(was))
            else:
                n += x != was
        return int(n)

    def scribble(self):
        """the caller goes on using the frames for something else"""
        for x, _ in self.handed:
            if isinstance(x, pd.DataFrame) and len(x) > 3:
                x.iloc[:, :] = 333.25
                x.index = x.index + pd.Timedelta(days=700) if isinstance(x.index, pd.DatetimeIndex) else x.index
                x.drop(columns=x.columns[0], inplace=True)
            elif isinstance(x, pd.Series):
                x.iloc[:] = 333.25
        self.handed = []

    def do(self, o):
        k = o['who'] - 1
        s = self.s[k]
        op = o['op']
        extra = {}
        if op == 'daily':
            s.data_daily = self.hand(make_daily(o['v']))
        elif op == 'lon':
            s.lon = LON[o['v']]
        elif op == 'lat':
            s.lat = LAT[o['v']]
        elif op == 'tz':
            s.timezone = TZ[o['v']]
        elif op == 'stats':
            # the second one comes from somewhere else
            kw = {} if o['v'] == 1 else dict(lon=-60.5, lat=10.0, timezone=-4)
            s.statistics = melodist.StationStatistics(self.hand(make_obs(o['v'])), **kw)
        elif op == 'obs':
            s.statistics.data = self.hand(make_obs(o['v']))
        elif op == 'swap':
            old = s.statistics
            s.statistics = self.spare
            self.spare = old
        elif op == 'cal':
            daily = s.data_daily
            sun = None
            if o['g'] == 'radfit':
                daily = daily.copy()
                sun = s.sun_times.daylength.copy()
            calibrate(s.statistics, o['g'], self.hand, daily, sun)
        elif op == 'dis':
            disaggregate(s, o['var'], o['m'], self.hand)
        elif op == 'interpolate':
            s.interpolate(self.hand({'tmin': 7, 'tmax': 14, 'hum': 12}))
        elif op == 'json':
            s.statistics.to_json()
        elif op == 'reload':
            tmp = tempfile.mkdtemp(dir=os.environ['VERIF_WORK'])
            f = os.path.join(tmp, 's.json')
            try:
                s.statistics.to_json(f)
                new = melodist.StationStatistics.from_json(f)
                a, b = json.load(open(f)), json.loads(new.to_json())
            finally:
                if os.path.exists(f):
                    os.remove(f)
                os.rmdir(tmp)
            s.statistics = new
            extra['resaved'] = kit.q(diff(a, b), SCALE)
        elif op == 'copy':
            self.s[1] = copy.deepcopy(s)
        elif op == 'scribble':
            self.scribble()
        elif op == 'edit':
            overwrite(s)
            # the season list a caller hands in stays the one the statistics hold
            self.handed = [h for h in self.handed if not isinstance(h[0], list)]
        elif op == 'bad':
            rejected(s, o['v'], self.hand)
        return extra

    def observe(self, w):
        """how far everything is from what the specification says it should be"""
        def stats(t, st):
            g = groups(st)
            r = {n: qdiff(fresh_group(t[n], n)[0], g[n]) for n in g}
            r['obs'] = kit.q(frame_diff(make_obs_memo(t['obs']) if t['obs'] else None, st.data), SCALE)
            return r

        out = []
        for k in (0, 1) if w['has2'] else (0,):
            if w['gone'][k]:
                out.append({})
                continue
            t, s = w['s'][k], self.s[k]
            d = {}
            for c in COLS:
                if t['daily'] == 0:
                    want = None
                elif t['col'][c]['m'] == 'none':
                    want = pd.Series(np.nan, index=melodist.util.hourly_index(fresh_daily(t['daily']).data_daily.index))
                else:
                    want = fresh_column(c, t['col'][c])
                d[c] = kit.q(frame_diff(want, None if s.data_disagg is None else s.data_disagg[c]), SCALE)
            sun = None if t['daily'] == 0 or 0 in t['loc'] else fresh_sun(dict(d=t['daily'], loc=t['loc']))
            out.append(dict(
                col=d,
                cols=0 if t['daily'] == 0 or sorted(s.data_disagg.columns) == sorted(COLS) else 1,
                daily=kit.q(frame_diff(fresh_daily(t['daily']).data_daily if t['daily'] else None, s.data_daily), SCALE),
                sun=kit.q(frame_diff(sun, s.sun_times), SCALE),
                loc=int((s.lon, s.lat, s.timezone) != (LON[t['loc'][0]], LAT[t['loc'][1]], TZ[t['loc'][2]])),
                st=stats(t['st'], s.statistics)))
        return dict(s=out, spare=stats(w['spare'], self.spare))


def replay(steps):
    x = World()
    ev = []
    for h in steps:
        r, exc = kit.call(x.do, h['o'])
        e = dict(op='step', o=h['o'], exc=exc, w=h['w'], changed=x.changed())
        e.update(r or {})
        e['see'] = x.observe(h['w'])
        ev.append(e)
    return ev


def read(name):
    return json.load(open(os.path.join(os.environ['VERIF_WORK'], 'hist-%s.json' % name)))
