"""C18: inputs are never modified, copies are independent, failures are clean"""
import copy
import os
import tempfile

import numpy as np
import pandas as pd

import hist
import kit
import world

import melodist


def scenarios(tier, rng):
    res = []
    for name in ('share', 'clone', 'isolate'):
        for i, h in enumerate(hist.read(name)):
            res.append(('%s%d' % (name, i), 'run', dict(h=h)))
    n = 4 if tier == 'quick' else 25
    for kind in ('plain', 'missing', 'gaps', 'polar', 'odd'):
        for k in range(n):
            res.append(('call-%s%d' % (kind, k), 'calls', dict(kind=kind, seed=int(rng.randint(1 << 30)))))
    for k in range(n):
        res.append(('util%d' % k, 'utils', dict(seed=int(rng.randint(1 << 30)), missing=k % 2 == 1)))
        res.append(('util-odd%d' % k, 'utils', dict(seed=int(rng.randint(1 << 30)), missing=k % 2 == 1, strange=True)))
    return res


def run(h):
    return hist.replay(h)


def snap(x):
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.copy(deep=True)
    return copy.deepcopy(x)


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (pd.DataFrame, pd.Series)):
        if not (a.index.equals(b.index) and a.equals(b) and getattr(a.index, 'freq', None) == getattr(b.index, 'freq', None)):
            return False
        return list(a.columns) == list(b.columns) if isinstance(a, pd.DataFrame) else a.name == b.name
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'))
    if isinstance(a, pd.Index):
        return a.equals(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if hasattr(a, '__dict__'):
        return equal(vars(a), vars(b))
    return a == b or (a != a and b != b)


def event(name, f, args, kw, valid=1):
    was = [snap(x) for x in args] + [snap(kw[k]) for k in kw]
    _, exc = kit.call(f, *args, **kw)
    now = list(args) + [kw[k] for k in kw]
    return dict(op='call', name=name, exc=exc, changed=sum(not equal(a, b) for a, b in zip(was, now)), valid=valid)


def odd(x, rng):
    """readings a function could be tempted to repair: faint, negative, too large"""
    for c in x.columns:
        v = x[c].to_numpy(dtype=float).copy()
        ok = np.flatnonzero(~np.isnan(v))
        for k, y in zip(rng.permutation(ok), (0.004, -0.5, 1e-7, 104.0, 0.0, -999.0, 3000.0) if c not in ('temp', 'tmin', 'tmax', 'tmean') else (210.0, 331.0, 273.15)):
            v[k] = y
        x[c] = v
    return x


def calls(kind, seed):
    """every disaggregation function on its own"""
    rng = np.random.RandomState(seed)
    lat = 51.0
    if kind == 'polar':
        lat = 69.3
        idx = pd.date_range('2016-01-10', periods=9, freq='D')
    else:
        idx = pd.date_range('2016-02-25', periods=8, freq='D')
    df = world.daily(idx, rng)
    if kind == 'missing':
        for c in df.columns:
            df.loc[df.index[rng.rand(len(df)) < 0.3], c] = np.nan
    s = world.station(world.daily(idx, rng), rng, lat=lat)
    if kind == 'gaps':
        df = df[df.index != df.index[3]]
    st = s.statistics
    hours = pd.DatetimeIndex([d + pd.Timedelta(hours=h) for d in df.index for h in range(24)])
    temp = pd.Series(280 + 5 * np.cos((np.asarray(hours.hour) - 14) / 4.0), index=hours)
    master = world.master_for(hours)
    sun = melodist.util.get_sun_times(df.index, s.lon, s.lat, s.timezone)
    pot = melodist.potential_radiation(hours, s.lon, s.lat, s.timezone)
    if kind == 'odd':
        df = odd(df, rng)
        temp, master, pot = (odd(x.to_frame(c), rng)[c] for x, c in ((temp, 'temp'), (master, 'precip'), (pot, 'glob')))
    valid = 1 if kind in ('plain', 'missing', 'gaps') else 2
    ev = []
    for var, method, kw in world.CALLS + [(v, 'x', {}) for v in world.COLUMN]:
        ok = 0 if method == 'x' else valid
        if var == 'temperature':
            a = dict(method=method, max_delta=st.temp.max_delta, mean_course=st.temp.mean_course, sun_times=sun, **kw)
            ev.append(event(method, melodist.disaggregate_temperature, [df], a, ok))
        elif var == 'humidity':
            ev.append(event(method, melodist.disaggregate_humidity, [df], dict(method=method, temp=temp, **st.hum, **kw), ok))
        elif var == 'wind':
            ev.append(event(method, melodist.disaggregate_wind, [df.wind], dict(method=method, **st.wind), ok))
        elif var == 'radiation':
            a = dict(sun_times=sun, pot_rad=pot, method=method, angstr_a=st.glob.angstroem.a, angstr_b=st.glob.angstroem.b,
                     bristcamp_a=st.glob.bristcamp.a, bristcamp_c=st.glob.bristcamp.c, mean_course=st.glob.mean_course)
            ev.append(event(method, melodist.disaggregate_radiation, [df], a, ok))
        elif method == 'equal':
            ev.append(event(method, melodist.disagg_prec, [df], dict(method='equal'), 2 if kind == 'gaps' else ok))
        elif method == 'cascade':
            for hourly in (True, False):
                ev.append(event(method, melodist.disagg_prec_cascade, [df.precip, st.precip.stats[0]], dict(hourly=hourly), ok if hourly else 2))
        elif method == 'masterstation':
            for zerodiv in ('uniform', 'zero'):
                ev.append(event(method, melodist.precip_master_station, [df.precip, master, zerodiv], {}, ok))
        else:
            c = st.precip.stats[0]
            ev.append(event('unknown method', melodist.disagg_prec, [df], dict(method=method, cascade_options=c), ok))
            ev.append(event('one day', melodist.disagg_prec_cascade, [df.precip.iloc[:1], c], {}, 0))
            ev.append(event('too few levels', melodist.disagg_prec_cascade, [df.precip, [c] * 4], {}, 0))
            ev.append(event('too many levels', melodist.disagg_prec_cascade, [df.precip, [c] * 6], {}, 0))
            ev.append(event('hourly levels for minutes', melodist.disagg_prec_cascade, [df.precip, [c] * 5], dict(hourly=False), 0))
            ev.append(event('no statistics', melodist.disagg_prec_cascade, [df.precip, None], {}, 0))
            ev.append(event('other statistics', melodist.disagg_prec_cascade, [df.precip, {'p01': 1}], {}, 0))
    return ev


def utils(seed, missing, strange=False):
    """functions that prepare, calibrate and write"""
    rng = np.random.RandomState(seed)
    obs = hist.make_obs(1 + seed % 2)
    if missing:
        for c in obs.columns:
            obs.loc[obs.index[rng.rand(len(obs)) < 0.02], c] = np.nan
    days = hist.make_daily(1)
    if strange:
        obs, days = odd(obs, rng), odd(days, rng)
    u = melodist.util
    x, y = rng.rand(20), rng.rand(20)
    if missing:
        x[3] = y[7] = np.nan
    pot = melodist.potential_radiation(obs.index, 8.86, 51.0, 1)
    pd_, od = pot.resample('D').mean(), obs.glob.resample('D').mean()
    tn, tx = obs.temp.resample('D').min(), obs.temp.resample('D').max()
    sun = u.get_sun_times(tn.index, 8.86, 51.0, 1)
    ssd = pd.Series(rng.uniform(0, 11, len(tn)), index=tn.index)
    gap = obs.drop(obs.index[30:35])
    ev = [
        event('hourly_index', u.hourly_index, [days.index], {}),
        event('distribute_equally', u.distribute_equally, [days.precip], dict(divide=True)),
        event('vapor_pressure', u.vapor_pressure, [obs.temp, obs.hum], {}),
        event('dewpoint_temperature', u.dewpoint_temperature, [obs.temp, obs.hum], {}),
        event('linregress', u.linregress, [x, y], {}),
        event('linregress', u.linregress, [x, y], dict(return_stats=True)),
        event('get_sun_times', u.get_sun_times, [days.index, 8.86, 51.0, 1], {}),
        event('detect_gaps', u.detect_gaps, [gap, 3600], {}),
        event('drop_incomplete_days', u.drop_incomplete_days, [gap], {}),
        event('daily_from_hourly', u.daily_from_hourly, [obs], {}),
        event('mean course', u.calculate_mean_daily_course_by_month, [obs.temp], dict(normalize=True)),
        event('prepare_interpolation_data', u.prepare_interpolation_data, [days, {'tmin': 7, 'tmax': 14}], {}),
        event('potential_radiation', melodist.potential_radiation, [obs.index, 8.86, 51.0, 1], {}),
        event('bristow_campbell', melodist.bristow_campbell, [tn, tx, pd_, 0.7, 2.1], {}),
        event('fit_bristow_campbell_params', melodist.fit_bristow_campbell_params, [tn, tx, pd_, od], {}, 2 if missing else 1),
        event('angstroem', melodist.angstroem, [ssd, sun.daylength, pd_, 0.25, 0.6], {}),
        event('fit_angstroem_params', melodist.fit_angstroem_params, [ssd, sun.daylength, pd_, od], {}, 2 if missing else 1),
        event('get_shift_by_data', melodist.get_shift_by_data, [obs.temp, 8.86, 51.0, 1], {}),
        event('fit_cosine_function', melodist.fit_cosine_function, [obs.wind], {}),
        event('dewpoint regression', melodist.calculate_dewpoint_regression, [obs], {}),
        event('category means', melodist.calculate_month_hour_precip_mean, [obs], {}),
        event('seasonal_subset', melodist.seasonal_subset, [obs, [3]], {}),
        event('seasonal_subset all', melodist.seasonal_subset, [obs], {}),
        event('aggregate_precipitation', melodist.aggregate_precipitation, [obs[['precip']].fillna(0)], {}),
        event('build_casc', melodist.build_casc, [obs], dict(months=[[3], [4]], avg_stats=bool(seed % 2))),
        event('build_casc all', melodist.build_casc, [obs], {}),
    ]
    tmp = tempfile.mkdtemp(dir=os.environ['VERIF_WORK'])
    f = os.path.join(tmp, 'x.smet')
    try:
        ev.append(event('write_smet', lambda d: melodist.write_smet(f, d, {'station_id': '1', 'nodata': '-999'}), [obs], {}))
        ev.append(event('write_smet daily', lambda d: melodist.write_smet(f, d, {'station_id': '1'}, mode='d'), [days], {}))
    finally:
        if os.path.exists(f):
            os.remove(f)
        os.rmdir(tmp)
    return [dict(e, valid=2) for e in ev] if strange else ev
