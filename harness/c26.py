"""C26: observations that follow a model come back after calibration, aggregation and disaggregation"""
import numpy as np
import pandas as pd

from kit import call, qs

LON, LAT, TZ = 8.86, 51.0, 1
METHODS = ['mean_course_min_max', 'mean_course_mean', 'sine_mean', 'wind_cosine', 'rad_mean_course', 'hum_category', 'hum_regression', 'pot_rad_via_ssd', 'precip_master']


def scenarios(tier, rng):
    out = []
    for i in range(40 if tier == 'thorough' else 6):
        for m in METHODS:
            n = int([12, 40, 75, 20][i % 4]) if i % 8 != 5 else int(rng.randint(400, 480))
            start = ['2015-01-20', '2016-02-14', '2014-10-05', '2013-06-25', '2012-12-01', '2015-04-10'][i % 6]
            out.append(('%s-%d' % (m, i), 'reproduce', dict(m=m, n=n, start=start, seed=int(rng.randint(1 << 30)), how=['all', 'monthly'][i % 2])))
    return out


def courses(rng, months):
    h = np.arange(24)
    res = {}
    for m in sorted(set(months)):
        c = np.cos(2 * np.pi * (h - rng.uniform(11, 17)) / 24) + rng.normal(0, 0.15, 24)
        res[m] = (c - c.min()) / (c.max() - c.min())
    return res


def reproduce(m, n, start, seed, how):
    import melodist

    rng = np.random.RandomState(seed)
    days = pd.date_range(start, periods=n, freq='D')
    idx = pd.date_range(start, periods=24 * n, freq='h')
    month = [int(x) for x in days.month]
    h = np.arange(24)
    lo = 283 + rng.normal(0, 5, n)
    rg = rng.uniform(3, 14, n)
    c = courses(rng, month)
    temp = np.concatenate([lo[d] + rg[d] * c[month[d]] for d in range(n)])
    obs = pd.DataFrame(index=idx)
    obs['temp'] = temp
    e = {'op': 'reproduce', 'm': m, 'month': month, 'exc': '', 'obs': [], 'out': []}
    col, stat, call_ = 'temp', 'temperature', None
    if m == 'sine_mean':
        e['top'] = int(rng.randint(10, 20))
        obs['temp'] = np.concatenate([lo[d] + rg[d] * (1 + np.cos(np.pi * (h - e['top']) / 12)) / 2 for d in range(n)])
    elif m == 'wind_cosine':
        col, stat = 'wind', 'wind'
        a, s = rng.uniform(0.1, 0.7), rng.uniform(0, 24)
        mean = (1 + rng.gamma(3, 1, n)) * (rng.rand(n) < 0.9)
        obs['wind'] = np.concatenate([mean[d] * (1 + a * np.cos(np.pi * (h - s) / 12)) for d in range(n)])
    elif m == 'rad_mean_course':
        col, stat = 'glob', 'radiation'
        g = {k: np.where((h > 5) & (h < 20), np.round(200 + 300 * v), 0) for k, v in c.items()}
        obs['glob'] = np.concatenate([g[month[d]] * rng.uniform(0.2, 1.2) for d in range(n)])
    elif m in ('hum_category', 'hum_regression'):
        col, stat = 'hum', 'humidity'
        wet = (np.arange(n) % 3 == 0)
        obs['precip'] = np.repeat(np.where(wet, 0.5, 0.0), 24) * (np.asarray(idx.hour) % 7 == 2)
        if m == 'hum_category':
            table = {(k, w): np.round(rng.uniform(30, 99, 24), 2) for k in c for w in (0, 1)}
            obs['hum'] = np.concatenate([table[month[d], int(wet[d])] for d in range(n)])
            e['wet'] = [int(x) for x in wet]
        else:
            cold = bool(rng.randint(2))
            obs['temp'] = obs.temp - obs.temp.min() + 276.0 if not cold else obs.temp - obs.temp.max() + 272.0
            e['a1'] = int(rng.choice([9000, 9500, 10000]))
            tmin = obs.temp.groupby(obs.index.date).min().values
            e['a0'] = int(10000 * np.floor(tmin.min() * (1 - e['a1'] / 1e4) - rng.uniform(0.3, 2.0)))
            if not cold:  # dew points stay above freezing
                lift = 273.4 - (e['a0'] / 1e4 + e['a1'] / 1e4 * tmin.min())
                if lift > 0:
                    obs['temp'] = obs.temp + 2 * lift + 1
                    tmin = obs.temp.groupby(obs.index.date).min().values
                    e['a0'] = int(10000 * np.floor(tmin.min() * (1 - e['a1'] / 1e4) - 1))
            dew = np.repeat(e['a0'] / 1e4 + e['a1'] / 1e4 * tmin, 24)
            sat = melodist.util.vapor_pressure
            obs['hum'] = 100 * sat(pd.Series(dew, index=idx), 100) / sat(obs.temp, 100)
            e['temp'] = qs(obs.temp.values, 1e4)
    elif m == 'pot_rad_via_ssd':
        col, stat = 'glob', 'radiation'
        pot = melodist.potential_radiation(idx, LON, LAT, TZ)
        length = melodist.util.get_sun_times(days, LON, LAT, TZ).daylength.values
        ssd = length * rng.uniform(0.05, 0.95, n)
        a = np.round(rng.uniform(0.15, 0.3, 12), 4)
        b = np.round(rng.uniform(0.4, 0.6, 12), 4)
        if how == 'all':
            a[:], b[:] = a[0], b[0]
        f = a[np.array(month) - 1] + b[np.array(month) - 1] * ssd / length
        obs['glob'] = pot.values * np.repeat(f, 24)
        obs['ssd'] = np.repeat(ssd * 60 / 24, 24)
        e.update(a=qs(a, 1e4), b=qs(b, 1e4), ssd=qs(ssd, 1e4), len=qs(length, 1e4), pot=qs(pot.values, 1e4))
    elif m == 'precip_master':
        col, stat = 'precip', 'precipitation'
        obs['precip'] = np.round(rng.gamma(0.6, 1.5, 24 * n) * (rng.rand(24 * n) < 0.3), 1)

    def run():
        daily = melodist.util.daily_from_hourly(obs)
        s = melodist.Station(lon=LON, lat=LAT, timezone=TZ, data_daily=daily)
        s.statistics = melodist.StationStatistics(obs)
        if m in ('mean_course_min_max', 'mean_course_mean'):
            s.statistics.calc_temperature_stats()
            s.disaggregate_temperature(method=m)
        elif m == 'sine_mean':
            s.statistics.calc_temperature_stats()
            s.disaggregate_temperature(method=m, min_max_time='sun_loc_shift')
        elif m == 'wind_cosine':
            s.statistics.calc_wind_stats()
            s.disaggregate_wind(method='cosine')
        elif m == 'rad_mean_course':
            s.statistics.calc_radiation_stats()
            s.disaggregate_radiation(method='mean_course')
        elif m == 'hum_category':
            s.statistics.calc_humidity_stats()
            s.disaggregate_humidity(method='month_hour_precip_mean')
        elif m == 'hum_regression':
            s.statistics.calc_humidity_stats()
            s.data_disagg['temp'] = obs.temp
            s.disaggregate_humidity(method='dewpoint_regression')
        elif m == 'pot_rad_via_ssd':
            # a month without data cannot be fitted
            if how == 'monthly' and len(set(month)) < 12:
                for k in sorted(set(month)):
                    sel = daily.index.month == k
                    fit = melodist.fit_angstroem_params(daily.ssd[sel], s.sun_times.daylength[sel], pot.resample('D').mean()[sel], obs.glob.resample('D').mean()[sel])
                    s.statistics.glob.angstroem.loc[k] = fit
            else:
                s.statistics.calc_radiation_stats(data_daily=daily[['glob', 'ssd']], day_length=s.sun_times.daylength, how=how)
            s.disaggregate_radiation(method='pot_rad_via_ssd')
        else:
            s.disaggregate_precipitation(method='masterstation', master_precip=obs.precip)
        return s.data_disagg[col]

    r, e['exc'] = call(run)
    e['obs'] = qs(obs[col].values, 1e4)
    if not e['exc']:
        e['out'] = qs(r.values, 1e4)
    return [e]
