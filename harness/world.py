"""synthetic stations: daily data, statistics, and every disaggregation call"""
import numpy as np
import pandas as pd

LON, LAT, TZ = 8.86, 51.00, 1
# first days of series of several years: with and without leap days, far back and far ahead
YEARS = ('2011-03-01', '2015-06-30', '1968-11-17', '2036-12-31', '1899-02-28', '2095-10-05')


def first_day(rng):
    """any day of the twentieth and twenty-first century"""
    return str(pd.Timestamp('1901-01-01') + pd.Timedelta(days=int(rng.randint(0, 72000))))[:10]


def daily(idx, rng, miss=None):
    """daily frame with all columns, in K, mm, W/m2, h, %, m/s"""
    n = len(idx)
    doy = np.asarray(idx.dayofyear)
    t = 273.15 + 9 - 8 * np.cos(2 * np.pi * (doy - 15) / 365) + rng.normal(0, 3, n)
    r = rng.uniform(2, 12, n)
    hum = rng.uniform(45, 90, n)
    df = pd.DataFrame(index=idx)
    df['temp'] = np.round(t, 2)
    df['tmin'] = np.round(t - r * 0.55, 2)
    df['tmax'] = np.round(t + r * 0.45, 2)
    df['precip'] = np.round(rng.gamma(0.6, 6, n) * (rng.rand(n) < 0.6), 1)
    df['glob'] = np.round(rng.uniform(20, 250, n), 1)
    df['ssd'] = np.round(rng.uniform(0, 7, n), 1)
    df['hum'] = np.round(hum, 1)
    df['hum_min'] = np.round(hum - rng.uniform(5, 30, n), 1)
    df['hum_max'] = np.round(np.minimum(100, hum + rng.uniform(2, 20, n)), 1)
    df['wind'] = np.round(rng.gamma(2, 1.5, n), 1)
    return df


def fill_statistics(s, rng):
    """plausible parameters in every slot of a StationStatistics object"""
    h = np.arange(24)
    mc = np.zeros((24, 12))
    for m in range(12):
        c = np.cos(2 * np.pi * (h - 13 - rng.uniform(0, 3)) / 24) + rng.normal(0, 0.05, 24)
        mc[:, m] = (c - c.min()) / (c.max() - c.min())
    s.temp.mean_course = pd.DataFrame(mc, index=h, columns=np.arange(1, 13))
    s.temp.max_delta = pd.Series(rng.uniform(1, 3.5, 12), index=np.arange(1, 13))
    s.wind.update(a=float(rng.uniform(-0.4, 0.4)), b=1.0, t_shift=float(rng.uniform(0, 24)))
    s.hum.update(a0=float(rng.uniform(-8, 8)), a1=float(rng.uniform(0.97, 1.02)), kr=[6, 12][rng.randint(2)])
    mi = pd.MultiIndex.from_product([range(1, 13), range(24), [False, True]])
    s.hum.month_hour_precip_mean = pd.Series(rng.uniform(30, 99, len(mi)), index=mi)
    s.glob.angstroem['a'] = rng.uniform(0.15, 0.35, 12)
    s.glob.angstroem['b'] = rng.uniform(0.4, 0.75, 12)
    s.glob.bristcamp['a'] = rng.uniform(0.6, 0.8, 12)
    s.glob.bristcamp['c'] = rng.uniform(1.8, 2.6, 12)
    g = np.maximum(0, -np.cos(2 * np.pi * (h[:, None] + rng.uniform(-0.5, 0.5, 12)) / 24)) * rng.uniform(100, 600, 12)
    s.glob.mean_course = pd.DataFrame(g, index=h, columns=np.arange(1, 13))
    import casc

    s.precip.months = [np.arange(12) + 1]
    s.precip.stats = [casc.random_stats(rng)]
    return s


def station(df, rng, lon=LON, lat=LAT, tz=TZ):
    import melodist

    s = melodist.Station(id=1, name='x', lon=lon, lat=lat, timezone=tz, data_daily=df)
    fill_statistics(s.statistics, rng)
    return s


# variable, method, keyword arguments of Station.disaggregate_<variable>
CALLS = (
    [('temperature', m, dict(min_max_time=t, mod_nighttime=n)) for m in ('sine_min_max', 'sine_mean', 'sine')
     for t in ('fix', 'sun_loc', 'sun_loc_shift') for n in (False, True)]
    + [('temperature', m, {}) for m in ('mean_course_min_max', 'mean_course_mean')]
    + [('humidity', m, dict(preserve_daily_mean=p)) for m in
       ('equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max', 'month_hour_precip_mean') for p in (False, True)]
    + [('wind', m, {}) for m in ('equal', 'cosine', 'random')]
    + [('radiation', m, {}) for m in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course')]
    + [('precipitation', m, {}) for m in ('equal', 'cascade', 'masterstation')]
)
COLUMN = dict(temperature='temp', humidity='hum', wind='wind', radiation='glob', precipitation='precip')


def master_for(index):
    h = np.asarray(index.hour)
    return pd.Series(np.where((h * 7 + np.asarray(index.day)) % 5 == 0, 0.2 * h, 0.0), index=index)


def run_station(s, var, method, kw):
    kw = dict(kw)
    if var == 'precipitation' and method == 'masterstation':
        kw['master_precip'] = master_for(s.data_disagg.index)
    getattr(s, 'disaggregate_' + var)(method=method, **kw)


def run_direct(s, df, var, method, kw):
    """the module level function on a daily frame that may have gaps"""
    import melodist

    st = s.statistics
    idx = pd.DatetimeIndex([d + pd.Timedelta(hours=h) for d in df.index for h in range(24)])
    sun = melodist.util.get_sun_times(df.index, s.lon, s.lat, s.timezone)
    if var == 'temperature':
        return melodist.disaggregate_temperature(df, method=method, max_delta=st.temp.max_delta, mean_course=st.temp.mean_course, sun_times=sun, **kw)
    if var == 'humidity':
        temp = pd.Series(280 + 5 * np.cos((np.asarray(idx.hour) - 14) / 4.0), index=idx)
        return melodist.disaggregate_humidity(df, method=method, temp=temp, **st.hum, **kw)
    if var == 'wind':
        r = melodist.disaggregate_wind(df.wind, method=method, **st.wind)
        # the cosine method returns bare values for the hours of the daily index
        return r if isinstance(r, pd.Series) else pd.Series(r, index=melodist.util.hourly_index(df.index))
    if var == 'radiation':
        pot = melodist.potential_radiation(idx, s.lon, s.lat, s.timezone)
        return melodist.disaggregate_radiation(df, sun_times=sun, pot_rad=pot, method=method, angstr_a=st.glob.angstroem.a, angstr_b=st.glob.angstroem.b,
                                               bristcamp_a=st.glob.bristcamp.a, bristcamp_c=st.glob.bristcamp.c, mean_course=st.glob.mean_course)
    if method == 'equal':
        return melodist.disagg_prec(df, method='equal')
    if method == 'cascade':
        return melodist.disagg_prec(df.precip, method='cascade', cascade_options=st.precip.stats[0])
    return melodist.disagg_prec(df.precip, method='masterstation', hourly_data_obs=master_for(idx))
