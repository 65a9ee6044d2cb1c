"""C15, C16: potential radiation and sun times"""
import numpy as np
import pandas as pd

from kit import call, qs

LATS = [-90, -89.99, -66.56, -45.25, -23.43, -0.01, 0, 12.5, 23.43, 51.0, 66.4, 67.5, 80.02, 90]


def sites(tier, rng, n):
    for k in range(n):
        lat = LATS[k] if k < len(LATS) else float(np.round(rng.uniform(-90, 90), 2))
        lon = float(np.round(rng.uniform(-180, 180), 2)) if k % 7 else [-180.0, 0.0, 180.0][k // 7 % 3]
        tz = float(np.clip(round(lon / 15.0) + rng.randint(-3, 4), -12, 14))
        if k % 4 == 1:  # zones of half and quarter hours
            tz += [0.5, -0.5, 0.75, 0.25][rng.randint(4)]
        if k % 4 == 2:  # any clock, for example universal time everywhere
            near = [z for z in [0.0] * 8 + list(np.arange(-12.0, 15.0)) if abs(lon - 15 * z) < 165]
            tz = float(near[rng.randint(len(near))])
        yield lat, lon, tz


def scenarios(tier, rng):
    out = []
    big = tier == 'thorough'
    for k, (lat, lon, tz) in enumerate(sites(tier, rng, 160 if big else 44)):
        out.append(('pot-%d' % k, 'pot', dict(lat=lat, lon=lon, tz=tz, seed=int(rng.randint(1 << 30)), n=500 if big else 220)))
    out.append(('zenith', 'zenith', dict(tz=2, days=[int(x) for x in rng.permutation(366)[:366 if big else 120] + 1])))
    return out


def zenith(tz, days):
    """the sun exactly overhead at noon"""
    import melodist

    ev = []
    for d in days:
        lat = 23.43697 * np.cos(2 * np.pi * (d - 173.0) / 365.25)
        idx = pd.DatetimeIndex([pd.Timestamp('2016-01-01 12:00') + pd.Timedelta(days=d - 1)])
        tot, e1 = call(melodist.potential_radiation, idx, 15.0 * tz, lat, tz)
        sp, e2 = call(melodist.potential_radiation, idx, 15.0 * tz, lat, tz, split=True)
        ev.append({'op': 'pot', 'exc': e1 or e2, 'lat': int(round(lat * 1e4)), 'lon': 150000 * tz, 'tz': 4 * tz, 'cloud': 0, 'slope': 0, 'az': 0, 'doy': [d], 'minute': [720],
                   'total': [] if e1 else qs(tot, 1e3), 'direct': [] if e2 else qs(sp.direct, 1e3), 'diffuse': [] if e2 else qs(sp.diffuse, 1e3)})
    return {'ev': ev}


def pot(lat, lon, tz, seed, n):
    import melodist

    rng = np.random.RandomState(seed)
    ev = []
    for k in range(3):
        cloud = [0.0, float(np.round(rng.uniform(0, 1), 3)), 1.0][k]
        slope, az = (0.0, float(rng.choice([0, 0.7]))) if k != 1 or seed % 2 else (float(np.round(rng.uniform(0.05, 1.4), 3)), float(np.round(rng.uniform(-3.1, 3.1), 3)))
        m0 = int(rng.randint(0, 60))
        if k == 0:  # whole days, hourly
            idx = pd.DatetimeIndex(np.concatenate([pd.date_range(d, periods=24, freq='h').values for d in
                                                   pd.to_datetime(['2016-01-01', '2016-12-31', '2015-06-21', '2016-03-20', '2012-02-29', '2015-12-31'])]))
        else:
            idx = pd.DatetimeIndex([pd.Timestamp('2012-01-01') + pd.Timedelta(minutes=int(x)) for x in rng.randint(0, 1461 * 1440, n)]) + pd.Timedelta(minutes=m0)
        kw = dict(cloud_fraction=cloud, terrain_slope=slope, terrain_slope_azimuth=az)
        if k == 0 and seed % 3 == 0:
            kw = {}
        arg = [idx, list(idx), np.array(idx)][(seed + k) % 3]  # any array of times will do
        tot, e1 = call(melodist.potential_radiation, arg, lon, lat, tz, **kw)
        sp, e2 = call(melodist.potential_radiation, idx, lon, lat, tz, split=True, **kw)
        u = 1440000 / (2 * np.pi)
        ev.append({'op': 'pot', 'exc': e1 or e2, 'lat': int(round(lat * 1e4)), 'lon': int(round(lon * 1e4)), 'tz': int(round(4 * tz)), 'cloud': int(round(cloud * 1e6)),
                   'slope': int(round(slope * u)), 'az': int(round(az * u)), 'doy': [int(x) for x in idx.dayofyear],
                   'minute': [int(x) for x in idx.hour * 60 + idx.minute],
                   'total': [] if e1 else qs(tot, 1e3), 'direct': [] if e2 else qs(sp.direct, 1e3), 'diffuse': [] if e2 else qs(sp.diffuse, 1e3)})
        # one time zone further east
        t2, e3 = call(melodist.potential_radiation, idx, lon + 15, lat, tz + 1, **kw)
        ev.append({'op': 'pair', 'exc': e1 or e3, 'x': [] if e1 else qs(tot, 1e3), 'y': [] if e3 else qs(t2, 1e3)})
    return {'ev': ev}
