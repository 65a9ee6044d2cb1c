"""C16: sun times"""
import numpy as np
import pandas as pd

from c15 import sites
from kit import call, qs


def scenarios(tier, rng):
    out = []
    big = tier == 'thorough'
    for k, (lat, lon, tz) in enumerate(sites(tier, rng, 240 if big else 60)):
        year = int(rng.choice([2015, 2016, 1999, 2000, 1900]))
        out.append(('sun-%d' % k, 'sun', dict(lat=lat, lon=lon, tz=tz, year=year, step=1 if big else int(rng.choice([1, 3, 5])), via=['direct', 'station', 'direct', 'moved'][k % 4])))
    return out


def sun(lat, lon, tz, year, step, via):
    import melodist
    import world

    idx = pd.date_range('%d-01-01' % year, '%d-12-31' % year, freq='D')
    if via == 'direct':
        r, exc = call(melodist.util.get_sun_times, idx[::step], lon, lat, tz)
    else:
        df = world.daily(idx, np.random.RandomState(1))
        # a station moved a little (or more) has the sun times of the new place
        by = [0.08, 0.4, 1.5, 20][int(abs(lat) * 100) % 4] if via == 'moved' else 0
        first = dict(lon=lon + by if lon < 0 else lon - by, lat=lat + by if lat < 0 else lat - by, timezone=tz + (by > 1))

        def make():
            s = melodist.Station(data_daily=df, **first)
            for k in np.random.RandomState(int(abs(lon) * 100)).permutation(sorted(first)):
                if first[k] != dict(lon=lon, lat=lat, timezone=tz)[k]:
                    setattr(s, k, dict(lon=lon, lat=lat, timezone=tz)[k])
            return s

        s, exc = call(make)
        r = None if exc else s.sun_times.iloc[::step]
    i = idx[::step]
    return [{'op': 'sun', 'exc': exc, 'lat': int(round(lat * 1e4)), 'lon': int(round(lon * 1e4)), 'tz': int(round(4 * tz)), 'doy': [int(x) for x in i.dayofyear],
             'rise': [] if exc else qs(r.sunrise, 1e4), 'noon': [] if exc else qs(r.sunnoon, 1e4),
             'set': [] if exc else qs(r.sunset, 1e4), 'dlen': [] if exc else qs(r.daylength, 1e4)}]
