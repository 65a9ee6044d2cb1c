#!/usr/bin/env python3
"""input coverage: which kinds of input (calendar position, lengths, gaps, missing values, value ranges, places) reach
which function and method in the run of a check.

usage: features.py CHECK [CHECK ...]      lists, per function and method, the features that never occurred
"""
import collections
import glob
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROBE = r'''

def _probe():
    import functools
    import os
    import sys
    import types

    import numpy as np
    import pandas as pd

    out = os.environ.get('FEATURES_OUT')
    if not out:
        return
    seen = set()

    def note(fn, method, feats):
        new = [(fn, method, f) for f in feats if (fn, method, f) not in seen]
        if new:
            seen.update(new)
            with open(os.path.join(out, str(os.getpid())), 'a') as f:
                f.writelines('%s\t%s\t%s\n' % x for x in new)

    def index_feats(i):
        r = []
        if len(i) == 0:
            return ['empty index']
        d = i.normalize().unique()
        n = len(d)
        r.append('days ' + ('1' if n == 1 else '2' if n == 2 else '3-27' if n < 28 else '28-59' if n < 60 else '60-365' if n < 366 else '>365' if n < 800 else '>800'))
        md = set(zip(d.month, d.day))
        for name, x in (('feb 29', (2, 29)), ('dec 31', (12, 31)), ('jan 1', (1, 1)), ('jan 31', (1, 31)), ('feb 28', (2, 28)), ('mar 1', (3, 1)), ('jun 30', (6, 30))):
            if x in md:
                r.append(name)
        if 366 in set(d.dayofyear):
            r.append('day 366')
        y = set(d.year)
        if len(y) > 1:
            r.append('years > 1')
        if len(y) > 2:
            r.append('years > 2')
        if min(y) < 1970:
            r.append('before 1970')
        if max(y) > 2037:
            r.append('after 2037')
        if any(v % 100 == 0 for v in y):
            r.append('century year')
        if len(set(d.month)) > 1:
            r.append('months > 1')
        if len(set(d.month)) == 12:
            r.append('all months')
        if len(set(zip(d.year, d.month))) > len(set(d.month)):
            r.append('same month twice')
        step = np.diff(d.to_numpy()).astype('timedelta64[D]').astype(int)
        if n > 1:
            if (step > 1).any():
                r.append('absent day')
                k = np.flatnonzero(step > 1)
                if len(k) > 1:
                    r.append('several gaps')
                if (step > 2).any():
                    r.append('absent days in a row')
                if (step > 27).any():
                    r.append('absent month')
                if any(d[j].month != d[j + 1].month for j in k):
                    r.append('gap over month end')
                if any(d[j].year != d[j + 1].year for j in k):
                    r.append('gap over year end')
                if 0 in k:
                    r.append('second day absent')
                if len(step) - 1 in k:
                    r.append('last but one day absent')
            if (step < 0).any():
                r.append('unsorted')
        if i.freq is None:
            r.append('no freq')
        else:
            r.append('freq')
        h = np.diff(i.to_numpy()).astype('timedelta64[m]').astype(int)
        if len(h) and (h < 1440).any():
            if i[0].hour != 0:
                r.append('starts within a day')
            if i[-1].hour != 23:
                r.append('ends within a day')
            if len(i) % 24:
                r.append('absent hours')
        if i.name:
            r.append('named index')
        return r

    def values_feats(name, s):
        r = []
        try:
            v = np.asarray(s, dtype=float)
        except Exception:
            return []
        if v.ndim != 1 or len(v) == 0:
            return []
        na = np.isnan(v)
        if na.any():
            r.append('missing')
            if na[0]:
                r.append('missing first')
            if na[-1]:
                r.append('missing last')
            if na.all():
                r.append('all missing')
            if (na[1:] & na[:-1]).any():
                r.append('missing in a row')
        w = v[~na]
        if len(w):
            if (w == 0).any():
                r.append('zero')
            if (w < 0).any():
                r.append('negative')
            if len(w) > 1 and (w == w[0]).all():
                r.append('constant')
            if len(w) > 1 and (np.diff(w) == 0).any():
                r.append('equal neighbours')
            lims = dict(temp=(250, 268, 305, 313), tmin=(240, 260, 293, 303), tmax=(250, 268, 308, 315), hum=(1, 10, 99, 99.99), hum_min=(1, 10, 90, 99.99), hum_max=(10, 30, 99, 99.99),
                        precip=(0.001, 0.1, 50, 200), wind=(0.01, 0.3, 20, 40), glob=(0.01, 1, 300, 500), ssd=(0.01, 0.1, 14, 20)).get(name)
            if lims:
                p = w[w != 0] if name not in ('temp', 'tmin', 'tmax') else w
                if len(p):
                    if p.min() < lims[0]:
                        r.append('tiny')
                    if p.min() < lims[1]:
                        r.append('small')
                    if p.max() > lims[2]:
                        r.append('large')
                    if p.max() > lims[3]:
                        r.append('huge')
        return [name + ' ' + x for x in r]

    def place_feats(a):
        r = []
        lon, lat, tz = a
        if lat is None or lon is None or tz is None:
            return ['no place']
        r.append('lat ' + ('pole' if abs(lat) == 90 else ('north' if lat > 0 else 'south' if lat < 0 else '0') + (' polar' if abs(lat) > 66.5 else ' tropic' if abs(lat) < 23.4 else '')))
        r.append('lon ' + ('east' if lon > 0 else 'west' if lon < 0 else '0') + (' far' if abs(lon) > 150 else ''))
        r.append('tz ' + ('east' if tz > 0 else 'west' if tz < 0 else '0') + ('' if tz == int(tz) else ' fraction'))
        off = tz - lon / 15
        r.append('zone ' + ('matches' if abs(off) <= 0.5 else 'ahead' if off > 0 else 'behind'))
        return r

    def feats(args, kw, sig):
        r = []
        first = True
        for k, a in list(enumerate(args)) + list(kw.items()):
            name = sig[k] if isinstance(k, int) and k < len(sig) else str(k)
            if isinstance(a, pd.DataFrame) and isinstance(a.index, pd.DatetimeIndex):
                if first:
                    r += index_feats(a.index)
                    first = False
                for c in a.columns:
                    if isinstance(c, str) and not a.columns.duplicated().any():
                        r += values_feats(c, a[c])
            elif isinstance(a, pd.Series) and isinstance(a.index, pd.DatetimeIndex):
                if first:
                    r += index_feats(a.index)
                    first = False
                r += values_feats({'wind_daily': 'wind', 'precip_daily': 'precip', 'dailyData': 'precip', 'temp_hourly': 'temp', 'daily_data': 'value'}.get(name, name), a)
            elif isinstance(a, pd.DatetimeIndex):
                if first:
                    r += index_feats(a)
                    first = False
            elif isinstance(a, (bool, np.bool_)):
                r.append('%s=%s' % (name, a))
            elif isinstance(a, pd.Series):
                r.append('%s is a table%s' % (name, ' with missing' if a.isna().any() else ''))
            elif isinstance(a, (int, float)) and name not in ('lon', 'lat', 'timezone', 'time_zone'):
                r.append('%s is a number' % name)
        try:
            b = dict(zip(sig, args))
            b.update(kw)
            if 'lon' in b and 'lat' in b:
                r += place_feats((b['lon'], b['lat'], b.get('timezone', b.get('time_zone'))))
        except Exception:
            pass
        return r

    def wrap(fn, f):
        import inspect
        try:
            sig = list(inspect.signature(f).parameters)
        except Exception:
            sig = []

        @functools.wraps(f)
        def g(*args, **kw):
            try:
                m = kw.get('method', args[1] if len(sig) > 1 and sig[1] == 'method' and len(args) > 1 else '-')
                m = '%s' % (m,)
                for x in ('min_max_time', 'mod_nighttime', 'preserve_daily_mean', 'zerodiv', 'avg_stats', 'hourly', 'mode', 'how'):
                    if x in kw:
                        m += ' %s=%s' % (x, kw[x])
                rest = list(args)
                if sig and sig[0] == 'self':
                    rest = [args[0].data] if hasattr(args[0], 'data') else []
                    if getattr(args[0], 'data_daily', None) is not None:
                        rest = [args[0].data_daily]
                    rest += list(args[1:])
                fe = feats(rest, kw, sig if not sig or sig[0] != 'self' else ['data'] + sig[1:])
            except Exception as e:
                fe, m = ['probe failed %r' % (e,)], '-'
            r = f(*args, **kw)
            note(fn, m, ['(called)'] + fe)
            return r
        return g

    mods = [m for n, m in sys.modules.items() if n.split('.')[0] == 'melodist' and m is not None]
    done = {}
    for m in mods:
        for n, f in list(vars(m).items()):
            if isinstance(f, types.FunctionType) and f.__module__.startswith('melodist') and not n.startswith('_'):
                if f not in done:
                    done[f] = wrap(n, f)
                setattr(m, n, done[f])
    for c in (Station, StationStatistics):
        for n, f in list(vars(c).items()):
            if isinstance(f, types.FunctionType) and (n.startswith('disaggregate') or n.startswith('calc_') or n == 'interpolate'):
                setattr(c, n, wrap(c.__name__ + '.' + n, f))


_probe()
'''


def run(checks, keep=None):
    base = tempfile.mkdtemp(prefix='features-', dir='/tmp')
    try:
        repo = os.path.join(base, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        with open(os.path.join(repo, 'melodist/__init__.py'), 'a') as f:
            f.write(PROBE)
        got = collections.defaultdict(set)
        for c in checks:
            out = os.path.join(base, c)
            os.mkdir(out)
            env = dict(os.environ, VERIF_REPO=repo, FEATURES_OUT=out, VERIF_EVIDENCE_DIR=os.path.join(base, 'ev'), VERIF_TIER=os.environ.get('VERIF_TIER', 'quick'), VERIF_SCEN_TIMEOUT='600')
            p = subprocess.run([os.path.join(VERIF, 'check'), c], env=env, capture_output=True, text=True)
            print('#', c, p.stdout.strip().splitlines()[-1:], file=sys.stderr)
            for f in glob.glob(os.path.join(out, '*')):
                for line in open(f):
                    fn, m, x = line.rstrip('\n').split('\t')
                    got[fn, m].add(x)
        return got
    finally:
        shutil.rmtree(base)


CALENDAR = ['days 1', 'days 2', 'days 3-27', 'days 28-59', 'days 60-365', 'days >365', 'feb 29', 'dec 31', 'jan 31', 'feb 28', 'mar 1', 'jun 30', 'day 366', 'years > 1', 'years > 2',
            'before 1970', 'after 2037', 'century year', 'months > 1', 'all months', 'same month twice', 'absent day', 'several gaps', 'absent days in a row', 'absent month',
            'gap over month end', 'gap over year end', 'second day absent', 'last but one day absent', 'freq', 'no freq', 'named index']


def main():
    got = run(sys.argv[1:])
    every = collections.defaultdict(set)
    for (fn, m), x in got.items():
        every[fn] |= x
    for (fn, m), x in sorted(got.items()):
        cols = {f.rsplit(' ', 1)[0].split(' missing')[0].split(' equal')[0] for f in every[fn] if f.endswith(' missing')}
        want = set(CALENDAR) | {c + ' ' + k for c in cols for k in ('missing', 'missing first', 'missing last', 'missing in a row', 'all missing', 'zero', 'constant', 'equal neighbours', 'tiny', 'small', 'large', 'huge')} | every[fn]
        print('%s %s' % (fn, m))
        print('    lacks: ' + ', '.join(sorted(f for f in want - x if not f.startswith('mod_night'))))


if __name__ == '__main__':
    main()
