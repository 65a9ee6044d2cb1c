"""C20: SMET files"""
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from kit import call, q, qs

NUL = pd.Timestamp('2015-12-28')
SUP = dict(d=['tmean', 'tmin', 'tmax', 'precip', 'glob', 'hum', 'wind'], h=['temp', 'precip', 'glob', 'hum', 'wind'])
HEAD = [{}, {'station_id': '7', 'station_name': 'A b', 'latitude': '51.0', 'nodata': '-999', 'tz': '1'}, {'comment': 'x=y=z', 'url': 'http://a/?b=1'}, {'altitude': '1200', 'note': '2 words here'}]


def scenarios(tier, rng):
    big = tier == 'thorough'
    gen = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'gen-SmetMC.json')))
    cases = []
    for s in gen:
        c = s['c']
        val = [[float('nan') if v == -2000000000 else v / 1e4 for v in col] for col in c['val']]
        cases.append(dict(mode=c['mode'], check=c['check'], cols=c['cols'], val=val, times=[0, 60] if c['mode'] == 'h' else [0, 1440], meta={}))
    if not big:
        keep = rng.rand(len(cases)) < 0.4
        cases = [c for c, k in zip(cases, keep) if k]
    out = [('enumerated-%d' % i, 'rounds', dict(cases=cases[i:i + 40])) for i in range(0, len(cases), 40)]
    for i in range(80 if big else 40):
        mode = 'dh'[i % 2]
        n = int([1, 2, 10, 30, 90][rng.randint(5)])
        names = SUP[mode] + ['ssd', 'p_air']
        cols = [c for c in rng.permutation(names) if rng.rand() < 0.6] or ['hum']
        val = []
        for c in cols:
            v = np.round(rng.normal(0, [1, 50, 5000, 0.02][rng.randint(4)], n), int(rng.randint(0, 5)))
            if rng.rand() < 0.4:
                v[rng.rand(n) < 0.4] = np.nan
            if rng.rand() < 0.2:
                v[:] = np.nan
            if rng.rand() < 0.15:
                v[0] = 101325.25
            if rng.rand() < 0.15:  # a single reading
                v = np.where(np.arange(n) == rng.randint(n), np.round(rng.normal(0, 5), 2), np.nan)
            if rng.rand() < 0.2:  # only readings that add up to nothing
                v = np.where(np.isnan(v), np.nan, 0.0) if rng.rand() < 0.5 else np.where(np.arange(n) % 2, 1.5, -1.5)
            if rng.rand() < 0.1:
                v[0] = -998.99 if i % 11 != 10 else -998.0
            val.append([float(x) for x in v])
        t = (1440 * np.arange(n) + (360 if i % 8 == 2 else 0)) if mode == 'd' else ([60, 60, 10][i % 3] * np.arange(n) + 60 * int(rng.randint(96)))
        if rng.rand() < 0.3:
            t = t + 1440 * np.cumsum(rng.rand(n) < 0.2) * int(rng.randint(1, 40))
        out.append(('frame-%d' % i, 'rounds', dict(cases=[dict(mode=mode, check=bool(rng.rand() < 0.6), cols=[str(c) for c in cols], val=val, times=[int(x) for x in t], meta=HEAD[i % 4], ints=bool(i % 11 == 10),
                                                             nodata=[None, -999, -999.0][i % 3])])))
    for i in range(40 if big else 20):
        mode = 'dh'[i % 2]
        n = int([1, 3, 12][rng.randint(3)])
        fld = [f for f in ('TA', 'PSUM', 'ISWR', 'RH', 'VW', 'TMIN', 'TMAX', 'P', 'TSS') if rng.rand() < 0.6] or ['TA']
        mult = [[1, 0.1, 100, 0.01, 1, 3.6][rng.randint(6)] for _ in fld]
        tok = [[(None if rng.rand() < 0.2 else round(float(rng.normal(0, 20)), [0, 1, 2][i % 3])) for _ in fld] for _ in range(n)]
        out.append(('file-%d' % i, 'reads', dict(mode=mode, fields=fld, mult=mult, tok=tok, meta=HEAD[i % 4], start=60 * int(rng.randint(100)), order=i % 3, crlf=False)))
    return out


def minutes(idx):
    return [int((t - NUL) / pd.Timedelta(minutes=1)) for t in idx]


def tokval(s):
    return q(round(float(s) * 100), 1)


def parse(path):
    """the file as sections, fields and tokens"""
    lines = open(path).read().split('\n')
    f = {'shape': 0, 'header': [], 'fields': [], 'mult': [], 'stamps': [], 'tokens': []}
    if not lines or not lines[0].startswith('SMET') or '[HEADER]' not in lines or '[DATA]' not in lines:
        return f
    a, b = lines.index('[HEADER]'), lines.index('[DATA]')
    f['shape'] = int(lines[0] == 'SMET 1.1 ASCII' and a == 1 and b > a)
    for x in lines[a + 1:b]:
        k, v = x.split('=', 1)
        f['header'].append([k.strip(), v.strip()])
        if k.strip() == 'fields':
            f['fields'] = v.split()
        if k.strip() == 'units_multiplier':
            f['mult'] = qs([float(y) for y in v.split()], 1e4)
    for x in lines[b + 1:]:
        w = x.split()
        if w:
            t = pd.Timestamp(w[0])
            f['stamps'].append(minutes([t])[0])
            f['tokens'].append([tokval(y) for y in w[1:]])
    return f


def rounds(cases):
    d = tempfile.mkdtemp(prefix='melsmet-', dir=os.environ.get('VERIF_WORK'))
    try:
        ev = []
        for c in cases:
            ev += one(d, **c)
        return ev
    finally:
        shutil.rmtree(d)


def one(d, mode, check, cols, val, times, meta, ints=False, nodata=None):
    import melodist

    path = os.path.join(d, 'x.smet')
    idx = pd.DatetimeIndex([NUL + pd.Timedelta(minutes=m) for m in times])
    df = pd.DataFrame({c: np.array(v, dtype=float) for c, v in zip(cols, val)}, index=idx)
    if ints:
        df = df.fillna(3).round().astype(int)
    keep = df.copy()
    v = [qs(keep[c].values, 1e4) for c in cols]
    kw = {} if nodata is None else dict(nodata_value=nodata)
    if not (check and nodata is None):
        kw['check_nan'] = check
    if mode == 'd' or nodata is not None:
        kw['mode'] = mode
    _, exc = call(melodist.write_smet, path, df, dict(meta), **kw)
    m = [[k, x] for k, x in meta.items()]
    f = parse(path) if not exc else {}
    base = {'mode': mode, 'check': int(check), 'cols': cols, 'val': v, 'times': times, 'meta': m}
    ev = [dict(base, op='write', exc=exc, file=f)]
    if exc:
        return ev
    res, exc2 = call(melodist.read_smet, path, mode)
    r = frame(res, exc2)
    ev.append({'op': 'read', 'mode': mode, 'file': f, 'exc': exc2, **r})
    ev.append(dict(base, op='round', exc=exc2, rcols=r['cols'], rtimes=r['times'], rval=r['val'], header=r['header'], input=int(df.equals(keep) and list(df.columns) == cols)))
    return ev


def frame(res, exc):
    if exc:
        return {'cols': [], 'times': [], 'val': [], 'header': []}
    h, g = res
    return {'cols': [str(c) for c in g.columns], 'times': minutes(g.index), 'val': [qs(g[c].values, 1e4) for c in g.columns], 'header': [[str(k), str(x)] for k, x in h.items()]}


def reads(mode, fields, mult, tok, meta, start, order, crlf):
    import melodist

    d = tempfile.mkdtemp(prefix='melsmet-', dir=os.environ.get('VERIF_WORK'))
    try:
        path = os.path.join(d, 'in.smet')
        head = [('fields', 'timestamp ' + ' '.join(fields)), ('units_multiplier', '1 ' + ' '.join('%g' % m for m in mult))] + list(meta.items())
        head = head[order:] + head[:order]
        rows = []
        for i, r in enumerate(tok):
            t = NUL + (pd.Timedelta(days=i) if mode == 'd' else pd.Timedelta(minutes=start + 60 * i))
            rows.append(t.strftime('%Y-%m-%dT%H:%M') + ['  ', ' ', '\t'][order] + ' '.join(['-999', '-999.00', '-999.0'][order] if x is None else '%.2f' % x for x in r))
        with open(path, 'w') as fh:
            fh.write('SMET 1.1 ASCII\n[HEADER]\n' + ''.join('%s %s %s\n' % (k, '=' if order else '  =', x) for k, x in head) + '[DATA]\n' + '\n'.join(rows) + ('\n' if order else ''))
        f = parse(path)
        res, exc = call(melodist.read_smet, path, mode)
        return [{'op': 'read', 'mode': mode, 'file': f, 'exc': exc, **frame(res, exc)}]
    finally:
        shutil.rmtree(d)
