"""C21: KNMI and DWD files"""
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from kit import NA, call, q, qs

KV = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
DWD = ['LUFTTEMPERATUR', 'LUFTTEMPERATUR_MINIMUM', 'LUFTTEMPERATUR_MAXIMUM', 'NIEDERSCHLAGSHOEHE', 'GLOBAL_KW_J', 'REL_FEUCHTE', 'WINDGESCHWINDIGKEIT', 'SONNENSCHEINDAUER']
JUNK = ['QUALITAETS_NIVEAU', 'DAMPFDRUCK', 'LUFTTEMP_AM_ERDB_MINIMUM', 'NIEDERSCHLAGSHOEHE_IND', 'SCHNEEHOEHE', 'WINDRICHTUNG']


def scenarios(tier, rng):
    big = tier == 'thorough'
    gen = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'gen-WeatherFilesMC.json')))
    recs = sorted({(*s['date'], s['hh']) for s in gen})
    out = []
    # every generated date and hour, consecutive records in one file
    step = 97
    for i in range(0, len(recs), step):
        out.append(('dates-%d' % i, 'knmi', dict(files=[recs[i:i + step]], seed=int(rng.randint(1 << 30)), merged=False, fmt=i // step % 3)))
    for i in range(40 if big else 20):
        files = []
        t = pd.Timestamp(['2015-12-30', '2016-02-27', '2014-06-29', '2011-01-01'][i % 4])
        for k in range(1 + i % 4):
            n = int(rng.randint(1, 40))
            r = []
            for j in range(n):
                r.append((t.year, t.month, t.day, t.hour + 1))
                t = t + pd.Timedelta(hours=1)
            t = t + pd.Timedelta(hours=int([0, 5, 100][rng.randint(3)]))
            files.append(r)
        if i % 3 == 1:
            files = files[::-1]
        if i % 5 == 4 and len(files[0]) > 3:  # interleaved files
            a = files[0]
            files[0] = a[::2]
            files.append(a[1::2])
        out.append(('knmi-%d' % i, 'knmi', dict(files=files, seed=int(rng.randint(1 << 30)), merged=True, fmt=i % 3)))
    for i in range(60 if big else 30):
        mode = 'dh'[i % 2]
        k = 1 + (i // 2 % 3)
        order = list(rng.permutation(DWD))
        files = []
        start = ['2013-12-30', '2016-02-27', '2014-07-29'][i % 3]
        for j in range(k):
            known = [str(c) for c in order[j * 2:j * 2 + 1 + rng.randint(2)]] if k > 1 else [str(c) for c in order[:rng.randint(1, 8)]]
            fields = [str(c) for c in rng.permutation(known + [str(x) for x in rng.choice(JUNK, 2, replace=False)])]
            n = int(rng.randint(1, 12))
            off = int(rng.randint(0, 4)) if k > 1 else 0
            t = pd.date_range(start, periods=n, freq='D' if mode == 'd' else 'h') + pd.Timedelta(days=off if mode == 'd' else 0, hours=0 if mode == 'd' else off + 20)
            kind = rng.randint(0, 3, len(fields))
            val = []
            for x in range(n):
                row = []
                for f, kd in zip(fields, kind):
                    v = round(float(rng.normal(5, 12)), 0 if kd == 0 else 1)
                    if f in ('REL_FEUCHTE', 'WINDGESCHWINDIGKEIT', 'NIEDERSCHLAGSHOEHE', 'GLOBAL_KW_J', 'SONNENSCHEINDAUER'):
                        v = abs(v)
                    if rng.rand() < 0.2:
                        v = -999.0
                    row.append(v)
                val.append(row)
            files.append(dict(fields=fields, times=[[d.year, d.month, d.day, d.hour] for d in t], val=val, kind=[int(x) for x in kind]))
        out.append(('dwd-%d' % i, 'dwd', dict(mode=mode, files=files, skip=[True, False, None][i % 3] if i % 7 else True, pad=bool(i % 4 != 3), aslist=bool(k > 1 or i % 5 == 0), eor=bool(i % 2))))
    return out


def knmi_text(rows, fmt):
    head = ['# comment line %d' % i for i in range(31)]
    cols = ['STN', 'YYYYMMDD', 'HH', 'DD', 'FH', 'FF', 'FX', 'T', 'T10', 'TD', 'SQ', 'Q', 'DR', 'RH', 'P', 'VV', 'N', 'U', 'WW', 'IX', 'M', 'R', 'S', 'O', 'Y']
    if fmt == 1:
        cols = ['STN', 'YYYYMMDD', 'HH', 'FH', 'T', 'SQ', 'Q', 'RH', 'U']
    if fmt == 2:
        cols = ['STN', 'YYYYMMDD', 'HH', 'U', 'RH', 'Q', 'T', 'SQ', 'FH', 'P']
    lines = head + ['# ' + ','.join('%5s' % c for c in cols)] + ([''] if fmt != 1 else [])
    for r in rows:
        y, m, d, hh = r['t']
        v = dict(STN='283', YYYYMMDD='%04d%02d%02d' % (y, m, d), HH='%5d' % hh)
        for k in ('T', 'RH', 'Q', 'U', 'FH', 'SQ'):
            v[k] = ' ' * 5 if r[k] is None else '%5d' % r[k]
        for c in cols:
            v.setdefault(c, '%5d' % ((y + hh) % 7))
        lines.append('  ' + ','.join(v[c] for c in cols))
    return '\n'.join(lines) + '\n'


def knmi(files, seed, merged, fmt):
    import melodist

    rng = np.random.RandomState(seed)
    d = tempfile.mkdtemp(prefix='melknmi-', dir=os.environ.get('VERIF_WORK'))
    try:
        rec = []
        for i, f in enumerate(files):
            rows = []
            for t in f:
                r = dict(t=t, T=int(rng.randint(-200, 350)), RH=int([-1, 0, 0, rng.randint(300)][rng.randint(4)]), Q=int([0, rng.randint(380)][rng.randint(2)]), U=int(rng.randint(5, 101)),
                         FH=int(rng.randint(0, 300)), SQ=int([-1, 0, rng.randint(11)][rng.randint(3)]))
                for k in ('T', 'RH', 'Q', 'U', 'FH', 'SQ'):
                    if rng.rand() < 0.08:
                        r[k] = None
                rows.append(r)
                rec.append([*t, *[q(r[k]) for k in ('T', 'RH', 'Q', 'U', 'FH', 'SQ')]])
            with open(os.path.join(d, 'uurgeg_%02d.txt' % ((i * 5 + 3) % 17)), 'w') as fh:
                fh.write(knmi_text(rows, fmt))
        with open(os.path.join(d, 'readme.md'), 'w') as fh:
            fh.write('not data\n')
        if merged:
            res, exc = call(melodist.data_io.read_knmi_dataset, d + '/')
        else:
            res, exc = call(melodist.data_io.read_single_knmi_file, os.path.join(d, 'uurgeg_03.txt'))
        e = {'op': 'knmi', 'merged': int(merged), 'rec': rec, 'exc': exc, 'out': [], 'cols': []}
        if not exc:
            e['cols'] = list(res.columns)
            v = [qs(res[c].values, 1e4) for c in KV]
            e['out'] = [[t.year, t.month, t.day, t.hour if t.minute == 0 and t.second == 0 else -1, *[x[i] for x in v]] for i, t in enumerate(res.index)]
        return [e]
    finally:
        shutil.rmtree(d)


def dwd(mode, files, skip, pad, aslist, eor):
    import melodist

    d = tempfile.mkdtemp(prefix='meldwd-', dir=os.environ.get('VERIF_WORK'))
    try:
        paths, rec = [], []
        for i, f in enumerate(files):
            path = os.path.join(d, 'produkt_%d.txt' % i)
            lines = ['STATIONS_ID; MESS_DATUM;' + ';'.join((' ' if pad else '') + c for c in f['fields']) + (';eor' if eor else '')]
            rows = []
            for t, v in zip(f['times'], f['val']):
                stamp = '%04d%02d%02d' % tuple(t[:3]) + ('' if mode == 'd' else '%02d' % t[3])
                w = ['%.*f' % (0 if k == 0 else 1, x) if x != -999 or k == 2 else '-999' for x, k in zip(v, f['kind'])]
                lines.append(('       1270;' if pad else '1270;') + stamp + ';' + ';'.join(('%9s' % x if pad else x) for x in w) + (';eor' if eor else ''))
                rows.append([*t, *qs(v, 1e4)])
            with open(path, 'w') as fh:
                fh.write('\n'.join(lines) + '\n')
            paths.append(path)
            rec.append({'fields': f['fields'], 'rows': rows})
        meta = os.path.join(d, 'Metadaten.txt')
        with open(meta, 'w') as fh:
            fh.write('Stations_id; Stationshoehe; Geogr.Breite; Geogr.Laenge; von_datum; bis_datum; Stationsname\n 1270; 315; 50.95; 10.90; 19510101; 20091231; Alt\n 1270; 316; 50.98; 10.96; 20100101; 20160101; Erfurt\n')
        kw = {} if skip is None else dict(skip_last=skip)
        if mode == 'h' or aslist:
            kw['mode'] = mode
        res, exc = call(melodist.read_dwd, paths if aslist else paths[0], meta, **kw)
        e = {'op': 'dwd', 'files': rec, 'skip': int(skip is None or skip), 'exc': exc, 'out': [], 'cols': [], 'meta': [1270, 5098, 1096, 'Erfurt'], 'header': []}
        if not exc:
            h, g = res
            e['header'] = [q(h['Stations_id']), q(h['Breite'], 100), q(h['Laenge'], 100), str(h['Stationsname']).strip()]
            e['cols'] = [str(c) for c in g.columns]
            v = [qs(g[c].values, 1e4) for c in g.columns]
            e['out'] = [[t.year, t.month, t.day, t.hour if t.minute == 0 and t.second == 0 else -1, *[x[i] for x in v]] for i, t in enumerate(g.index)]
        return [e]
    finally:
        shutil.rmtree(d)
