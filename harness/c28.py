"""C28: cascade statistics as values"""
import json
import os

import numpy as np

from kit import call, qs

ONE = 1 << 20
FIELDS = ('p01', 'p10', 'pxx', 'wxx', 'threshold', 'percentile')


def scenarios(tier, rng):
    hist = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'hist-values.json')))
    # every beginning of length two, some continuations of each
    hist.sort(key=lambda h: json.dumps(h, sort_keys=True))
    by = {}
    for h in hist:
        by.setdefault(json.dumps(h[:2], sort_keys=True), []).append(h)
    hist = [h[k] for h in by.values() for k in rng.permutation(len(h))[:6 if tier == 'thorough' else 1]]
    out = []
    for i in range(0, len(hist), 40):
        out.append(('all-%d' % i, 'many', dict(hists=hist[i:i + 40], seed=i, nthr=[5, 9, 11][i // 40 % 3])))
    ops = ['add', 'rebuild', 'double', 'half', 'sample', 'tweak']
    for i in range(200 if tier == 'thorough' else 40):
        h = []
        for _ in range(8):
            a, b = int(rng.randint(1, 3)), int(rng.randint(1, 3))
            op = ops[rng.randint(6)]
            if op == 'rebuild' and a == b:
                continue
            o = dict(op=op, i=a, j=b)
            if op == 'tweak':
                o.update(f=FIELDS[rng.randint(6)], c=1)
            h.append(o)
        out.append(('long-%d' % i, 'many', dict(hists=[h], seed=1000 + i, nthr=5)))
    return out


def value(s):
    return {f: qs(np.asarray(getattr(s, f), dtype=float).ravel() if f != 'percentile' else [s.percentile], ONE if f != 'threshold' else 65536) for f in FIELDS}


def make(rng, nthr):
    from melodist.cascade import CascadeStatistics

    s = CascadeStatistics()
    for f in ('p01', 'p10', 'pxx', 'wxx'):
        setattr(s, f, rng.randint(0, 64, getattr(s, f).shape) / 64.0)
    s.threshold = np.cumsum(rng.randint(1, 64, nthr)) / 16.0
    s.percentile = float(rng.randint(1, 100))
    return s


def many(hists, seed, nthr):
    from melodist.cascade import CascadeStatistics

    ev = []
    for k, h in enumerate(hists):
        rng = np.random.RandomState((seed * 131 + k) % (1 << 31))
        a = make(rng, nthr)
        pool = [a, CascadeStatistics.from_dict({f: np.array(getattr(a, f)).tolist() for f in FIELDS}) if k % 2 else make(rng, nthr) if k % 3 else CascadeStatistics()]
        fresh, sample = CascadeStatistics(), CascadeStatistics()
        sample.fill_with_sample_data()

        def answers(e):
            m = [[(x == y, x != y) for y in pool] for x in pool]
            e['eq'] = [[int(bool(c[0])) for c in r] for r in m]
            e['ne'] = [[int(bool(c[1])) for c in r] for r in m]
            e['see'] = [value(x) for x in pool]
            return e

        six = lambda c: {f: qs(np.ravel(getattr(c, f)).astype(float), 1e6) for f in FIELDS}  # noqa: E731
        ev.append(answers({'op': 'new', 'sample6': six(sample), 'fresh6': six(fresh), 'exc': '', 'fresh': value(fresh), 'sample': value(sample)}))
        for o in h:
            o = dict(o)
            x, y = pool[o['i'] - 1], pool[o['j'] - 1]
            kept = 1
            by = 0
            if o['op'] == 'add':
                _, exc = call(lambda: x + y)
            elif o['op'] in ('double', 'half'):
                _, exc = call(lambda: x * (2.0 if o['op'] == 'double' else 0.5))
            elif o['op'] == 'rebuild':
                d = {f: np.array(getattr(y, f)).tolist() for f in FIELDS}
                before = json.dumps(d)
                z, exc = call(CascadeStatistics.from_dict, d)
                kept = int(json.dumps(d) == before)
                if not exc:
                    pool[o['i'] - 1] = z
                    d['p01'][0][0] += 3  # the dictionary stays the caller's
                    d['threshold'][0] += 3
            elif o['op'] == 'tweak':
                f = o['f']
                n = np.size(getattr(x, f))
                o['c'] = 1 if f == 'percentile' else int(rng.randint(n)) + 1
                by, exc = (65536 // 4 if f == 'threshold' else ONE // 4), ''
                if f == 'percentile':
                    x.percentile = x.percentile + 0.25
                else:
                    arr = getattr(x, f)    # tables are plain arrays, changed in place or replaced
                    if k % 5 == 0:
                        arr = np.array(arr, dtype=float)
                    arr.flat[o['c'] - 1] += 0.25
                    setattr(x, f, arr)
            else:
                _, exc = call(x.fill_with_sample_data)
            ev.append(answers({'op': 'do', 'o': o, 'exc': exc, 'by': by, 'kept': kept}))
        f = FIELDS[k % 6]
        ev.append({'op': 'nudge', 'f': f, 'exc': '', 'eq': [], 'ne': []})
        for how in ('same', 'next', 'less', 'back', 'short'):
            z = CascadeStatistics.from_dict({g: np.array(getattr(a, g)).tolist() for g in FIELDS})
            if how in ('next', 'less'):    # the smallest possible change of one number
                old = np.array(getattr(z, f), dtype=float)
                c = int(rng.randint(old.size))
                old.flat[c] = np.nextafter(old.flat[c], 1000 if how == 'next' else -1000)
                setattr(z, f, old if f != 'percentile' else float(old))
            elif how == 'short':
                z.threshold = np.array(z.threshold)[:-1]
            ev[-1]['eq'].append(int(bool(a == z)))
            ev[-1]['ne'].append(int(bool(a != z)))
    return ev
