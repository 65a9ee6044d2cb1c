"""C04: what the cascade does at every level"""
import itertools
import json
import os

import numpy as np
import pandas as pd

import casc
from kit import Draws, call, q, qs

LEVELV = [None, 0.0, 0.7, 40.0]


def scenarios(tier, rng):
    big = tier == 'thorough'
    out = []
    k = 0

    def stats(kind, nl, thr=None):
        f = {'onehot': casc.onehot_stats, 'random': casc.random_stats}[kind]
        return casc.enc_stats(f(rng, nl, thr=thr))

    # every pattern of missing / dry / light / heavy days of up to 3 (4) days
    for n in ((2, 3, 4) if big else (2, 3)):
        for pat in itertools.product(range(4), repeat=n):
            if all(p < 2 for p in pat):
                continue
            k += 1
            lst = k % 2
            v = [LEVELV[p] for p in pat]
            st = [stats('onehot', 5) for _ in range(5)] if lst else [stats('onehot', 5)]
            out.append(('pattern-%s' % ''.join(map(str, pat)), 'run', dict(v=v, st=st, hourly=True, level=9, draws=None)))
    # division only: all weights, deterministic
    for i in range(30 if big else 10):
        st = [casc.enc_stats(casc.onehot_stats(rng, 5, p=(0.1, 0.1, 0.8))) for _ in range(5)]
        v = [float(x) for x in np.round(rng.gamma(1, 20, 5), 1) * (rng.rand(5) < 0.8)]
        out.append(('divide-%d' % i, 'run', dict(v=v, st=st, hourly=True, level=9, draws=None)))
    # thresholds hit exactly: equal to a box volume
    for i in range(24 if big else 8):
        thr = [2.0, 4.0, 8.0, 16.0, 16.0]
        st = [stats('onehot', 5, thr=thr)]
        out.append(('tie-%d' % i, 'run', dict(v=[16.0, 0.0, 8.0, 16.0, 4.0, 2.0], st=st, hourly=True, level=9, draws=None)))
    # random tables with zeros, adversarial draws
    for i in range(120 if big else 40):
        lst = i % 2
        st = [stats('random', 5) for _ in range(5)] if lst else [stats('random', 5)]
        v = [float(x) for x in np.round(rng.gamma(0.7, 12, rng.randint(2, 9)), 1)]
        v = [0.0 if rng.rand() < 0.25 else x for x in v]
        dr = [None, None, [1e-9], [1 - 2.0**-53], [0.3, 1 - 2.0**-53], [0.9999, 0.5]][i % 6]
        out.append(('random-%d' % i, 'run', dict(v=v, st=st, hourly=True, level=9, draws=dr, drop=[2] if i % 4 == 1 else [])))
    # 5-minute output at all numbers of levels
    for i in range(18 if big else 6):
        nl = [9, 10, 11][i % 3]
        lst = (i // 3) % 2
        mk = lambda: casc.enc_stats(casc.onehot_stats(rng, nl, p=(0.2, 0.2, 0.6)) if i % 2 else casc.random_stats(rng, nl))
        st = [mk() for _ in range(nl)] if lst else [mk()]
        v = [[33.0, None, 0.4], [5.0, 12.5, 0.0], [0.0, 80.0, 3.0]][i % 3]
        out.append(('fivemin-L%d-%d' % (nl, i), 'run', dict(v=v, st=st, hourly=False, level=nl, draws=None, drop=[1] if i % 4 == 3 else [])))
    # frequencies
    for i in range(12 if big else 4):
        n = 170
        v = [float(x) for x in np.round(rng.gamma(0.9, 15, n) + 0.2, 1) * (rng.rand(n) < 0.75)]
        thr = [0.6, 1.2, 2.5, 5.0, 10.0]
        st = [casc.enc_stats(casc.random_stats(rng, 5, zeros=0.1, thr=thr))]
        out.append(('freq-%d' % i, 'run', dict(v=v, st=st, hourly=True, level=9, draws=None, freq=1)))
    return out


def run(v, st, hourly, level, draws, drop=(), freq=0):
    import melodist

    nl = 5 if hourly else level
    stats = [casc.dec_stats(s) for s in st]
    opt = stats[0] if len(stats) == 1 else stats
    n = len(v) + len(drop)
    idx = casc.day_index('2015-02-26', n, drop)
    daily = pd.Series([np.nan if x is None else x for x in v], index=idx)

    def f():
        return melodist.disagg_prec_cascade(daily, opt, hourly=hourly, level=level, test=True)

    if draws is None:
        res, exc = call(f)
    else:
        with Draws(draws):
            res, exc = call(f)
    # missing days enter the cascade as dry
    cur = np.nan_to_num(np.array(daily.values, float))
    ev = [{'op': 'start', 'days': qs(cur, 1e6), 'wet': [int(x > 0) for x in cur], 'exc': exc}]
    if not exc:
        for l in range(1, nl + 1):
            nxt = np.asarray(res[l - 1], float)
            # level l of n uses entry n-l (statistics are listed from fine to coarse)
            thr = stats[nl - l].threshold[0] if len(stats) > 1 else stats[0].threshold[nl - l]
            with np.errstate(all='ignore'):
                par = np.where(cur > 0, cur, np.nan)
                w, r = nxt[0::2][:len(cur)] / par, nxt[1::2][:len(cur)] / par
            exact = lambda a, p: [0 if x == 0 else (1000000 if x == c else q(y, 1e6)) for x, y, c in zip(a, p, cur)]
            ev.append({'op': 'level', 'l': l, 'tab': (nl - l + 1) if len(stats) > 1 else 1, 'cmp': [int(x > thr) - int(x < thr) for x in cur],
                       'v': qs(nxt, 1e6), 'wet': [int(x > 0) - int(x < 0) for x in nxt],
                       'w': exact(nxt[0::2], w), 'r': exact(nxt[1::2], r)})
            cur = nxt
        ev.append({'op': 'out', 'hourly': int(hourly), 'levels': nl, 'missing': [int(x) for x in daily.isnull()],
                   'out': qs(res[-1].values, 1e6)})
        if freq:
            ev.append({'op': 'freq'})
    return {'ev': ev, 'tabs': [casc.tab(s) for s in st], 'freq': freq}
