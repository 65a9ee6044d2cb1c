"""C11: humidity within limits, categorical and min/max methods, kept daily means"""
from c10 import DEW, run  # noqa: F401

import numpy as np

import world

ALL = ('equal', 'min_max', 'month_hour_precip_mean') + DEW


def scenarios(tier, rng):
    out = []
    for k in range(120 if tier == 'thorough' else 30):
        out.append(('hum-%d' % k, 'run', dict(seed=int(rng.randint(1 << 30)), methods=ALL, via=['station', 'direct'][k % 2], keeps=(False, True),
                                              n=int(rng.choice([1, 2, 5, 40])), level=float([0, 15, -12, 36, -40][k % 5]), miss=k % 4 == 3)))
    for k in range(6 if tier == 'thorough' else 2):
        out.append(('years-%d' % k, 'run', dict(seed=int(rng.randint(1 << 30)), methods=ALL[:3], via=['station', 'direct'][k % 2], keeps=(k % 2 == 0,), n=int(rng.randint(740, 1000)),
                                                level=5.0, miss=k % 3 == 2, start=world.YEARS[rng.randint(6)])))
    return out
