#!/usr/bin/env python3
"""does the specification notice a wrong result?  Record the behaviours of a check, change one recorded result
(a value, a missing value made a value, a value made missing) and let TLC judge the changed trace.

usage: corrupt.py [-n changes per check] [CHECK...]   prints rejected/changed per check and the accepted changes
"""
import argparse
import copy
import json
import os
import random
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import plan  # noqa: E402

NA = -2000000000
ALWAYS = {'out', 'axis', 'filled', 'changed', 'rows', 'l', 'r', 'vp', 'td', 'fa', 'fb', 'fA', 'fC', 'total', 'direct', 'diffuse', 'see', 'rval', 'rtimes', 'kept', 'n', 'res', 'rdays',
          'back', 'again', 'hours', 'x', 'resaved', 'eq', 'ne'}
BY_OP = {'sun': {'rise', 'set', 'noon', 'dlen'}, 'course': {'course'}, 'shift': {'shift'}, 'category': {'table'}, 'dew': {'a0', 'a1'}, 'wind': {'a', 'b', 's'}, 'level': {'tab', 'thr'},
         'avg': {'tab', 'thr'}, 'read': {'val', 'times'}, 'write': {'file'}, 'cycle': {'back', 'hours', 'again'}}


def leaves(x, path=()):
    if isinstance(x, bool):
        return
    if isinstance(x, int):
        yield path
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from leaves(y, path + (k,))


def change(rng, tr):
    t = copy.deepcopy(tr)
    cand = []
    for i, e in enumerate(t['ev']):
        keys = ALWAYS | BY_OP.get(e.get('op'), set())
        if e.get('op') == 'cycle':
            keys = keys - {'n'}
        if 'cmp' in e:  # boxes of a cascade level
            keys = {'v', 'wet'}
        got = [(i, k) for k in e if k in keys and next(leaves(e[k]), None) is not None]
        cand += got
    if not cand:
        return None
    i, k = rng.choice(cand)
    p = rng.choice(list(leaves(t['ev'][i][k])))
    o, key = t['ev'][i], k
    for s in p:
        o, key = o[key], s
    v = o[key]
    if v == NA:
        w = 12345
    elif rng.random() < 0.2:
        w = NA
    elif abs(v) < 100 and isinstance(o, list) and max(abs(y) for y in o if isinstance(y, int) and y != NA) > 1000:
        w = v + 5000    # a small value among scaled numbers
    elif abs(v) < 100:
        w = v + rng.choice([-1, 1, 2]) if abs(v) < 30 else v * 3 + 7
    else:
        w = v + rng.choice([-1, 1]) * max(abs(v) // 40, 20)
    o[key] = w
    return t, '%s event %d %s %s%s: %d -> %d' % (t['name'], i + 1, t['ev'][i].get('op'), k, list(p), v, w)


def judge(spec, cfg, t, work):
    fd, f = tempfile.mkstemp(suffix='.json', dir=work)
    os.close(fd)
    json.dump([t], open(f, 'w'))
    meta = tempfile.mkdtemp(dir=work)
    jars = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
    p = subprocess.run(['java', '-XX:+UseSerialGC', '-Xmx2g', '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', jars, 'tlc2.TLC', '-workers', '1', '-metadir', meta, '-noGenerateSpecTE', '-nowarning', '-config', cfg,
                        spec + '.tla'], cwd=os.path.join(VERIF, 'spec'), env=dict(os.environ, TRACE_FILE=f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return 'accepted' if p.returncode == 0 else 'rejected' if 'is violated' in p.stdout else 'error'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=40)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--traces', help='directory with recorded traces from an earlier run')
    ap.add_argument('checks', nargs='*')
    a = ap.parse_args()
    rng = random.Random(a.seed)
    with tempfile.TemporaryDirectory(prefix='corrupt-') as work:
        for c in a.checks or sorted(plan.PLAN):
            f = os.path.join(a.traces or work, c + '.json')
            if not os.path.exists(f):
                subprocess.run([os.path.join(VERIF, 'check'), c], env=dict(os.environ, VERIF_TRACES=f, VERIF_EVIDENCE_DIR=os.path.join(work, 'ev')), stdout=subprocess.DEVNULL, check=True)
            T = [t for t in json.load(open(f)) if len(json.dumps(t)) < 400000]
            todo = []
            while len(todo) < a.n:
                x = change(rng, rng.choice(T))
                if x:
                    todo.append(x)
            p = plan.PLAN[c]
            with ThreadPoolExecutor(7) as ex:
                res = list(ex.map(lambda x: judge(x[0].get('spec', p['trace']), p.get('tcfg', 'Trace.cfg'), x[0], work), todo))
            print('%s: %d of %d rejected' % (c, sum(r != 'accepted' for r in res), len(res)) + (', %d evaluation errors' % res.count('error') if 'error' in res else ''), flush=True)
            for r, x in zip(res, todo):
                if r == 'accepted':
                    print('    accepted: ' + x[1], flush=True)


if __name__ == '__main__':
    main()
