#!/usr/bin/env python3
"""systematic sensitivity campaign: change one syntax element of /repo's sources at a time (operators, comparisons,
constants, keyword arguments, slices, statements) and run the checks responsible for the function.

usage: automutate.py list | run OUT [-j N] [--shard i/n] [-f file] [--redo IN]
"""
import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['cascade.py', 'data_io.py', 'humidity.py', 'precipitation.py', 'radiation.py', 'station.py', 'stationstatistics.py',
         'temperature.py', 'wind.py', 'util/util.py', 'util/bunch.py']
# checks responsible for a function, most telling first
WHO = {
    'cascade.py': {'': ['C28', 'C05', 'C19', 'C04', 'C02']},
    'data_io.py': {'read_smet': ['C20'], 'write_smet': ['C20'], '': ['C21']},
    'humidity.py': {'disaggregate_humidity': ['C11', 'C10', 'C03', 'C18'], '': ['C24', 'C18']},
    'precipitation.py': {'disagg_prec': ['C02', 'C06', 'C18'], 'disagg_prec_cascade': ['C04', 'C02', 'C06', 'C01', 'C18'], 'precip_master_station': ['C02', 'C01', 'C18'],
                         'aggregate_precipitation': ['C05', 'C06', 'C18'], 'build_casc': ['C05', 'C06', 'C18'], 'seasonal_subset': ['C06', 'C05'],
                         '': ['C01', 'C02', 'C04']},
    'radiation.py': {'disaggregate_radiation': ['C13', 'C03', 'C01'], 'potential_radiation': ['C15', 'C13'], 'bristow_campbell': ['C13', 'C14'], 'angstroem': ['C13', 'C14'],
                     '': ['C14', 'C18']},
    'station.py': {'': ['C17', 'C18', 'C01', 'C23', 'C06', 'C02', 'C07', 'C08', 'C11', 'C13', 'C16', 'C03']},
    'stationstatistics.py': {'calc_radiation_stats': ['C14', 'C17', 'C18'], 'to_json': ['C19'], 'from_json': ['C19'], '': ['C17', 'C24', 'C05', 'C14', 'C18', 'C19', 'C13']},
    'temperature.py': {'get_shift_by_data': ['C24'], '': ['C07', 'C08', 'C09', 'C03', 'C18']},
    'wind.py': {'fit_cosine_function': ['C24'], '': ['C12', 'C24']},
    'util/util.py': {'hourly_index': ['C01', 'C03'], 'distribute_equally': ['C03', 'C12', 'C02', 'C01'], 'vapor_pressure': ['C10'], 'dewpoint_temperature': ['C10', 'C24'],
                     'linregress': ['C24'], 'get_sun_times': ['C16'], 'detect_gaps': ['C22'], 'drop_incomplete_days': ['C22'], 'prepare_interpolation_data': ['C23'],
                     'daily_from_hourly': ['C22'], '': ['C24', 'C17']},
    'util/bunch.py': {'': ['C18', 'C19', 'C17']},
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.Pow: ast.Mult, ast.FloorDiv: ast.Div}


def sites(tree):
    """(function, node path description, mutated tree) for every mutation"""
    res = []

    def edit(path, f):
        t = copy.deepcopy(tree)
        n = t
        for step in path:
            n = getattr(n, step[0]) if step[1] is None else getattr(n, step[0])[step[1]]
        f(n)
        return t

    def replace(path, new):
        t = copy.deepcopy(tree)
        n = t
        for step in path[:-1]:
            n = getattr(n, step[0]) if step[1] is None else getattr(n, step[0])[step[1]]
        k, i = path[-1]
        if i is None:
            setattr(n, k, new)
        else:
            getattr(n, k)[i] = new
        return t

    def walk(n, path, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                fn = n.name if not fn or fn not in TOP else fn
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'print':
            return
        if isinstance(n, ast.Assert) or isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        line = getattr(n, 'lineno', 0)

        def add(what, t):
            res.append((fn, line, what, t))
        if isinstance(n, ast.Compare):
            for op in CMP.get(type(n.ops[0]), []):
                add('cmp %s->%s' % (type(n.ops[0]).__name__, op.__name__), edit(path, lambda x: x.ops.__setitem__(0, op())))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add('bin %s->%s' % (type(n.op).__name__, BIN[type(n.op)].__name__), edit(path, lambda x: setattr(x, 'op', BIN[type(n.op)]())))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add('aug %s' % type(n.op).__name__, edit(path, lambda x: setattr(x, 'op', BIN[type(n.op)]())))
        if isinstance(n, ast.BoolOp):
            add('bool', edit(path, lambda x: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And())))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            add('unary dropped', replace(path, n.operand))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add('const %r' % v, edit(path, lambda x: setattr(x, 'value', not v)))
            elif isinstance(v, int):
                add('const %r+1' % v, edit(path, lambda x: setattr(x, 'value', v + 1)))
                if v not in (0,):
                    add('const %r-1' % v, edit(path, lambda x: setattr(x, 'value', v - 1)))
            elif isinstance(v, float):
                add('const %r*1.01' % v, edit(path, lambda x: setattr(x, 'value', v * 1.01 if v else 0.01)))
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg:
                    add('keyword %s dropped' % k.arg, edit(path, lambda x: x.keywords.pop(i)))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'fillna', 'round', 'clip', 'dropna', 'sort_index', 'abs', 'strip', 'sort_values', 'floor'):
                add('method %s dropped' % n.func.attr, replace(path, n.func.value))
        if isinstance(n, ast.Slice):
            for part in ('lower', 'upper'):
                if getattr(n, part) is not None:
                    add('slice %s dropped' % part, edit(path, lambda x: setattr(x, part, None)))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and path and path[-1][0] in ('body', 'orelse') and fn and path[-1][1] is not None:
            add('statement deleted', replace(path, ast.Pass()))
        if isinstance(n, ast.If):
            add('if True', edit(path, lambda x: setattr(x, 'test', ast.Constant(True))))
            add('if False', edit(path, lambda x: setattr(x, 'test', ast.Constant(False))))
        if isinstance(n, ast.Break):
            add('break->pass', replace(path, ast.Pass()))
        for field, val in ast.iter_fields(n):
            if field in ('annotation', 'decorator_list', 'returns') or (field == 'defaults' and False):
                continue
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        walk(x, path + [(field, i)], fn)
            elif isinstance(val, ast.AST):
                walk(val, path + [(field, None)], fn)

    TOP = {n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}
    top = set()
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            top.add(n.name)
        if isinstance(n, ast.ClassDef):
            top |= {m.name for m in n.body if isinstance(m, ast.FunctionDef)}
    TOP = top
    walk(tree, [], '')
    return res


def mutants(only=None):
    out = []
    for f in FILES:
        if only and f not in only:
            continue
        src = open('/repo/melodist/' + f).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        seen = {base}
        for fn, line, what, t in sites(tree):
            try:
                s = ast.unparse(ast.fix_missing_locations(t))
            except Exception:
                continue
            if s in seen:
                continue
            seen.add(s)
            if not fn or fn in ('fill_with_sample_data', '__ne__'):
                continue
            old, new = base.splitlines(), s.splitlines()
            d = next((i for i in range(min(len(old), len(new))) if old[i] != new[i]), 0)
            out.append(dict(id='%s:%d:%s' % (f, line, what), file=f, fn=fn, line=line, what=what, src=s, old=old[d].strip(), new=new[d].strip()))
    return out


def run(m):
    who = WHO[m['file']]
    props = who.get(m['fn'], who[''])
    work = tempfile.mkdtemp(prefix='auto-')
    try:
        repo = os.path.join(work, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', 'examples'))
        open(os.path.join(repo, 'melodist', m['file']), 'w').write(m['src'])
        for p in props:
            try:
                r = subprocess.run([os.path.join(VERIF, 'check'), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600,
                                   env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE_DIR=work))
            except subprocess.TimeoutExpired:
                return dict(m, verdict='TIMEOUT', by=p, src=None)
            if r.returncode == 1:
                return dict(m, verdict='caught', by=p, how=r.stdout.splitlines()[0][:200], src=None)
            if r.returncode != 0:
                return dict(m, verdict='ERROR', by=p, how=r.stdout[-300:], src=None)
        return dict(m, verdict='ALIVE', by='', src=None)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out', nargs='?')
    ap.add_argument('-j', type=int, default=3)
    ap.add_argument('-f', default='')
    ap.add_argument('--shard', default='0/1')
    ap.add_argument('--redo', default='')
    a = ap.parse_args()
    ms = mutants(a.f.split(',') if a.f else None)
    if a.redo:
        want = {r['id'] + r['new'] for r in map(json.loads, open(a.redo)) if r['verdict'] not in ('caught',)}
        ms = [m for m in ms if m['id'] + m['new'] in want]
    i, n = map(int, a.shard.split('/'))
    ms = ms[i::n]
    if a.cmd == 'list':
        for m in ms:
            print(m['id'], m['fn'], '|', m['old'][:70], '->', m['new'][:70])
        print(len(ms))
    else:
        with ThreadPoolExecutor(a.j) as pool, open(a.out, 'a') as o:
            for r in as_completed([pool.submit(run, m) for m in ms]):
                o.write(json.dumps(r.result()) + '\n')
                o.flush()
