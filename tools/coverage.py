#!/usr/bin/env python3
"""lines of /repo/melodist that no check executes: coverage.py [C01 C02 ...]"""
import ast
import glob
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import plan  # noqa: E402

work = tempfile.mkdtemp(prefix='melcov-')
try:
    for p in sys.argv[1:] or sorted(plan.PLAN):
        r = subprocess.run([os.path.join(VERIF, 'check'), p], env=dict(os.environ, VERIF_COV=work, VERIF_EVIDENCE_DIR=work), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p, r.returncode, flush=True)
    seen = set()
    for f in glob.glob(os.path.join(work, '*.cov')):
        seen |= set(open(f).read().split())
finally:
    shutil.rmtree(work, ignore_errors=True)
root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'melodist')
for dirpath, _, names in os.walk(root):
    for n in sorted(names):
        if not n.endswith('.py'):
            continue
        path = os.path.join(dirpath, n)
        rel = os.path.relpath(path, root)
        src = open(path).read()
        lines = src.splitlines()
        for fn in ast.walk(ast.parse(src)):
            if isinstance(fn, ast.FunctionDef):
                for s in ast.walk(fn):
                    if isinstance(s, ast.stmt) and s is not fn and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        if '%s:%d' % (rel, s.lineno) not in seen:
                            print('%s:%d %s: %s' % (rel, s.lineno, fn.name, lines[s.lineno - 1].strip()))
