#!/usr/bin/env python3
"""sensitivity campaign: apply one textual change at a time to a scratch copy of /repo and run checks on it.

usage: mutate.py [-p C05,C06] [-k substring]     (mutants are listed in tools/mutants.py)
"""
import argparse
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import mutants  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('-p', default='')
ap.add_argument('-k', default='')
a = ap.parse_args()
want = set(a.p.split(',')) if a.p else None
scratch = tempfile.mkdtemp(prefix='melmut-')
try:
    for i, (props, path, old, new) in enumerate(mutants.MUTANTS):
        if want and not (want & set(props)):
            continue
        if a.k and a.k not in old + new + path:
            continue
        repo = os.path.join(scratch, 'repo')
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', 'examples'))
        f = os.path.join(repo, 'melodist', path)
        s = open(f).read()
        n = s.count(old)
        if n == 0:
            print('#%d STALE %s: %r' % (i, path, old[:60]))
            continue
        open(f, 'w').write(s.replace(old, new, 1))
        for p in props:
            if want and p not in want:
                continue
            r = subprocess.run([os.path.join(VERIF, 'check'), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE_DIR=scratch))
            verdict = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR')
            print('#%d %s %s %s: %r -> %r | %s' % (i, verdict, p, path, old[:50], new[:50],
                                                 r.stdout.strip().splitlines()[0][:150] if r.stdout.strip() else ''), flush=True)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
