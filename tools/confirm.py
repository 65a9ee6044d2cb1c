"""Confirm planted changes in scratch copies: the demonstration must tell the
unchanged tree from the changed one and the stable tests must still pass.

    tools/confirm.py [--no-tests] [id ...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def confirm(name, tests):
    work = tempfile.mkdtemp(prefix='confirm-', dir='/tmp')
    try:
        copy = os.path.join(work, 'repo')
        sh(['git', 'clone', '-q', '/repo', copy], '/')
        demo = os.path.join(SEEDED, name, 'demo.sh')
        if sh(['bash', demo], copy).returncode != 0:
            return name, 'demo fails on the unchanged tree'
        r = sh(['git', 'apply', os.path.join(SEEDED, name, 'patch.diff')], copy)
        if r.returncode != 0:
            return name, 'patch does not apply'
        r = sh(['bash', demo], copy)
        if r.returncode == 0:
            return name, 'demo passes on the changed tree'
        last = r.stderr.strip().splitlines()[-1][:100] if r.stderr.strip() else ''
        if tests:
            base = json.load(open('/opt/vp/BASELINE.json'))
            r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--rootdir', copy, '-p', 'no:cacheprovider'],
                   copy)
            if r.returncode != 0:
                return name, 'tests fail: ' + r.stdout.strip().splitlines()[-1]
        return name, 'ok: ' + last
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    names = args or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(4) as pool:
        for name, verdict in pool.map(lambda n: confirm(n, '--no-tests' not in sys.argv), names):
            print('%-26s %s' % (name, verdict), flush=True)
