#!/usr/bin/env python3
"""tools/try_bugs.py [ids...]   runs, for each planted bug in /verif/seeded, the
quick check of its property on a scratch copy of /repo with the patch applied
(MC_REPO), and the demonstration on that copy.  Not used by any check."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd, **env):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', MC_WORKERS='3', **env))
    return p.returncode, p.stdout.decode(errors='replace')


def one(name):
    here = os.path.join(VERIF, 'seeded', name)
    prop = json.load(open(os.path.join(here, 'meta.json')))['property']
    scratch = tempfile.mkdtemp(prefix='bug-')
    copy = os.path.join(scratch, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', copy])
        rc, out = run('git apply %s/patch.diff' % here, copy)
        if rc:
            return name, prop, 'DOES NOT APPLY ' + out[-200:]
        if run('git diff --name-only', copy)[1].strip().endswith(('.c', '.pyx')):
            run('rm -f blmath/numerics/linalg/cholmod*.so; /opt/venv/bin/python -W ignore setup.py -q build_ext --inplace --force', copy)
        rc, out = run('bash %s/demo.sh' % here, copy)
        demo = '' if rc else '   (the demonstration passes)'
        rc, out = run('./check %s quick' % prop, VERIF, MC_REPO=copy)
        caught = rc == 1 and any(x.startswith('VIOLATION property=%s' % prop) for x in out.splitlines())
        return name, prop, ('caught' if caught else 'MISSED rc=%d %s' % (rc, out[-200:])) + demo
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    names = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    with ThreadPoolExecutor(3) as pool:
        for name, prop, verdict in pool.map(one, names):
            print('%-26s %s %s' % (name, prop, verdict), flush=True)


if __name__ == '__main__':
    main()
