#!/usr/bin/env python3
"""Builds and verifies planted changes from a spec module: mkseed.py SPEC.py [NAME...]

A spec defines SEEDS = {name: dict(prop, needs, breaks, edits=[(file, old, new)], demo=python source)}.  Each is written to
/verif/seeded/NAME and kept only if, in a scratch copy of /repo, the demonstration passes without and fails with the change
and the repository's tests still pass with it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

OUT = '/verif/seeded'
PRE = '''import os, sys, warnings
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
warnings.simplefilter('ignore')
import numpy as np


def close(a, b, rtol=1e-6):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=0.0)


'''
SH = '''#!/bin/bash
# exit 0: the behaviour is right, nonzero: it is not
. /opt/vp/env.sh
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    seeds = ns['SEEDS']
    for name in sys.argv[2:] or list(seeds):
        s = seeds[name]
        d = os.path.join(OUT, name)
        w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        r = os.path.join(w, 'repo')
        try:
            sh(f'git clone -q /repo {r}')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for f, old, new in s['edits']:
                p = os.path.join(r, f)
                t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit(f'{name}: {t.count(old)} matches in {f} for {old!r}')
                open(p, 'w').write(t.replace(old, new))
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', cwd=r).stdout)
            open(os.path.join(d, 'demo.py'), 'w').write(PRE + s['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write(SH)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            a = sh(f'bash {d}/demo.sh', cwd='/repo')
            b = sh(f'bash {d}/demo.sh', cwd=r)
            t = sh(f'. /opt/vp/env.sh; PYTHONPATH={r}/src /opt/venv/bin/python -m pytest -q --no-cov -p no:cacheprovider -n 8 --timeout=600 tests', cwd=r) if not os.environ.get('NOTEST') else None
            tail = t.stdout.strip().splitlines()[-1] if t else 'tests skipped'
            ok = a.returncode == 0 and b.returncode != 0 and (t is None or t.returncode == 0)
            print(name, 'OK' if ok else 'BAD', f'clean rc={a.returncode} patched rc={b.returncode} tests: {tail}')
            if not ok:
                print(a.stderr[-800:], '\n--\n', b.stderr[-800:], '\n--\n', t.stdout[-1500:] if t else '')
            elif 'Error' in b.stderr and 'AssertionError' not in b.stderr:
                print('   note: ', b.stderr.strip().splitlines()[-1])
            if not ok:
                shutil.rmtree(d, ignore_errors=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
