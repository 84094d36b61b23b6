"""Build and confirm planted bugs.

usage: plant.py DEFS.py [id ...]

DEFS.py defines BUGS: a list of dicts with
  id, property, needs, breaks, file, edits [(old, new), ...], demo (python text)
For every bug a scratch copy of /repo is changed, the stable tests and the demo
are run, and if everything is as required seeded/<id>/ is written.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
STABLE = set(BASE['stable'])
PY = '/opt/venv/bin/python'
HEAD = '''"""Exits 0 if the behaviour is right, 1 if the planted bug shows."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "pysrc"))
sys.dont_write_bytecode = True
'''
SH = '''#!/bin/bash
# run with cwd = the repository
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def run_tests(tree):
    rep = tempfile.mkdtemp(dir='/tmp')
    env = dict(os.environ, PYTHONPATH=tree + '/pysrc', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               HYPOTHESIS_STORAGE_DIRECTORY=rep + '/h')
    try:
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                        '-o', 'junit_family=xunit2', '--hypothesis-seed=0',
                        f'--junitxml={rep}/tests.xml', 'tests/'], cwd=tree, env=env, capture_output=True)
        subprocess.run([PY, '/opt/vp/results.py', rep + '/out.json', f'junit:{rep}/*.xml'], capture_output=True)
        got = set(json.load(open(rep + '/out.json'))['passed'])
    finally:
        shutil.rmtree(rep, ignore_errors=True)
    miss = sorted(t for t in STABLE - got if t.startswith('tests.'))
    return len(miss), f'{len(got)} passed; missing {miss[:8]}'


def main():
    defs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    for b in defs:
        if want and b['id'] not in want:
            continue
        tree = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
        try:
            shutil.copytree('/repo', tree + '/r', symlinks=True,
                            ignore=shutil.ignore_patterns('target', 'benchmarks'))
            tree_r = tree + '/r'
            f = b.get('file', 'pysrc/whenever/_pywhenever.py')
            src = open(f'{tree_r}/{f}').read()
            bad = None
            for e in b['edits']:
                old, new, *cnt = e
                n = src.count(old)
                k = cnt[0] if cnt else None      # index of the occurrence
                if n == 0 or (n > 1 and k is None):
                    bad = f'edit matches {n} times: {old[:80]!r}'
                    break
                if k is None:
                    src = src.replace(old, new)
                else:
                    parts = src.split(old)
                    src = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            if bad:
                print(b['id'], 'BAD', bad)
                continue
            d = f'{tree}/s'
            os.makedirs(d)
            open(d + '/demo.py', 'w').write(HEAD + b['demo'])
            open(d + '/demo.sh', 'w').write(SH)
            os.chmod(d + '/demo.sh', 0o755)
            r0 = subprocess.run([d + '/demo.sh'], cwd=tree_r, capture_output=True, text=True, timeout=300)
            open(f'{tree_r}/{f}', 'w').write(src)
            r1 = subprocess.run([d + '/demo.sh'], cwd=tree_r, capture_output=True, text=True, timeout=300)
            diff = subprocess.run(['git', 'diff', '--', 'pysrc'], cwd=tree_r, capture_output=True, text=True).stdout
            ok = r0.returncode == 0 and r1.returncode != 0
            print(b['id'], b['property'], 'demo:', r0.returncode, r1.returncode, (r1.stdout + r1.stderr).strip().splitlines()[-1:], flush=True)
            if not ok:
                print('   ', r0.stdout[-600:], r0.stderr[-600:])
                continue
            rc, out = run_tests(tree_r)
            print('   tests rc', rc, out.strip().splitlines()[-1], flush=True)
            if rc:
                print(out)
                continue
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            dst = f'{VERIF}/seeded/{b["id"]}'
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        finally:
            shutil.rmtree(tree, ignore_errors=True)


main()
