"""Run the checks against the planted bugs: bugrun.py [id ...] -> a table."""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(VERIF + '/seeded'))
for b in ids:
    d = f'{VERIF}/seeded/{b}'
    prop = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='bugrun_', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=t + '/r', check=True)
        env = dict(os.environ, SIM_REPO=t + '/r', SIM_OUT=t, VERIF_SEED='1', VERIF_TIER='quick')
        t0 = time.time()
        r = subprocess.run(['/opt/venv/bin/python', '-B', 'check.py', prop], cwd=VERIF, env=env,
                           capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        extra = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')][:2]
        print(f'{b:45} {prop} rc={r.returncode} {time.time()-t0:.0f}s', v[:1], extra if r.returncode else '', r.stderr[-300:] if r.returncode not in (0, 1) else '', flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)
