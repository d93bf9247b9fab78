"""Runs the entries of a Python harness (see pysym.py)."""
import os, json, subprocess, drive
PY = '/opt/veriftools/pyvenv/bin/python3'
def path(u): return drive.V + '/pyharness/' + u['harness']
def env(): return dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
def entries(u, tier):
    r = drive.run([PY, drive.E + '/pysym.py', 'list', path(u), tier], env=env())
    if r.returncode: raise drive.Broken(r.stderr[-1500:])
    return r.stdout.split()
def run(u, e, d, tier, budget):
    out = '%s/%s.%s.json' % (d, u['name'], e)
    try: r = drive.run([PY, drive.E + '/pysym.py', 'run', path(u), e, out, tier, str(budget)], env=env(), timeout=budget + 120, cwd=d)
    except subprocess.TimeoutExpired: return {'fatal': 'time limit'}
    if r.returncode or not os.path.exists(out): return {'fatal': 'python executor: ' + (r.stderr or r.stdout)[-1500:]}
    return json.load(open(out))
def replay(u, d, tier, e, p, v):
    try: r = drive.run([PY, drive.E + '/pysym.py', 'native', path(u), e, p, tier], env=env(), timeout=60 if v['kind'] == 'hang' else 120, cwd=d)
    except subprocess.TimeoutExpired: return v['kind'] == 'hang', 'time limit'
    t = r.stdout[-3000:] + r.stderr[-3000:]
    if v['kind'] in ('incomplete', 'hang'): return r.returncode in (77, 78), t
    if v['kind'] == 'exception': return r.returncode == 78, t
    return (r.returncode == 77 and ('NATIVE-FAIL ' + v['id']) in r.stdout) or r.returncode == 78, t
