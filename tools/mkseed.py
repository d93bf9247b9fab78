#!/usr/bin/env python3
"""Developer tool: (re)creates and confirms planted changes from tools/seeds/*.py; no check reads this or /verif/seeded.
usage: mkseed.py [ID...]   For each: scratch copy of /repo, edit, patch.diff, demo on both trees, build + stable tests."""
import sys, os, subprocess, json, shutil, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
for f in sorted(glob.glob(V + '/tools/seeds/*.py')): S.update(runpy.run_path(f)['SEEDS'])
CPP = '''#!/bin/bash
# run with cwd = the source tree; exit 0 when the property holds, nonzero when it is broken
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d); trap 'find "$T" -delete' EXIT
%s -std=%s -w -O1 %s-I"$D/stubs" -I"$PWD/c++" "$D/demo.cpp" %s -o "$T/demo" %s || exit 2
timeout 120 "$T/demo"
'''
PY = '''#!/bin/bash
# run with cwd = the source tree; exit 0 when the property holds, nonzero when it is broken
D="$(cd "$(dirname "$0")" && pwd)"; export PYTHONDONTWRITEBYTECODE=1
timeout 120 python3 "$D/demo.py" "$PWD"
'''
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for i, s in S.items():
    if len(sys.argv) > 1 and i not in sys.argv[1:]: continue
    d = V + '/seeded/' + i; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = '/tmp/seedwork'; shutil.rmtree(w, ignore_errors=True); subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in s['edits']:
        t = open(w + '/' + f).read(); assert t.count(old) == 1, (i, f, t.count(old), old); open(w + '/' + f, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
    if 'cpp' in s:
        open(d + '/demo.cpp', 'w').write(s['cpp']); shutil.copytree(V + '/harness/stubs', d + '/stubs')
        for x in s.get('inc', []): shutil.copytree(V + '/harness/' + x, d + '/' + x)
        open(d + '/demo.sh', 'w').write(CPP % (s.get('cxx', 'g++'), s.get('std', 'c++20'), ''.join('-I"$D/%s" ' % x for x in s.get('inc', [])), ' '.join('"$PWD/c++/triqs/%s"' % x for x in s.get('src', [])), s.get('flags', '')))
    else:
        open(d + '/demo.py', 'w').write(s['py']); open(d + '/demo.sh', 'w').write(PY)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh(d + '/demo.sh', '/repo'); b = sh(d + '/demo.sh', w)
    ok = a.returncode == 0 and b.returncode not in (0, 2)
    # build + stable tests with the change applied to /repo itself, undone straight afterwards
    bt = 'skipped'
    if ok and '--nobuild' not in os.environ.get('SEEDOPT', ''):
        try:
            subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
            r1 = sh('bash /opt/vp/build.sh'); r2 = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            o = json.load(open('/tmp/seed_out.json')); bt = 'build rc %d test %s' % (r1.returncode, json.dumps(o)[:200])
        finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    print(i, 'OK' if ok else 'BAD', a.returncode, b.returncode, bt); 
    if not ok: print(a.stdout[-1500:], '-----', b.stdout[-1500:])
    shutil.rmtree(w)
