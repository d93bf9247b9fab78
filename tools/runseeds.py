#!/usr/bin/env python3
"""Developer tool: applies each planted change to /repo, runs its property's check, undoes it. usage: runseeds.py [ID...]"""
import sys, os, subprocess, json, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(V + '/seeded/*/')):
    i = os.path.basename(d[:-1])
    if len(sys.argv) > 1 and i not in sys.argv[1:]: continue
    p = json.load(open(d + 'meta.json'))['property']
    try:
        subprocess.check_call(['git', '-C', '/repo', 'apply', d + 'patch.diff']); t = time.time()
        r = subprocess.run([V + '/check', p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    print(i, p, {0: 'MISSED', 1: 'caught', 2: 'NO-ANSWER'}.get(r.returncode, '?'), '%.0fs' % (time.time() - t), r.stdout.strip().splitlines()[0][:250] if r.stdout.strip() else '', flush=True)
