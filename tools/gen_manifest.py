#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in specs.SPEC:
        s = specs.SPEC[i]; py = any(u.get('kind') == 'py' for u in s['units'])
        tech = ('symbolic execution of the real Python code with Z3 terms as inputs; every assertion decided by the SMT solver' if py and not any(u.get('kind', 'cpp') == 'cpp' for u in s['units']) else 'symbolic execution of the LLVM IR of the real C++ code; every assertion decided by the Z3 SMT solver')
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i, 'technique': tech, 'level': 'other', 'level_note': 'Bounded symbolic execution. Bounds: %s. Outside: %s.' % (s['bounds'], s.get('outside', 'everything beyond these bounds'))})
    else: na.append({'property': i, 'reason': specs.NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
