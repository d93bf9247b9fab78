#!/usr/bin/env python3
"""Driver of the C++ checks: compiles harness + /repo sources to LLVM IR, runs irsym on every entry, replays
counterexamples natively and writes the evidence file.  Used by /verif/check."""
import os, sys, re, json, subprocess, hashlib, time, shutil, concurrent.futures as cf, resource
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
E = V + '/engine'; B = V + '/build'; H = V + '/harness'
JOBS = 8
LLVM = ['-I/usr/lib/llvm-18/include']; LLIB = ['-L/usr/lib/llvm-18/lib', '-lLLVM-18']
WARN = ['-w']
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
def sha(*fs):
    h = hashlib.sha256()
    for f in fs: h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]
class Broken(Exception): pass
def build_engine():
    os.makedirs(B, exist_ok=True)
    import fcntl
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = [E + '/' + f for f in ('ir.h', 'loader.cpp', 'exec.cpp', 'builtins.inc', 'interp.inc', 'irprep.cpp')]
        key = sha(*src); stamp = B + '/engine.stamp'
        if os.path.exists(stamp) and open(stamp).read() == key: return
        cmds = [['g++', '-O2', '-std=c++17', '-w', '-c', E + '/exec.cpp', '-o', B + '/exec.o'],
                ['g++', '-O1', '-std=c++17', '-w', '-fno-rtti', *LLVM, '-c', E + '/loader.cpp', '-o', B + '/loader.o'],
                ['g++', '-O0', '-std=c++17', '-w', '-fno-rtti', *LLVM, E + '/irprep.cpp', '-o', B + '/irprep', *LLIB]]
        with cf.ThreadPoolExecutor(3) as p:
            for r in p.map(run, cmds):
                if r.returncode: raise Broken('engine build failed: ' + r.stderr[-2000:])
        r = run(['g++', B + '/exec.o', B + '/loader.o', '-o', B + '/irsym', *LLIB, '-lz3'])
        if r.returncode: raise Broken('engine link failed: ' + r.stderr[-2000:])
        open(stamp, 'w').write(key)

def inc(unit): return ['-I' + H + '/stubs', '-I' + H, '-I' + E, '-I' + REPO + '/c++', *['-I' + H + '/' + i for i in unit.get('inc', [])]]
def flags(unit, tier): return ['-std=' + unit.get('std', 'c++20'), *WARN, *inc(unit), *unit.get('flags', []), *(['-DTHOROUGH'] if tier == 'thorough' else [])]
class CompileError(Exception): pass
def to_bc(src, out, fl):
    r = run(['clang++', *fl, '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-g', '-ffp-contract=off', src, '-o', out])
    if r.returncode: raise CompileError(src + ':\n' + '\n'.join([l for l in r.stderr.splitlines() if 'error:' in l or 'undefined' in l][:8]))
ENT = re.compile(r'^ENTRY\((h_\w+)\)(.*)$', re.M)
def entries(src, tier):
    res = []
    for m in ENT.finditer(open(src).read()):
        opt = {}; t = m.group(2); o = []
        k = re.search(r'//\s*irsym:(.*)$', t)
        if k: o = k.group(1).split()
        if 'thorough-only' in o:
            o.remove('thorough-only')
            if tier != 'thorough': continue
        res.append((m.group(1), o))
    return res
def limit(): resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
def limit_native(): resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
def resolve(s): return s.replace('$R', REPO + '/c++/triqs').replace('$H', H)
def work_dir(pid, tier):
    d = '%s/%s-%s' % (B, pid, tier); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); return d

def prepare(unit, d, tier):
    """compile and link one unit; returns path of bitcode"""
    name = unit['name']; fl = flags(unit, tier); srcs = [resolve('$H/' + unit['harness'])] + [resolve(s) for s in unit.get('src', [])]
    bcs = []; jobs = []
    rt = B + '/rt.bc'
    with cf.ThreadPoolExecutor(JOBS) as p:
        for i, s in enumerate(srcs):
            o = '%s/%s.%d.bc' % (d, name, i); bcs.append(o); jobs.append(p.submit(to_bc, s, o, fl))
        for j in jobs: j.result()
    out = '%s/%s.bc' % (d, name)
    r = run([B + '/irprep', *bcs, rt, '-o', out, *unit.get('prep', [])])
    if r.returncode: raise Broken('irprep: ' + r.stderr[-2000:])
    return out
def ensure_rt():
    import fcntl
    with open(B + '/.lock2', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = sha(E + '/rt.cpp'); st = B + '/rt.stamp'
        if os.path.exists(st) and open(st).read() == key and os.path.exists(B + '/rt.bc'): return
        to_bc(E + '/rt.cpp', B + '/rt.bc', ['-std=c++20', '-w']); open(st, 'w').write(key)
def native(unit, d, tier, kind='asan'):
    out = '%s/%s.%s' % (d, unit['name'], kind)
    if os.path.exists(out): return out
    fl = flags(unit, tier); san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,alignment'] if kind == 'asan' else []
    srcs = [resolve('$H/' + unit['harness'])] + [resolve(s) for s in unit.get('src', [])] + [E + '/sym_native.cpp']
    objs = []; cmds = []
    for i, s in enumerate(srcs): o = '%s/%s.%d.%s.o' % (d, unit['name'], i, kind); objs.append(o); cmds.append(['clang++', *fl, '-O0', '-g', *san, '-c', s, '-o', o])
    with cf.ThreadPoolExecutor(JOBS) as p:
        for r in p.map(run, cmds):
            if r.returncode: raise Broken('native build failed: ' + r.stderr[-2000:])
    r = run(['clang++', *san, *objs, '-rdynamic', '-ldl', '-lpthread', '-o', out, *unit.get('link', [])])
    if r.returncode: raise Broken('native link failed: ' + r.stderr[-2000:])
    return out
def write_inputs(v, path):
    with open(path, 'w') as f:
        for n, k, x in v['inputs']: f.write('%s %s\n' % (n, x))
def replay(unit, d, tier, entry, inputs, viol, id_=None):
    """-> (reproduced, text)"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=6000:exitcode=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1')
    try: r = run([native(unit, d, tier), entry, inputs], env=env, timeout=60 if viol['kind'] == 'nonterm' else 120, cwd=d, preexec_fn=limit_native)
    except subprocess.TimeoutExpired: return (viol['kind'] == 'nonterm', 'native replay did not end')
    t = r.stderr[-6000:]
    if r.returncode not in (0, 3): return True, t
    if viol['kind'] == 'memory':
        n = native(unit, d, tier, 'plain')
        try: r2 = run(['valgrind', '-q', '--error-exitcode=9', n, entry, inputs], timeout=300, cwd=d)
        except subprocess.TimeoutExpired: return False, 'valgrind timeout'
        return r2.returncode not in (0, 3), r2.stderr[-4000:]
    return False, 'exit %d\n' % r.returncode + t
def irsym(bc, entry, opts, out, budget):
    o = list(opts)
    if '--max-time' not in o: o += ['--max-time', str(budget)]
    t = time.time()
    try: r = run([B + '/irsym', bc, entry, '--out', out, *o], preexec_fn=limit, timeout=budget + 120)
    except subprocess.TimeoutExpired: return {'entry': entry, 'fatal': 'timeout'}
    if not os.path.exists(out): return {'entry': entry, 'fatal': 'irsym exit %d: %s' % (r.returncode, r.stderr[-800:])}
    j = json.load(open(out)); j['stderr'] = r.stderr[-2000:]; return j
