#!/usr/bin/env python3
"""Development aid: confirm planted bugs (seeded/<id>) in scratch copies and run checks against them.
   seedcheck.py ID.. [--no-check] [--only-check] [--all-checks]   scratch copies under /tmp/seed are removed afterwards"""
import json, os, shutil, subprocess, sys, time
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); S = '/tmp/seed'
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    try: p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e); return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as x: return 124, (x.stdout or b'').decode(errors='replace') + '\nTIMEOUT'
def build(d):
    return sh(f'rm -rf {d}/_build && cmake -S {d} -B {d}/_build -G Ninja -DCMAKE_MODULE_PATH=/opt/vp/cmake >/dev/null && ninja -C {d}/_build all bench gbench tests test_mine', env=dict(CC='gcc', CXX='g++'))
def tests(d):
    r = f'{d}/_build/vp-results'; shutil.rmtree(r, ignore_errors=True); os.makedirs(r)
    sh(f'python3 /opt/vp/run_tests.py {d}/_build/bin {r}; python3 /opt/vp/results.py {d}/o.json lines:{r}/results.txt')
    p = json.load(open(f'{d}/o.json')); ok = set(p['passed']); return [t for t in stable if t not in ok]
def copy(name):
    d = f'{S}/{name}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(S, exist_ok=True)
    sh(f'git -C /repo archive --format=tar HEAD | (mkdir -p {d} && tar x -C {d})'); return d
def demo(d, i):      # laid elsewhere, without patch and meta
    t = f'{S}/demo-{i}'; shutil.rmtree(t, ignore_errors=True); shutil.copytree(f'{V}/seeded/{i}', t)
    for f in os.listdir(t):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json': os.remove(f'{t}/{f}')
    r = sh(f'bash {t}/demo.sh', cwd=d, timeout=300); shutil.rmtree(t); return r
args = [a for a in sys.argv[1:] if not a.startswith('-')]; flags = [a for a in sys.argv[1:] if a.startswith('-')]
ids = args or sorted(os.listdir(f'{V}/seeded'))
if '--only-check' not in flags:
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip(); base = f'{S}/base'
    if not os.path.exists(f'{base}/.ok-{head}'):
        base = copy('base'); c, o = build(base)
        if c: print(o[-3000:]); sys.exit('base does not build')
        open(f'{base}/.ok-{head}', 'w')
for i in ids:
    m = json.load(open(f'{V}/seeded/{i}/meta.json')); P = m['property']; d = copy(i); line = f'{i} {P}:'
    c, o = sh(f'git init -q . ; git apply {V}/seeded/{i}/patch.diff', cwd=d)
    if c: print(line, 'PATCH DOES NOT APPLY', o); continue
    if '--only-check' not in flags:
        c, o = build(d); line += ' build ' + ('ok' if c == 0 else 'FAILS')
        if c: print(line, o[-2500:]); continue
        f = tests(d); line += ' tests ' + ('ok' if not f else 'FAIL ' + ','.join(f[:3]))
        c, o = demo(f'{S}/base', i); line += f' demo-base {c}' + ('' if c == 0 else ' BAD ' + o[-600:])
        c, o = demo(d, i); line += f' demo-bug {c}' + ('' if c else ' BAD ' + o[-600:])
    if '--no-check' not in flags:
        for Q in ([P] if '--all-checks' not in flags else ['P%02d' % k for k in range(1, 29)]):
            t = time.time(); c, o = sh(f'./check {Q}', cwd=V, env=dict(VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick')); v = [l for l in o.splitlines() if l.startswith('VIOLATION property=' + Q)]
            fail = [l for l in o.splitlines() if l.startswith('failure in')]
            line += f' | {Q} {"CAUGHT" if c == 1 and v else "missed" if c == 0 else "exit %d" % c} {time.time() - t:.0f}s {fail[0][11:170] if fail else ""}'
    print(line, flush=True); shutil.rmtree(d, ignore_errors=True)
