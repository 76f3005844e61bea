import os, re, sys, json, time, threading, hashlib, subprocess, argparse, shutil, concurrent.futures as cf, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
H = os.path.join(VERIF, 'harness')
REPLAYS = os.path.join(VERIF, 'replays')

from checks import CHECKS, CONFIGS, BASE_FLAGS   # noqa: E402

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

_files = {}
_tree_lock = threading.Lock()
def filehash(p):
    if p not in _files:
        with open(p, 'rb') as f: _files[p] = hashlib.sha256(f.read()).hexdigest()
    return _files[p]

def tree_hash(root, subdirs):
    h = hashlib.sha256()
    for d in subdirs:
        for dp, dn, fn in sorted(os.walk(os.path.join(root, d))):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update((os.path.relpath(p, root) + ' ' + filehash(p) + '\n').encode())
    return h.hexdigest()

def cpu_id():
    return sh(['gcc', '-march=native', '-mtune=native', '-Q', '--help=target']).stdout

def cached(name, key, make):
    """make(path) builds the file unless build/<name>-<key> exists."""
    os.makedirs(BUILD, exist_ok=True)
    k = hashlib.sha256(key.encode()).hexdigest()[:20]
    out = os.path.join(BUILD, f'{name}-{k}')
    if not os.path.exists(out):
        tmp = f'{out}.tmp{os.getpid()}'
        make(tmp)
        os.replace(tmp, out)
    return out

class BuildError(Exception): pass

def compile_(cmd):
    r = sh(cmd)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])

def third_party_sources():
    """sources of the object libraries prng and hash, as the project's build lists them"""
    base = ['prng.c', 'sha512.c', 'sha3.c', 'sha512_2way.c']
    try:
        t = open(os.path.join(REPO, 'third_party', 'CMakeLists.txt')).read()
        l = [f for m in re.findall(r'add_library\s*\(\s*(?:prng|hash)\s+OBJECT([^)]*)\)', t) for f in re.findall(r'[\w./-]+\.c\b', m)]
        if l: return l
    except OSError: pass
    return base

def source_tree(patch, ctx):
    """copy of the sources with a configuration macro set to another of its supported values"""
    out = os.path.join(BUILD, 'tree-' + hashlib.sha256((ctx['repo'] + repr(patch)).encode()).hexdigest()[:20])
    with _tree_lock:
        if os.path.isdir(out): return out
        tmp = f'{out}.tmp{os.getpid()}'; n = 0
        for d in ('src', 'include', 'third_party'):
            for dp, dn, fn in os.walk(os.path.join(REPO, d)):
                rel = os.path.relpath(dp, REPO); os.makedirs(os.path.join(tmp, rel), exist_ok=True)
                for f in fn:
                    t = open(os.path.join(dp, f), 'rb').read()
                    if f.endswith(('.h', '.c')):
                        for rx, to in patch:
                            t, k = re.subn(rx.encode(), to.encode(), t, flags=re.M); n += k
                    open(os.path.join(tmp, rel, f), 'wb').write(t)
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def lib_objects(cfgname, ctx):
    """objects of the library built from the working tree in configuration cfgname."""
    cfg = CONFIGS[cfgname]
    root = source_tree(cfg['patch'], ctx) if cfg.get('patch') else REPO
    files = [os.path.join(root, 'src', 'target.c')] + [os.path.join(root, 'third_party', f) for f in third_party_sources()]
    inc = ['-I' + root + '/include', '-I' + root + '/third_party']
    jobs = []
    for f in files:
        flags = list(cfg['flags']) + (['-fPIC'] if cfg.get('pic', True) else [])
        src = f
        key = '|'.join([ctx['repo'], ctx['cpu'], cfg['cc'], ' '.join(flags), f, str(cfg.get('defs', '')), str(cfg.get('rename', ''))])
        def mk(out, flags=flags, src=src):
            cmd = [cfg['cc']] + flags + inc + cfg.get('defs', []) + ['-c', src, '-o', out]
            compile_(cmd)
            if cfg.get('post'):
                compile_(cfg['post'] + [out])
        jobs.append((os.path.basename(f) + '-' + cfgname, key, mk))
    return jobs

def harness_obj(src, flags, ctx, cc='g++'):
    key = '|'.join([ctx['harness'], ctx['repo_inc'], ctx['cpu'], src, ' '.join(flags), cc])
    inc = ['-I' + REPO + '/include', '-I' + REPO + '/third_party', '-I' + H]
    def mk(out): compile_([cc, '-std=c++17', '-w'] + flags + inc + ['-c', os.path.join(H, src), '-o', out])
    return (src + '.o', key, mk)

HFLAGS = ['-O2', '-g1', '-mavx2', '-mbmi2', '-fno-strict-aliasing']

def build_all(stages, ctx):
    """returns list of binaries, one per stage"""
    jobs, plan = {}, []
    def need(j):
        k = (j[0], j[1]); jobs.setdefault(k, j); return k
    for st in stages:
        hf = st.get('hflags', HFLAGS) + st.get('defs', []); hcc = st.get('hcc', 'g++')
        srcs = [st['src']] + st.get('extra_src', []) + ['pbt.cc', 'ref.cc']
        objs = [need(harness_obj(x, hf if st.get('san') else HFLAGS + ['-O3'] if x == 'ref.cc' else HFLAGS if x == 'pbt.cc' else hf, ctx, hcc)) for x in srcs]
        libs = [need(j) for c in st.get('libs', ['native']) for j in lib_objects(c, ctx)]
        plug = [(c, [need(harness_obj(x, HFLAGS + ['-fPIC', '-fno-gnu-unique'] + st.get('defs', []), ctx)) for x in st['glue'] + ['pbt.cc', 'ref.cc']] + [need(j) for j in lib_objects(c, ctx)]) for c in st.get('plugins', {}).get(ctx['tier'], [])]
        plan.append((st, objs + libs, hcc, plug))
    done = {}
    with cf.ThreadPoolExecutor(8) as ex:
        order = sorted(jobs.items(), key=lambda kv: 'target.c' not in kv[0][0])
        fut = {ex.submit(cached, k[0], k[1], j[2]): k for k, j in order}
        for f in cf.as_completed(fut): done[fut[f]] = f.result()
    bins = []
    for st, keys, hcc, plug in plan:
        sos = []
        for c, pk in plug:
            pp = [done[k] for k in pk]; cc = 'clang++' if CONFIGS[c]['cc'] == 'clang' else 'g++'
            def mkso(out): compile_([cc, '-shared', '-Wl,-Bsymbolic'] + CONFIGS[c].get('link', []) + pp + ['-o', out, '-lpthread', '-ldl'])
            sos.append(c + '=' + cached('so-' + c, '|'.join(pp + [cc]), mkso))
        if plug: st.setdefault('env', {})['PBT_PLUGINS'] = ','.join(sos)
        paths = [done[k] for k in keys]
        lf = st.get('ldflags', [])
        def mk(out): compile_([hcc] + ['-no-pie' if st.get('nopie') else '-pie'] + paths + ['-o', out] + lf + ['-lpthread', '-ldl'])
        bins.append(cached('bin-' + st['name'], '|'.join(paths + lf + [hcc]), mk))
    return bins

def prune():
    """keep the build cache small"""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        tot = sum(os.path.getsize(f) for f in fs)
        if tot > 1.5e9:
            for f in sorted(fs, key=os.path.getmtime)[:len(fs) // 2]:
                if os.path.isdir(f): shutil.rmtree(f, ignore_errors=True)
                else: os.remove(f)
    except OSError: pass

def make_ctx():
    return dict(repo=tree_hash(REPO, ['src', 'include', 'third_party']), repo_inc=tree_hash(REPO, ['include', 'third_party']),
                harness=tree_hash(H, ['.']), cpu=cpu_id())

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=' + prop + ' '): out.append(l)
    return out

def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--scale', default=None); ap.add_argument('--only')
    ap.add_argument('--stage'); ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    a = ap.parse_args(argv)
    prop, chk = a.prop, CHECKS[a.prop]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = a.seed if a.seed.lstrip('-').isdigit() else str(int(hashlib.sha256(a.seed.encode()).hexdigest()[:8], 16))
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ctx = make_ctx(); ctx['tier'] = tier
    stages = [s for s in chk['stages'] if tier in s.get('tiers', ('quick', 'thorough'))]
    if a.stage: stages = [s for s in stages if s['name'] == a.stage]
    rtag = None
    if a.replay:
        for l in open(a.replay):
            if l.startswith('tag '): rtag = l[4:].strip()
        stages = [s for s in chk['stages'] if s['name'] == rtag or s.get('tag', '') == (rtag or '')][:1] or stages[:1]
    try:
        bins = build_all(stages, ctx)
    except BuildError as e:
        print('BUILD FAILED\n' + str(e)); return 2
    tb = time.time() - t0
    print(f'{prop} tier={tier} seed={seed}: built in {tb:.1f}s', flush=True)
    results, viol, skipped = [], 0, []
    for st, b in zip(stages, bins):
        env = dict(os.environ); env.update(st.get('env', {}))
        cmd = st.get('prefix', []) + [b]
        if st.get('san'):      # some kernels randomise addresses more than a sanitizer run time accepts
            probe = lambda c: subprocess.run(c + ['--list'], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
            if not all(probe(cmd) for _ in range(3)):
                cmd = ['setarch', '-R'] + cmd
                if not all(probe(cmd) for _ in range(3)):
                    print(f' stage {st["name"]} cannot run here (the sanitizer run time does not start)'); skipped.append(st['name']); continue
        if a.replay:
            return subprocess.run(cmd + ['--prop', prop, '--replay', a.replay], env=env).returncode
        out = os.path.join(BUILD, f'res-{prop}-{st["name"]}-{os.getpid()}.json')
        cmd += ['--prop', prop, '--tier', tier, '--seed', seed, '--out', out, '--replay-dir', REPLAYS, '--tag', st.get('tag', '')]
        sc = a.scale or st.get('scale', {}).get(tier)
        if sc: cmd += ['--scale', str(sc)]
        only = a.only or st.get('only')
        if only: cmd += ['--only', only]
        if st.get('workers'): cmd += ['--workers', str(st['workers'])]
        print(f' stage {st["name"]}', flush=True)
        rc = subprocess.run(cmd, env=env).returncode
        try:
            r = json.load(open(out)); os.remove(out)
        except (OSError, ValueError):
            print(f'stage {st["name"]} gave no result (exit {rc})'); return 2
        r['stage'] = st['name']; results.append(r); viol += r['violations']
        if viol: break
    for k in known_findings(prop): print(k)
    ev = dict(property=prop, tier=tier, seed=int(seed), level='exploration',
              coverage=dict(evaluations=sum(s['evaluations'] for r in results for s in r['subs']),
                            distinct_nontrivial=sum(s['distinct_nontrivial'] for r in results for s in r['subs']),
                            rule='; '.join(f'{r["stage"]}/{s["name"]}: {s["rule"]}' for r in results for s in r['subs']),
                            samples=[f'{r["stage"]}/{s["name"]} {x}' for r in results for s in r['subs'] for x in s['samples'][:3]] or ['(none)'],
                            subchecks=[dict(stage=r['stage'], **{k: v for k, v in s.items() if k != 'samples'}) for r in results for s in r['subs']]),
              wall_s=round(time.time() - t0, 2), violations=viol, assumptions=chk['assumptions'] + [f'stage {x} did not run: its sanitizer run time does not start here' for x in skipped])
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    prune()
    print(f'{prop}: {"VIOLATED" if viol else "held"} on {ev["coverage"]["evaluations"]} cases ({ev["coverage"]["distinct_nontrivial"]} distinct non-trivial), {ev["wall_s"]} s')
    return 1 if viol else 0
