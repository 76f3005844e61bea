# Build configurations and the stages of every check.
WARN = ['-w']
BASE_FLAGS = ['-O3', '-pedantic', '-std=c99', '-m64', '-mavx2', '-mbmi2', '-march=native', '-mtune=native', '-O3', '-DNDEBUG']
CONFIGS = {
    # exactly the project's own flags (Release), minus warnings-as-errors
    'native': dict(cc='gcc', flags=WARN + BASE_FLAGS),
}
REF = 'the reference model (harness/ref.cc) is right; it is cross-checked against Python integers and hashlib by tools/selftest.py'
CHECKS = {}
def simple(p, src=None, assumptions=(), **kw):
    CHECKS[p] = dict(stages=[dict(name='native', src=src or p.lower() + '.cc', **kw)], assumptions=[REF] + list(assumptions))
for _p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09'):
    simple(_p)
simple('P11', src='fred.cc')
simple('P13', src='fred.cc', defs=['-DFLD448'])
simple('P10', src='ffull.cc')
simple('P12', src='ffull.cc', defs=['-DFLD448'])

def both(p, src, **kw):
    CHECKS[p] = dict(stages=[dict(name='fp25519', src=src, tag='fp25519', **kw), dict(name='fp448', src=src, tag='fp448', defs=['-DFLD448'], **kw)], assumptions=[REF])
both('P14', 'finv.cc')
both('P15', 'fenc.cc')
both('P16', 'flane.cc')
simple('P17')
simple('P18')
simple('P19')
simple('P20')
simple('P21')
# AddressSanitizer build: C accesses checked byte by byte (the guard-page stage also sees the inline assembly)
CONFIGS['asan'] = dict(cc='gcc', flags=WARN + ['-O1', '-g1', '-std=c99', '-m64', '-mavx2', '-mbmi2', '-march=native', '-mtune=native', '-DNDEBUG', '-fomit-frame-pointer', '-fsanitize=address', '-fno-common'])
CHECKS['P22'] = dict(stages=[dict(name='guard', src='p22.cc', tag='guard'),
                             dict(name='asan', src='p22.cc', tag='asan', libs=['asan'], san=True, hflags=['-O1', '-g1', '-mavx2', '-mbmi2', '-fno-strict-aliasing', '-fsanitize=address'], ldflags=['-fsanitize=address'],
                                  env={'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:handle_segv=0:allocator_may_return_null=1:print_summary=0'}, scale={'quick': '0.25', 'thorough': '0.1'})],
                     assumptions=['accesses of inline assembly are seen only when they leave the page-guarded region, C accesses byte by byte'])
# ThreadSanitizer build for data races on hidden state
CONFIGS['tsan'] = dict(cc='gcc', flags=WARN + ['-O1', '-g1', '-std=c99', '-m64', '-mavx2', '-mbmi2', '-march=native', '-mtune=native', '-DNDEBUG', '-fomit-frame-pointer', '-fsanitize=thread'])
CHECKS['P23'] = dict(stages=[dict(name='native', src='p23.cc', tag='native'),
                             dict(name='tsan', src='p23.cc', tag='tsan', libs=['tsan'], san=True, only='races', hflags=['-O1', '-g1', '-mavx2', '-mbmi2', '-fno-strict-aliasing', '-fsanitize=thread'], ldflags=['-fsanitize=thread'],
                                  env={'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:report_thread_leaks=0:atexit_sleep_ms=0'})],
                     assumptions=['schedules are those the operating system produced on 8 cores; the TSan stage sees races of C code on any schedule with the same calls'])
# P24: differently built copies of the library
def _cfg(name, cc, flags, **kw):
    CONFIGS[name] = dict(cc=cc, flags=WARN + ['-std=c99', '-m64', '-mavx2', '-mbmi2', '-march=native', '-mtune=native', '-DNDEBUG'] + flags, **kw)
NOADX, NEITHER = ['-mno-adx'], ['-mno-adx', '-mno-bmi2']
for _o in ('0', '1', '2', 's'): _cfg('gcc-O' + _o, 'gcc', ['-O' + _o])
_cfg('gcc-bmi2', 'gcc', ['-O3'] + NOADX); _cfg('gcc-neither', 'gcc', ['-O3'] + NEITHER); _cfg('gcc-O0-bmi2', 'gcc', ['-O0'] + NOADX); _cfg('gcc-O0-neither', 'gcc', ['-O0'] + NEITHER)
_cfg('gcc-O1-bmi2', 'gcc', ['-O1'] + NOADX); _cfg('gcc-O1-neither', 'gcc', ['-O1'] + NEITHER); _cfg('gcc-O2-neither', 'gcc', ['-O2'] + NEITHER)
CONFIGS['gcc-haswell'] = dict(cc='gcc', flags=WARN + ['-std=c99', '-m64', '-march=haswell', '-O3', '-DNDEBUG'])
for _o in ('0', '1', '2', '3'): _cfg('clang-O' + _o, 'clang', ['-O' + _o])
_cfg('clang-bmi2', 'clang', ['-O3'] + NOADX); _cfg('clang-neither', 'clang', ['-O2'] + NEITHER); _cfg('clang-O0-neither', 'clang', ['-O0'] + NEITHER); _cfg('clang-O1-bmi2', 'clang', ['-O1'] + NOADX)
_SW = r'^(\s*#\s*define\s+SWAP_METHOD\s+)\w+'
for _m in ('LOGIC', 'CMOV'):
    _cfg('gcc-swap-' + _m.lower(), 'gcc', ['-O3'], patch=[(_SW, r'\1' + _m)]); _cfg('clang-swap-' + _m.lower(), 'clang', ['-O2'], patch=[(_SW, r'\1' + _m)])
    _cfg('gcc-O1-swap-' + _m.lower(), 'gcc', ['-O1'] + NOADX, patch=[(_SW, r'\1' + _m)])
_cfg('gcc-processor-haswell', 'gcc', ['-O3'], patch=[(r'^(\s*#\s*define\s+PROCESSOR\s+)SKYLAKE', r'\1HASWELL')])
_cfg('gcc-nopic', 'gcc', ['-O3', '-fno-pic', '-fno-pie'], pic=False)
_cfg('gcc-nopic-neither', 'gcc', ['-O2', '-fno-pic', '-fno-pie'] + NEITHER, pic=False)
_cfg('gcc-lto', 'gcc', ['-O3', '-flto'], link=['-O3', '-flto', '-w'])
_Q = ['gcc-O0', 'gcc-O1', 'gcc-O2', 'gcc-bmi2', 'gcc-neither', 'gcc-O0-neither', 'clang-O0', 'clang-O2', 'clang-neither', 'clang-bmi2', 'gcc-swap-logic', 'gcc-swap-cmov', 'clang-swap-logic', 'clang-swap-cmov']
_T = _Q + ['gcc-Os', 'gcc-O0-bmi2', 'gcc-O1-bmi2', 'gcc-O1-neither', 'gcc-O2-neither', 'gcc-haswell', 'clang-O1', 'clang-O3', 'clang-O0-neither', 'clang-O1-bmi2', 'gcc-O1-swap-logic', 'gcc-O1-swap-cmov', 'gcc-processor-haswell', 'gcc-lto']
def _p24(name, lib, q, t, **kw): return dict(name=name, src='p24.cc', tag=name, libs=[lib], extra_src=['p24glue.cc'], glue=['p24glue.cc'], plugins=dict(quick=q, thorough=t), **kw)
CHECKS['P24'] = dict(stages=[_p24('builds', 'native', _Q, _T), _p24('static', 'gcc-nopic', ['gcc-O2'], ['gcc-O2', 'clang-O3'], nopie=True, hflags=['-O2', '-g1', '-mavx2', '-mbmi2', '-fno-strict-aliasing', '-fno-pie'], scale={'quick': '0.7', 'thorough': '0.5'}),
                             _p24('static-neither', 'gcc-nopic-neither', ['gcc-O2'], ['gcc-O2', 'clang-O3'], nopie=True, hflags=['-O2', '-g1', '-mavx2', '-mbmi2', '-fno-strict-aliasing', '-fno-pie'], scale={'quick': '0.7', 'thorough': '0.5'})],
                     assumptions=['field elements are compared as residues, everything else byte by byte'])
simple('P27')
_W = ['open', 'open64', 'openat', 'read', 'pread', 'close', 'getrandom', 'getentropy', 'fopen', 'fopen64']
simple('P25', ldflags=['-Wl,' + ','.join('--wrap=' + w for w in _W)])
CHECKS['P28'] = dict(stages=[dict(name='native', src='p28.cc', tag='native', env={'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}, ldflags=['-Wl,--wrap=prgn_random_bytes']),
                             dict(name='asan', src='p28.cc', tag='asan', libs=['asan'], san=True, only='history,usable', hflags=['-O1', '-g1', '-mavx2', '-mbmi2', '-fno-strict-aliasing', '-fsanitize=address'], ldflags=['-fsanitize=address', '-Wl,--wrap=prgn_random_bytes'],
                                  env={'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:handle_segv=0:print_summary=0'}, scale={'quick': '0.5', 'thorough': '0.3'})],
                     assumptions=[REF])
# trace builds: every basic block and memory access of the C code calls back (no sanitizer runtime is linked; the harness provides the callbacks)
CONFIGS['trace'] = dict(cc='gcc', flags=WARN + BASE_FLAGS + ['-fsanitize-coverage=trace-pc', '-fsanitize=kernel-address', '--param', 'asan-stack=0', '--param', 'asan-globals=0', '--param', 'asan-instrumentation-with-call-threshold=0'])
CHECKS['P26'] = dict(stages=[dict(name='native', src='p26.cc', tag='native', ldflags=['-Wl,-z,now', '-rdynamic', '-ldl']),
                             dict(name='trace', src='p26.cc', tag='trace', libs=['trace'], defs=['-DCOV'], ldflags=['-Wl,-z,now', '-rdynamic', '-ldl'])]
                    + [dict(name=l, src='p26.cc', tag=l, libs=[l], ldflags=['-Wl,-z,now', '-rdynamic', '-ldl'], scale={'quick': '0.3', 'thorough': '0.05'}, tiers=t) for l, t in (('gcc-bmi2', ('quick', 'thorough')), ('gcc-neither', ('quick', 'thorough')), ('clang-O2', ('thorough',)), ('clang-neither', ('thorough',)), ('gcc-O0', ('thorough',)), ('gcc-O1-swap-logic', ('thorough',)), ('gcc-O1-swap-cmov', ('thorough',)))],
                     assumptions=['leakage is the sequence of instruction addresses and memory operand addresses; instruction timing is not observed'])
_WM = ['-Wl,' + ','.join('--wrap=' + w for w in ['malloc', 'calloc', 'realloc', 'posix_memalign', 'aligned_alloc', 'free'])]
CHECKS['P29'] = dict(stages=[dict(name=n, src='p29.cc', tag=n, libs=[n], ldflags=_WM, **({} if n == 'native' else dict(scale={'quick': '0.3', 'thorough': '0.3'}))) for n in ('native', 'gcc-O1', 'clang-O2')],
                     assumptions=['a copy is a run of 16 bytes; the keys are random, so equal runs do not arise by chance'])
# the callee-saved registers are kept out of the harness, so that what the library leaves in them is seen
_FIX = ['-O2', '-g1', '-mavx2', '-mbmi2', '-fno-strict-aliasing', '-fomit-frame-pointer'] + ['-ffixed-' + r for r in ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')]
CHECKS['P30'] = dict(stages=[dict(name=n, src='p30.cc', tag=n, libs=[l], hflags=_FIX, scale=sc) for n, l, sc in (('native', 'native', {}), ('gcc-bmi2', 'gcc-bmi2', {'quick': '0.3', 'thorough': '0.3'}), ('gcc-neither', 'gcc-neither', {'quick': '0.3', 'thorough': '0.3'}), ('clang', 'clang-O2', {'quick': '0.3', 'thorough': '0.3'}), ('clang-neither', 'clang-neither', {'quick': '0.3', 'thorough': '0.3'}), ('gcc-O1', 'gcc-O1', {'quick': '0.3', 'thorough': '0.3'}))],
                     assumptions=['register and stack discipline is that of the System V ABI for x86-64'])
