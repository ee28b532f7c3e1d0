"""Properties of the core program (src/*.c, apps/smokerand.c)."""
import json, os, subprocess, glob, shutil
from concurrent.futures import ThreadPoolExecutor
from common import *

CFLAGS = ['-std=c99', '-DUSE_PTHREADS', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-emit-llvm', '-c']
LLVM_LINK = next((p for p in ('/usr/bin/llvm-link', '/usr/bin/llvm-link-18', '/usr/lib/llvm-18/bin/llvm-link') if os.path.exists(p)), 'llvm-link')
MEM = {'oob', 'sovf', 'index', 'div0', 'shift', 'null-call', 'null-deref', 'null', 'bad-free', 'double-free', 'use-after-free', 'dangling', 'const-write', 'mem', 'uninit-ptr', 'sprintf', 'no-return', 'fp-to-int'}
T = dict(SEED=1, ADDR=4, HW=8, PARAM=16, EXT=32, GEN=64, RAM=128)


def core_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.c'))) + [os.path.join(REPO, 'apps', 'smokerand.c')]


def compile_core(extra=(), name='core', sources=None, per={}):
    d = tmpdir()
    src = sources or core_sources()
    inc = ['-I' + os.path.join(REPO, 'include')]

    def one(p):
        o = os.path.join(d, name + '_' + os.path.basename(p)[:-2] + '.bc')
        r = subprocess.run(['clang'] + CFLAGS + list(extra) + per.get(p, []) + inc + [p, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise Broken('%s does not compile: %s' % (rel(p), r.stderr[-600:]))
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(one, src))
    out = os.path.join(d, name + '.bc')
    r = subprocess.run([LLVM_LINK] + objs + ['-o', out], capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot link the core: ' + r.stderr[-600:])
    return out


def srcheck(args, timeout=600):
    try:
        r = subprocess.run([TOOL] + args, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {'error': 'time limit'}
    lines = r.stdout.strip().splitlines()
    try:
        return json.loads(lines[-1]) if lines else {'error': 'analyser failed: ' + r.stderr[-300:]}
    except ValueError as e:
        return {'error': 'analyser output: %s' % e}


# Penalties documented in docs/technotes.md ("The used penalties for failures")
PENALTY = {
    'monobit_freq_test_wrap': 4.0, 'byte_freq_test_wrap': 4.0, 'word16_freq_test_wrap': 4.0, 'nbit_words_freq_test_wrap': 4.0,
    'gap_test_wrap': 4.0, 'bspace_nd_test_wrap': 3.0, 'collisionover_test_wrap': 3.0,
    'hamming_ot_test_wrap': 2.0, 'hamming_ot_long_test_wrap': 2.0, 'hamming_distr_test_wrap': 2.0,
    'gap16_count0_test_wrap': 2.0, 'mod3_test_wrap': 2.0, 'sumcollector_test_wrap': 2.0,
    'bspace4_8d_decimated_test_wrap': 1.0, 'matrixrank_test_wrap': 0.25, 'linearcomp_test_wrap': 0.25,
    'ising2d_test_wrap': 4.0,
}
BATTERIES = ['battery_express', 'battery_brief', 'battery_default', 'battery_full', 'battery_ising', 'battery_unit_sphere_volume']
SLOW = ['ising2d', 'matrixrank', 'hamming_distr', 'bspace_nd', 'linearcomp', 'hamming_ot', 'nbit_words', 'byte_freq']


def battery_entries(bc):
    """All tests of all batteries, without repetitions of the same function with the same options."""
    uniq, total = {}, 0
    for b in BATTERIES:
        r = srcheck(['battery', '--list', bc, b])
        if 'error' in r:
            raise Broken('%s: %s' % (b, r['error']))
        for t in r['tests']:
            total += 1
            if 'func' not in t:
                raise Broken('%s entry %d: %s' % (b, t['index'], t.get('error')))
            k = (t['func'], t['options'])
            uniq.setdefault(k, (b, t['index'], t['name'], t['func']))
    return list(uniq.values()), total


def run_batteries(bc, tier):
    ents, total = battery_entries(bc)
    jobs = [(e, nb) for e in ents for nb in (64, 32)]

    def cost(j):
        for i, s in enumerate(SLOW):
            if j[0][3].startswith(s):
                return i
        return 99
    jobs.sort(key=cost)

    def one(j):
        (b, i, name, func), nb = j
        r = srcheck(['battery', '--nbits=%d' % nb, '--entry=%d' % i, '--budget=%d' % 100000000, bc, b], 300 if tier == 'quick' else 700)
        return j, r
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, jobs)), len(ents), total


BAT_RULES = {'C01': MEM, 'C03': set(), 'C04': {'global-write'}, 'C05': {'uninit-branch', 'uninit-ptr', 'uninit-print', 'uninit-output'}}
BAT_EXPL = {
    'C01': 'Every test of every built-in battery was analysed with arbitrary 32-bit and 64-bit generator output and with failing allocations: all loads, stores, indices, divisions, shifts, signed operations and releases.',
    'C02': 'Abstract value of every field of the result structure at every return of every test of every built-in battery.',
    'C03': 'Heap objects allocated by a test that are still live when it returns.',
    'C04': 'Store and memory-intrinsic effects of every test on objects with static storage.',
    'C05': 'Initialisation and taint (address, clock/hardware, unmodelled external functions) of the statistics returned by every test and of all branch conditions.',
}


def run_bat(pid):
    c = Check(pid)
    bc = compile_core()
    res, nuniq, total = run_batteries(bc, c.tier)
    tot = dict(obligations=0, functions=0, instructions=0, fixpoints=0)
    und, rets, unmod = [], 0, set()
    for ((b, i, name, func), nb), r in res:
        if 'error' in r:
            und.append('%s/%s (%d bits): %s' % (b, name, nb, r['error']))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        unmod |= set(r.get('unmodelled', []))
        for t in r['tests']:
            if 'error' in t:
                und.append('%s/%s (%d bits): %s' % (b, name, nb, t['error']))
            if not t.get('rets') and 'error' not in t and pid == 'C02':
                c.report('no-return', t.get('file'), func, t.get('line'), 'never returns a result', ctx='%s/%s' % (b, name))
            for x in t.get('rets', []):
                rets += 1
                where = (x.get('file') or t.get('file'), func, x.get('line') or t.get('line'))
                ctx = '%s/%s, %d bits' % (b, name, nb)
                if pid == 'C02':
                    for f in ('p', 'alpha', 'x', 'penalty', 'name', 'thread_id'):
                        if f in x and x[f]['undef']:
                            c.report('incomplete', *where, "field '%s' of the result may be uninitialised" % f, ctx=ctx)
                    if x['name']['null'] or x['name']['unk'] or not x['name']['ok'] or not x['name']['str']:
                        c.report('name', *where, "the name of the result is not a string", ctx=ctx)
                    for f in ('p', 'alpha', 'x'):
                        if x[f]['nan'] and not x[f]['any']:
                            c.report('not-computed', *where, "'%s' of the result is always NaN" % f, ctx=ctx)
                    want = PENALTY.get(func)
                    if want is not None and not (x['penalty'].get('lo') == want and x['penalty'].get('hi') == want):
                        c.report('penalty', *where, 'penalty of the result is %s, documented value: %g' % (x['penalty']['v'], want), ctx=ctx)
                if pid == 'C03':
                    for l in x['leaks']:
                        c.report('leak', *where, 'not released when the test returns: %s' % l, ctx=ctx)
                if pid == 'C05':
                    for f in ('p', 'alpha', 'x', 'penalty'):
                        if x[f]['undef']:
                            c.report('uninit-output', *where, "'%s' may depend on uninitialised memory" % f, ctx=ctx)
                        for n in ('ADDR', 'HW', 'EXT', 'PARAM', 'RAM'):
                            if x[f]['taint'] & T[n]:
                                c.report('taint-' + n.lower(), *where, "'%s' depends on something else than the output of the generator (%s)" % (f, n), ctx=ctx)
        for f in r.get('findings', []):
            if f['kind'] in BAT_RULES.get(pid, ()):
                c.report(f['kind'], f['file'], f['func'], f['line'], f['msg'], ctx=f.get('ctx'), stack=f.get('stack'))
    c.require(total, 100, 'battery entries')
    c.require(nuniq, 50, 'different test configurations')
    c.require(len(res) - len(und), 100, 'configurations analysed')
    c.require(rets, 100, 'results returned by tests')
    c.cov.update(tot)
    c.cov['not_decided'] = und
    c.cov['unmodelled'] = sorted(unmod)
    c.assumptions += ['specfuncs.c functions over scalars return any value', 'fastsort64/radixsort/quicksort/qsort only permute the array they are given', 'x86-64, portable (non-AVX2) preprocessor branch of lineardep.c']
    return c.finish(BAT_EXPL[pid])


def run(pid):
    build_tool()
    if pid in BAT_EXPL:
        return run_bat(pid)
    raise Broken('unknown property ' + pid)
