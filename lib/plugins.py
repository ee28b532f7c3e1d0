"""Properties of the PRNG plugins (generators/*.c)."""
import json, os, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
from common import *

CFLAGS = ['-std=c99', '-march=x86-64-v3', '-maes', '-fPIC', '-ffreestanding', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-emit-llvm', '-c']
SLOW = ['threefish1024', 'cswb4288_64', 'xoroshiro128pp_vec', 'chacha', 'hc256', 'ranluxpp', 'kuzn', 'swblux', 'mt19937_64', 'alfib_lux', 'blabla', 'mt19937', 'ranlux48', 'magma', 'isaac', 'isaac64']
# calls whose body is summarised as "writes N initialised bytes at argument A"
SUMMARIES = {'kuzn': ['--summary=mul_mat_vec:0:16']}
TIMEOUT = {'quick': 240, 'thorough': 700}


def analyse(tier):
    src = sorted(glob.glob(os.path.join(REPO, 'generators', '*.c')))
    d = tmpdir()
    order = {n: i for i, n in enumerate(SLOW)}
    src.sort(key=lambda p: order.get(os.path.basename(p)[:-2], 1000))

    def one(p):
        n = os.path.basename(p)[:-2]
        bc = os.path.join(d, n + '.bc')
        r = subprocess.run(['clang'] + CFLAGS + ['-I' + os.path.join(REPO, 'include'), p, '-o', bc], capture_output=True, text=True)
        if r.returncode != 0:
            return n, p, {'error': 'does not compile: ' + r.stderr[-500:], 'findings': []}
        try:
            r = subprocess.run([TOOL, 'plugin', '--budget=%d' % (400000 if tier == 'quick' else 4000000)] + SUMMARIES.get(n, []) + [bc], capture_output=True, text=True, timeout=TIMEOUT[tier])
            lines = r.stdout.strip().splitlines()
            res = json.loads(lines[-1]) if lines else {'error': 'analyser failed: ' + r.stderr[-300:], 'findings': []}
        except subprocess.TimeoutExpired:
            res = {'error': 'time limit', 'findings': []}
        except ValueError as e:
            res = {'error': 'analyser output: %s' % e, 'findings': []}
        finally:
            if os.path.exists(bc):
                os.unlink(bc)
        return n, p, res
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, src))


MEM = {'oob', 'sovf', 'index', 'div0', 'shift', 'null-call', 'null-deref', 'null', 'bad-free', 'double-free', 'use-after-free', 'dangling', 'const-write', 'mem', 'uninit-ptr', 'sprintf', 'no-return'}
RULES = {
    'G01': {'range'},
    'G02': MEM,
    'G03': {'uninit-output', 'uninit-branch', 'uninit-ptr', 'uninit-print'},
    'G04': {'global-write'},
    'G06': {'addr-output', 'hw-output', 'ram-output', 'ext-output', 'api-in-output'},
    'G07': {'unseeded-output'},
    'G08': {'sum-mismatch'},
    'G09': {'gi-field', 'gi-nbits', 'gi-ret', 'param-accept', 'create-ret'},
    'G10': {'leak'},
}
ALLOWED_EXT = {'memcpy', 'memset', 'memmove', 'memcmp'}
EXPL = {
    'G01': 'For every generator variant that declares 32-bit output, the abstract value returned by get_bits at the fixpoint of its state invariant (all seeds, all parameters, any number of calls) fits into 32 bits.',
    'G02': 'Every load, store, memory intrinsic, array index, division, shift and indirect call reachable from gen_getinfo/create/get_bits/get_sum/free was checked in the abstract state at the fixpoint of the call sequence.',
    'G03': 'No output value, branch condition or pointer can depend on bytes that were never initialised.',
    'G04': 'Store/memory-intrinsic effects of create/get_bits/get_sum/free on objects with static storage.',
    'G05': 'Every external symbol referenced by a plugin was enumerated from its IR.',
    'G06': 'Taint of the returned value (addresses, asm/hardware/time, RAM size, unmodelled externals) and host callbacks used while producing output.',
    'G07': 'Data-flow of the seed supplied by the host into the returned value (fixpoint over repeated calls).',
    'G08': 'Expression trees and scalar-evolution trip counts of get_sum against the get_bits registered next to it.',
    'G09': 'All paths of gen_getinfo/create are enumerated over the outcome of comparisons of the user parameter; descriptor fields are checked on success paths, an unknown parameter must make gen_getinfo or create fail.',
    'G10': 'Heap objects allocated by create (or later) that are still live when the free callback returns.',
}


def run(pid):
    build_tool()
    c = Check(pid)
    res = analyse(c.tier)
    nofix, errs = 0, []
    tot = dict(variants=0, creates=0, outputs=0, obligations=0, functions=0, instructions=0, fixpoints=0)
    kinds = {}
    nsum = {'ok': 0, 'bad': 0, 'undecided': 0}
    nparam = 0
    externs = 0
    for n, p, r in res:
        if 'error' in r:
            errs.append('%s: %s' % (n, r['error']))
            if r['error'].startswith('does not compile'):
                raise Broken('%s %s' % (n, r['error']))
            continue
        nofix += 1
        tot['variants'] += len(r.get('variants', []))
        for k in ('creates', 'outputs', 'obligations', 'functions', 'instructions', 'fixpoints'):
            tot[k] += r.get(k, 0)
        for k, v in r.get('obligationKinds', {}).items():
            kinds[k] = kinds.get(k, 0) + v
        for s in r.get('sums', []):
            nsum[s['status']] += 1
        nparam += bool(r.get('usesParam'))
        src = rel(p)

        def loc(f):
            f = rel(f or src)
            return src if f.endswith('.bc') or not f else f
        if pid == 'G05':
            for e in r.get('externs', []):
                externs += 1
                if e['name'] not in ALLOWED_EXT:
                    c.report('extern', loc(e['file']), e['func'], e['line'], "uses the symbol '%s' that the plugin does not define" % e['name'], plugin=n)
            continue
        for f in r.get('findings', []):
            if f['kind'] in RULES[pid]:
                c.report(f['kind'], loc(f['file']), f['func'], f['line'], f['msg'], ctx=f.get('ctx'), stack=f.get('stack'), plugin=n)
    c.require(nofix, 290, 'plugins analysed')
    c.require(tot['outputs'], 290, 'state invariants computed')
    c.cov.update(tot)
    c.cov['plugins_not_decided'] = errs
    c.cov['obligation_kinds'] = kinds
    if pid == 'G08':
        c.cov['get_sum_pairs'] = nsum
        c.require(sum(nsum.values()), 300, 'get_bits/get_sum pairs')
    if pid == 'G09':
        c.require(nparam, 20, 'plugins with --param variants')
    if pid == 'G05':
        c.cov['external_references'] = externs
    c.assumptions += ['malloc succeeds', 'x86-64-v3 + AES code paths (other preprocessor branches are not analysed)', 'the self-test callback is not analysed']
    return c.finish(EXPL[pid])
