"""Scenarios: analysis harnesses (harness/*.c) linked with the code of the
repository and handed to the abstract interpreter.  Nothing is executed."""
import os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from common import *
from core import compile_core, core_sources, srcheck, CFLAGS, LLVM_LINK

HARNESS = os.path.join(VERIF, 'harness')


def compile_with(harness, core_bc):
    d = tmpdir()
    objs = [core_bc]
    for p in ('env.c', harness + '.c'):
        o = os.path.join(d, 'h_' + p[:-2] + '.bc')
        r = subprocess.run(['clang'] + CFLAGS + ['-D__NO_CTYPE', '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS, os.path.join(HARNESS, p), '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise Broken('harness %s does not compile: %s' % (p, r.stderr[-600:]))
        objs.append(o)
    out = os.path.join(d, 'scen_%s.bc' % harness)
    r = subprocess.run([LLVM_LINK] + objs + ['-o', out], capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot link harness %s: %s' % (harness, r.stderr[-600:]))
    return out


def parse(harness, defs):
    """[(function, [options of each run], tags that must be reached)]"""
    sets, out = [['']], []
    for l in open(os.path.join(HARNESS, harness + '.c')):
        m = re.match(r'// opts: ?(.*)$', l)
        if m:
            sets = [x.split() for x in m.group(1).split('|')]
        m = re.match(r'void (sc_\w+)\(void\).*?// reach=([\w,-]*)(?: opts: ?(.*))?$', l)
        if m:
            s = [x.split() for x in m.group(3).split('|')] if m.group(3) else sets
            out.append((m.group(1), s, [t for t in m.group(2).split(',') if t]))
        elif re.match(r'void sc_\w+\(void\)', l):
            raise Broken('%s: scenario without reach=: %s' % (harness, l))
    return out


def run(pid, harnesses, expl, kinds=None, least=1):
    build_tool()
    c = Check(pid)
    src = [p for p in core_sources() if os.path.basename(p) != 'smokerand.c']
    app = os.path.join(REPO, 'apps', 'smokerand.c')
    core = compile_core(['-D__NO_CTYPE'], 'score', src + [app], per={app: ['-Dmain=smokerand_main']})
    jobs = []
    for h in harnesses:
        h, _, rx = h.partition(':')
        bc = compile_with(h, core)
        for fn, sets, reach in parse(h, None):
            if rx and not re.match(rx + '$', fn):
                continue
            for s in sets:
                jobs.append((h, bc, fn, [o for o in s if o], reach))

    def one(j):
        h, bc, fn, opts, reach = j
        left = t0 + (660 if c.tier == 'quick' else 3000) - time.time()
        if left < 5:
            return {'error': 'time limit'}
        return srcheck(['scenario', '--budget=%d' % (20000000 if c.tier == 'quick' else 60000000)] + opts + [bc, fn], min(left, 280 if c.tier == 'quick' else 700))
    t0 = time.time()
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, jobs))
    tot = dict(obligations=0, functions=0, instructions=0, fixpoints=0)
    und, paths, unmod, done, shared = [], 0, set(), 0, {}
    for (h, bc, fn, opts, reach), r in zip(jobs, res):
        where = '%s %s' % (fn, ' '.join(o for o in opts if o in ('--mallocfail',)))
        err = r.get('error') or next((s['error'] for s in r.get('scenarios', []) if 'error' in s), None)
        if err:
            und.append('%s/%s: %s' % (h, where, err))
            continue
        done += 1
        for k in tot:
            tot[k] += r.get(k, 0)
        unmod |= set(r.get('unmodelled', []))
        for s in r['scenarios']:
            paths += s['returns']
            for x in s.get('shared', []):
                if x['written']:
                    shared[x['object']] = x['locks']
            for t in reach:
                if not s['reached'].get(t) and '--mallocfail' not in opts:
                    c.report('not-reached', 'harness/%s.c' % h, fn, 0, "no path reaches the point '%s' of the scenario: the program ends or refuses before" % t, ctx=where)
            if '--mallocfail' not in opts:
                for k in s.get('not_printed', []):
                    c.report('report', 'harness/%s.c' % h, fn, 0, "'%s' is never printed" % k, ctx=where)
        for f in r['findings']:
            if kinds is None or f['kind'] in kinds or f['kind'] in ('must', 'report'):
                c.report(f['kind'], f['file'], f['func'], f['line'], f['msg'], ctx=where, stack=f.get('stack'))
    if not c.viol:
        c.require(done, least, 'scenarios analysed')
    if not c.viol and und and done < 0.9 * len(jobs):
        raise Broken('scenarios not finished: ' + '; '.join(und)[:500])
    c.cov.update(tot)
    c.cov['paths'] = paths
    c.cov['scenarios'] = sorted('%s/%s' % (j[0], j[2]) for j in jobs)
    c.cov['not_decided'] = und
    c.cov['unmodelled'] = sorted(unmod)
    if shared:
        c.cov['shared_objects_written_by_threads'] = shared
    c.assumptions += ['C library as modelled in tool/ai_exec.cpp; dlopen/dlsym/pthread as modelled in harness/env.c']
    return c.finish(expl)


EXPL = {
    'C06': 'Each scenario is a battery of synthetic tests with p-values of prescribed classes (any value of the class), or one of the modes of the program; the abstract interpreter decides the counters, the labels of the rows, the grade and the exit status for every value, and for every outcome of the allocations.',
    'C07': 'The bits of the output of each filter are tracked symbolically from the words of the generator (bit provenance), for every word.',
    'C08': 'The battery loader is run abstractly on files whose numbers are symbolic: the bits of every number are tracked to the field of the options of the test, the accepted numbers are compared with the range that the test is defined for, and malformed files, absent parameters and failing allocations must end with an error, without a run and without a leak.',
    'C09': 'The program is run abstractly from main() on command lines with symbolic numbers and with options of any characters: every option must reach the setting it stands for, exactly the documented numbers are accepted, everything else ends with an error before anything is run.',
    'C10': 'The multithreaded mode is run abstractly with every distribution of three tests among the threads: each test is run once by one thread with that thread\'s generator, results land in their own slots, generators are created before the threads start, memory shared between threads is written under one common lock, locks are released and taken in one order.',
    'C11': 'The bits of a key are tracked through the base64 encoder, the command line parser, the seed generator and the report (bit provenance through lookup tables); texts of several lengths consist of any characters, the influence of single characters and the absence of hardware sources is decided by taint analysis.',
    'C12': 'Every bit of every number returned by the stdin generators is tracked to the byte of the stream it comes from, across refills of the buffer, with filters, and with streams that end within or between blocks.',
    'C15': 'Every write to the standard output in the stdout modes is checked for its origin: bits are tracked from the generator to the file (order, width, amount), text output is only accepted if it consists of a number derived from the generator.',
}
SPEC = {
    'C08': dict(harnesses=['custom'], least=90),
    'C09': dict(harnesses=['cli'], least=90),
    'C06': dict(harnesses=['verdict'], least=30),
    'C07': dict(harnesses=['filters'], least=8),
    'C10': dict(harnesses=['threads'], least=8),
    'C11': dict(harnesses=['seeds'], least=30),
    'C12': dict(harnesses=['stdin'], least=12),
    'C15': dict(harnesses=['stdout'], least=10),
}


def main(pid):
    return run(pid, expl=EXPL[pid], **SPEC[pid])
