"""Shared driver code: tool building, known findings, evidence and verdicts."""
import json, os, subprocess, sys, tempfile, time, atexit, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'srcheck')
NCPU = max(1, len(os.sched_getaffinity(0)))


class Broken(Exception):
    """The analysis itself cannot give an answer (exit status 2)."""


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='srcheck.')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def build_tool():
    r = subprocess.run(['make', '-s', '-j%d' % NCPU, '-C', os.path.join(VERIF, 'tool')], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(TOOL):
        raise Broken('cannot build the analyser:\n' + r.stderr[-4000:])


def rel(path):
    """Path relative to the repository."""
    if not path:
        return ''
    p = os.path.normpath(os.path.join(REPO, path) if not os.path.isabs(path) else path)
    for base in (REPO, os.path.realpath(REPO)):
        if p.startswith(base + '/'):
            return p[len(base) + 1:]
    return p


def load_known():
    """known-findings.json: defects (KNOWN-FINDING / fixed); undecided.json:
    sites which this analysis cannot decide (documented in DESIGN.md)."""
    with open(os.path.join(VERIF, 'known-findings.json')) as f:
        known = json.load(f)['findings']
    with open(os.path.join(VERIF, 'undecided.json')) as f:
        und = json.load(f)['sites']
    return known, und


def _matches(entry, pid, v):
    props = entry['property'] if isinstance(entry['property'], list) else [entry['property']]
    if pid not in props:
        return False
    for key in ('file', 'kind', 'func'):
        if key in entry:
            want = entry[key] if isinstance(entry[key], list) else [entry[key]]
            have = {v.get(key)}
            if key == 'func':  # code moved into a helper keeps its callers
                have |= set((v.get('stack') or '').split())
            if not have & set(want):
                return False
    if 'match' in entry and entry['match'] not in v.get('msg', ''):
        return False
    return True


class Check:
    def __init__(self, pid, level='other'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol, self.knownhits, self.undecided = [], [], []
        self.cov = {}
        self.assumptions = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.known, self.und = load_known()
        self.seen = set()

    def report(self, kind, file, func, line, msg, **kw):
        v = dict(kind=kind, file=rel(file), func=func, line=line, msg=msg, **kw)
        k = (kind, v['file'], func, line, msg)
        if k in self.seen:
            return
        self.seen.add(k)
        for e in self.und:
            if _matches(e, self.pid, v):
                self.undecided.append(dict(v, reason=e['reason']))
                return
        for e in self.known:
            if e.get('status') == 'known' and _matches(e, self.pid, v):
                self.knownhits.append((e, v))
                return
        self.viol.append(v)

    def require(self, n, least, what):
        """Instance counts: a rule that finds (almost) nothing to check is broken."""
        self.cov.setdefault('instances', {})[what] = n
        if n < least:
            raise Broken('only %d %s found, at least %d expected: the rule has lost its anchor' % (n, what, least))

    def finish(self, explanation):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level)
        cov = dict(self.cov)
        cov['explanation'] = explanation
        if self.undecided:
            cov['undecided_sites'] = self.undecided
        if self.knownhits:
            cov['known_findings'] = [v for _, v in self.knownhits]
        if self.viol:
            cov['violations_found'] = self.viol
        ev['coverage'] = cov
        ev['assumptions'] = self.assumptions
        ev['violations'] = len(self.viol)
        ev['wall_s'] = round(time.time() - self.t0, 2)
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % self.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, self.pid + '.json'))
        for e, v in self.knownhits:
            print('KNOWN-FINDING: property=%s %s:%s %s: %s' % (self.pid, v['file'], v['line'], v['func'], e['what']))
        if self.viol:
            rp = os.path.join(d, self.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump(self.viol, f, indent=1, default=str)
            for v in self.viol[:40]:
                print('  %s:%s: in %s: [%s] %s%s' % (v['file'], v['line'], v['func'], v['kind'], v['msg'], (' (' + str(v.get('ctx')) + ')') if v.get('ctx') else ''))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s: %s (%.1f s)' % (self.pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, dict)) and k not in ('obligation_kinds',)})[:600], time.time() - self.t0))
        return 0


def run_main(fn):
    try:
        sys.exit(fn())
    except Broken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        sys.exit(2)
