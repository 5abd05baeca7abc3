"""Expands /repo's current source, extracts it into one Verus file with the contracts of
/verif/spec woven in, and has Verus discharge the obligations.

A function that the verifier cannot take (a construct it does not accept, a loop without a
contract, ghost text that no longer fits the code) is degraded: its body is dropped, its contract
is kept as an assumption, and it is reported as bounded.  It is never counted as proved.
"""
import json, os, re, subprocess, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

# messages by which Verus reports an obligation it could not discharge
OBLIGATION = (
    'postcondition not satisfied', 'precondition not satisfied', 'assertion failed',
    'invariant not satisfied', 'decreases not satisfied', 'possible arithmetic',
    'possible division', 'possible bit shift', 'requires not satisfied', 'assert_by_compute',
    'assertion simplifies to false', 'expression simplifies to', 'recommendation not met', 'loop invariant not satisfied',
    'could not prove termination', 'unreachable', 'index out of bounds', 'possible index',
    'could not show', 'constructed value may fail', 'failed assertion', 'not all errors may have been reported',
    'unable to prove', 'possible',
)
LIMIT = ('Resource limit', 'rlimit', 'timed out', 'while loop: Resource')


def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, capture_output=True, text=True)


class ProofUnavailable(Exception):
    pass


def build_extractor(work):
    target = os.path.join(work, 'extract-target')
    r = sh(['cargo', 'build', '--offline', '--quiet', '--target-dir', target],
           cwd=os.path.join(ROOT, 'extract'))
    if r.returncode != 0:
        raise ProofUnavailable('the extractor does not build: ' + r.stderr[-2000:])
    return os.path.join(target, 'debug', 'extract')


def expand(work, cfg):
    out = os.path.join(work, f'expanded_{cfg}.rs')
    feat = ['--no-default-features'] if cfg == 'noalloc' else []
    r = sh(['cargo', 'rustc', '--lib', '--offline', '--target-dir', os.path.join(work, 'expand-target')]
           + feat + ['--', '-Zunpretty=expanded'], cwd=REPO, env={'RUSTC_BOOTSTRAP': '1'})
    if r.returncode != 0:
        raise ProofUnavailable('the crate does not compile: ' + r.stderr[-2000:])
    open(out, 'w').write(r.stdout)
    return out


class Result:
    def __init__(self):
        self.failures = []      # obligations not discharged: {key, message, rendered}
        self.degraded = {}      # key -> reason
        self.map = None
        self.verified = 0
        self.errors = 0
        self.times = {}
        self.seconds = 0.0
        self.cmd = ''
        self.unmapped = []      # structural errors outside every function
        self.gen = ''
        self.rounds = 0
        self.hidden = []        # modules not verified

    def functions(self, pats):
        return [f for f in self.map['functions'] if match_any(pats, f['key'])]


def match_any(pats, key):
    for p in pats:
        if re.fullmatch(re.escape(p).replace(r'\*', '.*'), key):
            return True
    return False


def locate(res, d):
    """The function a diagnostic belongs to: where the body is, not where the contract is."""
    spans = [s for s in d['spans']]
    def rank(s):
        lab = (s.get('label') or '')
        return (0 if 'at the end of the function body' in lab or 'at this exit' in lab
                or 'at the end of the loop' in lab else
                2 if lab.startswith('failed') or 'declared here' in lab else
                1 if s['is_primary'] else 3)
    for s in sorted(spans, key=rank):
        best = None
        for f in res.map['functions']:
            if f['start'] <= s['line_start'] <= f['end']:
                if best is None or f['start'] >= best['start']:
                    best = f
        if best:
            return best['key'], s
    return None, (spans[0] if spans else None)


def ghost_name(gen_lines, line):
    """Name of the ghost function or lemma at this line."""
    for i in range(line - 1, max(0, line - 400), -1):
        m = re.match(r'\s*(?:pub |broadcast |open |closed |axiom |#\[\w+\] )*(?:proof|spec|axiom)?\s*(?:fn)\s+(\w+)', gen_lines[i])
        if m:
            return 'lemma ' + m.group(1)
    return 'ghost text'


def run(work, cfg, extractor, expanded, modules=None, pre_degraded=(), rlimit=None, timeout=800, progress=None, canary=False):
    res = Result()
    degraded = {k: 'requested' for k in pre_degraded}
    gen = os.path.join(work, f'gen_{cfg}.rs')
    mapf = os.path.join(work, f'map_{cfg}.json')
    deadline = time.time() + timeout
    while True:
        res.rounds += 1
        if res.rounds > 14:
            raise ProofUnavailable('too many functions outside the verifier\'s reach')
        cmd = [extractor, '--in', expanded, '--spec', os.path.join(ROOT, 'spec'), '--out', gen, '--map', mapf]
        if cfg == 'noalloc':
            cmd.append('--no-alloc')
        if canary:
            cmd.append('--canary')
        for k in degraded:
            cmd += ['--degrade', k]
        r = sh(cmd)
        if r.returncode != 0:
            raise ProofUnavailable('extraction failed: ' + r.stderr[-2000:])
        res.map = json.load(open(mapf))
        # contracts that do not fit the code any more
        before = len(degraded)
        for f in res.map['functions']:
            if f['degraded'] or f['external'] or f['key'] in degraded:
                continue
            if f['loops'] != f['spec_loops'] and (f['loops'] > f['spec_loops'] or f['contracted']):
                degraded[f['key']] = f"{f['loops']} loops, contracts for {f['spec_loops']}"
        if len(degraded) != before:
            continue
        vcmd = ['verus', os.path.basename(gen), '--crate-type=lib', '--output-json', '--time-expanded',
                '--multiple-errors', '5', '--error-format=json']
        if modules:
            for m in modules:
                vcmd += ['--verify-only-module', m] if m else []
            if '' in modules:
                vcmd += ['--verify-root']
        if rlimit:
            vcmd += ['--rlimit', str(rlimit)]
        t0 = time.time()
        try:
            r = sh(vcmd, cwd=work, timeout=max(30, deadline - time.time()))
        except subprocess.TimeoutExpired:
            raise ProofUnavailable('the verifier ran out of time')
        res.seconds += time.time() - t0
        res.cmd = ' '.join(vcmd)
        diags = []
        for l in r.stderr.splitlines():
            if l.startswith('{'):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            out = json.loads(r.stdout[r.stdout.index('{'):])
        except ValueError:
            out = None
        if out is None and not diags:
            raise ProofUnavailable('the verifier stopped: ' + (r.stderr[-1500:]))
        gen_lines = open(gen).read().split('\n')
        structural, failures = [], []
        for d in diags:
            if d.get('level') != 'error' or not d.get('spans'):
                continue
            key, span = locate(res, d)
            msg = d['message']
            item = {'key': key or ghost_name(gen_lines, span['line_start']), 'in_fn': key is not None,
                    'message': msg, 'line': span['line_start'], 'rendered': render(d), 'clause': clause(d)}
            if any(msg.startswith(m) or m in msg for m in LIMIT):
                item['limit'] = True
                failures.append(item)
            elif msg.startswith(OBLIGATION) and not d.get('code'):
                failures.append(item)
            else:
                structural.append(item)
        new = False
        for s in structural:
            if s['in_fn'] and s['key'] not in degraded:
                degraded[s['key']] = s['message']
                new = True
        if progress:
            progress(res.rounds, structural, failures, r)
        if new:
            continue
        if structural or out is None:
            raise ProofUnavailable('not accepted by the verifier: ' + '; '.join(
                f"{s['key']}: {s['message']}" for s in structural[:5]) + ('' if out else r.stderr[-800:]))
        if not rlimit and any(f.get('limit') for f in failures) and deadline - time.time() > 150:
            rlimit = 100  # ten times the default: slower, not weaker
            continue
        v = out['verification-results']
        res.verified, res.errors = v.get('verified', 0), v.get('errors', 0)
        res.times = out.get('times-ms', {})
        res.failures = failures
        if v.get('errors', 0) and not failures:
            raise ProofUnavailable('errors without a diagnostic: ' + r.stderr[-1500:])
        if (v.get('encountered-vir-error') or v.get('encountered-error', not v.get('success', True))) and not failures:
            raise ProofUnavailable('the verifier did not finish: ' + r.stderr[-1500:])
        res.degraded = degraded
        res.gen = gen
        return res


def clause(d):
    """The text of the contract clause that failed."""
    out = []
    for s in d.get('spans', []):
        if (s.get('label') or '').startswith('failed'):
            for t in s.get('text', []):
                out.append(t['text'][t['highlight_start'] - 1:t['highlight_end'] - 1].strip())
    return ' '.join(out)


def render(d):
    return (d.get('rendered') or '')[:4000]
