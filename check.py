#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree.

1. /repo's current source is expanded and extracted, the contracts of /verif/spec are woven in, and
   Verus has to discharge every obligation of the functions the property depends on.
2. The conformance harness runs the real crate against an independent statement of the property:
   it turns a refuted obligation into a failing input, and covers what the extraction drops.

Exit 0: held. Exit 1: violated, with a VIOLATION line. Exit 2: /repo could not be built or checked.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vlib'))
import proof, props

ROOT = proof.ROOT


def build_harness(work, cfg, out):
    target = os.path.join(work, 'harness-' + cfg)
    src = os.path.join(work, 'harness-src-' + cfg)
    shutil.copytree(os.path.join(ROOT, 'harness'), src, ignore=shutil.ignore_patterns('target'))
    cmd = ['cargo', 'build', '--offline', '--quiet', '--target-dir', target]
    if cfg == 'alloc':
        cmd += ['--features', 'alloc']
    r = proof.sh(cmd, cwd=src, env={'RUSTFLAGS': '-Awarnings'})
    out[cfg] = (os.path.join(target, 'debug', 'harness'), None) if r.returncode == 0 else (None, r.stderr[-3000:])


def literals(work):
    """The literals of /repo's source: values worth trying."""
    path = os.path.join(work, 'literals')
    if os.path.exists(path): return path
    out = set()
    for d, _, names in os.walk(os.path.join(proof.REPO, 'src')):
        for n in names:
            if not n.endswith('.rs'): continue
            code = [l for l in open(os.path.join(d, n), encoding='utf-8', errors='replace') if not l.lstrip().startswith('//')]
            for l in code:
                l = re.sub(r'\s//.*', '', l)
                for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', l):
                    if '\\' not in m.group(1) and m.group(1): out.add('s ' + m.group(1))
                for m in re.finditer(r"'([^'\\]|\\u\{[0-9a-fA-F]+\})'", l):
                    c = m.group(1)
                    out.add('c %d' % (ord(c) if len(c) == 1 else int(c[3:-1], 16)))
                l = re.sub(r'"(?:[^"\\]|\\.)*"|\'[^\']*\'', ' ', l)
                for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?!\w)', l):
                    try: v = int(m.group(1).replace('_', '').lower(), 0) if not m.group(1).isdigit() else int(m.group(1))
                    except ValueError: continue
                    if v < 1 << 128: out.add(f'i {v}')
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(sorted(out)) + '\n')
    return path


def run_harness(exe, prop, seed, tier, work, timeout):
    cmd = [exe, prop, '--seed', str(seed), '--tier', tier, '--dict', literals(work), '--budget', str(timeout - 60)]
    def once(extra):
        try:
            r = subprocess.run(cmd + extra, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, 'did not finish in time'
        try:
            return json.loads(r.stdout.strip().splitlines()[-1]), None
        except (ValueError, IndexError):
            return None, f'ended with status {r.returncode}: {r.stderr[-300:]}'
    res, err = once([])
    if res is None and err.startswith('ended'):
        # the process died inside the code under test: find out on which case
        trace = os.path.join(work, 'trace')
        res, err2 = once(['--trace', trace])
        if res is None:
            case = open(trace, errors='replace').read() if os.path.exists(trace) else ''
            if case:
                return {'evaluations': 0, 'distinct': 0, 'samples': [], 'failure': {'case': case, 'what': 'the process died: ' + err2}}, None
    return res, err


def interpret(prop, cfg, seed, work, budget, out):
    """Runs the harness in Miri: the unsafe code of /repo itself against what its stand-ins assume."""
    src = os.path.join(work, 'harness-src-' + cfg)
    dirs = os.path.join(work, 'miri-' + cfg)
    trace = os.path.join(work, f'miri-trace-{cfg}-{seed}')
    cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '--quiet', '--target-dir', dirs]
    if cfg == 'alloc': cmd += ['--features', 'alloc']
    cmd += ['--', prop, '--seed', str(seed), '--tier', 'quick', '--trace', trace, '--budget', str(budget)]
    env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', RUSTC_WRAPPER='',
               MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks')
    env.pop('RUSTUP_TOOLCHAIN', None)
    try:
        r = subprocess.run(cmd, cwd=src, capture_output=True, text=True, timeout=budget + 120, env=env)
    except (subprocess.TimeoutExpired, OSError) as e:
        out.append((cfg, None, 'not run: ' + str(e)[:200]))
        return
    m = re.search(r'error: (Undefined Behavior: [^\n]*)', r.stderr)
    if m and os.path.exists(trace):
        where = re.search(r'--> (\S*repo/src/\S+)', r.stderr)
        case = open(trace, errors='replace').read()
        out.append((cfg, {'evaluations': 0, 'failure': {'case': case, 'what': m.group(1) + (f' ({where.group(1)})' if where else '')}}, None))
        return
    try:
        out.append((cfg, json.loads(r.stdout.strip().splitlines()[-1]), None))
    except (ValueError, IndexError):
        out.append((cfg, None, f'not run: status {r.returncode}: {r.stderr[-300:]}'))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='nominals-check-')
    try:
        return decide(prop, P, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, P, tier, seed, work, t0):
    thorough = tier == 'thorough'
    proof_cfgs = P['cfgs'] if not thorough else sorted(set(P['cfgs']) | set(P.get('thorough_cfgs', [])))
    run_cfgs = P['run'] if not thorough else sorted(set(P['run']) | set(P.get('thorough_run', [])))

    # everything that needs compiling, side by side
    built, tools = {}, {}
    def tool():
        try:
            tools['extract'] = proof.build_extractor(work)
        except proof.ProofUnavailable as e:
            tools['error'] = e
    def expand():
        for cfg in proof_cfgs:
            try:
                tools[cfg] = proof.expand(work, cfg)
            except proof.ProofUnavailable as e:
                tools['expand_error'] = e
    threads = [threading.Thread(target=tool), threading.Thread(target=expand)]
    threads += [threading.Thread(target=build_harness, args=(work, c, built)) for c in run_cfgs]
    for t in threads: t.start()
    for t in threads: t.join()
    if 'expand_error' in tools and all(b[0] is None for b in built.values()):
        print('the crate does not build: ' + str(tools['expand_error']), file=sys.stderr)
        return 2

    # the contracts assumed of the standard library, tried on it
    assumed = {}
    exe = next((b[0] for b in built.values() if b[0]), None)
    if exe:
        r = proof.sh([exe, 'trust', '', '--seed', str(seed)])
        try:
            assumed = json.loads(r.stdout)
        except ValueError:
            assumed = {'tried': {}, 'failed': ['the run ended with status %d' % r.returncode]}
        if assumed['failed']:
            print('an assumed contract of the standard library does not hold: ' + '; '.join(assumed['failed']), file=sys.stderr)
            return 2

    # the proof
    proofs, unavailable, canaries = {}, {}, {}
    budget = 600 if thorough else 420
    def prove(cfg):
        try:
            if 'error' in tools: raise tools['error']
            if cfg not in tools: raise tools['expand_error']
            w = os.path.join(work, 'proof-' + cfg)
            os.makedirs(w)
            proofs[cfg] = proof.run(w, cfg, tools['extract'], tools[cfg], modules=P['modules'], timeout=budget)
            if thorough and not proofs[cfg].failures:
                # the same obligations with `assert(false)` first in every body: each has to fail
                c = proof.run(w, cfg, tools['extract'], tools[cfg], modules=P['modules'], timeout=240, canary=True)
                canaries[cfg] = props.canary(P, c)
        except proof.ProofUnavailable as e:
            unavailable[cfg] = str(e)
        except Exception as e:  # never let the machinery decide by accident
            unavailable[cfg] = 'internal: ' + repr(e)
    runs, errors = {}, {}
    def run_all(cfgs):
        for cfg in cfgs:
            exe, err = built[cfg]
            if exe is None:
                errors[cfg] = 'the harness does not build: ' + err
                continue
            res, err = run_harness(exe, prop, seed, tier, work, 580 if thorough else 400)
            if res is None: errors[cfg] = err
            else: runs[cfg] = res
            if res and res.get('failure'): break
    interpreted = []
    ths = [threading.Thread(target=prove, args=(c,)) for c in proof_cfgs] + [threading.Thread(target=run_all, args=(c,)) for c in ([[c] for c in run_cfgs] if thorough else [run_cfgs])]
    if thorough and P.get('unsafe'):
        ths += [threading.Thread(target=interpret, args=(prop, c, seed + k, work, 300, interpreted)) for c in run_cfgs if built[c][0] for k in (0, 1)]
    for t in ths: t.start()
    for t in ths: t.join()

    failed, bounded, units = [], {}, {}
    for cfg, r in proofs.items():
        only = P.get('only_new_in')
        if only and cfg != only:
            units[cfg] = props.units(P, r)
            continue
        other = {k for c, o in proofs.items() if only and c != cfg for k in [f['key'] for f in o.failures] + list(o.degraded)}
        mine, out_of_reach = props.split_failures(prop, P, r, other)
        failed += [dict(f, cfg=cfg) for f in mine]
        for k, why in out_of_reach.items():
            bounded[f'{k} [{cfg}]'] = why
        units[cfg] = props.units(P, r)
    for cfg, why in unavailable.items():
        bounded[f'every function [{cfg}]'] = why

    if P.get('unsafe') and not thorough and any(k.startswith(('crate::nominalstring', 'nominalstring', 'every')) for k in bounded):
        # what the verifier could not take may be unsafe code
        for c in run_cfgs:
            if built[c][0]: interpret(prop, c, seed, work, 60, interpreted)
    for cfg, res, err in interpreted:
        if res and res.get('failure') and not (runs.get(cfg) or {}).get('failure'):
            runs[cfg] = dict(runs.get(cfg) or {'evaluations': 0, 'distinct': 0, 'samples': []}, failure=res['failure'])
    witness = next(((c, r['failure']) for c, r in runs.items() if r.get('failure')), None)
    attributed, shown = None, (seed, tier)
    if failed and not witness:
        # an obligation on a function that several properties share: whose property is broken?
        for other in props.siblings(prop, failed):
            if time.time() - t0 > 700: break
            for cfg in props.PROPS[other]['run']:
                if cfg not in built: build_harness(work, cfg, built)
                exe, _ = built[cfg]
                if exe is None: continue
                res, _ = run_harness(exe, other, seed, 'quick', work, 120)
                if res and res.get('failure'):
                    attributed = (other, cfg, res['failure'])
                    break
            if attributed: break

    if failed and not witness and not attributed:
        # look harder for an input of the real crate that shows it
        left = min(300, 780 - (time.time() - t0))
        jobs = []
        for cfg in run_cfgs if left > 20 else []:
            exe, _ = built[cfg]
            for k in range(6 // len(run_cfgs)) if exe else []:
                cmd = [exe, prop, '--seed', str(seed + k), '--tier', 'deep', '--dict', literals(work)]
                jobs.append((cfg, seed + k, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + left
        while jobs and not witness and time.time() < end:
            time.sleep(0.2)
            for job in [j for j in jobs if j[2].poll() is not None]:
                jobs.remove(job)
                try:
                    f = json.loads(job[2].stdout.read().strip().splitlines()[-1]).get('failure')
                except (ValueError, IndexError):
                    continue
                if f:
                    witness, shown = (job[0], f), (job[1], 'deep')
                    break
        for j in jobs: j[2].kill(); j[2].wait()

    violated = bool(witness) or (bool(failed) and not attributed)
    write_evidence(prop, P, tier, seed, t0, proofs, unavailable, units, failed, bounded, runs, errors, attributed, violated, assumed, canaries, interpreted)
    for k, why in bounded.items():
        print(f'bounded only: {k}: {why[:200]}')
    for cfg, why in errors.items():
        print(f'conformance run [{cfg}]: {why[:1500]}')
    if attributed:
        print(f'{len(failed)} obligation(s) on shared functions are not discharged; {attributed[0]} is what is broken: {attributed[2]["case"][:300]}: {attributed[2]["what"][:300]}')
    if errors and not runs and not failed and (bounded or not proofs):
        print('nothing could be checked: ' + '; '.join(errors.values())[:2000], file=sys.stderr)
        return 2
    if not violated:
        n = sum(u['discharged'] for u in units.values())
        print(f'{prop} held: {n} obligations discharged, {sum(r["evaluations"] for r in runs.values())} cases run')
        return 0
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', 'replay', prop + '.json')
    replay = {'property': prop, 'obligations_not_discharged': [
        {'function': f['key'], 'configuration': f['cfg'], 'obligation': f['message'], 'verifier_output': f['rendered']} for f in failed]}
    if witness:
        cfg, f = witness
        dic = os.path.join(ROOT, 'evidence', 'replay', prop + '.literals')
        shutil.copy(literals(work), dic)
        replay['failing_input'] = f['case']
        replay['what_happens'] = f['what']
        feat = ' --features alloc' if cfg == 'alloc' else ''
        replay['how_to_run'] = f'cd /verif/harness && cargo run --offline{feat} --target-dir /tmp/nominals-replay -- {prop} --seed {shown[0]} --tier {shown[1]} --dict {dic}'
    json.dump(replay, open(path, 'w'), ensure_ascii=False, indent=1)
    if witness:
        print(f'failing input: {witness[1]["case"][:600]}: {witness[1]["what"][:600]}')
    for f in failed[:6]:
        print(f'not discharged: {f["key"]} [{f["cfg"]}]: {f["message"]}')
    print(f'VIOLATION property={prop} replay={path}' + ('' if witness else ' no-failing-input-found'))
    return 1


def write_evidence(prop, P, tier, seed, t0, proofs, unavailable, units, failed, bounded, runs, errors, attributed, violated, assumed, canaries, interpreted):
    obl = sum(u['units'] for u in units.values())
    dis = sum(u['discharged'] for u in units.values())
    cov = {
        'obligations': obl,
        'discharged': dis,
        'obligation_unit': 'one verification unit of the verifier (a function, constant or lemma, with all conditions it generates) in the modules this property is anchored in',
        'checker_cmd': '; '.join(sorted({r.cmd for r in proofs.values()})) or 'none',
        'back_end': 'Verus 0.2026.09.13 with its bundled Z3',
        'trusted_base': props.trusted(P),
        'trusted_contracts_tried_on_the_standard_library': assumed.get('tried', {}),
        'functions_under_contract': sorted({k for u in units.values() for k in u['functions']}),
        'solver_seconds': round(sum(u['smt_seconds'] for u in units.values()), 1),
        'verifier_seconds': round(sum(r.seconds for r in proofs.values()), 1),
        'configurations': sorted(proofs),
        'not_discharged': [f"{f['key']} [{f['cfg']}]: {f['message']}" for f in failed],
        'bounded_functions': bounded,
        'evaluations': sum(r['evaluations'] for r in runs.values()),
        'distinct_nontrivial': sum(r['distinct'] for r in runs.values()),
        'rule': 'conformance runs of the real crate (not counted as proof): distinct (system, nominal) pairs with a nominal above 0, or distinct operation histories of two or more operations',
        'samples': [s[:300] for r in runs.values() for s in r['samples']][:8],
    }
    if canaries: cov['canary'] = canaries
    if interpreted:
        cov['unsafe_code_interpreted'] = {'tool': 'Miri, without an aliasing model (bounded; checks the stand-ins of the unsafe operations against the real ones)',
            **{f'{c} {i}': f"{r['evaluations']} histories" if r else e for i, (c, r, e) in enumerate(interpreted)}}
    if errors: cov['harness_errors'] = {k: v[:500] for k, v in errors.items()}
    if attributed: cov['attributed_to'] = f'{attributed[0]}: {attributed[2]["case"][:300]}'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': props.assumptions(P), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if violated else 0}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), ensure_ascii=False, indent=1)


if __name__ == '__main__':
    sys.exit(main())
