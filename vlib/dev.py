#!/usr/bin/env python3
"""Developer view of one proof run: dev.py CFG [module ...]"""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import proof
cfg = sys.argv[1]
mods = [m if m != 'root' else '' for m in sys.argv[2:]] or None
work = '/tmp/vdev'
os.makedirs(work, exist_ok=True)
ex = proof.build_extractor(work)
xp = proof.expand(work, cfg)
def prog(n, st, fl, r):
    print(f'-- round {n}: {len(st)} structural, {len(fl)} failures')
    for s in st[:8]: print('   S', s['key'], '|', s['message'][:150], '| line', s['line'])
    if not st and not fl and r.returncode: print(r.stderr[-600:])
try:
    res = proof.run(work, cfg, ex, xp, mods, progress=prog)
except proof.ProofUnavailable as e:
    print('UNAVAILABLE', str(e)[:1500]); sys.exit(2)
for f in res.failures:
    print('F', f['key'], '|', f['message'])
    t = '\n'.join(l[:150] for l in f['rendered'].split('\n')[1:14])
    print(t)
print('degraded:'); [print('  ', k, v[:100]) for k, v in res.degraded.items()]
print('unused:', res.map['unused_specs'])
print('uncontracted:', [f['key'] for f in res.map['functions'] if not f['contracted'] and ' as ' not in f['key']])
print('verified', res.verified, 'errors', res.errors, 'secs %.1f' % res.seconds)
fb = [f for m in res.times.get('smt', {}).get('smt-run-module-times', []) for f in m.get('function-breakdown', [])]
for f in sorted(fb, key=lambda f: -f.get('rlimit', 0))[:int(os.environ.get('TOP', '0'))]:
    print(f.get('rlimit'), f.get('time-micros', 0) // 1000, 'ms', f['function'])
