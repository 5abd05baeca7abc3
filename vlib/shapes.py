#!/usr/bin/env python3
"""Records, for the current tree, the shape the contracts were written against: the form of the
loops and the types of the signature of every function under contract.  Run after changing /repo on
purpose; a check only reads the file."""
import json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import proof

out = {}
with tempfile.TemporaryDirectory() as work:
    ex = proof.build_extractor(work)
    for cfg in ('alloc', 'noalloc'):
        w = os.path.join(work, cfg)
        os.makedirs(w)
        cmd = [ex, '--in', proof.expand(work, cfg), '--spec', os.path.join(proof.ROOT, 'spec'), '--out', w + '/g.rs', '--map', w + '/m.json']
        r = proof.sh(cmd + (['--no-alloc'] if cfg == 'noalloc' else []))
        assert r.returncode == 0, r.stderr
        for f in json.load(open(w + '/m.json'))['functions']:
            if f['sig']:
                shape = {'loops': f['loop_forms'], 'sig': f['sig']}
                if f['closures']:
                    shape['closures'] = f['closures']
                assert out.get(f['key'], shape) == shape, f['key']
                out[f['key']] = shape
json.dump(out, open(os.path.join(proof.ROOT, 'spec', 'shapes.json'), 'w'), indent=0, sort_keys=True, ensure_ascii=False)
print(len(out), 'functions')
