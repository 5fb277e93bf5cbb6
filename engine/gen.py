#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA, HOOK_COMMITS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, lines = [], []
TH = {'D': 'reals with bounded monotone rounding', 'R': 'reals', 'E': 'exact IEEE-754 / bit-vectors', 'U': 'IEEE-754 with uninterpreted products'}
for pid, p in sorted(list(PROPS.items()) + list(NA.items())):
    d = {'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'], 'anchors': p['anchors']}
    assert len(p['title']) <= 80, p['title']
    lines.append(json.dumps(d))
    if pid in NA:
        continue
    modes = sorted({h['mode'] for h in p['harnesses']})
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt engine/check.py %s --tier quick' % pid,
        'thorough_cmd': 'python3-vt engine/check.py %s --tier thorough' % pid,
        'technique': 'symbolic execution of the compiled LLVM IR of the real code, assertions decided by z3 (%s)' % '; '.join(TH[m] for m in modes),
        'level': 'model_checking',
        'level_note': 'Holds for every input within the bounds (%s), on every explored path; counterexamples are replayed on the native build.%s Trusts rustc, the IR executor in engine/ and z3; theory D/R exclude overflow to infinity, R also rounding.'
                      % (p.get('bounds', ''), ' Outside: %s.' % p['outside'] if p.get('outside') else ''),
    })
m = {'version': 1, 'setup_cmd': 'bash engine/setup.sh', 'hooks': {'guard': 'cfg(moledyn_verif)', 'enable': "RUSTFLAGS='--cfg moledyn_verif' (set by engine/build.py)", 'source_commits': HOOK_COMMITS},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v['reason']} for k, v in sorted(NA.items())],
     'notes': 'One command per property: engine/check.py compiles /repo, the harness crate and std to LLVM IR and executes it symbolically. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
