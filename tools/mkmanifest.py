#!/usr/bin/env python3
"""writes MANIFEST.json from zv/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'zv'))
import props
NA = {
 'C18': 'cbor.hpp needs the jsoncons headers, which are not installed in this sandbox: the code cannot be compiled, so there is no running code to generate obligations from',
 'C19': 'json.hpp needs the yyjson headers, which are not installed in this sandbox (base64, the part of the JSON path that compiles, is C12)',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.PROPS:
        NA.setdefault(i, 'no check yet')
        continue
    P = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='./check.py %s' % i, thorough_cmd='./check.py %s --tier thorough' % i,
                       technique='contract-based deductive verification of the LLVM IR clang generates from /repo (VC generation per contract harness, z3/cvc5), counterexamples replayed natively under ASan/UBSan',
                       level=P['level'], level_note=P['note']))
m = dict(version=1, setup_cmd='./tools/selftest.sh', checks=checks,
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in props.PROPS],
         notes='No hooks in /repo: the harnesses include /repo headers directly. DESIGN.md describes the verifier, the contracts and the seeded bugs.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
