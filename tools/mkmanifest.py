#!/usr/bin/env python3
"""write MANIFEST.json from engine/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import props
PY = '/opt/veriftools/pyvenv/bin/python'
TECH = 'contract-based deductive verification: contracts on the functions extracted from /repo on every run, inferred-and-checked loop contracts, obligations discharged by z3 and cvc5'
NOTE = ('Every obligation is proved for all range lengths, alignments and contents, for uint8_t/uint16_t/uint32_t/uint64_t words, on LLVM IR extracted '
        'mechanically from the headers on every run. Trusts the extraction (clang, LLVM inlining), the verifier in engine/, z3 and cvc5.')
allp = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in allp:
    if p['id'] in props.PROPS:
        P = props.PROPS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick %s check.py %s' % (PY, p['id']),
                           thorough_cmd='VERIF_TIER=thorough %s check.py %s' % (PY, p['id']),
                           technique=P.get('technique', TECH), level=P.get('level', 'proof'), level_note=P.get('note', NOTE)))
na = [dict(property=p['id'], reason=props.NOT_APPLICABLE.get(p['id'], 'no check yet')) for p in allp if p['id'] not in props.PROPS]
m = dict(version=1, setup_cmd='mkdir -p build && g++ -O1 -std=c++17 -I/usr/lib/llvm-18/include engine/irx.cpp -o build/irx -L/usr/lib/llvm-18/lib -lLLVM-18',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo. Fixes of genuine defects are separate fix: commits, listed in known_findings.json.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
