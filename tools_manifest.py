#!/usr/bin/env python3
"""Writes MANIFEST.json from sa/registry.py and the tables below."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import registry

NA = {
    'C26': 'Unforgeability quantifies over computationally bounded adversaries; it is a reduction to assumptions about the hash functions, not a fact about the source that any dataflow, typestate or value analysis can decide.',
    'C28': 'The code makes no such claim (README: for cross-validation only) and WOTS+ chain lengths depend on secret-derived digests by construction; timing is not a property of the source that a static rule can decide.',
    'C29': 'The tool rewrites the key file in place, and crash atomicity depends on the file system and on data reaching the device; what is decidable in the source, the order of write-back, flush and output, is C23.',
}
TECH = 'abstract interpretation of the compiler IR over gated value graphs (value numbering), compared with a specification term'


def main():
    checks = []
    ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
    for pid in ids:
        if pid not in registry.PROPS:
            continue
        P = registry.PROPS[pid]
        checks.append({'property': pid, 'quick_cmd': f'python3 check.py {pid}',
                       'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {pid}',
                       'technique': P.get('technique', TECH), 'level': P.get('level', 'other'),
                       'level_note': P['note']})
    na = [{'property': p, 'reason': NA.get(p, 'No check built yet.')} for p in ids if p not in registry.PROPS]
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sa.registry"', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. fix: commits are listed in known-findings.txt.'}
    json.dump(m, open('MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not claimed')


main()
