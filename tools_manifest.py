#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
TECH = 'symbolic execution of the LLVM IR of krill-sync, its dependencies and std; branches and assertions decided by z3'
m = dict(
    version=1, setup_cmd='./build.sh',
    checks=[dict(
        property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p}',
        evidence_file=f'evidence/{p}.json', technique=TECH, level='model_checking',
        level_note='Holds for every value of the symbolic inputs within the bounds: ' + CHECKS[p]['bounds'] +
        '. Nothing is claimed beyond them. Trusted: the executor and its model of the operating system (validated by running '
        'sampled paths as compiled code on every run), rustc, z3; see the assumptions in the evidence and DESIGN.md.')
        for p in props if p in CHECKS],
    not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, 'no check yet')) for p in props if p not in CHECKS],
    notes='No hooks in /repo: the harness crate includes the unchanged sources.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
