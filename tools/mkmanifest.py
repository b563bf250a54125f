#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = 'property-based testing (rapid): generated cases, explicit oracle, shrinking to a replay file'
MODEL = 'model-based stateful property testing (rapid): generated histories against a reference model'
FAULT = 'property-based testing with enumerated faults: every truncation / failure offset of generated data'
CLAIMED = {
 'S01': (PBT, 'exploration', 'codec checked against an independently written layout; every length up to the limit and sampled contents'),
 'S02': (FAULT, 'fault_enumeration', 'every cut and fault offset of short encodings, all splittings of tiny ones, sampled sets'),
 'S03': (PBT, 'exploration', 'laws on generated and derived pairs, all pairs of tiny sets'),
 'S04': (MODEL, 'exploration', 'histories of up to 30 steps on registries of all fill levels; sets unchanged by the caller after registration'),
 'S05': (MODEL, 'exploration', 'as S04 for mixed lengths; every length an 8-bit id expresses, edge lengths for 16-bit'),
 'S06': (PBT, 'exploration', 'complete for 8+8 bits; boundaries and samples for 16+16'),
 'D01': (MODEL, 'exploration', 'histories of up to 40 steps on registries of all fill levels'),
 'D02': (PBT, 'exploration', 'codec checked against an independently written layout; every registry size 0..520, every byte at every name position'),
 'D03': (FAULT, 'fault_enumeration', 'every cut and fault offset of short encodings, sampled contents'),
 'D04': (PBT, 'exploration', 'generated trees and paths in a scratch directory; existence as the operating system reports it'),
 'D05': (PBT, 'exploration', 'generated tag sets and maps, sizes around the limit of ten, invalid letters included'),
 'P01': (PBT, 'exploration', 'generated trees, obstacles and domain names in a scratch directory, whole-tree comparison; run as root'),
}
exec(open(os.path.join(HERE, 'tools', 'claimed_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'claimed_more.py')) else None
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CLAIMED:
        t, level, note = CLAIMED[p]
        m['checks'].append({'property': p, 'quick_cmd': 'bash run.sh %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough bash run.sh %s' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': level, 'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'no check yet'})
m['notes'] = 'No hooks in /repo. Missing modules (amarin/logging, amarin/libxml) are replaced by shims in harness/shim. Replay: bash run.sh ID --replay FILE.'
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
