#!/usr/bin/env python3
"""rewrites MANIFEST.json from properties.jsonl and the scenarios that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = {
    'N01': 'pure function of (schema, value): no schedule, time, I/O, fault or other party can affect it, so a simulated run adds nothing to calling the function',
    'N02': 'pure function of the documents once they are delivered; what delivery and faults can do to a 1.2 load is decided by C01, C02, C04 and C05',
    'N03': 'pure function of one loaded description: nothing a simulator controls (schedule, clock, I/O, randomness, fault) can affect it',
    'N04': 'pure function of the documents: nothing a simulator controls can affect it',
    'N05': 'pure function of the documents: nothing a simulator controls can affect it',
    'N06': 'pure lookup in a dictionary of a prepared application: nothing a simulator controls can affect it',
    'N07': 'pure function of a string or datetime: nothing a simulator controls can affect it (the code reads no clock)',
}
LEVEL_NOTE = 'seeded random search over inputs, schedules and fault placements in a deterministic simulation of the whole library; no exhaustiveness claimed'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'sim', 'scen', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % i,
                       'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'deterministic simulation with fault injection (seeded search)',
                       'level': 'exploration', 'level_note': LEVEL_NOTE})
    else:
        na.append({'property': i, 'reason': PURE.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --selftest', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
