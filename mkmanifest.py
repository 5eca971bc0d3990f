#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import props

checks = []
for i in sorted(props.RULES):
    checks.append({
        'property': i,
        'quick_cmd': './check.py %s quick' % i,
        'thorough_cmd': './check.py %s thorough' % i,
        'technique': 'deterministic simulation with fault injection: seeded search over schedules, inputs and faults of the whole daemon, judged against an executable model',
        'level': 'exploration',
        'level_note': props.NOTES.get(i, props.NOTE),
    })
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': [{'property': i, 'reason': props.NA.get(i, 'its simulation profile is not built yet')} for i in ids if i not in props.RULES],
    'notes': 'No hooks in /repo: the checks recompile its working tree with the imports of os, net, time, sync, crypto/tls, net/http, expvar and runtime, and the go, channel and select statements, redirected to the simulator by a source rewriter (sim/rewrite).',
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
