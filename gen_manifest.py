#!/usr/bin/env python3
import json, os, subprocess
from config import CHECKS, NA
hooks = ['feb77557']
full = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in full if l.split(' ', 1)[1].startswith('hook:')]
props = [json.loads(l) for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 simbuild.py',
     'hooks': {'guard': 'SALTICIDAE_SIM_MPMCQ_SIZE', 'enable': 'simbuild.py passes -DSALTICIDAE_SIM_MPMCQ_SIZE=<n> when compiling /repo sources and headers into the simulation harnesses', 'source_commits': hooks},
     'checks': [], 'not_applicable': []}
for p in props:
    if p['id'] in CHECKS:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'deterministic simulation with fault injection (seeded search over schedules and faults)', 'level': 'exploration',
            'level_note': CHECKS[p['id']].get('note', 'Seeded search, not exhaustive: held on every simulated run. Real library, libuv and OpenSSL code; simulated threads, clock, heap and kernel. Sequentially consistent interleavings only.')})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': NA.get(p['id'], 'check under construction')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
