#!/usr/bin/env python3
"""Writes known_findings.txt from FIXED/KNOWN (commit hashes looked up by subject)."""
import subprocess
from config import KNOWN, FIXED, CHECKS
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()]
out = []
for prop, subj, what in FIXED:
    if prop not in CHECKS: continue
    m = [h for h, s in log if s == 'fix: ' + subj]
    assert len(m) == 1, (subj, m)
    out.append('fixed: property=%s %s %s' % (prop, m[0], what))
for k in KNOWN: out.append('KNOWN-FINDING: property=%s %s [%s] %s' % (k['property'], k['id'], k['pattern'], k['what']))
open('known_findings.txt', 'w').write('\n'.join(out) + '\n')
