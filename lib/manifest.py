#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl (run by hand after changing either)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(vbuild.VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 lib/vrun.py %s quick' % i, thorough_cmd='python3 lib/vrun.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level=c.get('level', 'exploration'),
                           level_note=c.get('note', 'Every execution explored is judged; nothing is claimed beyond the explored executions. Trusts the compiler and sanitizer runtime and the reference oracle in /verif/harness.')))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 lib/setup.py',
         hooks=dict(guard='LIBVARIANT_VERIF_HOOKS', enable='none needed: no hooks were added to /repo, the checks observe the public interface', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Known findings: known-findings.txt. Replay a reported case with: python3 lib/vrun.py --replay <path>')
with open(os.path.join(vbuild.VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
