#!/usr/bin/env python3
"""Writes MANIFEST.json from the jobs in h/ and the level notes below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import run
NA = {}
na = os.path.join(H, 'tools', 'na.json')
if os.path.exists(na):
    NA = json.load(open(na))
have = {}
for j in run.parse_jobs():
    for p in j.props:
        have.setdefault(p, []).append(j)
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, nas = [], []
for p in ids:
    if p in NA or p not in have:
        nas.append(dict(property=p, reason=NA.get(p, 'no harness built yet')))
        continue
    es = sorted(set(j.entry for j in have[p])); cs = sorted(set(j.cfg for j in have[p]))
    checks.append(dict(property=p, quick_cmd='python3 run.py %s --tier quick' % p, thorough_cmd='python3 run.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique='symbolic execution of the compiled sources (LLVM IR) with Z3, replay as machine code',
                       level='model_checking',
                       level_note='Bounded: every path and every value within the bounds listed per job in the evidence file (harnesses %s; build configurations %s). Bounds and environment model: DESIGN.md.' % (', '.join(es), ', '.join(cs))))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks)
if nas:
    m['not_applicable'] = nas
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(nas), 'not:', ' '.join(x['property'] for x in nas))
