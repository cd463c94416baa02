#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props/*.py (development tool, not a check)."""
import glob, importlib, json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props, checks = [], []
for p in sorted(glob.glob(os.path.join(ROOT, 'props', 'c[0-9]*.py'))):
    m = importlib.import_module('props.' + os.path.basename(p)[:-3])
    props.append(dict(id=m.ID, **m.PROP))
    cmd = 'python3 check.py ' + m.ID
    checks.append({'property': m.ID, 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --thorough', 'technique': 'static analysis: ' + m.TECHNIQUE,
                   'level': 'other', 'level_note': getattr(m, 'NOTE', '') or (
                       'Decides the stated obligations for every path of the analysed functions as they are in the working tree; '
                       'trusts the CPython parser, the effect summaries (sa/) and the class and call resolution described in DESIGN.md. '
                       'A construct outside the understood vocabulary is reported as undecided, never as held or violated.')})
na = importlib.import_module('props.na').NA
for d in na:
    props.append({k: v for k, v in d.items() if k != 'reason'})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for d in props:
        assert len(d['title']) <= 80, d['title']
        fh.write(json.dumps(d) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, json"', 'checks': checks,
               'not_applicable': [{'property': d['id'], 'reason': d['reason']} for d in na],
               'notes': 'No hooks in /repo. Known findings: known_findings.json.'}, fh, indent=1)
    fh.write('\n')
