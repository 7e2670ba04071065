"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(here, 'tools', 'technique.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')) and i in TECH:
        t = TECH[i]
        checks.append({'property': i, 'quick_cmd': f'python3 run.py {i} --tier quick', 'thorough_cmd': f'python3 run.py {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': t['technique'], 'level': 'model_checking', 'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': 'the check of this property is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks drive the unmodified library (fake random generators, a trace-based scheduler and the public API). '
              'Checks re-execute under /opt/venv/bin/python, import pydtmc from the working tree of /repo with a private byte-code cache, and write only under a scratch directory, evidence/ and replays/.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'unclaimed')
