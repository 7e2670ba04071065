"""add_fixed.py PROPERTY COMMIT... : lists repairs of /repo in known_findings.json."""
import json, os, subprocess, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(f))
for c in sys.argv[2:]:
    h, m = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', c], text=True).strip().split(' ', 1)
    if any(e.get('commit') == h for e in d['findings']):
        continue
    m = m.removeprefix('fix: ')
    d['findings'].append({'property': sys.argv[1], 'status': 'fixed', 'commit': h, 'what': f'fixed: property={sys.argv[1]} {h} {m}'})
json.dump(d, open(f, 'w'), indent=1)
