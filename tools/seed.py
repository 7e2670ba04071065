"""Makes and confirms planted bugs: seed.py DEFINITIONS.py [ID...]

DEFINITIONS.py defines BUGS = {id: {'property', 'file', 'edits': [(old, new)...] or [(file, old, new)], 'demo', 'needs', 'breaks'}}.
For every bug: a scratch copy of /repo is edited, the demonstration must pass on the unchanged copy and fail on the edited one,
the stable tests must pass on the edited copy; then the bug is kept in /verif/seeded/<id>/, whether or not the checks catch it,
and the check of its property is run against the edited copy.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO_SH = '''#!/bin/bash
# Run with cwd /repo: exit 0 if the property holds on the demonstrated input, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:] or list(bugs)
    for i in ids:
        b = bugs[i]
        tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        try:
            repo = os.path.join(tmp, 'repo')
            shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__', 'docs', 'data', 'images', 'dist'))
            d = os.path.join(tmp, i)
            os.makedirs(d)
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write(b['demo'].lstrip('\n'))
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write(DEMO_SH)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            r = sh(['bash', os.path.join(d, 'demo.sh')], repo)
            if r.returncode != 0:
                print(i, 'DEMO FAILS ON THE UNCHANGED TREE', r.stdout[-800:])
                continue
            ok = True
            for e in b['edits']:
                fn, old, new = e if len(e) == 3 else (b['file'], *e)
                p = os.path.join(repo, 'pydtmc', fn)
                s = open(p).read()
                if s.count(old) != b.get('count', 1):
                    print(i, f'PATTERN FOUND {s.count(old)} TIMES: {old!r}')
                    ok = False
                    break
                open(p, 'w').write(s.replace(old, new))
            if not ok:
                continue
            diff = sh(['git', 'diff', '--', 'pydtmc'], repo).stdout
            first = sh('git show $(git rev-list --max-parents=0 HEAD):pydtmc/' + b['file'], repo, shell=True).stdout
            if not any(l[1:].strip() in first for l in diff.splitlines() if l[:1] == '-' and l[:3] != '---' and l[1:].strip()):
                print(i, 'WARNING: no original line is changed')
            r = sh(['bash', os.path.join(d, 'demo.sh')], repo)
            if r.returncode == 0:
                print(i, 'DEMO PASSES WITH THE BUG')
                continue
            env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo)
            t = sh('. /opt/vp/env.sh; export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1; /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -n 8 --benchmark-skip tests/ 2>&1 | grep -E "^(FAILED|ERROR)|passed|failed" | tail -4', repo, shell=True, executable='/bin/bash', env=env)
            last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else 'no output'
            if ' passed' not in last or 'failed' in last or 'error' in last:
                print(i, 'CAUGHT BY THE TESTS', t.stdout[-600:])
                continue
            out = os.path.join(ROOT, 'seeded', i)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for f in ('demo.py', 'demo.sh'):
                shutil.copy(os.path.join(d, f), out)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            env = dict(os.environ, PYDTMC_REPO=repo, VERIF_EVIDENCE_DIR=os.path.join(tmp, 'ev'))
            res = []
            for c in b.get('checks', [b['property']]):
                if os.path.exists(os.path.join(ROOT, 'checks', c.lower() + '.py')):
                    r = sh(['python3', 'run.py', c], ROOT, env=env)
                    kinds = [l.strip()[:90] for l in r.stdout.splitlines() if l.startswith('  [')]
                    res.append(f'{c}: exit {r.returncode} {kinds[:1]}')
                else:
                    res.append(f'{c}: no check')
            print(i, 'KEPT', '; '.join(res), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
