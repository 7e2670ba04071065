"""Exploration harness shared by all checks.

A check module (checks/cXX.py) defines

    PROPERTY     property id
    RULE         how cases are made / what makes one non-trivial
    ASSUMPTIONS  list of strings
    jobs(tier, seed)   -> list of picklable job descriptors; together they enumerate the bounded space
    cases(job)         -> iterator over JSON-able cases of a job
    check(ctx, case)   -> runs the real code on one case and compares it with the reference model

The runner executes every case of every job (nothing is sampled), merges the counters measured on this run, writes the
evidence file and reports violations.
"""

import contextlib
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDTMC_REPO', '/repo')
KNOWN_FILE = os.path.join(ROOT, 'known_findings.json')
EVIDENCE = os.environ.get('VERIF_EVIDENCE_DIR', os.path.join(ROOT, 'evidence'))
REPLAYS = os.path.join(ROOT, 'replays')
MAX_FAILS_PER_JOB = 4
JOB_TIMEOUT = 400


class JobTimeout(BaseException):
    pass


def load_known():
    try:
        with open(KNOWN_FILE) as f:
            entries = json.load(f)['findings']
    except FileNotFoundError:
        entries = []
    return [e for e in entries if e.get('status') == 'finding']


class Ctx:

    def __init__(self, prop, known_keys):
        self.prop = prop
        self.known_keys = known_keys
        self.case = None
        self.states = 0          # distinct model instances / explored states
        self.transitions = 0     # operations performed on the real code
        self.traces = 0          # complete comparisons of the reference with the implementation
        self.nontrivial = 0
        self.fails = []
        self.known_seen = {}
        self.extra = {}
        self.sample = None

    # recording ------------------------------------------------------------

    def fail(self, kind, msg):
        if len(self.fails) < 50:
            self.fails.append({'kind': kind, 'msg': str(msg)[:1500], 'case': self.case})

    def known(self, key, msg):
        """A deviation that is exactly the one recorded under `key`; a violation unless it is listed."""
        if key in self.known_keys:
            c = self.known_seen.setdefault(key, [0, str(msg)[:300]])
            c[0] += 1
        else:
            self.fail(key, msg)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # comparisons ----------------------------------------------------------

    def expect(self, cond, kind, msg=''):
        if not cond:
            self.fail(kind, msg() if callable(msg) else msg)
        return bool(cond)

    def same(self, kind, got, exp):
        """Exact equality of plain Python values (types of containers included)."""
        self.traces += 1
        if not strict_equal(got, exp):
            self.fail(kind, f'got {got!r}, expected {exp!r}')
            return False
        return True

    def close(self, kind, got, exp, rtol=1e-8, atol=1e-10):
        self.traces += 1
        ok, why = close(got, exp, rtol, atol)
        if not ok:
            self.fail(kind, f'{why}: got {short(got)}, expected {short(exp)}')
        return ok


def short(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        x = x.tolist()
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


def strict_equal(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.array_equal(a, b))
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(strict_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(strict_equal(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def close(got, exp, rtol, atol):
    import numpy as np
    if got is None or exp is None:
        return (got is None and exp is None), 'definedness differs'
    try:
        g = np.asarray(got, dtype=float)
        e = np.asarray(exp, dtype=float)
    except Exception as ex:
        return False, f'not numeric ({ex})'
    if g.shape != e.shape:
        return False, f'shapes {g.shape} and {e.shape} differ'
    if g.size == 0:
        return True, ''
    gn, en = np.isnan(g), np.isnan(e)
    if not np.array_equal(gn, en):
        return False, 'nan positions differ'
    gi, ei = np.isinf(g), np.isinf(e)
    if not np.array_equal(gi, ei) or not np.array_equal(g[gi], e[ei]):
        return False, 'infinite entries differ'
    m = ~(gn | gi)
    bad = np.abs(g[m] - e[m]) > atol + rtol * np.abs(e[m])
    if bad.any():
        return False, f'max difference {np.abs(g[m] - e[m]).max():.3e}'
    return True, ''


# ---------------------------------------------------------------------------
# process set-up


def ensure_environment(argv):
    """Re-executes under the project's interpreter with a pinned environment."""
    want = {
        'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
        'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'VERIF_ENV': '1',
    }
    py = '/opt/venv/bin/python'
    if os.environ.get('VERIF_ENV') == '1':
        return
    env = dict(os.environ)
    env.update(want)
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONPYCACHEPREFIX', None)
    env.setdefault('VERIF_SEED', '1')
    exe = py if os.path.exists(py) else sys.executable
    os.execve(exe, [exe, '-B', os.path.join(ROOT, 'run.py')] + argv, env)


def import_pydtmc():
    """Imports the library from the working tree of /repo, never from a byte-code cache."""
    import numpy, scipy.linalg, scipy.optimize, scipy.stats, scipy.integrate, networkx, pandas, scipy.sparse  # noqa: F401,E401
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa: F401
    try:
        import numpydoc.docscrape  # noqa: F401
    except Exception:
        pass
    try:
        import pydot  # noqa: F401
        import defusedxml  # noqa: F401
    except Exception:
        pass
    warnings.simplefilter('ignore')
    sys.pycache_prefix = os.path.join(SCRATCH, 'pyc')
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import pydtmc
    warnings.simplefilter('ignore')
    sys.pycache_prefix = None
    where = os.path.realpath(pydtmc.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'pydtmc imported from {where} instead of {REPO}')
    return pydtmc


SCRATCH = None


def make_scratch():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif_')
    mpl = os.path.join(SCRATCH, 'mpl')
    os.makedirs(mpl)
    src = '/opt/vp/mplconfig'
    if os.path.isdir(src):
        for f in os.listdir(src):
            p = os.path.join(src, f)
            if os.path.isfile(p):
                shutil.copy(p, mpl)
    os.environ['MPLCONFIGDIR'] = mpl
    os.environ['TMPDIR'] = SCRATCH
    tempfile.tempdir = SCRATCH


def _alarm(signum, frame):
    raise JobTimeout()


_module = None
_known_keys = None


def _init_worker():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _run_job(job):
    ctx = Ctx(_module.PROPERTY, _known_keys)
    t0 = time.time()
    signal.setitimer(signal.ITIMER_REAL, JOB_TIMEOUT)
    complete = True
    try:
        for case in _module.cases(job):
            ctx.case = case
            if ctx.sample is None:
                ctx.sample = case
            run_case(ctx, case)
            if len(ctx.fails) >= MAX_FAILS_PER_JOB:
                complete = False
                break
    except JobTimeout:
        ctx.fail('no-termination', f'a job did not finish within {JOB_TIMEOUT} s')
        complete = False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {
        'job': repr(job)[:80], 'states': ctx.states, 'transitions': ctx.transitions, 'traces': ctx.traces,
        'nontrivial': ctx.nontrivial, 'fails': ctx.fails, 'known': ctx.known_seen, 'extra': ctx.extra,
        'sample': ctx.sample, 'complete': complete, 'wall': time.time() - t0,
    }


def run_case(ctx, case):
    try:
        _module.check(ctx, case)
    except JobTimeout:
        raise
    except Exception as ex:  # an exception the property does not allow
        tb = traceback.extract_tb(ex.__traceback__)
        loc = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-4:])
        ctx.fail('exception', f'{type(ex).__name__}: {ex} [{loc}]')


def run(check_id, tier, seed, workers, replay=None, verbose=False):
    global _module, _known_keys
    t0 = time.time()
    make_scratch()
    try:
        import_pydtmc()
        sys.path.insert(0, ROOT)
        _module = importlib.import_module(f'checks.{check_id.lower()}')
        known = [e for e in load_known() if e['property'] == check_id]
        _known_keys = {e['key'] for e in known}
        if replay is not None:
            return run_replay(check_id, replay)
        jobs = list(_module.jobs(tier, seed))
        results = []
        if workers == 1:
            _init_worker()
            for j in jobs:
                results.append(_run_job(j))
        else:
            with multiprocessing.get_context('fork').Pool(workers, initializer=_init_worker) as pool:
                for r in pool.imap_unordered(_run_job, jobs, chunksize=1):
                    results.append(r)
                    if sum(len(x['fails']) for x in results) >= 40:
                        pool.terminate()
                        break
        return report(check_id, tier, seed, known, jobs, results, t0, verbose)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def run_replay(check_id, path):
    with open(path) as f:
        data = json.load(f)
    ctx = Ctx(check_id, _known_keys)
    ctx.case = data['case']
    _init_worker()
    run_case(ctx, data['case'])
    for v in ctx.fails:
        print(f'  [{v["kind"]}] {v["msg"]}')
    if ctx.fails:
        print(f'VIOLATION property={check_id} replay={path}')
        return 1
    print('replay: no violation')
    return 0


def report(check_id, tier, seed, known, jobs, results, t0, verbose):
    fails = [f for r in results for f in r['fails']]
    os.makedirs(EVIDENCE, exist_ok=True)
    tot = {k: sum(r[k] for r in results) for k in ('states', 'transitions', 'traces', 'nontrivial')}
    extra = {}
    for r in results:
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
    known_seen = {}
    for r in results:
        for k, (n, msg) in r['known'].items():
            c = known_seen.setdefault(k, [0, msg])
            c[0] += n
    samples = [r['sample'] for r in sorted(results, key=lambda r: r['job']) if r['sample'] is not None]
    samples = samples[:: max(1, len(samples) // 4)][:5]
    complete = len(results) == len(jobs) and all(r['complete'] for r in results)
    wall = time.time() - t0
    evidence = {
        'property': check_id, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['states'], 'transitions': tot['transitions'],
            'traces_validated_against_impl': tot['traces'], 'distinct_nontrivial': tot['nontrivial'],
            'rule': _module.RULE, 'samples': samples, 'exhaustive': bool(complete),
            'jobs': len(results), 'known_findings_observed': {k: v[0] for k, v in known_seen.items()}, **extra,
        },
        'assumptions': list(_module.ASSUMPTIONS), 'wall_s': round(wall, 2), 'violations': len(fails),
    }
    with open(os.path.join(EVIDENCE, f'{check_id}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    if verbose:
        for r in sorted(results, key=lambda r: -r['wall'])[:int(os.environ.get('VERIF_JOBS_SHOWN', '8'))]:
            print(f'   job {r["job"]}: {r["wall"]:.1f}s states={r["states"]} traces={r["traces"]}')
    print(f'{check_id} [{tier}] states={tot["states"]} transitions={tot["transitions"]} traces={tot["traces"]} '
          f'nontrivial={tot["nontrivial"]} jobs={len(results)}/{len(jobs)} exhaustive={complete} '
          + ' '.join(f'{k}={v}' for k, v in extra.items()) + f' wall={wall:.1f}s')
    for e in known:
        if e['key'] in known_seen:
            print(f'KNOWN-FINDING: property={check_id} {e["what"]} (observed {known_seen[e["key"]][0]} times, e.g. {known_seen[e["key"]][1]})')
        elif verbose:
            print(f'note: known finding {e["key"]} not observed in this run')
    if not fails:
        if tot['traces'] == 0 or tot['states'] == 0:
            print('ERROR: nothing was explored')
            return 2
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    seen = set()
    shown = 0
    for f in fails:
        if f['kind'] in seen and shown >= 3:
            continue
        seen.add(f['kind'])
        body = json.dumps({'property': check_id, **f}, default=str, sort_keys=True)
        path = os.path.join(REPLAYS, f'{check_id}-{hashlib.sha1(body.encode()).hexdigest()[:12]}.json')
        with open(path, 'w') as fh:
            fh.write(body)
        print(f'  [{f["kind"]}] {f["msg"]}\n     case: {short(f["case"])}')
        print(f'VIOLATION property={check_id} replay={path}')
        shown += 1
        if shown >= 8:
            break
    return 1
