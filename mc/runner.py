"""
Driver of all checks:  python -m mc.runner C01 [--tier quick|thorough] [--replay FILE]

Every check module mc.checks.cNN enumerates a finite space of cases (`cases(tier)`), each of which is a set of traces
of the reference model that is replayed against the implementation in /repo (`run(case, rec)`).  Nothing is sampled.
"""
import os
import sys
import json
import time
import signal
import hashlib
import importlib
import itertools
import shutil
import tempfile
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
CASE_TIMEOUT = 300          # seconds; ordinary cases take milliseconds


class Mismatch(Exception):
    pass


class Rec(object):
    """what one batch of cases has covered and found"""
    def __init__(self, prop):
        self.prop = prop
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.known_hits = {}
        self.extra = {}

    def state(self, *parts):
        import numpy as np
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(np.round(p, 9).tobytes())
            else:
                h.update(repr(p).encode())
        self.states.add(h.digest())

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def known(self, fid, what=''):
        self.known_hits[fid] = self.known_hits.get(fid, 0) + 1

    def fail(self, msg):
        raise Mismatch(msg)

    def close(self, what, got, want, tol=1e-9):
        if not same(got, want, tol):
            raise Mismatch('%s: got %s, expected %s' % (what, short(got), short(want)))

    def ok(self, cond, what):
        if not cond:
            raise Mismatch(what)


def same(got, want, tol=1e-9):
    import numpy as np
    try:
        a = np.asarray(got, dtype=float)
        b = np.asarray(want, dtype=float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        eq = (a == b) | (np.isfinite(b) & (np.abs(a - b) <= tol * (1. + np.abs(b))))
    return bool(np.all(eq))


def short(x):
    import numpy as np
    try:
        a = np.asarray(x, dtype=float)
        s = np.array2string(a, precision=12, threshold=40)
    except Exception:
        s = repr(x)
    return s if len(s) < 700 else s[:700] + '...'


def load_known(prop):
    """known findings of the property: {id: text}"""
    out = {}
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('known:'):
                continue
            head, what = line[len('known:'):].strip().split(' -- ', 1)
            kv = dict(x.split('=', 1) for x in head.split())
            if prop in kv['property'].split(','):
                out[kv['id']] = what
    return out


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout('case did not finish within %d s' % CASE_TIMEOUT)


def _init_worker():
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    signal.signal(signal.SIGALRM, _alarm)
    warnings.simplefilter('ignore')


def run_one(module, case, rec):
    """None, or a description of the violation"""
    import numpy as np
    from .common import FITS
    np.seterr(all='ignore')
    FITS[0] = 0
    signal.alarm(CASE_TIMEOUT)
    try:
        module.run(case, rec)
        return None
    except Mismatch as e:
        return str(e)
    except Timeout as e:
        return str(e)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, SystemExit):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        return 'unexpected %s: %s (%s)' % (type(e).__name__, e, where)
    finally:
        signal.alarm(0)
        plt = sys.modules.get('matplotlib.pyplot')
        if plt is not None:
            plt.close('all')


def _run_chunk(modname, prop, chunk, known):
    module = importlib.import_module(modname)
    rec = Rec(prop)
    bad = []
    for case in chunk:
        before = dict(rec.known_hits)
        msg = run_one(module, case, rec)
        for k in rec.known_hits:
            if k not in known and rec.known_hits[k] != before.get(k, 0) and msg is None:
                msg = 'deviation "%s" is not a known finding of %s' % (k, prop)
        if msg is not None:
            bad.append((case, msg))
            break
    return rec.states, rec.transitions, rec.traces, rec.known_hits, rec.extra, len(chunk), bad


def setup_import():
    """make sure that bayesloop is imported from the working tree of /repo, never from stale byte code"""
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if os.path.isdir('/opt/venv/mplconfig'):
        os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    warnings.simplefilter('ignore')
    tmp = tempfile.mkdtemp(prefix='mc-pyc-')
    sys.pycache_prefix = tmp
    sys.path.insert(0, REPO)
    try:
        # print statements of the package must not disturb the report
        import bayesloop
        assert os.path.realpath(bayesloop.__file__).startswith(os.path.realpath(REPO) + os.sep), bayesloop.__file__
        memoise_one_of()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return bayesloop


def memoise_one_of():
    """
    pyparsing.oneOf is called with the same list of about 1000 function names for every query and takes 50 ms; its
    result only depends on the arguments
    """
    import pyparsing as pp
    for name in ('oneOf', 'one_of'):
        orig = getattr(pp, name, None)
        if orig is None:
            continue
        cache = {}

        def wrapper(strs, *a, _orig=orig, _cache=cache, **k):
            key = (strs if isinstance(strs, str) else tuple(strs), a, tuple(sorted(k.items())))
            try:
                if key not in _cache:
                    _cache[key] = _orig(strs, *a, **k)
                return _cache[key].copy()
            except TypeError:
                return _orig(strs, *a, **k)
        setattr(pp, name, wrapper)


def write_replay(prop, case, msg):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s.json' % (prop, hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(),
                                                 digest_size=6).hexdigest())
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'case': case, 'violation': msg}, f, indent=1, default=str)
    return path


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    it = iter(argv[1:])
    jobs = int(os.environ.get('MC_JOBS', '0')) or min(8, os.cpu_count() or 1)
    verbose = False
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--replay':
            replay = next(it)
        elif a == '-v':
            verbose = True
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    modname = 'mc.checks.' + prop.lower()
    evidence_file = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    try:
        setup_import()
    except BaseException as e:
        path = write_replay(prop, {'import': True}, 'bayesloop cannot be imported: %r' % (e,))
        print('bayesloop cannot be imported: %r' % (e,))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    module = importlib.import_module(modname)
    known = load_known(prop)

    if replay:
        with open(replay) as f:
            case = json.load(f)['case']
        rec = Rec(prop)
        signal.signal(signal.SIGALRM, _alarm)
        msg = run_one(module, case, rec)
        print('case:', json.dumps(case))
        print('result:', msg or 'holds', '| known findings:', rec.known_hits)
        return 1 if msg else 0

    cases = list(module.cases(tier))
    n = len(cases)
    # interleave, so that every chunk contains cases of all kinds
    size = max(1, min(getattr(module, 'CHUNK', 50), n // (jobs * 4) or 1))
    nchunks = max(1, (n + size - 1) // size)
    chunks = [cases[i::nchunks] for i in range(nchunks)]
    states, transitions, traces, hits, extra, done, bad = set(), 0, 0, {}, {}, 0, []
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool
    import multiprocessing
    sys.stdout.flush()
    ex = ProcessPoolExecutor(jobs, mp_context=multiprocessing.get_context('fork'), initializer=_init_worker)
    try:
        futs = [ex.submit(_run_chunk, modname, prop, c, list(known)) for c in chunks]
        for f in as_completed(futs):
            s, tr, tc, kh, xt, m, b = f.result()
            states |= s
            transitions += tr
            traces += tc
            done += m
            for k, v in kh.items():
                hits[k] = hits.get(k, 0) + v
            for k, v in xt.items():
                extra[k] = extra.get(k, 0) + v
            if b:
                bad += b
                if not verbose:
                    for x in futs:
                        x.cancel()
                    break
    except BrokenProcessPool:
        bad.append(({'crash': True}, 'a worker process died while running the cases'))
    finally:
        ex.shutdown(wait=True, cancel_futures=True)

    cov = {'states': len(states), 'transitions': transitions, 'traces_validated_against_impl': traces,
           'cases': done, 'cases_enumerated': n, 'exhaustive': not bad and done == n,
           'rule': getattr(module, 'RULE', ''), 'bounds': getattr(module, 'BOUNDS', {}).get(tier, ''),
           'samples': [cases[i] for i in sorted(set([0, n // 3, n - 1]))] if n else []}
    cov.update(extra)
    if hits:
        cov['known_findings_hit'] = hits
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': getattr(module, 'LEVEL', 'model_checking'), 'coverage': cov,
          'assumptions': getattr(module, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(bad)}
    if ev['level'] == 'fault_enumeration':
        cov['evaluations'] = traces
        cov['distinct_nontrivial'] = len(states)
    with open(evidence_file, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for fid, what in sorted(known.items()):
        if hits.get(fid):
            print('KNOWN-FINDING: property=%s %s [%s, met in %d traces]' % (prop, what, fid, hits[fid]))
    print('%s (%s): %d cases, %d states, %d transitions, %d traces replayed against the implementation, %.1f s'
          % (prop, tier, done, len(states), transitions, traces, time.time() - t0))
    if bad:
        for case, msg in bad[:20]:
            path = write_replay(prop, case, msg)
            print('  ' + msg[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    rc = 1
    try:
        rc = main(sys.argv[1:])
    finally:
        sys.stdout.flush()
    sys.exit(rc)
