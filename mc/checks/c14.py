"""C14: saving and loading a study at any point is transparent."""
import itertools
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import numpy as np
from .. import ref, specs
from ..specs import static, grw, alpha, cp, bp, indep, comb, serial, regime, notequal, det, biv
from ..common import bl, outcome, compare_outcomes, fit_mode, hyper_values
from .. import runner

RULE = ('all operation sequences up to the depth bound for every study type, saved after the last operation; the file is '
        'loaded in the same and in another process, all results are compared and the analysis is continued in both; every '
        'truncation of saved files; every failing or interrupted write (file size limit at every byte position of the bound) '
        'and failing serialisation')
BOUNDS = {'quick': 'sequences of up to 3 operations (4 to 8 operations per study type), 30 continuations per study type; truncation of three files after every byte; limit of the file size at 24 positions, with error and with termination of the process',
          'thorough': 'sequences of up to 4 operations; truncation of seven files after every byte; limit of the file size at 200 positions'}
CHUNK = 1
LEVEL = 'fault_enumeration'

DATA = {'D3': ([0, 3, 1], None), 'D4t': ([2, 0, 1, 5], [5, 6, 8, 9]), 'Dn': ([1, None, 4], None)}
OMS = {'A': {'grid': [[0., .25, .5, .75]]}, 'B': {'grid': [[.1, .5, .9]], 'prior': ['array', 'lin']},
       'C': {'grid': [[.1, .5, .9], [.2, .7]], 'prior': ['func', 'lin']}, 'G': {'om': 'gaussian', 'grid': [[-1., 0., 1.], [.5, 1., 1.5]], 'names': ['a', 'b'], 'prior': ['sympy', [['Normal', [0, 1]], ['Exponential', [1]]]]},
       'W': {'om': 'seg2', 'grid': [[.1, .5, .9]]}, 'P': {'om': 'scipynorm', 'grid': [[-1., 0., 1.], [.5, 1.]], 'names': ['loc', 'scale']},
       'Y': {'om': 'sympynorm', 'grid': [[-1., 0., 1.], [.5, 1.]], 'names': ['a', 'b']}, 'J': {'om': 'poisson', 'grid': [[.5, 1., 2.]], 'names': ['a'], 'prior': ['poisson', 'jeffreys']}}
TMS = {'grw': grw(.3), 'alpha': alpha(.25, 1.3), 'scp': serial(static(), cp(1), alpha(.3, 1.7)), 'nest': comb(grw(.2), serial(regime(-1.), bp(0), notequal(-2., 'pe'))),
       'det': comb(det('lin', ['slope'], [.1])), 'cp': cp(1), 'biv': biv(.4, .3, .5), 'indep': indep(), 'static': static(),
       'Hgrw': grw([.1, .4], p=['func', 'lin']), 'Hal': alpha([.2, .4], [1., 2.]), 'Hcp': cp([0, 1]), 'Hdet': det('lin', ['slope'], [[0., .1]]), 'Hsym': grw([.1, .4], p=['sympy', 'Exponential', [1]]),
       'Call': cp('all'), 'C2': comb(cp([0, 1, 2], 't1'), cp([1, 2], 't2')), 'Cs': serial(static(), bp('all'), grw([.2, .4]))}
OPS = {'Study': ['load D3', 'load D4t', 'om B', 'om C', 'tm scp', 'tm nest', 'fit full', 'fit evidence', 'query'],
       'HyperStudy': ['load D4t', 'om C', 'tm Hal', 'tm Hcp', 'fit full', 'fit evidence', 'query'],
       'ChangepointStudy': ['load D4t', 'om C', 'tm C2', 'tm Cs', 'fit full', 'fit forward'],
       'OnlineStudy': ['step 0', 'step 3', 'step nan', 'query', 'add']}
START = {'Study': ('D3', 'A', 'grw'), 'HyperStudy': ('D3', 'A', 'Hgrw'), 'ChangepointStudy': ('D3', 'A', 'Call')}
MENUS = [['grw'], ['Hgrw', 'static'], ['Hal', 'cp', 'scp']]
SPECIAL = [('Study', om, tm) for om in OMS for tm in ('grw', 'det', 'indep') if not (tm != 'indep' and om == 'P')] + \
          [('Study', 'C', 'biv'), ('HyperStudy', 'A', 'Hdet'), ('HyperStudy', 'B', 'Hsym'), ('HyperStudy', 'J', 'Hal'), ('Study', 'lambda', 'lambda')]


def cases(tier):
    out = []
    depth = 3 if tier == 'quick' else 4
    for kind in START:
        for k in range(3):
            out.append({'part': 'histories', 'kind': kind, 'first': OPS[kind][k::3], 'depth': depth})
        out.append({'part': 'early', 'kind': kind})
    for m in MENUS:
        for hist in (True, False):
            out.append({'part': 'histories', 'kind': 'OnlineStudy', 'first': OPS['OnlineStudy'], 'depth': depth, 'menu': m, 'history': hist})
            out.append({'part': 'early', 'kind': 'OnlineStudy', 'menu': m, 'history': hist})
    out.append({'part': 'special'})
    files = ['Study', 'OnlineStudy', 'ChangepointStudy'] if tier == 'quick' else ['Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy', 'Study W', 'Study Y', 'Study new']
    for f in files:
        for k in range(6):
            out.append({'part': 'truncate', 'file': f, 'k': k, 'of': 6})
    n = 24 if tier == 'quick' else 200
    for f in files[:2]:
        for crash in (False, True):
            for k in range(2):
                out.append({'part': 'limit', 'file': f, 'crash': crash, 'k': k, 'of': 2, 'n': n})
    out.append({'part': 'unpicklable'})
    return out


# ------------------------------------------------------------------------------------------------------------- studies
def new(kind, case):
    b = bl()
    if kind == 'OnlineStudy':
        S = b.OnlineStudy(storeHistory=case['history'], silent=True)
        S.set(specs.Setting(OMS['A']).real(b), silent=True)
        for t in case['menu']:
            S.add(t, specs.real_tm(b, TMS[t]))
        return S
    S = getattr(b, kind)(silent=True)
    d, om, tm = START[kind]
    apply_op(S, 'load ' + d)
    apply_op(S, 'om ' + om)
    apply_op(S, 'tm ' + tm)
    return S


def apply_op(S, op):
    b = bl()
    w = op.split(' ', 1)
    try:
        if w[0] == 'load':
            x, ts = DATA[w[1]]
            x = np.array(specs.num(x))
            S.loadData(x, silent=True) if ts is None else S.loadData(x, timestamps=np.array(ts), silent=True)
        elif w[0] == 'om':
            S.set(specs.Setting(OMS[w[1]]).real(b), silent=True)
        elif w[0] == 'tm':
            S.set(specs.real_tm(b, TMS[w[1]]), silent=True)
        elif w[0] == 'fit':
            fit_mode(S, w[1])
        elif w[0] == 'step':
            S.step(float(w[1]))
        elif op == 'add':
            S.add('new%d' % len(S.transitionModelNames), specs.real_tm(b, grw([.2, .3], n='new%d' % len(S.transitionModelNames))))
        elif op == 'prior':
            S.setTransitionModelPrior(np.arange(1., 1. + len(S.transitionModelNames)), silent=True)
        elif op == 'query':
            for n in S.observationModel.parameterNames:
                for f in (lambda: S.getPDs(n), lambda: S.getCPD(n), lambda: S.plot(n)):
                    try:
                        f()
                    except Exception:
                        pass
    except Exception as e:
        return type(e).__name__
    return None


def continuation(kind, i):
    """how the life of a study goes on after it was saved"""
    if kind == 'OnlineStudy':
        return [['step 0', 'step 2'], ['step nan', 'query', 'step 3'], ['step 7', 'step 1']][i % 3]
    t = {'Study': ['tm nest', 'tm cp'], 'HyperStudy': ['tm Hal', 'tm Hcp'], 'ChangepointStudy': ['tm C2', 'tm Cs']}[kind]
    l = [['fit full'], ['fit forward', 'query'], ['fit evidence', 'fit full'], ['load D4t', 'fit full'], ['om C', 'fit full'],
         [t[0], 'fit full'], ['om B', t[1], 'load Dn', 'fit full']]
    return l[i % len(l)]


def life(S, ops):
    """all observable results after each operation"""
    out = [results(S)]
    for o in ops:
        e = apply_op(S, o)
        out.append(results(S) if e is None else {'error': e})
    return out


def results(S):
    try:
        r = dict(outcome(S)) if S.observationModel is not None else {}
    except Exception as e:
        r = {'outcome': type(e).__name__}
    r['raw'] = np.array([] if S.rawTimestamps is None else S.rawTimestamps, dtype=float)
    r['data'] = np.nan_to_num(np.array(S.rawData, dtype=float), nan=-99.)
    r['class'] = type(S).__name__
    r['names'] = repr(None if S.observationModel is None else list(S.observationModel.parameterNames))
    try:
        r['hyper'] = repr([str(x) for x in hyper_values(S.transitionModel)])
    except Exception:
        pass
    return r


def compare_lives(rec, w, got, want):
    rec.ok(len(got) == len(want), w + ': number of states')
    for i, (g, x) in enumerate(zip(got, want)):
        strings = [k for k in x if isinstance(x[k], str)]
        for k in strings:
            rec.ok(g.get(k) == x[k], '%s, after %d further operations: %s is %r, expected %r' % (w, i, k, g.get(k), x[k]))
        compare_outcomes(rec, '%s, after %d further operations' % (w, i), {k: v for k, v in g.items() if k not in strings},
                         {k: v for k, v in x.items() if k not in strings}, 1e-12)


# ------------------------------------------------------------------------------------------------------ other processes
def child_main(jobfile):
    """entry point of the other process: loads the files, continues, and stores the results"""
    runner.setup_import()
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    with open(jobfile) as f:
        jobs = json.load(f)
    out = []
    null = open(os.devnull, 'w')
    stdout, sys.stdout = sys.stdout, null
    for path, ops in jobs:
        try:
            S = bl().load(path)
            out.append(life(S, ops))
        except Exception as e:
            out.append(repr(e))
    sys.stdout = stdout
    with open(jobfile + '.out', 'wb') as f:
        pickle.dump(out, f)


def other_process(d, jobs):
    jf = os.path.join(d, 'jobs.json')
    with open(jf, 'w') as f:
        json.dump(jobs, f)
    env = dict(os.environ)
    code = 'import sys; sys.path.insert(0, %r); from mc.checks import c14; c14.child_main(%r)' % (runner.VERIF, jf)
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=250)
    if r.returncode != 0:
        raise runner.Mismatch('the other process fails: ' + r.stderr.decode()[-500:])
    with open(jf + '.out', 'rb') as f:
        return pickle.load(f)


# ------------------------------------------------------------------------------------------------------------------ run
def run(case, rec):
    d = tempfile.mkdtemp(prefix='mc-c14-')
    try:
        {'histories': histories, 'early': early, 'special': special, 'truncate': truncate, 'limit': limit, 'unpicklable': unpicklable}[case['part']](case, rec, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_one(rec, d, S, make, kind, w, i, jobs):
    """save S, compare, continue; `make` creates the same study again without saving"""
    b = bl()
    path = os.path.join(d, 'study%d.bl' % i)
    before = results(S)
    b.save(path, S)
    compare_lives(rec, w + ': study after saving', [results(S)], [before])
    ops = continuation(kind, i)
    want = life(make(), ops)
    L = b.load(path)
    rec.ok(type(L) is type(S), w + ': class of loaded study')
    compare_lives(rec, w + ': loaded study', life(L, ops), want)
    compare_lives(rec, w + ': saved study', life(S, ops), want)
    jobs.append(([path, ops], want, w))
    rec.traces += 1
    rec.transitions += len(ops) + 2
    rec.state(w)


def finish(rec, d, jobs):
    got = other_process(d, [j[0] for j in jobs])
    for g, (job, want, w) in zip(got, jobs):
        rec.ok(not isinstance(g, str), '%s: cannot be loaded in another process: %s' % (w, g))
        compare_lives(rec, w + ': loaded in another process', g, want)
        rec.traces += 1
        rec.transitions += len(job[1]) + 1


def histories(case, rec, d):
    kind = case['kind']
    jobs = []
    i = 0
    for n in range(case['depth']):
        for seq in itertools.product(case['first'], *[OPS[kind]] * n):
            seq = list(seq)
            if n == case['depth'] - 1 and len(set(seq)) < len(seq) and kind != 'OnlineStudy':
                continue            # longest sequences: without repetition
            w = '%s %s after %s' % (kind, case.get('menu', ''), seq)

            def make(seq=seq):
                S = new(kind, case)
                for o in seq:
                    apply_op(S, o)
                return S
            check_one(rec, d, make(), make, kind, w, i, jobs)
            i += 1
    finish(rec, d, jobs)


def early(case, rec, d):
    """studies that are not completely configured yet"""
    b = bl()
    kind = case['kind']
    jobs = []
    if kind == 'OnlineStudy':
        makes = [lambda: b.OnlineStudy(storeHistory=case['history'], silent=True), lambda: new(kind, case)]

        def more():
            S = new(kind, case)
            apply_op(S, 'prior')
            return S
        makes.append(more)
    else:
        dd, om, tm = START[kind]

        def partial(*ops):
            def f():
                S = getattr(b, kind)(silent=True)
                for o in ops:
                    apply_op(S, o)
                return S
            return f
        names = ['load ' + dd, 'om ' + om, 'tm ' + tm]
        makes = [partial(*p) for k in range(4) for p in itertools.permutations(names, k)]
    for i, m in enumerate(makes):
        for j in range(3):
            check_one(rec, d, m(), m, kind, '%s, incomplete configuration %d' % (kind, i), 3 * i + j, jobs)
    finish(rec, d, jobs)


def lambda_study():
    b = bl()
    S = b.Study(silent=True)
    S.loadData(np.array([.3, 1.2, .4]), silent=True)
    shift = .25
    om = b.om.NumPy(lambda data, a: np.exp(-(data - a - shift) ** 2), 'a', np.array([0., .5, 1.]), prior=lambda a: 1. + a * shift)

    def trend(t, slope=.1):
        return slope * t * shift
    S.set(om, b.tm.Deterministic(trend, target='a'), silent=True)
    return S


def special(case, rec, d):
    """models and priors of all kinds, before and after the fit"""
    b = bl()
    jobs = []
    i = 0
    for kind, om, tm in SPECIAL:
        for fitted in (False, True):
            def make(kind=kind, om=om, tm=tm, fitted=fitted):
                if om == 'lambda':
                    S = lambda_study()
                else:
                    S = getattr(b, kind)(silent=True)
                    apply_op(S, 'load D4t' if tm != 'det' else 'load D3')
                    apply_op(S, 'om ' + om)
                    tt = dict(TMS[tm])
                    S.set(specs.real_tm(b, tt), silent=True)
                if fitted:
                    S.fit(silent=True)
                return S
            check_one(rec, d, make(), make, kind, 'Study with %s and %s, %s' % (om, tm, 'fitted' if fitted else 'not fitted'), i, jobs)
            i += 3 if i % 2 else 2
    finish(rec, d, jobs)


def sample(name):
    w = name.split(' ')
    kind = w[0]
    S = new(kind, {'menu': ['Hgrw', 'static'], 'history': True})
    if len(w) > 1 and w[1] in OMS:
        apply_op(S, 'om ' + w[1])
    if kind == 'OnlineStudy':
        apply_op(S, 'step 0')
        apply_op(S, 'step 3')
    elif 'new' not in w:
        S.fit(silent=True)
    return S


def truncate(case, rec, d):
    b = bl()
    path = os.path.join(d, 'whole.bl')
    b.save(path, sample(case['file']))
    with open(path, 'rb') as f:
        raw = f.read()
    rec.ok(len(raw) > 500, 'file is too small')
    part = os.path.join(d, 'part.bl')
    for n in range(case['k'], len(raw), case['of']):
        with open(part, 'wb') as f:
            f.write(raw[:n])
        rec.traces += 1
        rec.transitions += 1
        rec.state(case['file'], n)
        try:
            S = b.load(part)
        except Exception:
            continue
        rec.fail('loading the first %d of %d bytes of a saved %s returns %r' % (n, len(raw), case['file'], S))
    for missing in ('nowhere.bl', ''):
        try:
            b.load(os.path.join(d, missing))
        except Exception:
            continue
        rec.fail('loading a missing file returns a study')


def in_child(f):
    """runs f in a forked process: exit status"""
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            code = f()
        except BaseException:
            code = 8
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1]


def limit(case, rec, d):
    """the file cannot grow beyond a limit: every write beyond it fails, or kills the process"""
    import resource
    b = bl()
    old, newer = sample(case['file']), sample(case['file'])
    if case['file'] == 'OnlineStudy':
        apply_op(newer, 'step 2')
    else:
        apply_op(newer, 'om C')
        newer.fit(silent=True)
    path = os.path.join(d, 'target.bl')
    b.save(path, newer)
    size = os.path.getsize(path)
    want_old, want_new = results(old), results(newer)
    pos = sorted(set([0, 1, 2, size - 1, size, size + 1] + [int(size * i / float(case['n'] - 5)) for i in range(case['n'] - 5)]))
    for n in pos[case['k']::case['of']]:
        b.save(path, old)
        with open(path, 'rb') as f:
            bytes_old = f.read()

        def child(n=n):
            if not case['crash']:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            else:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            try:
                b.save(path, newer)
            except Exception:
                return 3
            return 0
        st = in_child(child)
        failed = not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0)
        rec.traces += 1
        rec.transitions += 2
        rec.state(case['file'], case['crash'], n, failed)
        w = 'saving a %s when only %d of %d bytes can be written%s' % (case['file'], n, size, ' and the process is killed' if case['crash'] else '')
        if failed:
            rec.ok(n < size, w + ': fails although there is enough space')
            with open(path, 'rb') as f:
                now = f.read()
            rec.ok(now == bytes_old, w + ': the existing file is changed (%d instead of %d bytes)' % (len(now), len(bytes_old)))
            compare_lives(rec, w + ': existing file', [results(b.load(path))], [want_old])
        else:
            rec.ok(n >= size, w + ': no error is reported')
            compare_lives(rec, w + ': new file', [results(b.load(path))], [want_new])
    # saving works again afterwards
    b.save(path, newer)
    compare_lives(rec, 'saving after failed attempts', [results(b.load(path))], [want_new])


class Hostile(object):
    """cannot be serialised"""
    def __reduce__(self):
        raise ValueError('cannot be serialised')


def unpicklable(case, rec, d):
    b = bl()
    for kind in ('Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy'):
        path = os.path.join(d, kind + '.bl')
        good = sample(kind)
        b.save(path, good)
        with open(path, 'rb') as f:
            raw = f.read()
        for where in ('study', 'observation model', 'prior', 'generator'):
            bad = sample(kind)
            if where == 'study':
                bad.comment = Hostile()
            elif where == 'observation model':
                bad.observationModel.comment = Hostile()
            elif where == 'prior':
                bad.observationModel.prior = Hostile()
            else:
                bad.comment = (x for x in range(3))
            try:
                b.save(path, bad)
            except Exception:
                pass
            else:
                rec.fail('%s with unserialisable %s: no error is reported' % (kind, where))
            with open(path, 'rb') as f:
                rec.ok(f.read() == raw, '%s with unserialisable %s: existing file is changed' % (kind, where))
            rec.traces += 1
            rec.transitions += 1
            rec.state(kind, where)
        compare_lives(rec, 'file after failed attempts', [results(b.load(path))], [results(good)])
        # nonexistent directory
        try:
            b.save(os.path.join(d, 'no', 'such', 'folder'), good)
        except Exception:
            continue
        rec.fail('saving to a missing folder reports no error')
