"""C06: parallel fits give the serial result for every number of jobs and every schedule of the jobs."""
import contextlib
import itertools
import math
import sys
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, indep, comb, serial, regime, det, alpha
from ..common import bl, study, fit_mode

RULE = ('process pool replaced by a controlled scheduler: every job runs on a serialised copy of its arguments (as in a '
        'worker process), all orders of execution/completion of the jobs are enumerated; for every schedule, number of '
        'jobs, fit mode, model and data series the result is compared with the serial fit, followed by another fit of '
        'the same study; conformance of the scheduler: the same cases with real worker processes')
BOUNDS = {'quick': 'up to 4 jobs with all 24 orders, up to 20 jobs (more than combinations) with 2 orders; 16 models with 2 to 18 combinations; 5 models with 18 to 45 combinations, series of 10 steps, up to 45 jobs with 2 orders',
          'thorough': 'up to 5 jobs with all 120 orders, up to 20 jobs with 12 orders; all data series of 3 symbols (from 5 jobs on, 2 symbols over 2 values) over 3 values; models with up to 45 combinations with all numbers of jobs up to 49'}
CHUNK = 1
ASSUMPTIONS = ['jobs run in separate processes and communicate only through their serialised arguments and results, so '
               'that all interleavings of jobs are equivalent to some order of complete jobs']

SETTINGS = {
    'flat1': {'grid': [[0., .25, .5, .75, 1.]]},
    'lin1': {'grid': [[.1, .5, .9]], 'prior': ['func', 'lin']},
    'lin2': {'grid': [[0., .5, 1.], [.2, .7]], 'prior': ['array', 'lin']},
    'poisson': {'om': 'poisson', 'grid': [[.5, 1.5, 2.5]], 'prior': ['poisson', 'jeffreys'], 'names': ['a']},
}
HYPER = [grw([0., .2]), grw([0., .2, .4, .6, .8], p=['func', 'lin']), comb(grw([.1, .3]), regime([-3., -2., -1.])),
         alpha([.2, .4], [1., 2.], p=[None, ['func', 'lin']]), cp([0, 1, 2]), comb(grw([.1, .2, .3]), cp([0, 2])),
         serial(static(), bp([0, 1]), grw([.2, .5, .9])), det('lin', ['slope'], [[0., .2, .4]]),
         comb(grw([.1, .2, .3], n='s1'), grw([.2, .4], n='s2'), regime([-2., -1., 0.])),
         comb(grw(.2), regime([-2., -1.])),
         grw([.1, .2, .4], p=['array', [1, 0, 2]])]
POINT = [cp('all', 't1'), comb(cp('all', 't1'), cp('all', 't2')), comb(cp('all', 't1'), grw([.1, .3])),
         serial(static(), bp('all', 't1'), grw(.3), cp('all', 't2'), static()),
         serial(grw([.1, .3]), cp([0, 1], 't1'), static())]
WIDE = [('HyperStudy', grw([round(.02 * i, 10) for i in range(41)])),
        ('HyperStudy', comb(grw([.05, .1, .15, .2, .25, .3, .35]), regime([-5., -4., -3., -2., -1., 0.]))),
        ('HyperStudy', comb(grw([.1, .2, .3, .4], n='s1'), grw([.1, .2, .3], n='s2'), cp([0, 4, 8], 't1'))),
        ('ChangepointStudy', comb(cp('all', 't1'), cp('all', 't2'))),
        ('ChangepointStudy', serial(grw([.1, .3]), cp('all', 't1'), static()))]
DATA = [[0, 1, 2, 0], [6, 7, 0, 1], [7, None, 6, 3]]


def plan(tier):
    """(nJobs, list of schedules)"""
    out = []
    big = [5, 7, 20] if tier == 'quick' else [6, 7, 11, 20]
    for n in range(2, 5 if tier == 'quick' else 6):
        out.append((n, [list(p) for p in itertools.permutations(range(n))]))
    for n in big:
        ids = list(range(n))
        s = [ids, ids[::-1]]
        if tier != 'quick':
            s += [ids[k:] + ids[:k] for k in range(1, min(n, 6))] + [ids[::2] + ids[1::2]]
        out.append((n, s))
    return out


def cases(tier):
    out = []
    for name in SETTINGS:
        for cls, tms in (('HyperStudy', HYPER), ('ChangepointStudy', POINT)):
            for tm in tms:
                for n, orders in plan(tier):
                    if tier == 'quick':
                        if n == 4 and not (name == 'flat1' and (tm is HYPER[1] or tm is HYPER[8] or tm is POINT[1])):
                            continue
                        if (name in ('lin1', 'poisson') and n in (2, 7)) or (n == 20 and name != 'flat1'):
                            continue
                    data = DATA[1:2] if tier == 'quick' and n > 4 else DATA[:2] if tier == 'quick' else DATA + [list(d) + [1] for d in
                                                                   (itertools.product([0, 6, 7], repeat=3) if n < 5 else itertools.product([0, 7], repeat=2))]
                    if name == 'poisson':
                        data = [[4, 0, None, 3], [0, 1, 2, 0]][:1 if tier == 'quick' else 2]
                    out.append({'setting': name, 'cls': cls, 'tm': tm, 'jobs': n, 'orders': orders, 'data': data})
    for name in ('flat1', 'lin2'):
        for cls, tm in WIDE:
            for n in ((2, 6, 9, 13, 16, 32, 40, 45) if tier == 'quick' else range(2, 50)):
                if tier == 'quick' and name == 'lin2' and n not in (6, 16, 40):
                    continue
                ids = list(range(n))
                out.append({'setting': name, 'cls': cls, 'tm': tm, 'jobs': n, 'orders': [ids, ids[::-1]],
                            'data': [[0, 1, 0, 2, None, 0, 3, 1, 0, 1]]})
    for name in ('flat1', 'lin2'):
        for cls, tm in (('HyperStudy', HYPER[1]), ('HyperStudy', HYPER[2]), ('ChangepointStudy', POINT[1])):
            for n in ((2, 3) if tier == 'quick' else (2, 3, 4, 8)):
                out.append({'setting': name, 'cls': cls, 'tm': tm, 'jobs': n, 'real': True, 'data': DATA[:1]})
    return out


class Result(object):
    def __init__(self, get):
        self._get = get

    def get(self, timeout=None):
        return self._get()

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class Pool(object):
    """stand-in for the process pool of pathos with a prescribed order of execution"""
    order = None
    used = 0

    def __init__(self, *args, **kw):
        self.nodes = self.ncpus = kw.get('nodes') or kw.get('ncpus') or (args[0] if args else 1)

    def _run(self, f, args):
        import dill
        tasks = [dill.dumps((f, a)) for a in args]
        n = len(tasks)
        order = [i for i in Pool.order if i < n]
        order += [i for i in range(n) if i not in order]
        done = []
        for i in order:
            g, a = dill.loads(tasks[i])
            done.append((i, dill.loads(dill.dumps(g(*a)))))
        Pool.used += n
        return done

    def _args(self, seqs):
        return list(zip(*[list(s) for s in seqs]))

    def map(self, f, *seqs, **kw):
        done = dict(self._run(f, self._args(seqs)))
        return [done[i] for i in range(len(done))]

    def imap(self, f, *seqs, **kw):
        return iter(self.map(f, *seqs))

    def uimap(self, f, *seqs, **kw):
        return iter([r for i, r in self._run(f, self._args(seqs))])

    def amap(self, f, *seqs, **kw):
        r = self.map(f, *seqs)
        return Result(lambda: r)

    def starmap(self, f, it, **kw):
        done = dict(self._run(f, [tuple(x) for x in it]))
        return [done[i] for i in range(len(done))]

    def pipe(self, f, *args, **kw):
        return self._run(f, [args])[0][1]

    def apipe(self, f, *args, **kw):
        r = self.pipe(f, *args)
        return Result(lambda: r)

    def close(self):
        pass

    join = terminate = clear = close

    def restart(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contextlib.contextmanager
def controlled(order):
    import pathos.multiprocessing as pm
    import pathos.pools as pp
    saved = [(m, n, getattr(m, n)) for m in (pm, pp) for n in ('ProcessPool', 'ProcessingPool') if hasattr(m, n)]
    originals = [v for m, n, v in saved]
    for name, m in list(sys.modules.items()):           # names bound by bayesloop itself
        if name.split('.')[0] == 'bayesloop':
            saved += [(m, n, v) for n, v in list(vars(m).items()) if any(v is o for o in originals)]
    Pool.order = order
    for m, n, v in saved:
        setattr(m, n, Pool)
    try:
        yield
    finally:
        for m, n, v in saved:
            setattr(m, n, v)


@contextlib.contextmanager
def uncontrolled():
    try:
        yield
    finally:
        from pathos.helpers import shutdown
        shutdown()


def results(S, tm, mode):
    r = {'logEvidence': S.logEvidence}
    if np.all(np.isfinite(S.localEvidence)):
        r['localEvidence'] = np.array(S.localEvidence)
    if np.isfinite(S.logEvidence):
        r['hyper-parameter distribution'] = np.array(S.hyperParameterDistribution)
        for n, v, p in ref.hypers(tm):
            if not isinstance(v, (int, float)):
                r['distribution of ' + n] = np.array(S.getHPD(n)[1])
                r['values of ' + n] = np.array(S.getHPD(n)[0], dtype=float)
        if mode != 'evidence':
            r['posteriorSequence'] = np.array(S.posteriorSequence)
            r['posteriorMeanValues'] = np.array(S.posteriorMeanValues)
    return r


def compare(rec, what, got, want):
    rec.ok(set(got) == set(want), what + 'different kind of result: %s' % sorted(set(got) ^ set(want)))
    for k in want:
        rec.close(what + k, got[k], want[k], 1e-11)


def run(case, rec):
    s = specs.Setting(SETTINGS[case['setting']])
    tm, n = case['tm'], case['jobs']
    for di, data in enumerate(case['data']):
        for mi, mode in enumerate(('full', 'forward', 'evidence')):
            T = study(case['cls'], s, tm, data)
            fit_mode(T, mode)
            want = results(T, tm, mode)
            orders = case.get('orders') or [None]
            if mi and n >= 3:
                orders = orders[:1] + orders[-1:]
            other = ('forward', 'evidence', 'full')[mi]
            ow = None
            for k, order in enumerate(orders):
                S = study(case['cls'], s, tm, data)
                with (controlled(order) if order is not None else uncontrolled()):
                    used = Pool.used
                    S.fit(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence', silent=bool((k + di) % 2),
                          nJobs=n)
                    if order is not None:
                        rec.count('jobs_scheduled', Pool.used - used)
                    w = 'data %s, %s fit, %d jobs, order %s: ' % (data, mode, n, order)
                    compare(rec, w, results(S, tm, mode), want)
                    rec.traces += 1
                    rec.transitions += n
                    rec.state(case['setting'], case['cls'], tm, n, repr(order), repr(data), mode)
                    if k < 2:
                        # the same study is used again
                        S.fit(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence', silent=True, nJobs=n)
                        compare(rec, w + 'second parallel fit: ', results(S, tm, mode), want)
                        fit_mode(S, mode)
                        compare(rec, w + 'serial fit afterwards: ', results(S, tm, mode), want)
                        if ow is None:
                            fit_mode(T, other)
                            ow = results(T, tm, other)
                        S.fit(forwardOnly=other == 'forward', evidenceOnly=other == 'evidence', silent=True, nJobs=n)
                        compare(rec, w + '%s fit afterwards: ' % other, results(S, tm, other), ow)
