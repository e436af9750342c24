"""C17: simulated data distributions are the posterior predictive distribution."""
import itertools
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, comb, serial, regime
from ..common import bl, study, fit_mode, outcome, compare_outcomes

RULE = ('study type x observation model x transition model x fit mode x data x every time stamp (and none, and unknown ones) x all '
        'orders, repetitions and subsets of a menu of observation values x probability/density; oracle: explicit sum of the closed-form '
        'likelihood over the reference posterior distribution; snapshots of all results and arguments before and after every call')
BOUNDS = {'quick': '12 observation models, up to 5 time steps, all sequences of up to 3 of 4 values, all values at once; 6 larger studies (30 steps, up to 49 grid points per axis, 25 combinations, 70 values)',
          'thorough': '12 observation models, all data series over 3 symbols up to 5 steps (table model), all sequences of up to 4 of 5 values'}
CHUNK = 2

SETTINGS = {
    'table': {'grid': [[.1, .3, .5, .7, .9]], 'prior': ['func', 'lin']},
    'table2': {'grid': [[.1, .5, .9], [.2, .5, .9]], 'prior': ['array', 'lin']},
    'irregular': {'grid': [[.1, .15, .6, .9]]},
    'tablev': {'om': 'tablev', 'grid': [[.1, .5, .9]]},
    'gmean': {'om': 'gaussianmean', 'grid': [[-1., 0., 1., 2.]]},
    'bernoulli': {'om': 'bernoulli', 'grid': [[.2, .5, .8]], 'prior': ['bernoulli', 'jeffreys']},
    'poisson': {'om': 'poisson', 'grid': [[.5, 1.5, 2.5]], 'prior': ['poisson', 'jeffreys']},
    'gaussian': {'om': 'gaussian', 'grid': [[-1., 0., 1.], [.5, 1., 1.5]], 'prior': ['gaussian', 'jeffreys']},
    'laplace': {'om': 'laplace', 'grid': [[-1., 0., 1.], [.5, 1.]], 'prior': ['laplace', 'jeffreys']},
    'whitenoise': {'om': 'whitenoise', 'grid': [[.5, 1., 1.5]], 'prior': ['whitenoise', 'jeffreys']},
    'scipynorm': {'om': 'scipynorm', 'grid': [[-1., 0., 1.], [.5, 1.]], 'names': ['loc', 'scale']},
    'scipypoisson': {'om': 'scipypoisson', 'grid': [[.5, 1.5, 2.5]], 'names': ['mu']},
    'sympynorm': {'om': 'sympynorm', 'grid': [[-1., 0., 1.], [.5, 1.]], 'names': ['m', 's']},
}
REAL = [.3, -1.2, 1.1, .4, 2.2]
VALUES = {  # data series and menu of values
    'table': ([1, 4, 0, 2, 5], [0, 2, 5, 3, 6]), 'table2': ([1, 4, 0, 2, 5], [0, 2, 5, 3, 7]), 'irregular': ([1, 9, 0, 10, 5], [0, 9, 5, 10, 4]),
    'tablev': ([[1, 2], [0, 4], [5, 2], [3, 3], [0, 1]], [[0, 1], [1, 0], [5, 5], [2, 3], [4, 0]]),
    'gmean': ([[.3, .5], [-1.2, 1.], [1.1, .4], [.2, .7], [2., 1.5]], [[0., 1.], [1., .5], [-2., .3], [.4, 2.], [.1, .1]]),
    'bernoulli': ([1, 0, 1, 1, 0], [0, 1]), 'poisson': ([1, 0, 3, 2, 5], [0, 1, 4, 2, 7]), 'scipypoisson': ([1, 0, 3, 2, 5], [0, 1, 4, 2, 7]),
}
MODELS = {
    'Study': {'static': (lambda n: static()), 'grw': (lambda n: grw(.4, n)), 'cp': (lambda n: cp(1)), 'serial': (lambda n: serial(static(), bp(2), grw(.5, n)))},
    'HyperStudy': {'grw': (lambda n: grw([0., .4, 1.], n)), 'comb': (lambda n: comb(grw([.2, .6], n), regime([-3., -1.])))},
    'ChangepointStudy': {'cp': (lambda n: cp('all'))},
    'OnlineStudy': {'grw': (lambda n: grw(.4, n)), 'hyper': (lambda n: grw([.2, .4, .6], n))},
}
STAMPS = [None, [3, 4, 7, 8, 12], [-2.5, -.5, 0., 1.25, 9.], [12, 0, 3, -1, 2]]

V = [round(.02 * i, 10) for i in range(1, 50)]
WIDE = [('Study', {'grid': [V]}, grw(.1)), ('Study', {'grid': [V[::3], V[::5]], 'prior': ['func', 'lin']}, comb(grw(.1), regime(-4.))),
        ('Study', {'om': 'poisson', 'grid': [V], 'prior': ['poisson', 'jeffreys']}, static()),
        ('Study', {'om': 'gaussian', 'grid': [[-1. + .1 * i for i in range(25)], V[::4]], 'prior': ['gaussian', 'jeffreys'], 'names': ['a', 'b']}, grw(.1)),
        ('HyperStudy', {'grid': [V[::3]]}, comb(grw([.1, .2, .3, .4, .5]), regime([-5., -4., -3., -2., -1.]))),
        ('ChangepointStudy', {'grid': [V[::3]]}, cp('all'))]


def wide(case, rec):
    cls, spec, tm = WIDE[case['i']]
    st = specs.Setting(spec)
    n = case['n']
    data = [(i * i + i // 3) % 6 for i in range(n)]
    times = [2 * i + 1 for i in range(n)]
    S = study(cls, st, tm, data, times)
    like = st.like(specs.num(data))
    rt = specs.ref_tm(tm, times[:-1])
    for mode in ('full', 'forward'):
        fit_mode(S, mode)
        if cls == 'Study':
            post = ref.fit(st.grid, st.prior, like, times, rt, mode, ())['post']
        else:
            post = ref.hyper_fit(st.grid, st.prior, like, times, rt, mode, ['tc'] if cls == 'ChangepointStudy' else None)['post']
        xs = [(i + i // 7) % 6 if i % 5 else i // 5 for i in range(70)]
        for t in [None] + times:
            check_values(rec, S, st, np.array(post), times, xs[::-1] if t == times[1] else xs, t, 'wide %d: ' % case['i'])
            rec.state('wide', case['i'], mode, t)
    rec.traces += 2


def cases(tier):
    out = []
    for s in SETTINGS:
        for cls in MODELS:
            for m in MODELS[cls]:
                for n in (5, 1) if cls in ('Study', 'HyperStudy') else (5,):
                    if n == 1 and m not in ('grw',):
                        continue
                    for ts in range(len(STAMPS)):
                        if cls == 'OnlineStudy' and ts:
                            continue
                        if ts and (m in ('cp', 'serial') or n == 1):
                            continue
                        for mode in ('full', 'forward') if cls != 'OnlineStudy' else ('forward',):
                            if m in ('serial', 'comb') and mode == 'full' and s in ('irregular',):
                                continue
                            out.append({'part': 'values', 'setting': s, 'cls': cls, 'tm': m, 'n': n, 'ts': ts, 'mode': mode, 'depth': 3 if tier == 'quick' else 4})
    for s in ('table', 'table2'):
        for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
            for data in itertools.product([0, 2, 5], repeat=n):
                out.append({'part': 'data', 'setting': s, 'data': list(data)})
    for i in range(len(WIDE)):
        out.append({'part': 'wide', 'i': i, 'n': 30 if tier == 'quick' else 100})
    for cls in MODELS:
        out.append({'part': 'nothing', 'cls': cls})
    return out


def make(case, st):
    """fitted study and its reference posterior sequence"""
    name = st.names[0]
    data = (VALUES.get(case['setting']) or (REAL,))[0][:case['n']]
    tm = MODELS[case['cls']][case['tm']](name)
    ts = STAMPS[case['ts']]
    times = list(range(len(data))) if ts is None else ts[:len(data)]
    like = st.like(specs.num(data))
    b = bl()
    if case['cls'] == 'OnlineStudy':
        S = b.OnlineStudy(silent=True, storeHistory=True)
        S.set(st.real(b), silent=True)
        S.addTransitionModel('m', specs.real_tm(b, tm))
        for x in data:
            S.step(np.array(x) if isinstance(x, list) else x)
    else:
        S = study(case['cls'], st, tm, data, None if ts is None else times)
        fit_mode(S, case['mode'])
    rt = specs.ref_tm(tm, times[:-1])
    if case['cls'] == 'Study' or not ref.hypers(rt):
        r = ref.fit(st.grid, st.prior, like, times, rt, case['mode'], ())
    elif case['cls'] == 'OnlineStudy':
        post = []
        for i in range(len(data)):
            post.append(ref.hyper_fit(st.grid, st.prior, like[:i + 1], times[:i + 1], rt, 'forward')['post'][-1])
        r = {'post': np.array(post)}
    else:
        ordered = ['tc'] if case['cls'] == 'ChangepointStudy' else None
        r = ref.hyper_fit(st.grid, st.prior, like, times, rt, case['mode'], ordered)
    return S, times, np.array(r['post'])


def check_values(rec, S, st, post, times, xs, t, where):
    from ..common import freeze
    p = post.mean(axis=0) if t is None else post[times.index(t)]
    dens = np.array([np.sum(st.like([specs.num(x)])[0] * p) for x in xs])
    arg = np.array(xs)
    for form in (list(xs), arg):
        frozen = freeze(form)
        for kw, want in (({}, dens / dens.sum() if dens.sum() > 0 else None), ({'density': True}, dens), ({'density': False}, dens / dens.sum() if dens.sum() > 0 else None)):
            if want is None:
                continue
            got = S.simulate(form, **kw) if t is None and len(kw) % 2 else S.simulate(form, t=t, **kw)
            rec.close('%ssimulate(%s, t=%s, %s)' % (where, xs, t, kw), got, want)
            rec.transitions += 1
        rec.ok(freeze(form) == frozen, where + 'simulate changed its argument')


def run(case, rec):
    from bayesloop.exceptions import PostProcessingError
    b = bl()
    if case['part'] == 'wide':
        return wide(case, rec)
    if case['part'] == 'values':
        st = specs.Setting(SETTINGS[case['setting']])
        menu = (VALUES.get(case['setting']) or (None, REAL))[1]
        if case['depth'] < 4:
            menu = menu[:4]
        S, times, post = make(case, st)
        before = outcome(S)
        where = '%s %s %s: ' % (case['cls'], case['setting'], case['tm'])
        for t in [None] + times:
            seqs = [list(menu)]
            if t in (None, times[-1]):
                for n in range(1, case['depth'] + 1):
                    seqs += [list(q) for q in itertools.product(menu, repeat=n)]
            else:
                seqs += [list(q) for q in itertools.permutations(menu, min(2, len(menu)))]
            for q in seqs:
                check_values(rec, S, st, post, times, q, t, where)
            rec.state(case['setting'], case['cls'], case['tm'], t, post.mean(axis=0) if t is None else post[times.index(t)])
        for t in (min(times) - 1, max(times) + 1, times[0] + .37, 1e9):
            if t in times:
                continue
            try:
                S.simulate(menu, t=t)
            except PostProcessingError:
                pass
            else:
                rec.fail('%ssimulate at the unknown time %r returned a result' % (where, t))
        check_values(rec, S, st, post, times, list(menu), times[0], where + 'after a failed call, ')
        compare_outcomes(rec, where + 'after simulate', outcome(S), before, 1e-12)
        rec.traces += 1
    elif case['part'] == 'data':
        st = specs.Setting(SETTINGS[case['setting']])
        data = case['data']
        times = list(range(len(data)))
        like = st.like(specs.num(data))
        for tm in (static(), grw(.4), comb(grw(.2), regime(-2.))):
            for mode in ('full', 'forward'):
                if tm['k'] == 'comb' and mode == 'full':
                    continue
                S = study('Study', st, tm, data)
                fit_mode(S, mode)
                post = np.array(ref.fit(st.grid, st.prior, like, times, tm, mode, ())['post'])
                for t in [None] + times:
                    check_values(rec, S, st, post, times, [0, 3, 5, 1], t, 'data %s %s: ' % (data, tm['k']))
                    check_values(rec, S, st, post, times, [5, 1, 0, 3, 3], t, 'data %s %s: ' % (data, tm['k']))
                rec.traces += 1
                rec.state(case['setting'], data, tm, mode)
    elif case['part'] == 'nothing':
        # without stored parameter distributions there is nothing to simulate from: an error, not a result
        st = specs.Setting(SETTINGS['table'])
        cls = case['cls']
        tm = MODELS[cls]['grw' if cls != 'ChangepointStudy' else 'cp']('a')
        if cls == 'OnlineStudy':
            S = b.OnlineStudy(silent=True, storeHistory=False)
            S.set(st.real(b), specs.real_tm(b, tm), silent=True)
            for x in (0, 2, 5):
                S.step(x)
        else:
            S = study(cls, st, tm, [0, 2, 5])
            fit_mode(S, 'evidence')
        for t in (None, 0, 2):
            for kw in ({}, {'density': True}):
                try:
                    r = S.simulate([0, 1, 2], t=t, **kw)
                except PostProcessingError:
                    continue
                rec.fail('%s without stored distributions: simulate returned %r' % (cls, r))
        rec.traces += 1
        rec.state('nothing', cls)
