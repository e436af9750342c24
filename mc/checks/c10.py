"""C10: priors and other inputs mean the same in every form and are never consumed."""
import itertools
import math
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, indep, comb, serial, regime, notequal, alpha, biv, det
from ..common import bl, outcome, compare_outcomes, compare_fit, freeze, either, quirk_set, fit_mode
from ..runner import same

RULE = ('every form and scaling of parameter priors, hyper-priors, transition model priors and input arrays x study type x '
        'transition model; every analysis is repeated with the same objects in the same and in a second study; oracle: '
        'reference model (Study), equality of all forms, and byte-wise snapshots of all inputs')
BOUNDS = {'quick': '3 priors in 8 forms each plus 5 SymPy priors, 1-D and 2-D grids, 11 transition models, 4 study types, 4 data points; 12 observation models with 16 number types of data and parameter values',
          'thorough': 'as quick with more grids, series and all pairs of hyper-prior forms'}
CHUNK = 3

GRIDS = {'g4': [[0., .25, .5, .75]], 'g3': [[.1, .5, .9]], 'girr': [[.1, .2, .5, .9]], 'g32': [[.1, .5, .9], [.2, .7]]}
FORMS = ['func', 'stored', 'array', 'array1', 'x3', 'x1e-6', 'x1e8', 'int', 'fortran']
SYMPY = {1: [[['Normal', [.4, .5]]], [['Exponential', [1.5]]], [['Uniform', [-.5, 2.]]], [['Beta', [2, 3]]], [['Gamma', [2, .5]]]],
         2: [[['Normal', [.4, .5]], ['Exponential', [2.]]], [['Beta', [2, 2]], ['Uniform', [0, 1]]]]}
STUDY_TMS = [static(), grw(.3), cp(1), cp(0), indep(), comb(grw(.2), cp(2)), serial(static(), cp(1), grw(.2)),
             serial(grw(.2), bp(1), indep()), regime(-1.), comb(cp(1), indep()), serial(static(), bp(1), static(), cp(2, 'tc2'), regime(-1.))]
HYPER_TMS = [grw([.1, .4, .7]), cp([0, 1, 2]), comb(grw([.1, .5]), cp(1)), serial(static(), cp([0, 1]), grw([.2, .4])),
             comb(indep(), regime([-2., -1.]))]
CP_TMS = [cp('all'), comb(cp([0, 1, 2], 't1'), cp([0, 1, 2], 't2')), serial(static(), cp('all', 't1'), grw(.2)),
          serial(static(), bp([0, 1], 't1'), grw([.2, .3]), bp([1, 2], 't2'), static())]
ONLINE_TMS = [[static()], [cp([0, 1, 2])], [grw([.1, .3]), indep()], [serial(static(), cp(1), grw(.2)), static()],
              [grw(.2), cp(1), regime([-2., -1.])]]
DATA = [1, 0, 3, 2]


def cases(tier):
    out = []
    for g in GRIDS:
        n = len(GRIDS[g])
        for name in ('lin', 'peak', 'zero'):
            for kind, tms in (('Study', STUDY_TMS), ('HyperStudy', HYPER_TMS), ('ChangepointStudy', CP_TMS)):
                for tm in tms:
                    if tier == 'quick' and g == 'girr' and name == 'peak':
                        continue
                    out.append({'part': 'prior', 'kind': kind, 'grid': g, 'prior': name, 'tm': tm,
                                'forms': FORMS if kind == 'Study' or tier != 'quick' else ['func', 'stored', 'x3', 'array1']})
            for tms in ONLINE_TMS:
                out.append({'part': 'prior', 'kind': 'OnlineStudy', 'grid': g, 'prior': name, 'tm': tms,
                            'forms': FORMS if tier != 'quick' else ['func', 'stored', 'x3', 'array1', 'int']})
        for sp in SYMPY[n]:
            for kind, tms in (('Study', STUDY_TMS), ('HyperStudy', HYPER_TMS[:3]), ('OnlineStudy', ONLINE_TMS[:3])):
                for tm in tms:
                    out.append({'part': 'sympy', 'kind': kind, 'grid': g, 'prior': sp, 'tm': tm})
    for hv in ([.1, .3, .5], [.1, .2, .7], [1., 2., 3.], [.4], [.5, .2]):
        for name in ('lin', 'steep', 'gap'):
            if hv == [.1, .2, .7] and name == 'gap' and tier == 'quick':
                continue
            for kind in ('HyperStudy', 'OnlineStudy', 'ChangepointStudy'):
                out.append({'part': 'hyper', 'kind': kind, 'values': hv, 'prior': name})
    for kind in ('HyperStudy', 'OnlineStudy'):
        for d in (['Exponential', [2.]], ['Normal', [.3, .2]], ['Uniform', [0, 1]]):
            out.append({'part': 'hypersympy', 'kind': kind, 'dist': d})
    for k in range(len(MODELS)):
        out.append({'part': 'inputs', 'model': k})
    for p in ([1, 3], [.25, .75], [2., 6.], [1, 1], [0, 1]):
        out.append({'part': 'tmprior', 'prior': p})
    out.append({'part': 'data'})
    for om in TYPED:
        for kind in ('Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy'):
            out.append({'part': 'types', 'om': om, 'kind': kind})
    for kind, tms in (('Study', STUDY_TMS), ('HyperStudy', HYPER_TMS), ('ChangepointStudy', CP_TMS), ('OnlineStudy', ONLINE_TMS)):
        for tm in tms:
            out.append({'part': 'lookup', 'kind': kind, 'tm': tm})
    return out


def make_prior(form, name, grid):
    f = specs.PRIORS[name, len(grid.names)]
    if form == 'func':
        return f
    v = f(*grid.mesh) * np.ones(grid.shape)
    if form == 'stored':            # function that looks up its values
        keep = v.copy()

        def stored(*args):
            return v
        stored.values, stored.before = v, keep
        return stored
    if form == 'array1':
        v = v / v.sum()
    elif form == 'x3':
        v = v * 3.
    elif form == 'x1e-6':
        v = v * 1e-6
    elif form == 'x1e8':
        v = v * 1e8
    elif form == 'int':
        v = np.round(v * 1000).astype(int)
    elif form == 'fortran':
        v = np.asfortranarray(v * 2.)
    return v


def make_om(b, s, prior):
    args = []
    for n, v in zip(s.names, s.spec['grid']):
        args += [n, np.array(v)]
    return b.om.NumPy(specs.LIKE[len(s.names)], *args, prior=prior)


def analyse(kind, om, tms, data, ts=None, fits=1, history=True, prior=None):
    """creates a study of the given kind, analyses the data (repeatedly) and returns the results"""
    b = bl()
    if kind == 'OnlineStudy':
        S = b.OnlineStudy(storeHistory=history, silent=True)
        S.set(om, silent=True)
        for i, t in enumerate(tms):
            S.add('model %d' % i, t)
        if prior is not None:
            S.setTransitionModelPrior(prior, silent=True)
        for x in data:
            S.step(x)
        return [outcome(S)]
    S = getattr(b, kind)(silent=True)
    S.loadData(data, **({} if ts is None else {'timestamps': ts}), silent=True)
    S.set(om, tms, silent=True)
    out = []
    for i in range(fits):
        fit_mode(S, ('full', 'forward', 'evidence', 'full')[i])
        o = outcome(S)
        out.append(o)
    return out


def real(b, kind, tm, as_array=False):
    return [specs.real_tm(b, t, as_array) for t in tm] if kind == 'OnlineStudy' else specs.real_tm(b, tm, as_array)


def run(case, rec):
    b = bl()
    globals()['part_' + case['part']](b, case, rec)


def part_prior(b, case, rec):
    kind, tm = case['kind'], case['tm']
    s = specs.Setting({'grid': GRIDS[case['grid']], 'prior': ['func', case['prior']]})
    data = np.array(DATA, dtype=float)
    like = s.like(DATA)
    base = None
    for form in case['forms']:
        w = 'prior form %s: ' % form
        p = make_prior(form, case['prior'], s.grid)
        snap = freeze(p) if isinstance(p, np.ndarray) else None
        om = make_om(b, s, p)
        T = real(b, kind, tm)
        rounds = []
        for k in range(2):                       # same objects in a second study
            o = analyse(kind, om, T, data, fits=4)
            if form == 'stored':
                rec.ok(np.array_equal(p.values, p.before), w + 'array returned by the prior function was modified')
            if snap is not None:
                rec.ok(freeze(p) == snap, w + 'prior array was modified')
                rec.ok(om.prior is p, w + 'prior of the observation model was replaced')
            rounds.append(o)
            rec.traces += 1
        for i, (x, y) in enumerate(zip(*rounds)):
            compare_outcomes(rec, w + 'fit %d repeated with the same objects' % i, y, x)
        if kind != 'OnlineStudy':
            compare_outcomes(rec, w + 'second full fit in the same study', rounds[0][3], rounds[0][0])
        if base is None:
            base = rounds[0]
        elif form != 'int':
            for i, (x, y) in enumerate(zip(rounds[0], base)):
                compare_outcomes(rec, w + 'fit %d compared to prior function' % i, x, y)
        rec.state(case['kind'], case['grid'], case['prior'], form, tm)
        rec.transitions += len(rounds[0]) * len(DATA)
        if kind == 'Study':
            S = b.Study(silent=True)
            S.loadData(data, silent=True)
            S.set(om, T, silent=True)
            ss = s
            if form == 'int':
                ss = specs.Setting({'grid': GRIDS[case['grid']], 'prior': ['func', case['prior']]})
                ss.prior = p / float(p.sum())
            for mode in ('full', 'forward', 'evidence'):
                fit_mode(S, mode)
                compare_fit(rec, S, ss, tm, like, list(range(len(DATA))), mode, where=w + mode + ' fit: ')


def part_sympy(b, case, rec):
    """SymPy priors are densities that are used as they are: equal distributions, evidence contains the prior mass"""
    kind, tm = case['kind'], case['tm']
    s = specs.Setting({'grid': GRIDS[case['grid']], 'prior': ['sympy', case['prior']]})
    data = np.array(DATA, dtype=float)
    import sympy.stats
    rvs = [getattr(sympy.stats, d)('q%d' % i, *args) for i, (d, args) in enumerate(case['prior'])]
    p = rvs[0] if len(rvs) == 1 else rvs
    snap = freeze(p)
    om = make_om(b, s, p)
    T = real(b, kind, tm)
    x = analyse(kind, om, T, data, fits=4)
    x2 = analyse(kind, om, T, data, fits=4)
    rec.ok(freeze(p) == snap, 'prior was modified')
    om = make_om(b, s, np.array(s.prior))
    y = analyse(kind, om, real(b, kind, tm), data, fits=4)
    for i, (a, a2, c) in enumerate(zip(x, x2, y)):
        compare_outcomes(rec, 'SymPy prior used again', a2, a)
        for k in ('local', 'local CTMD'):
            a.pop(k, None)
            c.pop(k, None)
        a['logE'] = a['logE'] - math.log(s.mass)
        compare_outcomes(rec, 'SymPy prior compared to array, fit %d' % i, a, c)
    rec.state(kind, case['grid'], case['prior'], tm)
    rec.traces += 3
    rec.transitions += 3 * len(DATA)
    if kind == 'Study':
        S = b.Study(silent=True)
        S.loadData(data, silent=True)
        S.set(make_om(b, s, [p] if len(rvs) == 1 else tuple(rvs)), real(b, kind, tm), silent=True)
        for mode in ('full', 'forward'):
            fit_mode(S, mode)
            compare_fit(rec, S, s, tm, s.like(DATA), list(range(len(DATA))), mode, where=mode + ' fit: ')


def hyper_forms(name, values):
    f = specs.HPRIORS[name]
    w = np.array([f(v) for v in values], dtype=float)
    yield 'func', f
    yield 'lambda', lambda v: 7. * f(v)
    yield 'array', w.copy()
    yield 'array1', w / w.sum()
    yield 'x1e-9', w * 1e-9
    yield 'density', w / w.sum() / (ref.spacing(values) if len(values) > 1 else 1.)


def part_hyper(b, case, rec):
    kind, values = case['kind'], case['values']
    s = specs.Setting({'grid': GRIDS['g4'], 'prior': ['func', 'lin']})
    data = np.array(DATA, dtype=float)
    w = np.array([specs.HPRIORS[case['prior']](v) for v in values])
    if not w.sum() > 0:
        return
    menus = [lambda p: b.tm.GaussianRandomWalk('sigma', values, target='a', prior=p),
             lambda p: b.tm.CombinedTransitionModel(b.tm.RegimeSwitch('pm', [-2., -1.]),
                                                    b.tm.GaussianRandomWalk('sigma', np.array(values), target='a', prior=p)),
             lambda p: b.tm.AlphaStableRandomWalk('c', values, 'al', [1.5, 2.], target='a', prior=[p, np.array([1, 3])])]
    if kind == 'ChangepointStudy':
        menus = [lambda p, m=m: b.tm.CombinedTransitionModel(m(p), b.tm.ChangePoint('tc', 'all', prior=np.array([1, 2, 4]))) for m in menus]
        menus.append(lambda p: b.tm.SerialTransitionModel(b.tm.GaussianRandomWalk('sigma', values, target='a', prior=p),
                                                          b.tm.BreakPoint('t1', [0, 1], prior=np.array([.5, 2.])),
                                                          b.tm.Static()))
    refs = [grw(values), comb(regime([-2., -1.], 'pm'), grw(values)),
            alpha(values, [1.5, 2.], n=('c', 'al'), p=(None, ['array', [1, 3]]))]
    for mi, make in enumerate(menus):
        base = None
        for form, p in hyper_forms(case['prior'], values):
            snap = freeze(p) if isinstance(p, np.ndarray) else None
            T = make(p)
            om = make_om(b, s, None)
            res = []
            for k in range(2):
                o = analyse(kind, om, [T] if kind == 'OnlineStudy' else T, data, fits=4)
                if snap is not None:
                    rec.ok(freeze(p) == snap, 'hyper-prior array was modified')
                res.append(o)
                rec.traces += 1
            for x, y in zip(*res):
                compare_outcomes(rec, 'hyper-prior form %s used again' % form, y, x)
            if base is None:
                base = res[0]
            for i, (x, y) in enumerate(zip(res[0], base)):
                compare_outcomes(rec, 'hyper-prior form %s, fit %d, compared to function' % (form, i), x, y)
            rec.state(kind, values, case['prior'], form, mi)
            rec.transitions += len(DATA)
        # the prior enters with exactly these weights
        if mi < 3 and kind == 'HyperStudy':
            rt = specs.ref_tm(refs[mi])
            set_weights(rt, 'sigma' if mi < 2 else 'c', list(w))
            r = ref.hyper_fit(s.grid, np.ones(s.grid.shape), s.like(DATA), list(range(4)), rt)
            rec.close('log-evidence with hyper-prior', base[0]['logE'], r['logE'])
            rec.close('distributions with hyper-prior', base[0]['post'], r['post'])
            n = 'sigma' if mi < 2 else 'c'
            if len(values) > 1:
                rec.close('hyper-parameter distribution', base[0]['HPD ' + n], ref.marginal(r, n, values))


def set_weights(rt, name, w):
    if name in rt.get('n', []):
        rt['p'][rt['n'].index(name)] = w
    for m in rt.get('m', []):
        set_weights(m, name, w)


def part_hypersympy(b, case, rec):
    import sympy.stats
    d = case['dist']
    s = specs.Setting({'grid': GRIDS['g4']})
    data = np.array(DATA, dtype=float)
    for values in ([.1, .3, .5], [.1, .2, .7]):
        w = specs.hprior_weights(['sympy'] + d, values)
        mass = np.sum(w) * ref.spacing(values)
        for comb2 in (False, True):
            def make(p):
                m = b.tm.GaussianRandomWalk('sigma', values, target='a', prior=p)
                return b.tm.CombinedTransitionModel(m, b.tm.RegimeSwitch('pm', [-2., -1.])) if comb2 else m
            p = getattr(sympy.stats, d[0])('h', *d[1])
            T = make(p)
            om = make_om(b, s, None)
            x = analyse(case['kind'], om, [T] if case['kind'] == 'OnlineStudy' else T, data, fits=2)
            T2 = make(np.array(w))
            y = analyse(case['kind'], om, [T2] if case['kind'] == 'OnlineStudy' else T2, data, fits=2)
            for a, c in zip(x, y):
                a.pop('local', None)
                c.pop('local', None)
                a['logE'] = a['logE'] - math.log(mass)
                compare_outcomes(rec, 'SymPy hyper-prior %s' % d, a, c)
            rec.traces += 2
            rec.transitions += 8
            rec.state(d, values, comb2, case['kind'])


def _arr(x):
    return np.array(x)


# every transition model with array-valued input; entry: (kind of study, list of arrays, constructor)
MODELS = [
    ('HyperStudy', lambda: [_arr([.1, .3]), _arr([1., 2.])], lambda b, a: b.tm.GaussianRandomWalk('s', a[0], target='a', prior=a[1])),
    ('HyperStudy', lambda: [_arr([.1, .3]), _arr([1., 2.]), _arr([2., 5.])],
     lambda b, a: b.tm.AlphaStableRandomWalk('c', a[0], 'al', a[1], target='a', prior=[a[2], None])),
    ('HyperStudy', lambda: [_arr([0, 1, 2]), _arr([1, 2, 5])], lambda b, a: b.tm.ChangePoint('tc', a[0], prior=a[1])),
    ('ChangepointStudy', lambda: [_arr([0, 1, 2]), _arr([1., 2., 5.])], lambda b, a: b.tm.ChangePoint('tc', a[0], prior=a[1])),
    ('ChangepointStudy', lambda: [_arr([0, 1]), _arr([1., 2.]), _arr([1, 2])],
     lambda b, a: b.tm.SerialTransitionModel(b.tm.Static(), b.tm.BreakPoint('t1', a[0], prior=a[1]), b.tm.Independent(),
                                             b.tm.BreakPoint('t2', a[2]), b.tm.Static())),
    ('HyperStudy', lambda: [_arr([-2., -1.]), _arr([1., 3.])], lambda b, a: b.tm.RegimeSwitch('pm', a[0], prior=a[1])),
    ('HyperStudy', lambda: [_arr([-2, -1]), _arr([1, 3])], lambda b, a: b.tm.NotEqual('pm', a[0], prior=a[1])),
    ('HyperStudy', lambda: [_arr([.1, .3]), _arr([2., 1.])], lambda b, a: b.tm.Deterministic(specs.det_function('lin', ['slope'], [a[0]]), target='a', prior=[a[1]])),
    ('HyperStudy', lambda: [_arr([.1, .3]), _arr([.2, .4]), _arr([0., .5]), _arr([1., 4.])],
     lambda b, a: b.tm.BivariateRandomWalk('s1', a[0], 's2', a[1], 'rho', a[2], prior=[a[3], None, None])),
    ('OnlineStudy', lambda: [_arr([.1, .3]), _arr([1., 2.])], lambda b, a: b.tm.GaussianRandomWalk('s', a[0], target='a', prior=a[1])),
    ('OnlineStudy', lambda: [_arr([0, 1, 2]), _arr([1., 2., 5.]), _arr([.1, .5])],
     lambda b, a: b.tm.CombinedTransitionModel(b.tm.ChangePoint('tc', a[0], prior=a[1]), b.tm.GaussianRandomWalk('s', a[2], target='a'))),
    ('HyperStudy', lambda: [[.1, .3], (1., 2.)], lambda b, a: b.tm.AlphaStableRandomWalk('c', a[0], 'al', a[1], target='a')),
    ('HyperStudy', lambda: [(-2., -1.), [.1, .2, .6]],
     lambda b, a: b.tm.CombinedTransitionModel(b.tm.RegimeSwitch('pm', a[0]), b.tm.GaussianRandomWalk('s', a[1], target='b'))),
    ('Study', lambda: [], lambda b, a: b.tm.GaussianRandomWalk('s', .3, target='a')),
    ('Study', lambda: [], lambda b, a: b.tm.SerialTransitionModel(b.tm.Static(), b.tm.ChangePoint('t', 1), b.tm.GaussianRandomWalk('s', .3, target='a'))),
]


def part_inputs(b, case, rec):
    """all arrays of a complete analysis stay as they are, and can be used again; lists, tuples and arrays are equivalent"""
    kind, arrays, make = MODELS[case['model']]
    base = None
    for form in ('float', 'int', 'list', 'columns', 'readonly'):
        grid = [[.1, .5, .9], [.2, .7]]
        a = arrays()
        gv = [list(v) if form == 'list' else np.array(v) for v in grid]
        data = np.array(DATA, dtype=int if form == 'int' else float)
        ts = np.array([0, 1, 2, 3], dtype=float if form == 'columns' else int)
        prior = specs.pr_lin2(*np.meshgrid(*[np.array(v) for v in grid], indexing='ij')) * 2.
        if form == 'columns':                       # non-contiguous views of larger arrays
            data = np.array([DATA, DATA]).T.astype(float)[:, 0]
            prior = np.repeat(prior, 2, axis=1)[:, ::2]
        if form == 'list' and kind != 'OnlineStudy':
            data = list(DATA)
            ts = list(range(4))
        if form == 'readonly':
            for x in [data, ts, prior] + gv + [y for y in a if isinstance(y, np.ndarray)]:
                x.flags.writeable = False
        user = [data, ts, prior, gv, a]
        snap = freeze(user)
        om = b.om.NumPy(specs.like2, 'a', gv[0], 'b', gv[1], prior=prior)
        T = make(b, a)
        res = []
        for k in range(3):
            Tk = [T] if kind == 'OnlineStudy' else T
            o = analyse(kind, om, Tk, data, None if kind == 'OnlineStudy' else ts, fits=4)
            rec.ok(freeze(user) == snap, 'an input of the analysis was modified (%s, form %s)' % (kind, form))
            res.append(o)
            rec.traces += 1
        for k in (1, 2):
            for x, y in zip(res[k], res[0]):
                compare_outcomes(rec, 'analysis repeated with the same objects (form %s)' % form, x, y)
        if base is None:
            base = res[0]
        for x, y in zip(res[0], base):
            compare_outcomes(rec, 'input form %s' % form, x, y)
        rec.state(case['model'], form)
        rec.transitions += 12


def part_tmprior(b, case, rec):
    s = specs.Setting({'grid': GRIDS['g4']})
    base = None
    for form in ('list', 'tuple', 'array', 'scaled', 'norm'):
        p = case['prior']
        p = {'list': list(p), 'tuple': tuple(p), 'array': np.array(p), 'scaled': np.array(p) * 5., 'norm': np.array(p) / float(sum(p))}[form]
        snap = freeze(p)
        T = [b.tm.Static(), b.tm.GaussianRandomWalk('s', .4, target='a')]
        om = make_om(b, s, None)
        for k in range(2):
            o = analyse('OnlineStudy', om, T, [float(x) for x in DATA], prior=p)
            rec.ok(freeze(p) == snap, 'transition model prior was modified')
            if base is None:
                base = o
            for x, y in zip(o, base):
                compare_outcomes(rec, 'transition model prior form %s' % form, x, y)
            rec.traces += 1
            rec.transitions += 4
        rec.state(form, case['prior'])


def part_data(b, case, rec):
    """the study works on what was loaded and does not alter it"""
    for kind in ('Study', 'HyperStudy', 'ChangepointStudy'):
        data = np.array(DATA, dtype=float)
        ts = np.array([3, 4, 5, 6])
        S = getattr(b, kind)(silent=True)
        S.loadData(data, timestamps=ts, silent=True)
        s = specs.Setting({'grid': GRIDS['g4'], 'prior': ['func', 'lin']})
        tm = comb(grw([.1, .3]), cp([3, 5])) if kind != 'Study' else comb(grw(.2), cp(4))
        S.set(s.real(b), specs.real_tm(b, tm), silent=True)
        snap = freeze([data, ts])
        S.fit(silent=True)
        o = outcome(S)
        rec.ok(freeze([data, ts]) == snap, 'data were modified')
        S.fit(silent=True)
        compare_outcomes(rec, 'second fit', outcome(S), o)
        rec.ok(freeze([data, ts]) == snap, 'data were modified')
        rec.traces += 1
        rec.transitions += 1
        rec.state(kind)


TYPED = {       # observation model: grid and data that are exactly representable in all number types
    'table': ([[0., .5, 1., 1.5]], [1, 4, 0, 2, 5]),
    'bernoulli': ([[.25, .5, .75]], [1, 0, 0, 1, 1]),
    'poisson': ([[.5, 1.5, 2.5]], [1, 0, 3, 2, 12]),
    'gaussian': ([[-1., 0., 1., 2.], [1., 2.]], [1, 0, 3, 2, 6]),
    'laplace': ([[-1., 0., 1., 2.], [1., 2.]], [1, 0, 3, 2, 6]),
    'whitenoise': ([[1., 2., 3.]], [1, 0, 3, 2, 5]),
    'ar1': ([[-.5, 0., .5], [1., 2.]], [1, 0, 3, 2, 5]),
    'scaledar1': ([[-.5, 0., .5], [1., 2.]], [1, 0, 3, 2, 5]),
    'gaussianmean': ([[-1., 0., 1.]], [[1, 2], [0, 1], [3, 1], [2, 3], [5, 4]]),
    'scipynorm': ([[-1., 0., 1.], [1., 2.]], [1, 0, 3, 2, 5]),
    'scipypoisson': ([[.5, 1.5, 2.5]], [1, 0, 3, 2, 5]),
    'seg3': ([[0., .5, 1.]], [1, 0, 3, 2, 5]),
}
TYPES = ['float64', 'float32', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint32', '>f8', 'list', 'floats', 'grid float32',
         'grid list', 'grid int', 'masked rows']


def part_types(b, case, rec):
    """the number type of data and parameter values does not matter"""
    name, kind = case['om'], case['kind']
    grid, values = TYPED[name]
    forms = TYPES + (['bool'] if name == 'bernoulli' else [])
    base = None
    for form in forms:
        spec = {'om': name, 'grid': grid}
        if name in ('scipynorm', 'scipypoisson'):
            spec['names'] = ['loc', 'scale'] if name == 'scipynorm' else ['mu']
        s = specs.Setting(spec)
        target = s.names[0]
        data = np.array(values, dtype=float)
        if form == 'list':
            data = list(values)
        elif form == 'floats':
            data = np.array(values, dtype=float).tolist()
        elif form == 'masked rows':
            data = np.repeat(data, 2, axis=0)[::2]
        elif not form.startswith('grid'):
            data = np.array(values, dtype=form)
        om = s.real(b)
        if form.startswith('grid'):
            if name.startswith('seg'):
                continue
            if form == 'grid int':
                if any(x != int(x) for v in grid for x in v):
                    continue
            conv = {'grid float32': lambda v: np.array(v, dtype=np.float32), 'grid list': list, 'grid int': lambda v: np.array(v, dtype=int)}[form]
            om = rebuilt(b, name, s, [conv(v) for v in grid])
        tm = {'Study': comb(grw(.5, target), cp(2)), 'HyperStudy': comb(grw([.25, .5, 1.], target), regime([-3., -2.])),
              'ChangepointStudy': comb(cp('all', 't1'), cp('all', 't2')), 'OnlineStudy': [grw([.5, 1.], target), static()]}[kind]
        if kind == 'OnlineStudy' and name == 'gaussianmean' and isinstance(data, list):
            continue
        frozen = freeze(data)
        got = analyse(kind, om, real(b, kind, tm), data, fits=2)
        rec.ok(freeze(data) == frozen, 'data of type %s were modified' % form)
        if base is None:
            base = got
        for x, y in zip(got, base):
            compare_outcomes(rec, '%s, %s: number type %s' % (name, kind, form), x, y)
        rec.traces += 1
        rec.transitions += len(values)
        rec.state(name, kind, form)


def rebuilt(b, name, s, values):
    args = []
    for n, v in zip(s.names, values):
        args += [n, v]
    if name == 'table':
        return b.om.NumPy(specs.LIKE[len(values)], *args)
    if name.startswith('scipy'):
        import scipy.stats
        return b.om.SciPy(scipy.stats.norm, *args) if name == 'scipynorm' else b.om.SciPy(scipy.stats.poisson, *args, fixedParameters={'loc': 0})
    cls = {'bernoulli': 'Bernoulli', 'poisson': 'Poisson', 'gaussian': 'Gaussian', 'laplace': 'Laplace', 'gaussianmean': 'GaussianMean',
           'whitenoise': 'WhiteNoise', 'ar1': 'AR1', 'scaledar1': 'ScaledAR1'}[name]
    return getattr(b.om, cls)(*args, prior=None)


def part_lookup(b, case, rec):
    """likelihood function of the user that looks up stored arrays: they are not modified"""
    kind, tm = case['kind'], case['tm']
    for g in ('g4', 'g32'):
        s = specs.Setting({'grid': GRIDS[g]})
        table = {float(d): np.array(l) for d, l in zip(DATA, s.like(DATA))}
        before = {d: l.copy() for d, l in table.items()}
        if len(s.names) == 1:
            def lookup(data, a):
                return table[float(np.ravel(data)[0])]
        else:
            def lookup(data, a, b):
                return table[float(np.ravel(data)[0])]
        args = []
        for n, v in zip(s.names, s.spec['grid']):
            args += [n, np.array(v)]
        om = b.om.NumPy(lookup, *args)
        data = np.array(DATA, dtype=float)
        want = analyse(kind, make_om(b, s, None), real(b, kind, tm), data, fits=4)
        for k in range(2):
            got = analyse(kind, om, real(b, kind, tm), data, fits=4)
            for d in table:
                rec.ok(np.array_equal(table[d], before[d]), 'array returned by the likelihood function was modified')
            for i, (x, y) in enumerate(zip(got, want)):
                compare_outcomes(rec, 'stored likelihood values, use %d, fit %d' % (k, i), x, y)
            rec.traces += 1
            rec.transitions += len(DATA)
            rec.state(kind, tm, g, k)
        # arrays of other types and memory layouts
        for form, conv in (('object', lambda l: l.astype(object)), ('Fortran order', np.asfortranarray), ('read-only', lambda l: np.broadcast_to(l, l.shape)), ('big-endian', lambda l: l.astype('>f8'))):
            for d in before:
                table[d] = conv(before[d])
            got = analyse(kind, om, real(b, kind, tm), data, fits=4)
            for d in table:
                rec.ok(np.array_equal(table[d], before[d]), 'array returned by the likelihood function was modified')
            for i, (x, y) in enumerate(zip(got, want)):
                compare_outcomes(rec, 'likelihood values as %s array, fit %d' % (form, i), x, y)
            rec.traces += 1
            rec.transitions += len(DATA)
            rec.state(kind, tm, g, form)
        # integers (not normalised) and truth values
        for name, f in (('int', lambda l: np.round(l * 1000.)), ('bool', lambda l: np.round(l * 1000.) % 4 > 0)):
            res = []
            for dtype in (float, name, object):
                for d in before:
                    table[d] = f(before[d]).astype(dtype)
                res.append(analyse(kind, om, real(b, kind, tm), data, fits=4))
                rec.traces += 1
            for r, form in zip(res[1:], (name, 'object')):
                for i, (x, y) in enumerate(zip(r, res[0])):
                    compare_outcomes(rec, 'likelihood values as %s array (%s), fit %d' % (form, name, i), x, y)
