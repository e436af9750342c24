"""C08: likelihoods, default priors and default parameter values of all observation models."""
import itertools
import warnings
import math
import numpy as np
import scipy.stats as st
from .. import ref, specs
from ..common import bl, either

RULE = ('every observation of the menu x every parameter value of the menu for every built-in model and for SciPy, SymPy '
        'and NumPy models in every order of their parameters and with every subset of fixed parameters; oracle: textbook '
        'formulas; observed through the likelihood method, and through posterior and evidence of single-observation fits')
BOUNDS = {'quick': '7 to 13 observations x 5 to 48 grid points per model, all parameter orders and fixed-parameter subsets',
          'thorough': '40 to 60 observations x up to 400 grid points per model, all parameter orders and fixed-parameter subsets'}
CHUNK = 2


def pdf_bernoulli(x, p):
    return 0. if p < 0 or p > 1 else (p if x else 1. - p)


def pdf_poisson(x, l):
    if l == 0.:
        return 1. if x == 0 else 0.
    return math.exp(x * math.log(l) - l - math.lgamma(x + 1.))


def pdf_norm(x, m, s):
    return math.exp(-.5 * ((x - m) / s) ** 2) / (s * math.sqrt(2. * math.pi))


def pdf_laplace(x, m, s):
    return math.exp(-abs(x - m) / s) / (2. * s)


REAL = [0., .3, -1.2, 2.5, 7., -40., 1e-3]
MEAN = [-2., -.5, 0., .5, 1., 3.]
SD = [.05, .5, 1., 2., 10.]
R = [-.9, -.5, 0., .3, .99]
PAIRS = [[0., 0.], [.3, .1], [-1.2, 1.], [2., 2.5], [1., -3.], [0., 1.], [5., 5.], [.7, 0.]]
# name -> (class name, parameter menus, observations, scalar likelihood of one data segment, default prior)
BUILTIN = {
    'bernoulli': ('Bernoulli', [[-.5, 0., .1, .5, .9, 1., 1.5]], [0, 1, 0., 1., True, False], lambda d, p: pdf_bernoulli(d[0], p),
                  lambda p: (p * (1. - p)) ** -.5),
    'poisson': ('Poisson', [[0., 1e-3, .5, 1., 2.5, 7., 150.]], [0, 1, 2, 5, 20, 180, 0., 3., 170., 171.],
                lambda d, l: pdf_poisson(d[0], l), lambda l: l ** -.5),
    'gaussian': ('Gaussian', [MEAN, SD], REAL, lambda d, m, s: pdf_norm(d[0], m, s), lambda m, s: s ** -2.),
    'laplace': ('Laplace', [MEAN, SD], REAL, lambda d, m, s: pdf_laplace(d[0], m, s), lambda m, s: s ** -2.),
    'whitenoise': ('WhiteNoise', [SD], REAL, lambda d, s: pdf_norm(d[0], 0., s), lambda s: 1. / s),
    'gaussianmean': ('GaussianMean', [MEAN], [[0., 1.], [.3, .2], [-1.2, 2.], [2., .05], [5., 10.]],
                     lambda d, m: pdf_norm(d[0][0], m, d[0][1]), None),
    'ar1': ('AR1', [R + [1.2], SD], PAIRS, lambda d, r, s: pdf_norm(d[1], r * d[0], s), None),
    'scaledar1': ('ScaledAR1', [R, SD], PAIRS,
                  lambda d, r, s: pdf_norm(d[1], r * d[0], s * math.sqrt(1. - r * r)), None),
}
POS = [.3, .7, 1., 2.5]
# SciPy: name -> (parameters with menus, all parameters with defaults, observations)
SCIPY = {
    'norm': ({'loc': MEAN, 'scale': SD}, REAL),
    'expon': ({'loc': [-1., 0., .5], 'scale': POS}, [.1, .6, 1., 3.]),
    'gamma': ({'a': POS, 'loc': [-.5, 0.], 'scale': POS}, [.1, .6, 1., 3.]),
    'beta': ({'a': POS, 'b': POS, 'loc': [0., -.1], 'scale': [1., 1.5]}, [.05, .4, .8]),
    'poisson': ({'mu': [.5, 1.5, 6.], 'loc': [0, 1]}, [0, 1, 4, 9]),
    'binom': ({'n': [3, 5, 8], 'p': [.1, .5, .9], 'loc': [0, 1]}, [0, 1, 3, 5]),
    't': ({'df': POS, 'loc': [-1., 0.], 'scale': POS}, REAL),
    'laplace': ({'loc': MEAN, 'scale': SD}, REAL),
    'geom': ({'p': [.1, .5, .9], 'loc': [0, 2]}, [1, 2, 5]),
}
# SymPy: name -> (class, parameters (name, assumptions, menu), scipy oracle, observations, Jeffreys prior)
SYMPY = {
    'Normal': ([('mu', 'real', MEAN), ('sigma', 'positive', SD)], lambda x, mu, sigma: st.norm.pdf(x, mu, sigma), REAL,
               lambda mu, sigma: sigma ** -2.),
    'Exponential': ([('rate', 'positive', POS)], lambda x, rate: st.expon.pdf(x, scale=1. / rate), [.1, 1., 3.],
                    lambda rate: 1. / rate),
    'Laplace': ([('m', 'real', MEAN), ('b', 'positive', SD)], lambda x, m, b: st.laplace.pdf(x, m, b), REAL, None),
    'Gamma': ([('k', 'positive', POS), ('th', 'positive', POS)], lambda x, k, th: st.gamma.pdf(x, k, scale=th), [.1, 1., 3.],
              None),
    'Beta': ([('al', 'positive', POS), ('be', 'positive', POS)], lambda x, al, be: st.beta.pdf(x, al, be), [.1, .5, .8],
             None),
    'StudentT': ([('nu', 'positive', POS)], lambda x, nu: st.t.pdf(x, nu), REAL[:5], None),
    'ChiSquared': ([('kk', 'positive', POS)], lambda x, kk: st.chi2.pdf(x, kk), [.1, 1., 3.], None),
    'Poisson': ([('rate', 'positive', POS)], lambda x, rate: st.poisson.pmf(x, rate), [0, 1, 4], lambda rate: rate ** -.5),
    'Geometric': ([('pr', 'positive', [.1, .5, .9])], lambda x, pr: st.geom.pmf(x, pr), [1, 2, 4], None),
    'Logistic': ([('mu', 'real', MEAN), ('s', 'positive', SD)], lambda x, mu, s: st.logistic.pdf(x, mu, s), REAL[:5], None),
    'Weibull': ([('al', 'positive', POS), ('be', 'positive', POS)],
                lambda x, al, be: st.weibull_min.pdf(x, be, scale=al), [.1, 1., 3.], None),
    'Rayleigh': ([('sig', 'positive', POS)], lambda x, sig: st.rayleigh.pdf(x, scale=sig), [.1, 1., 3.], None),
    'LogNormal': ([('mu', 'real', [-.5, 0., 1.]), ('sg', 'positive', POS)],
                  lambda x, mu, sg: st.lognorm.pdf(x, sg, scale=np.exp(mu)), [.1, 1., 3.], None),
}

# distribution, parameters (name, assumptions, menu) in the order of the distribution's arguments, Jeffreys prior
JEFFREYS = [
    ('Poisson', [('rate', 'positive', POS)], lambda rate: rate ** -.5),
    ('Exponential', [('rate', 'positive', POS)], lambda rate: 1. / rate),
    ('Normal', [0, ('s', 'positive', POS)], lambda s: math.sqrt(2.) / s),
    ('Normal', [('m', 'real', MEAN), 2], lambda m: .5),
    ('Normal', [('m', 'real', MEAN), ('s', 'positive', POS)], lambda m, s: math.sqrt(2.) / s ** 2),
    ('Normal', [('z', 'real', MEAN), ('a', 'positive', POS)], lambda z, a: math.sqrt(2.) / a ** 2),
]


def dense(menu, k):
    out = list(menu)
    for a, b in zip(menu, menu[1:]):
        out += [a + (b - a) * (i + 1) / (k + 1.) for i in range(k)]
    return sorted(out)


def cases(tier):
    out = []
    for n, (c, menus, obs, f, pr) in BUILTIN.items():
        k = 0 if tier == 'quick' else 3
        out.append({'kind': 'builtin', 'name': n, 'dense': k})
        for obsi in range(len(obs)):
            out.append({'kind': 'fit', 'name': n, 'obs': obsi, 'dense': k})
    for n, (pars, obs) in SCIPY.items():
        names = list(pars)
        for r in range(1, len(names) + 1):
            for free in itertools.permutations(names, r):
                rest = [x for x in names if x not in free]
                out.append({'kind': 'scipy', 'name': n, 'free': list(free), 'fixed': rest, 'dense': 0 if tier == 'quick' else 2})
        out.append({'kind': 'scipy', 'name': n, 'free': names, 'fixed': [], 'default': True, 'dense': 0})
    for n in SYMPY:
        m = len(SYMPY[n][0])
        for perm in itertools.permutations(range(m)):
            out.append({'kind': 'sympy', 'name': n, 'perm': list(perm), 'dense': 0 if tier == 'quick' else 2})
            for fix in range(m):
                if m > 1:
                    out.append({'kind': 'sympy', 'name': n, 'perm': [p for p in perm if p != fix], 'fix': fix,
                                'dense': 0 if tier == 'quick' else 2})
    for nd in (1, 2, 3):
        for perm in itertools.permutations(range(nd)):
            out.append({'kind': 'numpy', 'nd': nd, 'perm': list(perm)})
    for n in BUILTIN:
        for d in range(6):
            out.append({'kind': 'default', 'name': n, 'data': d})
    for n in ('ar1', 'scaledar1'):
        out.append({'kind': 'jeffreys-ar1', 'name': n})
    for i in range(len(JEFFREYS)):
        out.append({'kind': 'getjeffreys', 'index': i})
    for f in itertools.product([-3., 0., 2.], [2.5, 4.], [2, 3, 7, 10]):
        out.append({'kind': 'interval', 'args': list(f)})
    return out


def relclose(rec, what, got, want, tol=1e-9):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    rec.ok(got.shape == want.shape, '%s: shape %s instead of %s' % (what, got.shape, want.shape))
    with np.errstate(all='ignore'):
        good = (got == want) | (np.isfinite(want) & (np.abs(got - want) <= tol * np.abs(want) + 1e-290))
    rec.ok(bool(np.all(good)), '%s: got %s, expected %s' % (what, got, want))


def like_of(rec, om, menus, obs, f, what):
    """compares the likelihood for all observations and parameter values"""
    grid = np.meshgrid(*[np.array(m, dtype=float) for m in menus], indexing='ij')
    for x in obs:
        keep = [g.copy() for g in grid]
        seg = np.array(x)
        want = np.array([f(x, *p) for p in itertools.product(*menus)]).reshape(grid[0].shape)
        for m in (om.pdf, om.processedPdf):
            relclose(rec, '%s, observation %s' % (what, x), m(grid, seg), want)
        rec.ok(all(np.array_equal(a, b) for a, b in zip(keep, grid)), what + ': grid is modified')
        rec.traces += 1
        rec.transitions += want.size
        rec.state(what, repr(x))


def single_fit(rec, om, menus, x, like, prior, what, names=None, loge=True):
    """posterior and evidence for one observation"""
    b = bl()
    S = b.Study(silent=True)
    S.loadData(np.array(x), silent=True)
    S.set(om, b.tm.Static(), silent=True)
    S.fit(silent=True)
    g = ref.Grid(['p%d' % i for i in range(len(menus))], menus)
    ideal = ref.fit(g, prior, [like], [0], specs.static())
    rec.traces += 1
    rec.close(what + 'logEvidence', S.logEvidence, ideal['logE'])
    if np.isfinite(ideal['logE']):
        rec.close(what + 'posterior', S.posteriorSequence, ideal['post'])


def user_priors(rec, make, menus, x, like, what):
    """a prior given by the user, as array or function, takes the place of the default prior"""
    fs = {1: lambda a: 1. + .2 * a + .3 * a ** 2, 2: lambda a, b: 1. + .1 * a ** 2 + .3 * b ** 2,
          3: lambda a, b, c: 1. + .1 * a ** 2 + .3 * b ** 2 + .2 * c ** 2,
          4: lambda a, b, c, d: 1. + .1 * a ** 2 + .3 * b ** 2 + .2 * c ** 2 + .4 * d}
    f = fs[len(menus)]
    v = np.array([f(*p) for p in itertools.product(*menus)]).reshape([len(m) for m in menus])
    single_fit(rec, make(f), menus, x, like, v, what + ', prior function: ')
    single_fit(rec, make(v.copy()), menus, x, like, v, what + ', prior array: ')


def dict_form(rec, make, make_args, args, menus, obs, f, what):
    """parameter names and values as a dictionary mean the same as successive arguments"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        om = make(dict(zip(args[::2], args[1::2])))
    what += ', dictionary'
    rec.ok(list(om.parameterNames) == args[::2], what + ': names')
    rec.close(what + ': values', np.concatenate([np.ravel(v) for v in om.parameterValues]), np.concatenate(args[1::2]))
    like_of(rec, om, menus, [[x] for x in obs], f, what)
    if all(len(m) > 1 for m in menus):
        shape = tuple(len(m) for m in menus)
        like = np.array([f([obs[0]], *p) for p in itertools.product(*menus)]).reshape(shape)
        single_fit(rec, om, menus, [obs[0]], like, np.ones(shape), what + ': ')
        for name in args[::2]:
            outs = []
            for m in (om, make_args):
                S = bl().Study(silent=True)
                S.loadData(np.array([obs[0], obs[-1], obs[0]]), silent=True)
                S.set(m, bl().tm.GaussianRandomWalk('sigma', .1, target=name), silent=True)
                S.fit(silent=True)
                outs.append((S.logEvidence, np.array(S.posteriorSequence), S.getParameterDistributions(name)[1]))
            for k, x, y in zip(('logEvidence', 'posterior', 'distribution of ' + name), *outs):
                rec.close('%s compared to successive arguments: %s' % (what, k), x, y)
            rec.traces += 2
            rec.transitions += 6


def run(case, rec):
    b = bl()
    k = case['kind']
    if k in ('builtin', 'fit'):
        c, menus, obs, f, pr = BUILTIN[case['name']]
        menus = [dense(m, case['dense']) for m in menus]
        if case['dense'] and not isinstance(obs[0], (list, int)):
            obs = dense(sorted(obs), 6)
        args = []
        for i, m in enumerate(menus):
            args += ['par%d' % i, np.array(m)]
        seglen = 2 if case['name'] in ('ar1', 'scaledar1') else 1
        segs = [x if seglen == 2 else [x] for x in obs]
        cls = getattr(b.om, c)
        if k == 'builtin':
            like_of(rec, cls(*args, prior=None), menus, segs, f, c)
            like_of(rec, cls(*[list(a) if not isinstance(a, str) else a for a in args]), menus, segs, f, c)
            return
        # fit of one data segment, regular grid inside of the support, default and flat prior
        if case['obs'] >= len(segs):
            return
        x = segs[case['obs']]
        inner = {'Bernoulli': [[.1, .3, .5, .7, .9]], 'Poisson': [[.5, 1.5, 2.5, 3.5]]}.get(c)
        if inner is None:
            inner = [[-.6, -.2, .2, .6] if i == 0 and len(menus) > 1 or c == 'GaussianMean' else [.4, .9, 1.4]
                     for i in range(len(menus))]
        shape = tuple(len(m) for m in inner)
        like = np.array([f(x, *p) for p in itertools.product(*inner)]).reshape(shape)
        a = []
        for i, m in enumerate(inner):
            a += ['par%d' % i, m]
        ones = np.ones(shape)
        jeff = ones if pr is None else np.array([pr(*p) for p in itertools.product(*inner)]).reshape(shape)
        single_fit(rec, cls(*a), inner, x, like, jeff, c + ', default prior: ')
        single_fit(rec, cls(*a, prior=None), inner, x, like, ones, c + ', flat prior: ')
        if pr is not None:
            single_fit(rec, cls(*a, prior='Jeffreys'), inner, x, like, jeff, c + ', Jeffreys prior: ')
        user_priors(rec, lambda p: cls(*a, prior=p), inner, x, like, c)
        rec.state(c, 'fit', repr(x))
    elif k == 'scipy':
        pars, obs = SCIPY[case['name']]
        rv = getattr(st, case['name'])
        fixed = {n: pars[n][len(pars[n]) // 2] for n in case['fixed']}
        menus = [pars[n] if case['name'] == 'binom' or n == 'loc' else dense(pars[n], case['dense']) for n in case['free']]
        discrete = case['name'] in ('poisson', 'binom', 'geom')

        def f(d, *p):
            kw = dict(fixed)
            kw.update(zip(case['free'], p))
            return (rv.pmf if discrete else rv.pdf)(d[0], **kw)
        args = []
        for n, m in zip(case['free'], menus):
            args += [n, np.array(m)]
        kw = {'fixedParameters': fixed} if fixed else {}
        if case.get('default'):
            om = b.om.SciPy(rv)
            rec.ok(set(om.parameterNames) == set(case['free']), 'free parameters of ' + case['name'])
            return
        om = b.om.SciPy(rv, *args, **kw)
        what = 'SciPy %s(%s)' % (case['name'], case['free'])
        like_of(rec, om, menus, [[x] for x in obs], f, what)
        dict_form(rec, lambda d: b.om.SciPy(rv, d, **kw), om, args, menus, [obs[0]], f, what)
        x = obs[len(obs) // 2]
        shape = tuple(len(m) for m in menus)
        like = np.array([f([x], *p) for p in itertools.product(*menus)]).reshape(shape)
        if all(len(m) > 1 for m in menus):
            single_fit(rec, b.om.SciPy(rv, *args, **kw), menus, [x], like, np.ones(shape), what + ': ')
            user_priors(rec, lambda p: b.om.SciPy(rv, *args, prior=p, **kw), menus, [x], like, what)
        for bad in ({'nonsense': np.array([1., 2.])},):
            try:
                b.om.SciPy(rv, 'nonsense', np.array([1., 2.]), **kw)
            except b.exceptions.ConfigurationError:
                continue
            rec.fail('unknown parameter accepted')
    elif k == 'sympy':
        import sympy
        import sympy.stats
        pars, oracle, obs, jeff = SYMPY[case['name']]
        syms, fixed = [], {}
        for i, (n, ass, menu) in enumerate(pars):
            if case.get('fix') == i:
                v = menu[len(menu) // 2]
                syms.append(sympy.Rational(v).limit_denominator(1000))
                fixed[n] = float(syms[-1])
            else:
                syms.append(sympy.Symbol(n, **{ass: True}))
        rv = getattr(sympy.stats, case['name'])('rv', *syms)
        free = [pars[i][0] for i in case['perm']]
        menus = [dense(pars[i][2], case['dense']) for i in case['perm']]

        def f(d, *p):
            kw = dict(fixed)
            kw.update(zip(free, p))
            return oracle(d[0], **kw)
        args = []
        for n, m in zip(free, menus):
            args += [n, np.array(m)]
        what = 'SymPy %s(%s), fixed %s' % (case['name'], free, sorted(fixed))
        om = b.om.SymPy(rv, *args, determineJeffreysPrior=False)
        like_of(rec, om, menus, [[x] for x in obs], f, what)
        dict_form(rec, lambda d: b.om.SymPy(rv, d, determineJeffreysPrior=False), om, args, menus, [obs[0]], f, what)
        x = obs[0]
        shape = tuple(len(m) for m in menus)
        like = np.array([f([x], *p) for p in itertools.product(*menus)]).reshape(shape)
        single_fit(rec, om, menus, [x], like, np.ones(shape), what + ', flat prior: ')
        user_priors(rec, lambda p: b.om.SymPy(rv, *args, prior=p), menus, [x], like, what)
        user_priors(rec, lambda p: b.om.SymPy(rv, *args, prior=p, determineJeffreysPrior=False), menus, [x], like, what)
        if jeff is not None and not fixed:
            S = b.Study(silent=True)
            S.loadData(np.array([x]), silent=True)
            S.set(b.om.SymPy(rv, *args), b.tm.Static(), silent=True)
            S.fit(silent=True)
            g = ref.Grid(free, menus)
            pr = np.array([jeff(**dict(zip(free, p))) for p in itertools.product(*menus)]).reshape(shape)
            want = [ref.fit(g, q, [like], [0], specs.static())['post'] for q in (pr, np.ones(shape))]
            either(rec, what + ', default prior: posterior', S.posteriorSequence, want[0], want[1], 'KF-sympy-jeffreys')
            rec.traces += 1
    elif k == 'numpy':
        base = [[.1, .5, .9], [.2, .7], [0., 1.]]
        menus = [base[i] for i in case['perm']]
        names = ['xyz'[i] for i in case['perm']]
        args = []
        for n, m in zip(names, menus):
            args += [n, np.array(m)]
        om = b.om.NumPy(specs.LIKE[case['nd']], *args)

        def f(d, *p):
            return float(specs.table_like(d[0], *p))
        like_of(rec, om, menus, [[x] for x in (0, 1, 3, 6, 7, 8)], f, 'NumPy ' + repr(names))
    elif k == 'default':
        c, menus, obs, f, pr = BUILTIN[case['name']]
        sets = [[1., 2., 4., 3.], [5., None, 2., 9.], [-3., 1., 2.5, 7.], [None, 4., 4.5], [[1., 2.], [3., 6.]],
                [[1., None], [3., 6.], [None, None]]]
        data = sets[case['data']]
        if case['name'] == 'bernoulli':
            data = [1., 0., 1.]
        if case['name'] == 'poisson':
            data = [abs(x) if isinstance(x, float) else x for x in data]
        if case['name'] == 'gaussianmean' and case['data'] < 4:
            data = [[x, .5 + .1 * i] for i, x in enumerate(data)]
        arr = np.array(specs.num(data), dtype=float)
        S = b.Study(silent=True)
        S.loadData(arr, silent=True)
        om = getattr(b.om, c)()
        S.set(om, silent=True)
        v = arr.ravel()
        v = v[~np.isnan(v)]
        mean, std = np.mean(v), np.sqrt(np.mean((v - np.mean(v)) ** 2))

        def inner(lo, hi, n):
            return [lo + (hi - lo) * (i + 1.) / (n + 1.) for i in range(n)]

        def closed(lo, hi, n):
            return [lo + (hi - lo) * i / (n - 1.) for i in range(n)]
        if case['name'] == 'gaussianmean':
            o = arr[:, 0]
            o = o[~np.isnan(o)]
            lo, hi = o.min(), o.max()
        want = {'bernoulli': lambda: [inner(0., 1., 1000)],
                'poisson': lambda: [inner(0., 1.25 * v.max(), 1000)],
                'gaussian': lambda: [closed(mean - 2 * std, mean + 2 * std, 200), inner(0., 2 * std, 200)],
                'laplace': lambda: [closed(mean - 2 * std, mean + 2 * std, 200), inner(0., math.sqrt(2.) * std, 200)],
                'gaussianmean': lambda: [inner(lo - (hi - lo), hi + (hi - lo), 1000)],
                'whitenoise': lambda: [inner(0., 2 * std, 1000)],
                'ar1': lambda: [inner(-1., 1., 200), inner(0., 2 * std, 200)],
                'scaledar1': lambda: [inner(-1., 1., 200), inner(0., 2 * std, 200)]}[case['name']]()
        rec.ok(len(S.marginalGrid) == len(want), 'number of parameters')
        for x, y in zip(S.marginalGrid, want):
            rec.close('%s: default parameter values for data %s' % (c, data), x, y)
        defaults = {'bernoulli': ['p'], 'poisson': ['lambda'], 'gaussian': ['mean', 'std'], 'laplace': ['mean', 'scale'],
                    'gaussianmean': ['mean'], 'whitenoise': ['std'],
                    'ar1': ['correlation coefficient', 'noise amplitude'],
                    'scaledar1': ['correlation coefficient', 'standard deviation']}[case['name']]
        rec.ok(list(om.parameterNames) == defaults, 'default parameter names')
        rec.traces += 1
        rec.transitions += 1
        rec.state('default', case)
    elif k == 'jeffreys-ar1':
        c, menus, obs, f, pr = BUILTIN[case['name']]
        grid = [[-.9, -.4, .1, .6], [.5, 1., 1.5]]
        for data in itertools.product([-1.2, .3, 2.], repeat=3):
            S = b.Study(silent=True)
            S.loadData(np.array(data), silent=True)
            S.set(getattr(b.om, c)('r', grid[0], 's', grid[1]), silent=True)
            for t in (1, 2):
                got = b.jeffreys.computeJeffreysPriorAR1(S, t=t)
                want = np.zeros((4, 3))
                for i, r in enumerate(grid[0]):
                    for j, s in enumerate(grid[1]):
                        if case['name'] == 'scaledar1':
                            s = s * math.sqrt(1. - r * r)
                        want[i, j] = math.exp(-data[t - 1] ** 2 * (1. - r * r) / (2. * s * s)) / s ** 2 * \
                            math.sqrt(4. * r * r / (1. - r * r) + 2. * (len(data) + 1))
                rec.close('Jeffreys prior of ' + c, got, want / want.sum())
                rec.traces += 1
            rec.state(c, 'jeffreys', data)
    elif k == 'getjeffreys':
        import sympy
        import sympy.stats
        name, pars, f = JEFFREYS[case['index']]
        free = [q for q in pars if isinstance(q, tuple)]
        rv = getattr(sympy.stats, name)('rv', *[sympy.Symbol(q[0], **{q[1]: True}) if isinstance(q, tuple) else q for q in pars])
        expr, g = b.jeffreys.getJeffreysPrior(rv)
        what = 'Jeffreys prior of %s%r' % (name, [q[0] if isinstance(q, tuple) else q for q in pars])
        names = sorted(q[0] for q in free)
        rec.ok({str(x) for x in expr.free_symbols} <= set(names), what + ' is %s' % expr)
        for p in itertools.product(*[q[2] for q in free]):
            val = dict(zip([q[0] for q in free], p))
            # the arguments of the function are the parameters as they are ordered by the observation model
            order = [str(x) for x in b.helper.freeSymbols(rv)]
            rec.ok(sorted(order) == names, what + ': parameters %s' % order)
            relclose(rec, what + ' at %r' % val, g(*[val[n] for n in order]), f(**val), 1e-9)
            relclose(rec, what + ' (formula) at %r' % val, float(expr.subs({x: val[str(x)] for x in expr.free_symbols})),
                     f(**val), 1e-9)
            rec.transitions += 1
            rec.state('getjeffreys', case['index'], p)
        rec.traces += 1
    elif k == 'interval':
        lo, hi, n = case['args']
        rec.close('oint', b.oint(lo, hi, n), [lo + (hi - lo) * (i + 1.) / (n + 1.) for i in range(n)])
        rec.close('cint', b.cint(lo, hi, n), [lo + (hi - lo) * i / (n - 1.) for i in range(n)])
        rec.traces += 1
        rec.state('interval', lo, hi, n)
