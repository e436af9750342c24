"""
Concrete names for the finite alphabets that the checks enumerate (likelihood functions, priors, deterministic
functions), and the construction of real bayesloop objects from specifications, through the public API only.
"""
import numpy as np
from . import ref

# ----------------------------------------------------------------------------------------------- finite data alphabet
# Observations are symbols; the likelihood of a symbol is an irregular function of the parameter values, so that any
# confusion of values, axes or time steps shows up.
#   0..5  regular symbols     6  impossible for small first parameter     7  impossible for large first parameter
#   8     impossible for all parameter values      nan  missing
#   9     extremely unlikely (1e-40) for large first parameters, 10 for small ones: small probabilities must not get lost


def wobble(s, *params):
    z = 1.3 * s + .7
    for i, p in enumerate(params):
        z = z + (2.1 + 1.9 * i + .37 * s) * p
    return .06 + .5 * (1. + np.sin(z)) * (1. + .3 * np.cos(2.7 * z + s))


def table_like(s, *params):
    s = float(s)
    if s == 8:
        return np.zeros(np.shape(params[0]))
    l = wobble(s, *params)
    if s == 6:
        l = np.where(params[0] < THRESH, 0., l)
    if s == 7:
        l = np.where(params[0] > THRESH, 0., l)
    if s == 9:
        l = l * 10. ** (-40. * np.asarray(params[0]))
    if s == 10:
        l = l * 10. ** (-40. * (1. - np.asarray(params[0])))
    return l


THRESH = .45


def like1(data, a):
    return table_like(data, a)


def like2(data, a, b):
    return table_like(data, a, b)


def like3(data, a, b, c):
    return table_like(data, a, b, c)


def like4(data, a, b, c, d):
    return table_like(data, a, b, c, d)


def like1v(data, a):            # data point is a pair
    return table_like(data[0], a) * (.5 + table_like(data[1], 1.7 * a))


LIKE = {1: like1, 2: like2, 3: like3, 4: like4}

# ------------------------------------------------------------------------------------------------------------- priors


def pr_lin1(a):
    return .3 + a


def pr_lin2(a, b):
    return .2 + a + 2. * b * b


def pr_lin3(a, b, c):
    return .2 + a + 2. * b * b + .5 * c


def pr_peak1(a):
    return np.exp(-3. * (a - .8) ** 2) * 5.


def pr_peak2(a, b):
    return np.exp(-3. * (a - .8) ** 2 - 2. * (b - .3) ** 2) * 5.


def pr_const1(a):
    return 2.


def pr_const2(a, b):
    return 2.


def pr_zero1(a):                 # some parameter values are excluded
    return np.where(a < .3, 0., 1. + a)


def pr_zero2(a, b):
    return np.where(a < .3, 0., 1. + a + b)


PRIORS = {('lin', 1): pr_lin1, ('lin', 2): pr_lin2, ('lin', 3): pr_lin3, ('peak', 1): pr_peak1, ('peak', 2): pr_peak2,
          ('const', 1): pr_const1, ('const', 2): pr_const2, ('zero', 1): pr_zero1, ('zero', 2): pr_zero2}


# hyper-prior functions
def hp_lin(x):
    return 1. + abs(x)


def hp_steep(x):
    return 10. ** (-x)


def hp_gap(x):                   # zero for small values
    return 0. if x < .2 else 2. + x


HPRIORS = {'lin': hp_lin, 'steep': hp_steep, 'gap': hp_gap}


def prior_ref(prior, grid):
    """(prior values, total mass) for the reference model"""
    if prior is None:
        return np.ones(grid.shape), 1.
    form, name = prior[:2]
    if form == 'sympy':
        import scipy.stats as st
        fs = []
        for v, (dist, args) in zip(grid.values, name):
            if dist == 'Normal':
                fs.append(st.norm.pdf(v, *args))
            elif dist == 'Exponential':
                fs.append(np.where(v >= 0, args[0] * np.exp(-args[0] * v), 0.))
            elif dist == 'Uniform':
                fs.append(np.where((v >= args[0]) & (v <= args[1]), 1. / (args[1] - args[0]), 0.))
            elif dist == 'Beta':
                fs.append(st.beta.pdf(v, *args))
            elif dist == 'Gamma':
                fs.append(st.gamma.pdf(v, args[0], scale=args[1]))
        p = fs[0]
        for f in fs[1:]:
            p = np.multiply.outer(p, f)
        return p, float(p.sum() * grid.vol)
    if name == 'jeffreys':
        return ref.JEFFREYS[form](*grid.mesh), 1.
    p = PRIORS[name, len(grid.names)](*grid.mesh) * np.ones(grid.shape)
    return p, 1.


def prior_real(prior, grid):
    """the same prior as an argument for an observation model; forms: func, array, array1 (sums to one), intarray"""
    if prior is None:
        return None
    form, name = prior[:2]
    if form == 'sympy':
        import sympy.stats
        rvs = [getattr(sympy.stats, d)('q%d' % i, *args) for i, (d, args) in enumerate(name)]
        return rvs[0] if len(rvs) == 1 and len(prior) < 3 else rvs
    if name == 'jeffreys':
        return None
    f = PRIORS[name, len(grid.names)]
    if form == 'func':
        return f
    p = f(*grid.mesh) * np.ones(grid.shape)
    if form == 'array1':
        return p / p.sum()
    return p


# -------------------------------------------------------------------------------------------- deterministic functions
def make_det(bl_default=None):
    pass


def d_lin(t, slope=0):
    return slope * t


def d_quad(t, q=0, slope=0):
    return q * t ** 2 + slope * t


def d_off(t, jump=0):
    return jump * (1. if t >= 2 else 0.)


def d_sin(t, amp=0):
    return amp * np.sin(1.1 * t)


ref.DET.update({'lin': d_lin, 'quad': d_quad, 'off': d_off, 'sin': d_sin})


def det_function(name, names, values):
    """function with the hyper-parameter values as defaults of its keyword arguments"""
    v = list(values)
    if name == 'lin':
        def linear(t, slope=v[0]):
            return slope * t
        f = linear
    elif name == 'quad':
        def quadratic(t, q=v[0], slope=v[1]):
            return q * t ** 2 + slope * t
        f = quadratic
    elif name == 'off':
        def offset(t, jump=v[0]):
            return jump * (1. if t >= 2 else 0.)
        f = offset
    elif name == 'sin':
        def sine(t, amp=v[0]):
            return amp * np.sin(1.1 * t)
        f = sine
    return f


# --------------------------------------------------------------------------------------------------------- shorthands
def static():
    return {'k': 'static', 'n': [], 'v': []}


def indep():
    return {'k': 'indep', 'n': [], 'v': []}


def grw(v, target='a', n='sigma', p=None):
    return {'k': 'grw', 'n': [n], 'v': [v], 'target': target, 'p': [p]}


def alpha(c, al, target='a', n=('c', 'alpha'), p=(None, None)):
    return {'k': 'alpha', 'n': list(n), 'v': [c, al], 'target': target, 'p': list(p)}


def cp(v, n='tc', p=None):
    return {'k': 'cp', 'n': [n], 'v': [v], 'p': [p]}


def bp(v, n='tb', p=None):
    return {'k': 'bp', 'n': [n], 'v': [v], 'p': [p]}


def regime(v, n='log10pMin', p=None):
    return {'k': 'regime', 'n': [n], 'v': [v], 'p': [p]}


def notequal(v, n='log10pMin', p=None):
    return {'k': 'notequal', 'n': [n], 'v': [v], 'p': [p]}


def det(f, names, values, target='a', p=None):
    return {'k': 'det', 'f': f, 'n': list(names), 'v': list(values), 'target': target,
            'p': list(p) if p else [None] * len(names)}


def biv(s1, s2, rho, n=('s1', 's2', 'rho'), p=(None, None, None)):
    return {'k': 'biv', 'n': list(n), 'v': [s1, s2, rho], 'p': list(p)}


def comb(*m):
    return {'k': 'comb', 'm': list(m)}


def serial(*m):
    return {'k': 'serial', 'm': list(m)}


# ------------------------------------------------------------------------------------------------------- real objects
def hprior_real(p):
    """hyper-prior: None, ['func', name], ['array', weights], ['sympy', dist, args]"""
    if p is None:
        return None
    if p[0] == 'func':
        return HPRIORS[p[1]]
    if p[0] == 'array':
        return np.array(p[1])
    if p[0] == 'sympy':
        import sympy.stats
        return getattr(sympy.stats, p[1])('h', *p[2])
    raise ValueError(p)


def hprior_weights(p, values):
    """unnormalised weights for the reference"""
    if p is None:
        return None
    if p[0] == 'func':
        return HPRIORS[p[1]]
    if p[0] == 'array':
        return list(p[1])
    if p[0] == 'sympy':
        import scipy.stats as st
        v = np.array(values, dtype=float)
        if p[1] == 'Normal':
            return list(st.norm.pdf(v, *p[2]))
        if p[1] == 'Exponential':
            return list(np.where(v >= 0, p[2][0] * np.exp(-p[2][0] * v), 0.))
        if p[1] == 'Uniform':
            return list(np.where((v >= p[2][0]) & (v <= p[2][1]), 1. / (p[2][1] - p[2][0]), 0.))
    raise ValueError(p)


def aslist(v):
    return list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v]


def ref_tm(spec, all_times=None):
    """specification for the reference model: 'all' replaced by time stamps, hyper-priors replaced by weights"""
    s = dict(spec)
    if 'n' in s and s['n']:
        s['v'] = [list(all_times) if isinstance(v, str) and v == 'all' else v for v in s['v']]
        ps = s.get('p') or [None] * len(s['n'])
        s['p'] = [hprior_weights(p, aslist(v)) for p, v in zip(ps, s['v'])]
    if 'm' in s:
        s['m'] = [ref_tm(m, all_times) for m in s['m']]
    return s


def hyper_mass(spec, all_times=None):
    """product of the prior masses (only SymPy hyper-priors are used without normalisation)"""
    m = 1.
    if spec.get('n'):
        ps = spec.get('p') or [None] * len(spec['n'])
        for p, v in zip(ps, spec['v']):
            if p is not None and p[0] == 'sympy':
                v = list(all_times) if isinstance(v, str) and v == 'all' else aslist(v)
                m *= np.sum(hprior_weights(p, v)) * (ref.spacing(v) if len(v) > 1 else 1.)
    for x in spec.get('m', []):
        m *= hyper_mass(x, all_times)
    return m


def real_tm(bl, spec, as_array=False):
    k = spec['k']

    def val(v):
        if isinstance(v, (list, tuple)):
            return np.array(v) if as_array else list(v)
        return v
    v = [val(x) for x in spec.get('v', [])]
    n = spec.get('n', [])
    p = [hprior_real(x) for x in (spec.get('p') or [None] * len(n))]
    if k == 'static':
        return bl.tm.Static()
    if k == 'indep':
        return bl.tm.Independent()
    if k == 'grw':
        return bl.tm.GaussianRandomWalk(n[0], v[0], target=spec['target'], prior=p[0])
    if k == 'alpha':
        return bl.tm.AlphaStableRandomWalk(n[0], v[0], n[1], v[1], target=spec['target'], prior=p)
    if k == 'cp':
        return bl.tm.ChangePoint(n[0], v[0], prior=p[0])
    if k == 'bp':
        return bl.tm.BreakPoint(n[0], v[0], prior=p[0])
    if k == 'regime':
        return bl.tm.RegimeSwitch(n[0], v[0], prior=p[0])
    if k == 'notequal':
        return bl.tm.NotEqual(n[0], v[0], prior=p[0])
    if k == 'det':
        f = det_function(spec['f'], n, v)
        if all(x is None for x in p):
            return bl.tm.Deterministic(f, target=spec['target'])
        return bl.tm.Deterministic(f, target=spec['target'], prior=p)
    if k == 'biv':
        return bl.tm.BivariateRandomWalk(n[0], v[0], n[1], v[1], n[2], v[2], prior=p)
    if k == 'comb':
        return bl.tm.CombinedTransitionModel(*[real_tm(bl, m, as_array) for m in spec['m']])
    if k == 'serial':
        return bl.tm.SerialTransitionModel(*[real_tm(bl, m, as_array) for m in spec['m']])
    raise ValueError(k)


NAMES = ['a', 'b', 'c', 'd']


def seg_like(seg, *params):
    """likelihood of a window of observations that depends on every one of them and on their order"""
    z = sum((1.1 + .9 * i) * float(x) for i, x in enumerate(seg))
    return wobble(1. + z % 5., *params)


def seg_model(bl, n, names, values, prior=None, multiply=True):
    """observation model of a user, with n observations per data segment"""
    class Window(bl.observationModels.ObservationModel):
        def __init__(self):
            self.name = 'window of %d' % n
            self.segmentLength = n
            self.parameterNames = list(names)
            self.parameterValues = list(values)
            self.prior = prior
            self.multiplyLikelihoods = multiply

        def pdf(self, grid, dataSegment):
            return seg_like(dataSegment, *grid)
    return Window()


class Setting(object):
    """
    An observation model with grid and prior.  spec: {'om': 'table' or built-in name, 'grid': [[values]...],
    'prior': prior specification, 'names': optional}
    """
    def __init__(self, spec):
        self.spec = spec
        self.om = spec.get('om', 'table')
        self.names = spec.get('names') or NAMES[:len(spec['grid'])]
        self.grid = ref.Grid(self.names, spec['grid'])
        self.prior, self.mass = prior_ref(spec.get('prior'), self.grid)

    def real(self, bl):
        pr = self.spec.get('prior')
        p = prior_real(pr, self.grid)
        vals = [np.array(v, dtype=float) for v in self.spec['grid']]
        if self.om in ('table', 'tablev'):
            args = []
            for n, v in zip(self.names, vals):
                args += [n, v]
            return bl.om.NumPy(like1v if self.om == 'tablev' else LIKE[len(vals)], *args, prior=p)
        cls = {'bernoulli': 'Bernoulli', 'poisson': 'Poisson', 'gaussian': 'Gaussian', 'laplace': 'Laplace',
               'gaussianmean': 'GaussianMean', 'whitenoise': 'WhiteNoise', 'ar1': 'AR1', 'scaledar1': 'ScaledAR1'}
        if self.om.startswith('seg'):
            return seg_model(bl, int(self.om[3:]), self.names, vals, p)
        args = []
        for n, v in zip(self.names, vals):
            args += [n, v]
        if self.om == 'scipynorm':
            import scipy.stats
            return bl.om.SciPy(scipy.stats.norm, *args, prior=p)
        if self.om == 'scipypoisson':
            import scipy.stats
            return bl.om.SciPy(scipy.stats.poisson, *args, fixedParameters={'loc': 0}, prior=p)
        if self.om == 'sympynorm':
            import sympy
            import sympy.stats
            sym = [sympy.Symbol(self.names[0], real=True), sympy.Symbol(self.names[1], positive=True)]
            return bl.om.SymPy(sympy.stats.Normal('normal', *sym), *args, prior=p, determineJeffreysPrior=False)
        c = getattr(bl.om, cls[self.om])
        if pr is not None and pr[1] == 'jeffreys':
            return c(*args)
        return c(*args, prior=p)

    @property
    def seglen(self):
        if self.om.startswith('seg'):
            return int(self.om[3:])
        return 2 if self.om in ('ar1', 'scaledar1') else 1

    def like(self, data):
        """list of likelihood arrays, one per data segment"""
        out = []
        n = self.seglen
        for i in range(n - 1, len(data)):
            seg = data[i - n + 1:i + 1]
            if self.om in ('table', 'tablev', 'gaussianmean'):
                flatd = np.ravel(np.array(seg, dtype=float))
                if np.isnan(flatd).any():
                    out.append(np.ones(self.grid.shape))
                elif self.om == 'gaussianmean':
                    out.append(ref.om_pdf(self.om, seg, self.grid.mesh))
                else:
                    f = like1v if self.om == 'tablev' else LIKE[len(self.names)]
                    out.append(f(seg[0], *self.grid.mesh))
            else:
                arr = np.array(seg, dtype=float)
                cols = arr.T if arr.ndim == 2 else [arr]
                l = np.ones(self.grid.shape)
                for c in cols:
                    if not np.isnan(c).any():
                        l = l * ref.om_pdf(self.om, c, self.grid.mesh)
                out.append(l)
        return out


def num(x):
    """data symbols in JSON: null stands for a missing value"""
    if isinstance(x, (list, tuple)):
        return [num(y) for y in x]
    return float('nan') if x is None else float(x)
