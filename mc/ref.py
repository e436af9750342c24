"""
Reference model of bayesloop, written from its documentation only (no code is shared with /repo).

A study is modelled as an explicit-state machine: a state is a (set of) probability vector(s) over a finite parameter
grid, a transition is "multiply with the likelihood of one more observation, then apply the transition model".  Linear
transition models are available as explicit matrices, so that the exact answer can be obtained by enumerating all
parameter paths (`paths_fit`).  `fit` is the general message-passing form that also covers the non-linear models.
"""
import functools
import itertools
import math
import numpy as np
from scipy import ndimage, stats

# --------------------------------------------------------------------------------------------------------------- grid


class Grid(object):
    def __init__(self, names, values):
        self.names = list(names)
        self.values = [np.array(v, dtype=float) for v in values]
        self.shape = tuple(len(v) for v in self.values)
        self.dx = [spacing(v) for v in self.values]
        self.mesh = np.meshgrid(*self.values, indexing='ij')
        self.vol = float(np.prod(self.dx))
        self.size = int(np.prod(self.shape))


def spacing(v):
    """distance of equally spaced values; one for irregular (categorical) values"""
    v = np.asarray(v, dtype=float)
    if len(v) < 2:
        return 1.
    d = np.diff(v)
    if len(v) > 2 and np.any(np.abs(np.diff(d)) > 1e-10 * (v.max() - v.min()) + 2e-15 * np.abs(v).max()):
        return 1.
    return abs(d[0])


# -------------------------------------------------------------------------------------------------- transition models
# A model specification is a dict {'k': kind, 'n': [names], 'v': [values], 'target': parameter, 'p': [hyper-priors],
# 'm': [sub-models]}; the times of change-/break-points are values like any other hyper-parameter.

def hypers(spec):
    """flat list of (name, values, prior) of all hyper-parameters, in the documented order"""
    out = []
    if spec['k'] == 'serial':
        for m in spec['m']:
            if m['k'] not in ('bp', 'cp'):
                out += hypers(m)
        for m in spec['m']:
            if m['k'] in ('bp', 'cp'):
                out += hypers(m)
        return out
    for m in spec.get('m', []):
        out += hypers(m)
    ps = spec.get('p') or [None] * len(spec.get('n', []))
    out += list(zip(spec.get('n', []), spec.get('v', []), ps))
    return out


def subst(spec, values):
    """specification with the hyper-parameters replaced by single values (dict name -> value)"""
    s = dict(spec)
    if 'n' in s:
        s['v'] = [values.get(n, v) for n, v in zip(s['n'], s['v'])]
        s['p'] = None
    if 'm' in s:
        s['m'] = [subst(m, values) for m in s['m']]
    return s


def gauss_weights(sigma):
    r = int(4. * sigma + .5)
    x = np.arange(-r, r + 1)
    w = np.exp(-.5 * (x / float(sigma)) ** 2)
    return x, w / w.sum()


@functools.lru_cache(maxsize=None)
def gauss_matrix(n, sigma):
    """Gaussian kernel (truncated at four standard deviations) with reflecting boundaries"""
    m = np.zeros((n, n))
    if sigma <= 0:
        return np.eye(n)
    xs, ws = gauss_weights(sigma)
    for i in range(n):
        for x, w in zip(xs, ws):
            j = (i + x) % (2 * n)
            if j >= n:
                j = 2 * n - 1 - j
            m[i, j] += w
    return m


@functools.lru_cache(maxsize=None)
def alpha_matrix(n, c, alpha):
    """kernel of the symmetric alpha-stable distribution (by Fourier transform), no mass enters from outside"""
    h = int(3 * n / 2)                       # the kernel is defined on 2h grid points
    w = np.linspace(0, np.pi, h + 1)
    f = np.exp(-np.abs(c * w) ** alpha)
    k = np.zeros(2 * h)
    for d in range(-h, h):
        coef = f[0] + (f[-1] * np.cos(np.pi * d))
        coef += 2 * np.sum(f[1:-1] * np.cos(w[1:-1] * d))
        k[d + h] = coef / (2 * h)
    m = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            d = i - j
            if -h <= d < h:
                m[i, j] = k[d + h]
    return m


def bivariate_kernel(s1, s2, rho):
    r1, r2 = int(3 * math.ceil(s1)), int(3 * math.ceil(s2))
    det = 1. - rho ** 2
    k = np.zeros((2 * r1 + 1, 2 * r2 + 1))
    for a in range(-r1, r1 + 1):
        for b in range(-r2, r2 + 1):
            u, v = a / s1, b / s2
            k[a + r1, b + r2] = math.exp(-.5 * (u * u - 2 * rho * u * v + v * v) / det)
    return k / k.sum()


def on_axis(m, p, axis):
    return np.moveaxis(np.tensordot(m, p, axes=([1], [axis])), 0, axis)


DET = {}   # deterministic functions by name (filled by specs.py): name -> function(t, **kwargs)


class Ctx(object):
    """what a transition model needs to know about its surroundings"""
    def __init__(self, grid, prior, quirks=()):
        self.grid = grid
        self.prior = np.asarray(prior, dtype=float) / np.sum(prior)     # probabilities
        self.quirks = set(quirks)


def forward(spec, p, t, ctx, off=0.):
    """distribution after the transition that follows time t"""
    k = spec['k']
    g = ctx.grid
    v = spec.get('v', [])
    if k == 'static':
        return p
    if k == 'grw':
        a = g.names.index(spec['target'])
        return on_axis(gauss_matrix(g.shape[a], v[0] / g.dx[a]), p, a)
    if k == 'alpha':
        a = g.names.index(spec['target'])
        q = np.maximum(on_axis(alpha_matrix(g.shape[a], v[0] / g.dx[a], v[1]), p, a), 0.)
        return q / q.sum()
    if k == 'cp':
        if t == v[0]:
            return ctx.prior * (g.vol if "cp_volume" in ctx.quirks else 1.)
        return p
    if k == 'indep':
        return ctx.prior.copy()
    if k == 'regime':
        q = np.maximum(p, 10. ** v[0] * g.vol)
        return q / q.sum()
    if k == 'notequal':
        q = p.max() - p
        q = q / q.sum() if q.max() > 1e-12 * p.max() else np.zeros_like(q)    # flat up to round-off errors
        q = np.maximum(q, 10. ** v[0] * g.vol)
        return q / q.sum()
    if k == 'det':
        a = g.names.index(spec['target'])
        kw = dict(zip(spec['n'], v))
        f = DET[spec['f']]
        d = (f(t + 1 - off, **kw) - f(t - off, **kw)) / g.dx[a]
        return shifted(p, d, a)
    if k == 'biv':
        ker = bivariate_kernel(v[0] / g.dx[0], v[1] / g.dx[1], v[2])
        q = np.zeros(g.shape)
        r1, r2 = ker.shape[0] // 2, ker.shape[1] // 2
        for i in range(g.shape[0]):
            for j in range(g.shape[1]):
                for a in range(max(0, i - r1), min(g.shape[0], i + r1 + 1)):
                    for b in range(max(0, j - r2), min(g.shape[1], j + r2 + 1)):
                        q[i, j] += p[a, b] * ker[i - a + r1, j - b + r2]
        return q / q.sum()
    if k == 'comb':
        for m in spec['m']:
            p = forward(m, p, t, ctx, off)
        return p
    if k == 'serial':
        models = [m for m in spec['m'] if m['k'] not in ('cp', 'bp')]
        points = [m for m in spec['m'] if m['k'] in ('cp', 'bp')]
        times = [m['v'][0] for m in points]
        i = sum(1 for x in times if x <= t)
        p = forward(models[i], p, t, ctx, times[i - 1] if i else 0.)
        if any(m['k'] == 'cp' and m['v'][0] == t for m in points):
            p = ctx.prior * (g.vol if "cp_volume" in ctx.quirks else 1.)
        return p
    raise ValueError(k)


def shifted(p, d, axis):
    s = [0.] * p.ndim
    s[axis] = d
    q = np.maximum(ndimage.shift(p, s, order=3, mode='nearest'), 0.)
    return q / q.sum()


def backward(spec, b, t, ctx, off=0.):
    """message to time t from the message of the following time step"""
    k = spec['k']
    g = ctx.grid
    v = spec.get('v', [])
    if k == 'cp':
        return flat(b) if t == v[0] else b
    if k == 'indep':
        return flat(b)
    if k == 'det':
        a = g.names.index(spec['target'])
        kw = dict(zip(spec['n'], v))
        f = DET[spec['f']]
        d = (f(t - off, **kw) - f(t + 1 - off, **kw)) / g.dx[a]
        return shifted(b, d, a)
    if k == 'comb':
        for m in spec['m']:
            b = backward(m, b, t, ctx, off)
        return b
    if k == 'serial':
        models = [m for m in spec['m'] if m['k'] not in ('cp', 'bp')]
        points = [m for m in spec['m'] if m['k'] in ('cp', 'bp')]
        times = [m['v'][0] for m in points]
        i = sum(1 for x in times if x <= t)
        b = backward(models[i], b, t, ctx, times[i - 1] if i else 0.)
        if any(m['k'] == 'cp' and m['v'][0] == t for m in points):
            b = ctx.prior.copy() if 'serial_backward_prior' in ctx.quirks else flat(b)
        return b
    return forward(spec, b, t, ctx, off)


def flat(b):
    return np.ones(b.shape) / b.size


# ---------------------------------------------------------------------------------------------------------------- fit

def fit(grid, prior, like, ts, tm, mode='full', quirks=(), mass=1.):
    """
    Forward-backward algorithm.  `prior`: values proportional to the prior, `mass`: total prior mass (differs from one
    only for prior densities that are used as they are), `like`: one likelihood array per time step.
    """
    ctx = Ctx(grid, prior, quirks)
    n = len(like)
    p = ctx.prior.copy()
    loge = math.log(mass) if mass > 0 else -np.inf
    alphas, local, msgs = [], [], []
    res = {'logE': -np.inf, 'post': None, 'mean': None, 'local': None}
    for i in range(n):
        msgs.append(p)
        a = p * like[i]
        c = a.sum()
        if not c > 0.:
            return res
        loge += math.log(c)
        local.append(c * (mass if i == 0 else 1.))
        a = a / c
        alphas.append(a)
        p = forward(tm, a, ts[i], ctx)
    res['logE'] = loge
    if mode == 'evidence':
        return res
    if mode == 'forward':
        res['post'] = np.array(alphas)
        res['local'] = np.array(local)
    else:
        b = np.ones(grid.shape) / grid.size
        post = [None] * n
        loc = [0.] * n
        for i in reversed(range(n)):
            q = alphas[i] * b
            if not q.sum() > 0.:
                return {'logE': -np.inf, 'post': None, 'mean': None, 'local': None}
            post[i] = q / q.sum()
            o = msgs[i] * b             # distribution of the parameters given all other data points
            loc[i] = np.sum(o * like[i]) / np.sum(o)
            if i > 0:
                b = backward(tm, b * like[i], ts[i - 1], ctx)
                b = b / b.sum()
        res['post'] = np.array(post)
        res['local'] = np.array(loc)
    res['mean'] = np.array([[np.sum(q * m) for q in res['post']] for m in grid.mesh])
    return res


def tm_matrix(spec, t, ctx):
    """explicit transition matrix (column = old state) of a linear model, including the reset to the prior"""
    n = ctx.grid.size
    m = np.zeros((n, n))
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1.
        m[:, j] = forward(spec, e.reshape(ctx.grid.shape), t, ctx).ravel()
    return m


def paths_fit(grid, prior, like, ts, tm, quirks=(), mass=1.):
    """exact inference by enumeration of all parameter paths; returns results for all modes"""
    ctx = Ctx(grid, prior, quirks)
    n, g = len(like), grid.size
    ms = [tm_matrix(tm, ts[i], ctx) for i in range(n - 1)]
    ls = [l.ravel() for l in like]
    paths = np.array(list(itertools.product(range(g), repeat=n)))

    def weights(upto, without=None):
        """total weight of all paths of length `upto` (data point `without` left out)"""
        p = paths[::g ** (n - upto), :upto]
        w = ctx.prior.ravel()[p[:, 0]] * mass
        for i in range(upto):
            if i != without:
                w = w * ls[i][p[:, i]]
            if i + 1 < upto:
                w = w * ms[i][p[:, i + 1], p[:, i]]
        return p, w

    p, w = weights(n)
    z = w.sum()
    out = {'logE': math.log(z) if z > 0 else -np.inf, 'npaths': len(paths)}
    if not z > 0:
        return out
    smooth = np.array([np.bincount(p[:, i], weights=w, minlength=g) / z for i in range(n)])
    filt, local_f, zprev = [], [], 1.
    for i in range(n):
        q, v = weights(i + 1)
        zi = v.sum()
        filt.append(np.bincount(q[:, i], weights=v, minlength=g) / zi)
        local_f.append(zi / zprev)
        zprev = zi
    out['smooth'] = smooth.reshape((n,) + grid.shape)
    out['filter'] = np.array(filt).reshape((n,) + grid.shape)
    out['local_filter'] = np.array(local_f)
    out['local_smooth'] = np.array([z / weights(n, without=i)[1].sum() for i in range(n)])
    return out


def means(grid, post):
    return np.array([[np.sum(q * m) for q in post] for m in grid.mesh])


# -------------------------------------------------------------------------------------------------------- hyper-study

def logsumexp(x):
    x = np.asarray(x, dtype=float)
    m = np.max(x)
    if not np.isfinite(m):
        return m
    return m + math.log(np.sum(np.exp(x - m)))


def prior_weights(values, prior):
    """normalised prior weights of the values of one hyper-parameter; prior: None, list of weights or function"""
    n = len(values)
    if prior is None:
        w = np.ones(n)
    elif callable(prior):
        w = np.array([float(prior(v)) for v in values])
    else:
        w = np.array(prior, dtype=float)
    return w / w.sum()


def combos(tm, ordered=None):
    """
    all combinations of hyper-parameter values: list of (dict, prior probability); `ordered`: names whose values have
    to be strictly increasing (the mass of all other combinations is redistributed proportionally)
    """
    hs = hypers(tm)
    axes = []
    for name, values, prior in hs:
        vals = list(values) if isinstance(values, (list, tuple, np.ndarray)) else [values]
        axes.append(list(zip(vals, prior_weights(vals, prior))))
    out = []
    for c in itertools.product(*axes):
        d = {h[0]: x[0] for h, x in zip(hs, c)}
        w = float(np.prod([x[1] for x in c])) if c else 1.
        if ordered and any(not d[a] < d[b] for a, b in zip(ordered, ordered[1:])):
            continue
        out.append((d, w))
    if ordered:
        s = sum(w for d, w in out)
        out = [(d, w / s) for d, w in out]
    return out


def hyper_fit(grid, prior, like, ts, tm, mode='full', ordered=None, quirks=(), mass=1., hmass=1.):
    """average over one fit per combination, weighted with hyper-prior times evidence"""
    cs = combos(tm, ordered)
    fits = [fit(grid, prior, like, ts, subst(tm, d), mode, quirks, mass) for d, w in cs]
    with np.errstate(divide='ignore'):
        lw = np.array([f['logE'] + np.log(w) for f, (d, w) in zip(fits, cs)])
    le = logsumexp(lw)
    res = {'combos': [d for d, w in cs], 'logE': le + math.log(hmass), 'post': None, 'mean': None, 'dist': None,
           'prior': np.array([w for d, w in cs])}
    if not np.isfinite(le):
        return res
    res['dist'] = np.exp(lw - le)
    if mode != 'evidence':
        post = 0.
        for w, f in zip(res['dist'], fits):
            if w > 0:
                post = post + w * f['post']
        res['post'] = post
        res['mean'] = means(grid, post)
    return res


def marginal(res, name, values):
    return np.array([sum(w for d, w in zip(res['combos'], res['dist']) if d[name] == v) for v in values])


def joint(res, n1, v1, n2, v2):
    return np.array([[sum(w for d, w in zip(res['combos'], res['dist']) if d[n1] == a and d[n2] == b)
                      for b in v2] for a in v1])


# ------------------------------------------------------------------------------------------------- observation models

def norm_pdf(x, mu, sd):
    return stats.norm.pdf(x, loc=mu, scale=sd)


def om_pdf(kind, seg, mesh):
    """likelihood of one (complete, one-dimensional) data segment for all parameter values"""
    with np.errstate(all='ignore'):
        if kind.startswith('seg'):
            from . import specs
            return specs.seg_like(seg, *mesh)
        kind = {'scipynorm': 'gaussian', 'sympynorm': 'gaussian', 'scipypoisson': 'poisson'}.get(kind, kind)
        if kind == 'bernoulli':
            p = mesh[0]
            l = np.where(seg[0] != 0, p, 1. - p)
            return np.where((p < 0) | (p > 1), 0., l)
        if kind == 'poisson':
            return stats.poisson.pmf(seg[0], mesh[0])
        if kind == 'gaussian':
            return norm_pdf(seg[0], mesh[0], mesh[1])
        if kind == 'laplace':
            return stats.laplace.pdf(seg[0], loc=mesh[0], scale=mesh[1])
        if kind == 'gaussianmean':
            return norm_pdf(seg[0][0], mesh[0], seg[0][1])
        if kind == 'whitenoise':
            return norm_pdf(seg[0], 0., mesh[0])
        if kind == 'ar1':
            return norm_pdf(seg[1], mesh[0] * seg[0], mesh[1])
        if kind == 'scaledar1':
            return norm_pdf(seg[1], mesh[0] * seg[0], mesh[1] * np.sqrt(1. - mesh[0] ** 2))
    raise ValueError(kind)


JEFFREYS = {
    'bernoulli': lambda p: 1. / np.sqrt(p * (1. - p)),
    'poisson': lambda l: 1. / np.sqrt(l),
    'gaussian': lambda m, s: 1. / s ** 2 + 0 * m,
    'laplace': lambda m, s: 1. / s ** 2 + 0 * m,
    'whitenoise': lambda s: 1. / s,
}
