"""C16: inconsistent configurations are rejected, valid ones accepted, and a corrected study works."""
import copy
import itertools
import numpy as np
from .. import ref, specs
from ..specs import static, indep, grw, cp, bp, comb, serial, regime, notequal, alpha, det
from ..common import bl, outcome, compare_outcomes

RULE = ('all single defects of all valid configurations of a menu (study type x observation model x transition model x data), in a '
        'fresh and in a previously fitted study; oracle: exception class of the documentation, no result in a fresh study, and after '
        'the correction all results equal those of a newly created study; the valid neighbours of every defect must be accepted')
BOUNDS = {'quick': '4 study types, 3 observation models, 12 transition models with up to 5 elements, every position/pair/length/shape of a defect',
          'thorough': 'additionally all pairs of defects, each corrected one after the other'}
CHUNK = 8

GRIDS = {'one': [[.1, .4, .7, 1.]], 'two': [[.1, .5, .9], [.2, .7]], 'square': [[.1, .5, .9], [.2, .5, .8]]}
DATA = [1, 4, 0, 2, 5]
# valid transition models of each study type; values may be lists (hyper-study)
TMS = {
    'Study': {
        'static': static(), 'grw': grw(.2), 'comb': comb(grw(.2), regime(-3.)), 'cps': comb(cp(1, 't1'), cp(3, 't2')),
        'two': comb(grw(.2), grw(.1, n='s2')),
        'serial': serial(static(), bp(1, 't1'), grw(.2), bp(3, 't2'), grw(.3, n='s2')),
        'serialcp': serial(grw(.2), cp(2, 't1'), regime(-3.)),
        'nested': comb(serial(static(), bp(1, 't1'), grw(.2)), grw(.1, n='s2')),
        'deep': comb(comb(grw(.1, n='s1'), cp(2, 't1')), comb(grw(.2, n='s2'), regime(-3.))),
    },
    'HyperStudy': {
        'grw': grw([.1, .2]), 'comb': comb(grw([.1, .2]), regime([-4., -2.])), 'cps': comb(cp([0, 1], 't1'), cp([2, 3], 't2')),
        'serial': serial(static(), bp([1, 2], 't1'), grw([.2, .3, .5])), 'serial2': serial(static(), bp([0, 1], 't1'), static(), bp([2, 3], 't2'), grw(.3)),
        'serialcp': serial(grw(.2), cp([1, 2], 't1'), regime(-3.)),
    },
    'ChangepointStudy': {
        'cp': cp('all', 't1'), 'cps': comb(cp('all', 't1'), cp([1, 2, 3], 't2')), 'cpgrw': comb(cp([1, 3], 't1'), grw([.1, .2])),
        'serial': serial(static(), bp('all', 't1'), grw([.2, .4])), 'serial2': serial(static(), bp('all', 't1'), static(), bp([2, 3], 't2'), grw(.3)),
    },
    'OnlineStudy': {'grw': grw([.1, .2]), 'comb': comb(grw([.1, .2]), regime([-4., -2.])), 'static': static(),
                    'serial': serial(static(), bp(1, 't1'), grw(.2))},
}


# ------------------------------------------------------------------------------------------------------ configurations
class Broken(object):
    """element whose construction raises; the construction is part of the history"""
    def __init__(self, make):
        self.make = make


def element(b, spec):
    return specs.real_tm(b, spec)


def real(b, spec):
    return spec.make(b) if isinstance(spec, Broken) else specs.real_tm(b, spec)


def om_real(b, gridname, **kw):
    g = GRIDS[gridname]
    args = []
    for n, v in zip(specs.NAMES, g):
        args += [n, np.array(v)]
    return b.om.NumPy(specs.LIKE[len(g)], *args, **kw)


def apply(S, what, value):
    """one configuration step, through the public interface"""
    b = bl()
    if what == 'data':
        S.loadData(value(b) if callable(value) else value, silent=True)
    elif what == 'om':
        S.set(value(b), silent=True)
    elif what == 'tm':
        if type(S).__name__ == 'OnlineStudy':
            S.setTransitionModel(value(b), silent=True)
        else:
            S.set(value(b), silent=True)
    elif what == 'set':
        S.set(*value(b), silent=True)
    elif what == 'call':
        value(S)


def analyse(S):
    if type(S).__name__ == 'OnlineStudy':
        for x in DATA[:3]:
            S.step(float(x))
    else:
        S.fit(silent=True)


def new_study(cls):
    b = bl()
    return getattr(b, cls)(silent=True, **({'storeHistory': True} if cls == 'OnlineStudy' else {}))


def good(cls, grid, tmname):
    """steps of the valid configuration"""
    steps = [] if cls == 'OnlineStudy' else [('data', lambda b: np.array(DATA, dtype=float))]
    steps.append(('om', lambda b: om_real(b, grid, prior=specs.PRIORS['lin', len(GRIDS[grid])])))
    steps.append(('tm', lambda b: real(b, TMS[cls][tmname])))
    return steps


# ------------------------------------------------------------------------------------------------------------- defects
def leaves(spec, path=()):
    """paths of all elements with hyper-parameters: (path, index of the name)"""
    out = []
    for i, n in enumerate(spec.get('n', [])):
        out.append((path, i, n))
    for j, m in enumerate(spec.get('m', [])):
        out += leaves(m, path + (j,))
    return out


def modified(spec, path, f):
    s = dict(spec)
    if not path:
        return f(copy.deepcopy(s))
    s['m'] = list(s['m'])
    s['m'][path[0]] = modified(s['m'][path[0]], path[1:], f)
    return s


def rename(spec, leaf, name):
    def f(s):
        s['n'][leaf[1]] = name
        return s
    return modified(spec, leaf[0], f)


def serials(spec, path=()):
    out = [path] if spec['k'] == 'serial' else []
    for j, m in enumerate(spec.get('m', [])):
        out += serials(m, path + (j,))
    return out


def combs(spec, path=()):
    out = [path] if spec['k'] == 'comb' else []
    for j, m in enumerate(spec.get('m', [])):
        out += combs(m, path + (j,))
    return out


def at(spec, path):
    for j in path:
        spec = spec['m'][j]
    return spec


def defects(cls, grid, tmname):
    """
    list of (name, step to replace or None, replacement or None to drop it, exception classes)
    """
    out = []
    CE, NI = 'ConfigurationError', 'NotImplementedError'
    tm = TMS[cls][tmname]
    online = cls == 'OnlineStudy'
    dims = [len(v) for v in GRIDS[grid]]
    d = len(dims)
    # data
    if not online:
        out.append(('no data', 'data', None, CE))
        out.append(('empty data', 'data', lambda b: np.array([]), CE))
        for bad in ((1., 2.), 'data', 3., None, {1: 2}):
            out.append(('data of type %s' % type(bad).__name__, 'data', (lambda x: lambda b: x)(bad), CE))
    # observation model
    out.append(('no observation model', 'om', None, CE))
    shapes = set()
    for k in (1, 2, 3):
        for s in itertools.product(sorted({1, dims[0], dims[-1], dims[0] + 1}), repeat=k):
            shapes.add(s)
    shapes |= {(int(np.prod(dims)),), tuple(reversed(dims)), tuple(dims) + (1,), (1,) + tuple(dims)}
    for s in sorted(shapes):
        if s != tuple(dims):
            out.append(('prior of shape %s' % (s,), 'om', (lambda s: lambda b: om_real(b, grid, prior=np.ones(s)))(s), CE))

    def rvs(n, free=None, foreign=None):
        import sympy
        import sympy.stats
        o = [sympy.stats.Normal('q%d' % i, 0, 1) for i in range(n)]
        if free is not None:
            o[free] = sympy.stats.Normal('q', 0, sympy.Symbol('width', positive=True))
        if foreign is not None:
            o[foreign] = 1.
        return o
    for n in range(0, 5):
        if n != d:
            out.append(('%d priors' % n, 'om', (lambda n: lambda b: om_real(b, grid, prior=rvs(n)))(n), CE))
            if n == 1:
                out.append(('single random variable', 'om', lambda b: om_real(b, grid, prior=rvs(1)[0]), CE))
    for i in range(d):
        out.append(('free parameter in prior %d' % i, 'om', (lambda i: lambda b: om_real(b, grid, prior=rvs(d, free=i)))(i), CE))
        out.append(('number as prior %d' % i, 'om', (lambda i: lambda b: om_real(b, grid, prior=rvs(d, foreign=i)))(i), CE))
    out.append(('two observation models', 'om', lambda b: (_ for _ in ()).throw(AssertionError), 'skip'))
    out.pop()
    if not online:
        out.append(('parameter values cannot be estimated', 'om',
                    lambda b: b.om.NumPy(specs.LIKE[d], *sum([[n, None] for n in specs.NAMES[:d]], [])), CE))
    # transition model
    out.append(('no transition model', 'tm', None, CE))
    out.append(('break-point as transition model', 'tm', lambda b: b.tm.BreakPoint('tz', 1), CE))
    for p in combs(tm):
        c = at(tm, p)
        for j in range(len(c['m']) + 1):
            def ins(s, j=j):
                s['m'].insert(j, bp(2, 'tz'))
                return s
            out.append(('break-point at position %d of a combined model' % j, 'tm', (lambda s: lambda b: real(b, s))(modified(tm, p, ins)), CE))
    ls = leaves(tm)
    for a, c in itertools.permutations(range(len(ls)), 2):
        if ls[a][2] != ls[c][2]:
            out.append(('hyper-parameter %s named %s' % (ls[a][2], ls[c][2]), 'tm', (lambda s: lambda b: real(b, s))(rename(tm, ls[a], ls[c][2])), CE))
    for p in serials(tm):
        s0 = at(tm, p)
        for j in range(len(s0['m'])):
            def drop(s, j=j):
                del s['m'][j]
                return s

            def dup(s, j=j):
                e = copy.deepcopy(s['m'][j])
                if e['k'] in ('bp', 'cp') and not isinstance(e['v'][0], str):
                    e['v'] = [(max(e['v'][0]) if isinstance(e['v'][0], list) else e['v'][0]) + 1]
                e['n'] = [n + 'x' for n in e['n']]
                s['m'].insert(j + 1, e)
                return s
            out.append(('element %d of a serial model missing' % j, 'tm', (lambda s: lambda b: real(b, s))(modified(tm, p, drop)), CE))
            out.append(('element %d of a serial model twice' % j, 'tm', (lambda s: lambda b: real(b, s))(modified(tm, p, dup)), CE))
        pts = [j for j, m in enumerate(s0['m']) if m['k'] in ('bp', 'cp')]
        if len(pts) > 1 and cls == 'Study':
            for vals in itertools.product(range(0, 5), repeat=len(pts)):
                if all(x < y for x, y in zip(vals, vals[1:])):
                    continue

                def reorder(s, vals=vals):
                    for j, v in zip(pts, vals):
                        s['m'][j]['v'] = [v]
                    return s
                out.append(('break-points at %s' % (vals,), 'tm', (lambda s: lambda b: real(b, s))(modified(tm, p, reorder)), CE))
    # hyper-priors
    if cls != 'Study':
        import sympy
        for leaf in ls:
            e = at(tm, leaf[0])
            v = e['v'][leaf[1]]
            if isinstance(v, str) or not isinstance(v, list):
                continue
            for n in (len(v) - 1, len(v) + 1, 2 * len(v)):
                if n < 1:
                    continue

                def wrong(s, n=n, i=leaf[1]):
                    s['p'] = list(s['p'])
                    s['p'][i] = ['array', [1.] * n]
                    return s
                out.append(('hyper-prior of length %d for %s' % (n, leaf[2]), 'tm', (lambda s: lambda b: real(b, s))(modified(tm, leaf[0], wrong)), CE))

            def free(s, i=leaf[1]):
                s['p'] = list(s['p'])
                s['p'][i] = ['sympy', 'Normal', [0, sympy.Symbol('width', positive=True)]]
                return s
            out.append(('free parameter in the hyper-prior of %s' % leaf[2], 'tm', (lambda s: lambda b: real(b, s))(modified(tm, leaf[0], free)), CE))
    # study types
    if cls == 'HyperStudy':
        menu = [[0, 1], [1, 2], [2, 3], [0, 3], [1], 2]
        for x, y in itertools.product(menu, repeat=2):
            vx, vy = specs.aslist(x), specs.aslist(y)
            if set(vx) & set(vy):
                out.append(('change-points %s %s' % (x, y), 'tm', (lambda x, y: lambda b: real(b, comb(cp(x, 't1'), cp(y, 't2'))))(x, y), CE))
                if min(vx) < min(vy) and vx[0] < vy[0]:
                    out.append(('break-points %s %s' % (x, y), 'tm', (lambda x, y: lambda b: real(b, serial(static(), bp(x, 't1'), static(), bp(y, 't2'), static())))(x, y), CE))
    if cls == 'ChangepointStudy':
        for bad in (static(), grw([.1, .2]), comb(grw(.1), regime([-3., -2.])), comb(static(), indep())):
            out.append(('no change-points (%s)' % bad['k'], 'tm', (lambda s: lambda b: real(b, s))(bad), CE))
        for bad in (comb(cp(1, 't1'), serial(static(), bp(2, 't2'), static())), comb(serial(static(), bp(2, 't2'), static()), cp('all', 't1')),
                    serial(comb(static(), cp(1, 't1')), bp(2, 't2'), static())):
            out.append(('change- and break-points', 'tm', (lambda s: lambda b: real(b, s))(bad), NI))
        for bad in (comb(serial(static(), bp(1, 't1'), static()), serial(static(), bp(2, 't2'), static())),
                    serial(serial(static(), bp(1, 't1'), static()), bp(2, 't2'), static()),
                    comb(comb(serial(static(), bp(1, 't1'), static()), static()), serial(static(), bp('all', 't2'), static()))):
            out.append(('several serial models', 'tm', (lambda s: lambda b: real(b, s))(bad), NI))
        for x, y in itertools.product([0, 1, [1, 2], [2, 3], 3], repeat=2):
            if min(specs.aslist(x)) >= max(specs.aslist(y)):
                out.append(('change-points %s %s' % (x, y), 'tm', (lambda x, y: lambda b: real(b, comb(cp(x, 't1'), cp(y, 't2'))))(x, y), CE))
    return out


def unsupported(cls):
    """operations that a study type does not support"""
    out = []
    if cls in ('HyperStudy', 'ChangepointStudy', 'OnlineStudy'):
        out += [('optimize()', lambda S: S.optimize()), ('optimize(name)', lambda S: S.optimize(['sigma']))]
    if cls == 'OnlineStudy':
        out += [('fit()', lambda S: S.fit()), ('fit(silent)', lambda S: S.fit(silent=True)),
                ('joint distribution', lambda S: S.getJointHyperParameterDistribution(['sigma', 'tc'])),
                ('getJHPD', lambda S: S.getJHPD(['sigma', 'tc']))]
    return out


def constructors():
    """(name, function, exception class): models that cannot be created"""
    import scipy.stats
    import sympy
    import sympy.stats
    b = bl()
    CE = 'ConfigurationError'
    v = [.1, .5, .9]
    out = []
    for bad in (None, 3, 'function', [1]):
        out.append(('NumPy(%r)' % (bad,), (lambda x: lambda: b.om.NumPy(x, 'a', v))(bad), CE))
        out.append(('SciPy(%r)' % (bad,), (lambda x: lambda: b.om.SciPy(x, 'loc', v))(bad), CE))
        out.append(('SymPy(%r)' % (bad,), (lambda x: lambda: b.om.SymPy(x, 'a', v))(bad), CE))
    out.append(('SciPy with a SymPy variable', lambda: b.om.SciPy(sympy.stats.Normal('n', 0, 1), 'loc', v), CE))
    out.append(('SymPy with a SciPy variable', lambda: b.om.SymPy(scipy.stats.norm, 'loc', v), CE))
    for n in range(0, 5):
        for k, f in specs.LIKE.items():
            args = []
            for i in range(n):
                args += ['abcd'[i], v]
            out.append(('NumPy function of %d parameters with %d' % (k, n), (lambda f, a: lambda: b.om.NumPy(f, *a))(f, args), None if n == k else CE))

    def wrong(x, a):
        return a
    out.append(('NumPy function without data', lambda: b.om.NumPy(wrong, 'a', v), CE))

    def right(data, a):
        return a
    out.append(('NumPy function', lambda: b.om.NumPy(right, 'a', v), None))
    for names in itertools.product(['loc', 'scale', 'df', 'mu'], repeat=2):
        if names[0] == names[1]:
            continue
        args = [names[0], v, names[1], v]
        for dist, ok in ((scipy.stats.norm, {'loc', 'scale'}), (scipy.stats.t, {'loc', 'scale', 'df'}), (scipy.stats.poisson, {'mu', 'loc'})):
            out.append(('SciPy %s with %s' % (dist.name, names), (lambda d, a: lambda: b.om.SciPy(d, *a))(dist, args), None if set(names) <= ok else CE))
            out.append(('SciPy %s with %s, loc fixed' % (dist.name, names), (lambda d, a: lambda: b.om.SciPy(d, *a, fixedParameters={'loc': 0}))(dist, args),
                        None if set(names) <= ok - {'loc'} else CE))
    m, s = sympy.Symbol('m', real=True), sympy.Symbol('s', positive=True)
    rv = sympy.stats.Normal('n', m, s)
    for names in itertools.product(['m', 's', 'x'], repeat=2):
        if names[0] == names[1]:
            continue
        out.append(('SymPy normal with %s' % (names,), (lambda a: lambda: b.om.SymPy(rv, *a, determineJeffreysPrior=False))([names[0], v, names[1], v]),
                    None if set(names) == {'m', 's'} else CE))
    for cls in ('NumPy', 'SciPy', 'SymPy'):
        first = {'NumPy': right, 'SciPy': scipy.stats.expon, 'SymPy': sympy.stats.Exponential('e', s)}[cls]
        name = {'NumPy': 'a', 'SciPy': 'scale', 'SymPy': 's'}[cls]
        for kw in ('priors', 'Prior', 'silent'):
            out.append(('%s(%s=...)' % (cls, kw), (lambda c, f, n, k: lambda: getattr(b.om, c)(f, n, v, **{k: None}))(cls, first, name, kw), 'TypeError'))
    out.append(('random walk without target', lambda: b.tm.GaussianRandomWalk('s', .1), CE))
    out.append(('random walk', lambda: b.tm.GaussianRandomWalk('s', .1, target='a'), None))
    out.append(('alpha-stable walk without target', lambda: b.tm.AlphaStableRandomWalk('c', .1, 'alpha', 1.5), CE))
    out.append(('alpha-stable walk', lambda: b.tm.AlphaStableRandomWalk('c', .1, 'alpha', 1.5, target='a'), None))
    out.append(('deterministic model without target', lambda: b.tm.Deterministic(lambda t, s=1: s * t), CE))

    def f0(t, q, s=1):
        return s * t

    def f1(t, s=1):
        return s * t

    def f2(t, s=1, q=2):
        return s * t
    out.append(('deterministic model, two arguments without default', lambda: b.tm.Deterministic(f0, target='a'), CE))
    for f, k in ((f1, 1), (f2, 2)):
        out.append(('deterministic model of %d' % k, (lambda f: lambda: b.tm.Deterministic(f, target='a'))(f), None))
        for n in range(0, 4):
            out.append(('deterministic model of %d with %d priors' % (k, n), (lambda f, n: lambda: b.tm.Deterministic(f, target='a', prior=[None] * n))(f, n), None if n == k else CE))
    # serial models: all sequences of models and points
    for n in range(0, 6):
        for kinds in itertools.product('mbc', repeat=n):
            pts = 0
            spec = []
            for k in kinds:
                if k == 'm':
                    spec.append(static())
                else:
                    pts += 1
                    spec.append(bp(pts, 't%d' % pts) if k == 'b' else cp(pts, 't%d' % pts))
            ok = len(spec) - pts == pts + 1
            out.append(('serial model %s' % ''.join(kinds), (lambda s: lambda: real(bl(), serial(*s)))(spec), None if ok else CE))
    for vals in itertools.product([0, 1, 2, [0, 2], [1, 3], 'all'], repeat=2):
        first = [x if isinstance(x, str) else specs.aslist(x)[0] for x in vals]
        ok = 'all' in first or first[0] < first[1]
        for kinds in itertools.product('bc', repeat=2):
            pts = [bp(x, 't%d' % i) if k == 'b' else cp(x, 't%d' % i) for i, (x, k) in enumerate(zip(vals, kinds))]
            out.append(('serial model with %s at %s' % (kinds, vals), (lambda p: lambda: real(bl(), serial(static(), p[0], static(), p[1], static())))(pts), None if ok else CE))
    out.append(('parser without study', lambda: b.Parser(), CE))
    return out


def settings(cls):
    for tmname in TMS[cls]:
        for grid in GRIDS:
            if grid == 'square' and tmname not in ('grw', 'static', 'cp'):
                continue
            yield grid, tmname


def cases(tier):
    out = []
    for cls in TMS:
        for grid, tmname in settings(cls):
            ds = defects(cls, grid, tmname)
            for i, dname in enumerate(d[0] for d in ds):
                for history in ('fresh', 'fitted') if cls != 'OnlineStudy' else ('fresh',):
                    if history == 'fitted' and (tier == 'quick' and i % 3 and 'shape' in dname):
                        continue
                    out.append({'part': 'defect', 'cls': cls, 'grid': grid, 'tm': tmname, 'defect': i, 'name': dname, 'history': history})
            if tier != 'quick' and grid == 'two':
                for i, j in itertools.combinations(range(len(ds)), 2):
                    if ds[i][1] != ds[j][1]:
                        out.append({'part': 'pair', 'cls': cls, 'grid': grid, 'tm': tmname, 'defects': [i, j]})
            out.append({'part': 'valid', 'cls': cls, 'grid': grid, 'tm': tmname})
            for i in range(len(unsupported(cls))):
                for when in ('empty', 'configured', 'fitted'):
                    out.append({'part': 'unsupported', 'cls': cls, 'grid': grid, 'tm': tmname, 'op': i, 'when': when})
    for i, c in enumerate(constructors()):
        out.append({'part': 'construct', 'i': i, 'name': c[0]})
    for cls in ('Study', 'HyperStudy', 'ChangepointStudy'):
        for i in range(len(set_defects())):
            out.append({'part': 'set', 'cls': cls, 'i': i})
    for k in (1, 2, 3):
        for n in range(0, 5):
            out.append({'part': 'tmprior', 'models': k, 'n': n})
    for a, b2 in itertools.product([['sigma'], ['s2'], ['sigma', 'log10pMin'], []], repeat=2):
        out.append({'part': 'online names', 'a': a, 'b': b2})
    for cls in ('HyperStudy', 'ChangepointStudy'):
        for x, y in itertools.product([[0, 1], [1, 2], [2, 3], [0, 3], 1, 2, [3]], repeat=2):
            out.append({'part': 'accept', 'cls': cls, 'x': x, 'y': y})
    for om in ('ar1', 'scaledar1', 'seg2', 'table'):
        out.append({'part': 'simulate', 'om': om})
    for i in range(5):
        out.append({'part': 'jeffreys', 'i': i})
    out.append({'part': 'parser names'})
    return out


def set_defects():
    """(name, arguments of set)"""
    o = lambda b: om_real(b, 'one')
    t = lambda b: b.tm.ChangePoint('t1', 1)
    return [('two observation models', lambda b: (o(b), o(b))), ('two transition models', lambda b: (t(b), t(b))),
            ('two observation models around', lambda b: (o(b), t(b), o(b))), ('number', lambda b: (3,)), ('None', lambda b: (None,)),
            ('class', lambda b: (b.om.Poisson,)), ('transition model class', lambda b: (o(b), b.tm.Static)), ('string', lambda b: ('Poisson', t(b)))]


def raised(f):
    try:
        f()
    except Exception as e:
        return e
    return None


def is_class(e, names):
    """documented exception, or one derived from it"""
    return e is not None and any(c.__name__ in names.split('|') for c in type(e).__mro__)


def try_steps(S, steps):
    """applies the steps and analyses; returns the first exception (later steps are still applied, as a user would)"""
    first = None
    for what, value in steps:
        e = raised(lambda: apply(S, what, value))
        first = first or e
    if first is None:
        first = raised(lambda: analyse(S))
    return first


def no_result(rec, S, where):
    rec.ok(not np.any(np.asarray(S.posteriorSequence)) and len(S.posteriorMeanValues) == 0 and not S.logEvidence,
           where + 'results were stored although the configuration was rejected')


def reference(cls, grid, tmname):
    key = (cls, grid, tmname)
    if key not in _cache:
        N = new_study(cls)
        for what, value in good(*key):
            apply(N, what, value)
        analyse(N)
        _cache[key] = outcome(N)
    return _cache[key]


_cache = {}


def run(case, rec):
    b = bl()
    part = case['part']
    rec.traces += 1
    rec.transitions += 1
    rec.state(*sorted((k, str(v)) for k, v in case.items()))
    if part in ('defect', 'pair'):
        cls, grid, tmname = case['cls'], case['grid'], case['tm']
        steps = good(cls, grid, tmname)
        want = reference(cls, grid, tmname)
        ds = defects(cls, grid, tmname)
        chosen = [ds[i] for i in (case['defects'] if part == 'pair' else [case['defect']])]
        S = new_study(cls)
        if case.get('history') == 'fitted':
            e = try_steps(S, steps)
            rec.ok(e is None, 'valid configuration was rejected: %r' % (e,))
        bad = list(steps)
        for name, what, value, exc in chosen:
            bad = [(w, value if w == what else v) for w, v in bad]
        bad = [(w, v) for w, v in bad if v is not None]
        if case.get('history') == 'fitted':
            dropped = [d for d in chosen if d[2] is None]
            if dropped:           # nothing is missing in a study that was already configured
                return
        e = try_steps(S, bad)
        name = ' and '.join(d[0] for d in chosen)
        where = '%s with %s (%s): ' % (cls, name, tmname)
        rec.ok(is_class(e, '|'.join(d[3] for d in chosen)), where + 'raised %r, expected %s' % (e, chosen[0][3]))
        if case.get('history') != 'fitted':
            no_result(rec, S, where)
        if part == 'pair':        # correct one of them: still rejected
            what = chosen[0][1]
            raised(lambda: [apply(S, w, v) for w, v in steps if w == what])
            rest = [(w, v) for w, v in bad if w == chosen[1][1]]
            e = try_steps(S, rest)
            rec.ok(is_class(e, chosen[1][3]), where + 'after correcting the first: raised %r, expected %s' % (e, chosen[1][3]))
        # correct what was wrong
        for what, value in steps:
            if any(d[1] == what for d in chosen):
                e = raised(lambda: apply(S, what, value))
                rec.ok(e is None, where + 'correction was rejected: %r' % (e,))
        e = raised(lambda: analyse(S))
        rec.ok(e is None, where + 'corrected study fails: %r' % (e,))
        compare_outcomes(rec, where + 'after the correction', outcome(S), want)
    elif part == 'valid':
        cls, grid, tmname = case['cls'], case['grid'], case['tm']
        out = reference(cls, grid, tmname)
        rec.ok(np.isfinite(out['logE']), 'log-evidence %r' % out['logE'])
        st = specs.Setting({'grid': GRIDS[grid], 'prior': ['func', 'lin']})
        if cls == 'Study':
            tm = specs.ref_tm(TMS[cls][tmname])
            like = st.like(specs.num(DATA))
            r = ref.fit(st.grid, st.prior, like, list(range(len(DATA))), tm, 'full', ())
            from ..common import quirk_set
            q = ref.fit(st.grid, st.prior, like, list(range(len(DATA))), tm, 'full', quirk_set(tm))
            rec.ok(abs(out['logE'] - r['logE']) < 1e-9 or abs(out['logE'] - q['logE']) < 1e-9, 'log-evidence %r, expected %r' % (out['logE'], r['logE']))
        # every order of the configuration steps is accepted
        steps = good(cls, grid, tmname)
        for perm in itertools.permutations(steps):
            S = new_study(cls)
            e = try_steps(S, perm)
            rec.ok(e is None, 'valid configuration in the order %s was rejected: %r' % ([s[0] for s in perm], e))
            compare_outcomes(rec, 'order %s' % [s[0] for s in perm], outcome(S), out)
    elif part == 'unsupported':
        cls, grid, tmname = case['cls'], case['grid'], case['tm']
        name, op = unsupported(cls)[case['op']]
        S = new_study(cls)
        steps = good(cls, grid, tmname)
        want = reference(cls, grid, tmname)
        if case['when'] != 'empty':
            for s in steps:
                apply(S, *s)
        if case['when'] == 'fitted':
            analyse(S)
        e = raised(lambda: op(S))
        rec.ok(isinstance(e, NotImplementedError), '%s.%s raised %r, expected NotImplementedError' % (cls, name, e))
        if case['when'] == 'empty':
            for s in steps:
                apply(S, *s)
        if case['when'] != 'fitted':
            no_result(rec, S, name + ' ')
            analyse(S)
        compare_outcomes(rec, 'after the rejected %s' % name, outcome(S), want)
    elif part == 'construct':
        name, f, exc = constructors()[case['i']]
        e = raised(f)
        if exc is None:
            rec.ok(e is None, '%s was rejected: %r' % (name, e))
        else:
            rec.ok(is_class(e, exc), '%s raised %r, expected %s' % (name, e, exc))
    elif part == 'set':
        cls = case['cls']
        name, f = set_defects()[case['i']]
        tmname = {'Study': 'grw', 'HyperStudy': 'grw', 'ChangepointStudy': 'cp'}[cls]
        steps = good(cls, 'two', tmname)
        want = reference(cls, 'two', tmname)
        for history in ('fresh', 'fitted'):
            S = new_study(cls)
            if history == 'fitted':
                e = try_steps(S, steps)
                rec.ok(e is None, 'valid configuration rejected: %r' % (e,))
            e = raised(lambda: apply(S, 'set', f))
            rec.ok(is_class(e, 'ConfigurationError'), 'set with %s raised %r' % (name, e))
            e = try_steps(S, steps)
            rec.ok(e is None, 'valid configuration rejected after a failed set: %r' % (e,))
            compare_outcomes(rec, 'after a failed set', outcome(S), want)
        e = raised(lambda: b.Study(silent=True).set(om_real(b, 'one'), quiet=True))
        rec.ok(isinstance(e, TypeError), 'set with an unknown keyword raised %r' % (e,))
    elif part == 'tmprior':
        def make():
            S = new_study('OnlineStudy')
            S.set(om_real(b, 'two'), silent=True)
            for i in range(case['models']):
                S.addTransitionModel('m%d' % i, b.tm.GaussianRandomWalk('s%d' % i, .1 + .2 * i, target='a'))
            return S
        S = make()
        weights = [1. + .5 * i for i in range(case['n'])]
        e = raised(lambda: S.setTransitionModelPrior(weights, silent=True))
        if case['n'] == case['models']:
            rec.ok(e is None, 'transition model prior was rejected: %r' % (e,))
            analyse(S)
            return
        rec.ok(is_class(e, 'ConfigurationError'), '%d prior values for %d transition models: %r' % (case['n'], case['models'], e))
        N = make()
        right = [.5 + i for i in range(case['models'])]
        for X in (S, N):
            X.setTransitionModelPrior(right, silent=True)
            analyse(X)
        compare_outcomes(rec, 'after a rejected transition model prior', outcome(S), outcome(N))
    elif part == 'online names':
        S = new_study('OnlineStudy')
        S.set(om_real(b, 'two'), silent=True)

        def model(names):
            ms = [b.tm.GaussianRandomWalk(n, [.1, .2], target='a') for n in names]
            return b.tm.Static() if not ms else ms[0] if len(ms) == 1 else b.tm.CombinedTransitionModel(*ms)
        S.addTransitionModel('first', model(case['a']))
        S.addTransitionModel('second', model(case['b']))
        e = raised(lambda: analyse(S))
        if set(case['a']) & set(case['b']):
            rec.ok(is_class(e, 'ConfigurationError'), 'hyper-parameters %s and %s: %r' % (case['a'], case['b'], e))
            no_result(rec, S, '')
        else:
            rec.ok(e is None, 'hyper-parameters %s and %s were rejected: %r' % (case['a'], case['b'], e))
        e = raised(lambda: S.addTransitionModel('third', b.tm.BreakPoint('tz', 1)))
        rec.ok(is_class(e, 'ConfigurationError'), 'break-point as transition model: %r' % (e,))
    elif part == 'accept':
        # pairs of change-points that have no common value (HyperStudy) or an ordered combination (ChangepointStudy)
        x, y, cls = case['x'], case['y'], case['cls']
        vx, vy = specs.aslist(x), specs.aslist(y)
        S = new_study(cls)
        S.loadData(np.array(DATA, dtype=float), silent=True)
        S.set(om_real(b, 'one'), real(b, comb(cp(x, 't1'), cp(y, 't2'))), silent=True)
        e = raised(lambda: S.fit(silent=True))
        ok = not (set(vx) & set(vy)) if cls == 'HyperStudy' else min(vx) < max(vy)
        if ok:
            rec.ok(e is None, '%s with change-points %s, %s was rejected: %r' % (cls, x, y, e))
            rec.ok(np.isfinite(S.logEvidence), 'log-evidence %r' % S.logEvidence)
        else:
            rec.ok(is_class(e, 'ConfigurationError'), '%s with change-points %s, %s: %r' % (cls, x, y, e))
    elif part == 'simulate':
        st = specs.Setting({'om': case['om'], 'grid': [[-.5, 0., .5], [.5, 1.]] if 'ar1' in case['om'] else [[.1, .5, .9]]})
        S = b.Study(silent=True)
        S.loadData(np.array([.1, .3, .2, .4]), silent=True)
        S.set(st.real(b), b.tm.Static(), silent=True)
        S.fit(silent=True)
        before = outcome(S)
        for t in (None, 2):
            e = raised(lambda: S.simulate([.1, .2], t=t))
            if st.seglen > 1:
                rec.ok(isinstance(e, NotImplementedError), 'simulate with segments: %r' % (e,))
            else:
                rec.ok(e is None, 'simulate was rejected: %r' % (e,))
        compare_outcomes(rec, 'after simulate', outcome(S), before)
    elif part == 'jeffreys':
        from bayesloop.jeffreys import computeJeffreysPriorAR1
        S = b.Study(silent=True)
        i = case['i']
        if i != 2:
            S.loadData(np.array([.1, .3, .2]), silent=True)
        oms = [lambda: b.om.Gaussian('m', [0., 1.], 's', [1., 2.]), lambda: b.om.AR1('r', [-1., 0., 1.], 's', [1., 2.]), lambda: b.om.AR1('r', [-.5, .5], 's', [1., 2.]),
               lambda: b.om.AR1('r', [-.5, .5], 's', [1., 2.]), lambda: b.om.ScaledAR1('r', [-.5, .5], 's', [1., 2.])]
        S.set(oms[i](), b.tm.Static(), silent=True)
        e = raised(lambda: computeJeffreysPriorAR1(S))
        if i < 3:
            rec.ok(is_class(e, 'ConfigurationError'), 'Jeffreys prior %d: %r' % (i, e))
        else:
            rec.ok(e is None, 'Jeffreys prior %d was rejected: %r' % (i, e))
    elif part == 'parser names':
        def fitted(names, hyper, cls='HyperStudy'):
            S = new_study(cls)
            S.loadData(np.array(DATA, dtype=float), silent=True)
            S.set(b.om.NumPy(specs.like2, names[0], [.1, .5, .9], names[1], [.2, .7]), b.tm.GaussianRandomWalk(hyper, [.1, .3], target=names[0]), silent=True)
            S.fit(silent=True)
            return S
        menu = [('a', 'b', 's'), ('c', 'd', 's2'), ('a', 'd', 's2'), ('c', 'd', 's'), ('c', 's', 's2'), ('c', 'd', 'a'), ('a', 'b', 'a')]
        studies = [fitted(m[:2], m[2]) for m in menu]
        for i, j in itertools.product(range(len(menu)), repeat=2):
            e = raised(lambda: b.Parser(studies[i], studies[j]))
            names = list(menu[i]) + list(menu[j])
            if len(set(names)) < len(names):
                rec.ok(is_class(e, 'ConfigurationError'), 'parser with duplicate names %s: %r' % (names, e))
            else:
                rec.ok(e is None, 'parser with %s was rejected: %r' % (names, e))
