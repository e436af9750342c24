"""C12: post-processing reads, never changes, and all accessors agree."""
import itertools
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, comb, serial, regime
from ..common import bl, study, outcome, compare_outcomes
from ..runner import same

RULE = ('all sequences of post-processing calls (accessors, plots, evaluations, failing calls) up to the depth bound on a '
        'newly fitted study, each answer checked when it is given, and all accessors checked afterwards; oracle: marginals '
        'of the posterior sequence and of the reference hyper-parameter distribution; for online studies the values that '
        'were current at each step in studies that were never queried before; plots must show the same numbers')
BOUNDS = {'quick': 'every call, and every pair of one call per method, on a newly fitted study, each followed by all accessors (and two more steps of an online study); 21 studies of all types, 1-D to 3-D grids, 1 to 5 time steps; 8 larger studies (up to 252 grid points, 4 parameters, 24 time steps, 36 combinations), every call once in both orders',
          'thorough': 'every call followed by every failing or plotting call (one per method), and triples of the latter that end with a plot, same studies'}
CHUNK = 1

G1 = [0., .25, .5, .75, 1.]
# name: (class, setting, transition model(s), data, time stamps)
CONF = {
    'S1': ('Study', {'grid': [G1]}, grw(.3), [0, 3, 1, 2], None),
    'S2': ('Study', {'grid': [[.1, .5, .9], [.2, .4, .6, .8]], 'prior': ['func', 'lin']}, comb(grw(.2), regime(-2.)), [0, 3, 1, 2], [3, 4, 5, 6]),
    'S3': ('Study', {'grid': [[.1, .5, .9], [.2, .7], [0., .2, .4, .6]]}, serial(grw(.2), bp(1), static()), [4, 3, 1], None),
    'Sext': ('Study', {'grid': [G1]}, static(), [9, 2, 10, 9], None),
    'Sex2': ('Study', {'grid': [G1, [.2, .7]]}, cp(1), [9, 2, 10, 9], [2, 3, 5, 8]),
    'Oext': ('OnlineStudy', {'grid': [G1]}, [['G', grw([0., .02])], ['S', static()]], [9, 2, 10, 9], True),
    'Hext': ('HyperStudy', {'grid': [G1]}, grw([0., .02]), [9, 2, 10, 9], None),
    'Sirr': ('Study', {'grid': [[0., .1, .5, .6], [.2, .6, 1.]]}, grw(.2, 'b'), [0, 2, 1, 5], [-2, 1, 1.5, 10]),
    'Sone': ('Study', {'grid': [G1]}, static(), [3], None),
    'Sseg': ('Study', {'om': 'seg2', 'grid': [[.1, .5, .9], [.2, .7]]}, grw(.2), [4, 3, 1, 0], [10, 20, 30, 40]),
    'Sfwd': ('Study', {'grid': [G1, [.1, .3]]}, grw(.3), [0, 3, 1], [0.5, 1.5, 2.5]),
    'H1': ('HyperStudy', {'grid': [G1]}, comb(grw([0., .2, .4], p=['array', [1, 2, 3]]), regime([-2., -1.])), [0, 3, 1, 2], None),
    'H2': ('HyperStudy', {'grid': [[.1, .5, .9], [.2, .7]]}, comb(grw([.1, .2, .5]), regime([-1.])), [0, 3, 1], [3, 4, 7]),
    'H3': ('HyperStudy', {'grid': [[.1, .5, .9]], 'prior': ['func', 'lin']}, comb(grw([.1, .2], n='s1'), grw([.3, .1], n='s2'), regime([-3., -2., -1.])), [0, 3], None),
    'C2': ('ChangepointStudy', {'grid': [[.1, .5, .9]]}, comb(cp('all', 't1'), cp('all', 't2')), [0, 3, 1, 2, 0], None),
    'Cs': ('ChangepointStudy', {'grid': [[.1, .5, .9], [.2, .7]]}, serial(static(), bp([11, 12], 't1'), grw([.2, .4]), bp([12, 13], 't2'), static()), [0, 3, 1, 2, 0], [10, 11, 12, 13, 14]),
    'O1': ('OnlineStudy', {'grid': [G1]}, [['G', grw([0., .2, .4])], ['S', static()]], [0, 3, 1, 2], True),
    'O2': ('OnlineStudy', {'grid': [[.1, .5, .9], [.2, .7]], 'prior': ['func', 'lin']}, [['N', comb(grw([.1, .3]), regime([-2., -1., 0.]))], ['M', grw([.4, .1, .2], n='s2')]], [0, 3, 1], True),
    'On': ('OnlineStudy', {'grid': [[.1, .5, .9], [.2, .7]]}, [['G', grw([.1, .3])], ['S', static()]], [0, 3, 1], False),
    'Oone': ('OnlineStudy', {'grid': [G1]}, [['G', grw([.1, .3])]], [3], True),
    'Oseg': ('OnlineStudy', {'om': 'seg2', 'grid': [[.1, .5, .9]]}, [['G', grw([.1, .3], p=['array', [.7, .3]])], ['R', regime(-1.)]], [3, 1, 4], True),
}
SERIES = [0, 3, 1, 2, 0, 1, 5, 2, 4, 0, 3, 3, 1, 0, 2, 5, 1, 1, 4, 0, 2, 3, 0, 5]
# larger studies: every call once on the same study, in both orders
WIDE = {
    'Ws': ('Study', {'grid': [[round(.02 * i, 10) for i in range(60)]]}, grw(.05), SERIES, [3 * i - 7 for i in range(24)]),
    'Ws2': ('Study', {'grid': [[round(.05 * i, 10) for i in range(21)], [round(.1 * i, 10) for i in range(12)]], 'prior': ['func', 'lin']},
            comb(grw(.1), regime(-5.)), SERIES[:14], None),
    'Ws4': ('Study', {'grid': [[0., .5, 1.], [.1, .4], [.2, .6, 1.], [.3, .5]]}, comb(grw(.2, 'd'), grw(.3, 'c', 'sc')), SERIES[:6], None),
    'Wh': ('HyperStudy', {'grid': [[.1, .3, .5, .7, .9]]}, comb(grw([.1, .2, .3, .4, .5, .6, .7], p=['func', 'lin']), regime([-5., -4., -3., -2., -1.])), SERIES[:12], None),
    'Wh3': ('HyperStudy', {'grid': [[.1, .3, .5, .7, .9]]}, comb(grw([.1, .2, .3, .4], n='s1'), grw([.2, .4, .6], n='s2'), regime([-3., -2., -1.])), SERIES[:8], None),
    'Wc': ('ChangepointStudy', {'grid': [[.1, .3, .5, .7, .9]]}, comb(cp('all', 't1'), cp('all', 't2')), SERIES[:11], [1850 + i for i in range(11)]),
    'Wi': ('HyperStudy', {'grid': [[.1, .3, .5, .7, .9]]}, comb(grw([.1, .2, .5], n='s1'), regime([-5., -4., -2.]), grw([.2, .4, .6], n='s2')), SERIES[:5], None),
    'Wo': ('OnlineStudy', {'grid': [[round(.05 * i, 10) for i in range(21)]]}, [['G', grw([0., .1, .2, .3, .4, .5, .6, .7])], ['S', static()],
           ['R', regime([-6., -4., -2.])], ['T', grw(.15, n='s2')]], SERIES[:16], True),
}
CONF.update(WIDE)
BAD = ['nothing', 'A', '']
BADT = [99, -1.25, 'later']


def build(name):
    cls, spec, tm, data, extra = CONF[name]
    s = specs.Setting(spec)
    if cls == 'OnlineStudy':
        b = bl()
        S = b.OnlineStudy(storeHistory=extra, silent=True)
        S.set(s.real(b), silent=True)
        for n, t in tm:
            S.add(n, specs.real_tm(b, t))
        for x in data:
            S.step(specs.num(x))
        return S
    S = study(cls, s, tm, data, extra)
    S.fit(silent=True, forwardOnly=name == 'Sfwd')
    return S


# ------------------------------------------------------------------------------------------------------- expectations
class Truth(object):
    pass


TRUTH = {}


def truth(name):
    """what the accessors of the study have to answer"""
    if name in TRUTH:
        return TRUTH[name]
    cls, spec, tm, data, extra = CONF[name]
    s = specs.Setting(spec)
    T = Truth()
    T.cls, T.s = cls, s
    g = s.grid
    n = len(data)
    T.hyper = {}
    if cls == 'OnlineStudy':
        T.times = list(range(s.seglen - 1, n))
        T.history = extra
        T.models = [m for m, t in tm]
        T.post, T.tmd, T.loc, T.hpd = [], [], [], {}
        T.values = {}
        for t in T.times:
            marg = []
            for p in g.names:
                S = online(name, t + 1)
                marg.append(S.getCPD(p, density=False)[1])
            T.post.append(marg)
            T.tmd.append(online(name, t + 1).getCTMD()[1])
            T.loc.append(online(name, t + 1).getCTMD(local=True)[1])
            for m, sp in tm:
                for h, v, p in ref.hypers(sp):
                    if isinstance(v, list):
                        T.values[h] = v
                        T.hpd.setdefault(h, []).append(np.ravel(online(name, t + 1).getCHPD(h)[1]))
        T.marg = {p: np.array([x[i] for x in T.post]) for i, p in enumerate(g.names)}
        T.logE = online(name, n).logEvidence
    else:
        ts = list(range(n)) if extra is None else list(extra)
        T.times = ts[s.seglen - 1:]
        like = s.like(specs.num(data))
        rt = specs.ref_tm(tm, T.times[:-1])
        mode = 'forward' if name == 'Sfwd' else 'full'
        post = np.array(build(name).posteriorSequence)        # checked against the reference by C01, C03 and C04
        T.post = post
        T.marg = {p: post.sum(axis=tuple(a + 1 for a in range(len(g.names)) if a != i)) for i, p in enumerate(g.names)}
        T.logE = build(name).logEvidence
        if cls != 'Study':
            ordered = [h for h, v, p in ref.hypers(rt) if h in ('t1', 't2')] if cls == 'ChangepointStudy' else None
            T.res = ref.hyper_fit(g, s.prior, like, T.times, rt, mode, ordered)
            T.values = {h: list(v) for h, v, p in ref.hypers(rt) if isinstance(v, (list, tuple, np.ndarray))}
            T.order = [h for h, v, p in ref.hypers(rt)]
        else:
            T.values = {h: v for h, v, p in ref.hypers(rt)}
    T.mean = {p: T.marg[p].dot(g.values[i]) for i, p in enumerate(g.names)}
    T.Q = queries(name, T)
    T.E = errors(name, T)
    T.P = plots(name, T)
    TRUTH[name] = T
    return T


def online(name, k):
    cls, spec, tm, data, extra = CONF[name]
    CONF['_tmp'] = (cls, spec, tm, data[:k], extra)
    return build('_tmp')


def queries(name, T):
    """list of (description, function of the study, expected arrays)"""
    g, Q = T.s.grid, []

    def add(d, f, *want):
        Q.append((d, f, [np.array(w, dtype=float) if not isinstance(w, list) or not w or not isinstance(w[0], str) else w for w in want]))
    on = T.cls == 'OnlineStudy'
    past = not on or T.history
    for i, p in enumerate(g.names):
        x, m, dx = g.values[i], T.marg[p], g.dx[i]
        if past:
            for k, t in enumerate(T.times):
                last = k in (0, len(T.times) - 1)
                add('getPD(%s, %s)' % (t, p), lambda S, t=t, p=p: S.getPD(t, p), x, m[k] / dx)
                add('getParameterDistribution(%s, %s, density=False)' % (t, p), lambda S, t=t, p=p: S.getParameterDistribution(t, p, density=False), x, m[k])
                if on:
                    add('getParameterMeanValue(%s, %s)' % (t, p), lambda S, t=t, p=p: [S.getParameterMeanValue(t, p)], T.mean[p][k])
            add('getPD(avg, %s)' % p, lambda S, p=p: S.getPD('avg', p), x, m.mean(axis=0) / dx)
            add('getPD(avg, %s, density=False)' % p, lambda S, p=p: S.getPD('avg', p, density=False), x, m.mean(axis=0))
            add('getPDs(%s)' % p, lambda S, p=p: S.getPDs(p), x, m / dx)
            add('getParameterDistributions(%s, density=False)' % p, lambda S, p=p: S.getParameterDistributions(p, density=False), x, m)
            add('getParameterMeanValues(%s)' % p, lambda S, p=p: [S.getParameterMeanValues(p)], T.mean[p])
        if on:
            add('getCPD(%s)' % p, lambda S, p=p: S.getCPD(p), x, m[-1] / dx)
            add('getCurrentParameterDistribution(%s, density=False)' % p, lambda S, p=p: S.getCurrentParameterDistribution(p, density=False), x, m[-1])
            add('getCurrentParameterMeanValue(%s)' % p, lambda S, p=p: [S.getCurrentParameterMeanValue(p)], T.mean[p][-1])
        if past:
            thr = x[len(x) // 2]
            t = T.times[-1]
            if not (isinstance(t, float) or t < 0):
                add('eval(%s > %s, t=%s)' % (p, thr, t), lambda S, p=p, t=t, thr=thr: [S.eval('%s > %s' % (p, thr), t=t, silent=True)], m[-1][x > thr].sum())
    add('logEvidence', lambda S: [S.logEvidence, S.log10Evidence], T.logE, T.logE / np.log(10.))
    if not on and T.s.seglen == 1:
        mesh = T.s.grid.mesh
        lik = np.array([T.s.like([v])[0] for v in (0, 1, 3)])
        for k in (0, len(T.times) - 1):
            pr = np.array([np.sum(l * T.post[k]) for l in lik])
            add('simulate(t=%s)' % T.times[k], lambda S, t=T.times[k]: [S.simulate([0, 1, 3], t=t)], pr / pr.sum())
        pr = np.array([np.sum(l * T.post.mean(axis=0)) for l in lik])
        add('simulate(density)', lambda S: [S.simulate([0, 1, 3], density=True)], pr)
    if T.cls == 'Study':
        for h, v in T.values.items():
            add('getHyperParameterValue(%s)' % h, lambda S, h=h: [S.getHyperParameterValue(h)], v)
    elif not on:
        for h, v in T.values.items():
            if len(v) > 1:
                add('getHPD(%s)' % h, lambda S, h=h: S.getHPD(h), v, ref.marginal(T.res, h, v))
                add('getHyperParameterDistribution(%s)' % h, lambda S, h=h: S.getHyperParameterDistribution(h), v, ref.marginal(T.res, h, v))
                add('getHyperParameterValue(%s)' % h, lambda S, h=h: [np.ravel(np.asarray(S.getHyperParameterValue(h)) if not isinstance(S.getHyperParameterValue(h), str) else v)], v)
        for h, k in itertools.permutations(T.values, 2):
            if len(T.values[h]) > 1 and len(T.values[k]) > 1:
                add('getJHPD(%s, %s)' % (h, k), lambda S, h=h, k=k: S.getJHPD([h, k]), T.values[h], T.values[k],
                    ref.joint(T.res, h, T.values[h], k, T.values[k]))
        if T.cls == 'ChangepointStudy':
            ds, dd = durations(T)
            add('getDD(t1, t2)', lambda S: S.getDD(['t1', 't2']), ds, dd)
            add('getDurationDistribution(t1, t2)', lambda S: S.getDurationDistribution(['t1', 't2']), ds, dd)
    else:
        add('getCTMD', lambda S: S.getCTMD(), list(T.models), T.tmd[-1])
        add('getCTMD(local)', lambda S: S.getCurrentTransitionModelDistribution(local=True), list(T.models), T.loc[-1])
        for i, m in enumerate(T.models):
            add('getCTMP(%s)' % m, lambda S, m=m: [S.getCTMP(m), S.getCurrentTransitionModelProbability(m, local=True)], T.tmd[-1][i], T.loc[-1][i])
            if past:
                add('getTMPs(%s)' % m, lambda S, m=m: [S.getTMPs(m), S.getTransitionModelProbabilities(m, local=True)],
                    [x[i] for x in T.tmd], [x[i] for x in T.loc])
        if past:
            add('getTransitionModelDistributions', lambda S: S.getTransitionModelDistributions(), list(T.models), np.array(T.tmd))
            add('getTransitionModelDistributions(local)', lambda S: S.getTransitionModelDistributions(local=True), list(T.models), np.array(T.loc))
        for h, v in T.values.items():
            d = np.array(T.hpd[h])
            add('getCHPD(%s)' % h, lambda S, h=h: S.getCHPD(h), v, d[-1])
            add('getCurrentHyperParameterDistribution(%s)' % h, lambda S, h=h: S.getCurrentHyperParameterDistribution(h), v, d[-1])
            if past:
                o = np.argsort(v)
                add('getHPDs(%s)' % h, lambda S, h=h: S.getHPDs(h), np.array(v)[o], d[:, o])
                add('getHyperParameterDistributions(%s)' % h, lambda S, h=h: S.getHyperParameterDistributions(h), np.array(v)[o], d[:, o])
                add('getHyperParameterMeanValues(%s)' % h, lambda S, h=h: [S.getHyperParameterMeanValues(h)], d.dot(v))
                add('getHPD(avg, %s)' % h, lambda S, h=h: S.getHPD('avg', h), v, d.mean(axis=0))
                for k, t in enumerate(T.times):
                    add('getHPD(%s, %s)' % (t, h), lambda S, h=h, t=t: S.getHPD(t, h), v, d[k])
                    add('getHyperParameterMeanValue(%s, %s)' % (t, h), lambda S, h=h, t=t: [S.getHyperParameterMeanValue(t, h)], d[k].dot(v))
    return Q


def durations(T):
    """durations between t1 and t2 and their probabilities"""
    dd = {}
    for c, w in zip(T.res['combos'], T.res['dist']):
        dd[c['t2'] - c['t1']] = dd.get(c['t2'] - c['t1'], 0.) + w
    ds = sorted(dd)
    return ds, [dd[d] for d in ds]


def errors(name, T):
    """calls that have to fail"""
    p, t = T.s.grid.names[0], T.times[0]
    E = []
    on = T.cls == 'OnlineStudy'

    def add(d, f):
        E.append((d, f))
    for b in BAD:
        add('getPD(t, %r)' % b, lambda S, b=b: S.getPD(t, b))
        add('getPDs(%r)' % b, lambda S, b=b: S.getPDs(b))
        add('getParameterMeanValues(%r)' % b, lambda S, b=b: S.getParameterMeanValues(b))
        add('plot(%r)' % b, lambda S, b=b: S.plot(b))
        add('plotParameterEvolution(%r)' % b, lambda S, b=b: S.plotParameterEvolution(b))
        add('getHyperParameterValue(%r)' % b, lambda S, b=b: S.getHyperParameterValue(b))
    add('eval(nothing)', lambda S: S.eval('nothing > 1', t=t, silent=True))
    for b in BADT:
        add('getPD(%s)' % b, lambda S, b=b: S.getPD(b, p))
        add('plot(t=%s)' % b, lambda S, b=b: S.plot(p, t=b))
        if not on:
            add('simulate(t=%s)' % b, lambda S, b=b: S.simulate([0, 1], t=b))
    add('eval(t=99)', lambda S: S.eval(p + ' > 1', t=99, silent=True))
    if T.cls in ('HyperStudy', 'ChangepointStudy'):
        add('getHPD(nothing)', lambda S: S.getHPD('nothing'))
        add('getHPD(parameter)', lambda S: S.getHPD(p))
        for bad in (5, None, 'xyz'):
            add('getJHPD(%r)' % bad, lambda S, bad=bad: S.getJHPD(bad))
            if T.cls == 'ChangepointStudy':
                add('getDD(%r)' % bad, lambda S, bad=bad: S.getDD(bad))
        add('getJHPD([x])', lambda S: S.getJHPD([T.order[0]]))
        add('getJHPD(nothing)', lambda S: S.getJHPD([T.order[0], 'nothing']))
    if T.cls == 'ChangepointStudy':
        add('getDD(nothing)', lambda S: S.getDD(['t1', 'nothing']))
        add('getDD([x])', lambda S: S.getDD(['t1']))
    if on:
        h = list(T.values)[0]
        add('fit', lambda S: S.fit())
        add('getCPD(nothing)', lambda S: S.getCPD('nothing'))
        add('getCurrentParameterMeanValue(nothing)', lambda S: S.getCurrentParameterMeanValue('nothing'))
        add('getCTMP(nothing)', lambda S: S.getCTMP('nothing'))
        add('getTMPs(nothing)', lambda S: S.getTMPs('nothing'))
        add('getCHPD(nothing)', lambda S: S.getCHPD('nothing'))
        add('getHPDs(nothing)', lambda S: S.getHPDs('nothing'))
        add('getHPD(99)', lambda S: S.getHPD(99, h))
        add('getHPD(nothing)', lambda S: S.getHPD(t, 'nothing'))
        add('getHyperParameterMeanValue(99)', lambda S: S.getHyperParameterMeanValue(99, h))
        add('getHyperParameterMeanValues(nothing)', lambda S: S.getHyperParameterMeanValues('nothing'))
        add('getParameterMeanValue(99)', lambda S: S.getParameterMeanValue(99, p))
        add('getParameterMeanValue(nothing)', lambda S: S.getParameterMeanValue(t, 'nothing'))
        add('getJHPD', lambda S: S.getJHPD([h, h]))
        add('plotHyperParameterEvolution(nothing)', lambda S: S.plotHyperParameterEvolution('nothing'))
        if not T.history:
            add('getPDs without history', lambda S: S.getPDs(p))
            add('getPD without history', lambda S: S.getPD(t, p))
            add('getHPDs without history', lambda S: S.getHPDs(h))
            add('getTMPs without history', lambda S: S.getTMPs(T.models[0]))
            add('plot(t) without history', lambda S: S.plot(p, t=t))
    return E


def drawn():
    """contents of the current axes: images, lines, bars, filled areas"""
    import matplotlib.pyplot as plt
    ax = plt.gca()
    out = {'image': [np.array(i.get_array(), dtype=float) for i in ax.images],
           'extent': [list(i.get_extent()) for i in ax.images],
           'line': [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for l in ax.lines],
           'bar': [], 'fill': [], 'bar3': [], 'labels': [ax.get_xlabel(), ax.get_ylabel()]}
    if ax.patches:
        out['bar'] = [(np.array([q.get_x() + q.get_width() / 2. for q in ax.patches]), np.array([q.get_height() for q in ax.patches]))]
    out['ticks'] = [[t.get_text() for t in a.get_ticklabels()] if a.get_majorticklocs().size < 20 else [] for a in (ax.xaxis, ax.yaxis)]
    for c in ax.collections:
        if hasattr(c, '_vec'):          # bars of a 3-D plot: centre and height
            v = np.array(c._vec[:3]).reshape(3, -1, 24)
            b = np.array([(v[0].min(axis=1) + v[0].max(axis=1)) / 2., (v[1].min(axis=1) + v[1].max(axis=1)) / 2., v[2].max(axis=1), v[2].min(axis=1)]).T
            out['bar3'].append(b[np.lexsort((b[:, 1].round(9), b[:, 0].round(9)))])
            continue
        paths = c.get_paths()
        if paths:
            out['fill'].append(np.array(paths[0].vertices))
    plt.close('all')
    return out


def plots(name, T):
    """list of (description, function that plots and returns a list of (what, drawn, expected))"""
    P = []
    g = T.s.grid
    on = T.cls == 'OnlineStudy'
    past = not on or T.history

    def area(x, y):
        def f(d):
            if len(d['fill']) != 1:
                return [('number of areas', len(d['fill']), 1)]
            v = d['fill'][0]
            top = {}
            for a, b in v:
                top[round(a, 9)] = max(top.get(round(a, 9), 0.), b)
            return [('area', [top.get(round(a, 9), -1.) for a in x], y)]
        return f

    def evolution(i, p, gamma=.5, sparse=True):
        def f(d):
            z = T.marg[p].T
            out = [('number of images', len(d['image']), 1), ('number of lines', len(d['line']), 1)]
            if len(d['image']) == 1 and len(d['line']) == 1:
                out += [('image', d['image'][0], z ** gamma), ('times', d['line'][0][0], T.times), ('means', d['line'][0][1], T.mean[p])]
                if len(T.times) > 1:
                    out += [('extent', d['extent'][0], [T.times[0], T.times[-1], g.values[i][0], g.values[i][-1]])]
            return out
        return f

    def image(i, p, y):
        def f(d):
            out = [('number of images', len(d['image']), 1)]
            return out + ([('image', d['image'][0], y.T)] if len(d['image']) == 1 else [])
        return f

    def bars(x, y):
        regular = len(x) < 3 or not np.any(np.abs(np.diff(np.diff(x))) > 1e-10)

        def f(d):
            if len(d['bar']) != 1:
                return [('number of bar charts', len(d['bar']), 1)]
            out = [('bar positions', d['bar'][0][0], x if regular else np.arange(len(x))), ('bars', d['bar'][0][1], y)]
            if not regular:
                out.append(('tick labels', [float(t) for t in d['ticks'][0]], x))
            return out
        return f

    def joint(h, k):
        if T.order.index(h) > T.order.index(k):
            h, k = k, h                 # the axes are in the order of the model
        a, b = T.values[h], T.values[k]
        z = ref.joint(T.res, h, a, k, b)
        reg = [len(x) < 3 or not np.any(np.abs(np.diff(np.diff(x))) > 1e-10) for x in (a, b)]
        pos = [np.asarray(x, dtype=float) if r else np.arange(len(x), dtype=float) for x, r in zip((a, b), reg)]
        rows = np.array([[p, q, z[i, j], 0.] for i, p in enumerate(pos[0]) for j, q in enumerate(pos[1])])
        rows = rows[np.lexsort((rows[:, 1].round(9), rows[:, 0].round(9)))]

        def f(d):
            if len(d['bar3']) != 1:
                return [('number of 3-D bar charts', len(d['bar3']), 1)]
            out = [('bars', d['bar3'][0], rows), ('axis labels', d['labels'] == [h, k], True)]
            for i in (0, 1):
                if not reg[i]:
                    out.append(('tick labels', [float(t) for t in d['ticks'][i]], (a, b)[i]))
            return out
        return f

    def add(d, f, want):
        P.append((d, f, want))
    for i, p in enumerate(g.names):
        x, m, dx = g.values[i], T.marg[p], g.dx[i]
        if past:
            add('plot(%s)' % p, lambda S, p=p: S.plot(p), evolution(i, p))
            add('plot(%s, gamma)' % p, lambda S, p=p: S.plot(p, color='r', gamma=1., c='g', lw=3), evolution(i, p, 1.))
            add('plotParameterEvolution(%s)' % p, lambda S, p=p: S.plotParameterEvolution(p, color='k'), evolution(i, p))
            for k, t in enumerate(T.times):
                add('plot(%s, t=%s)' % (p, t), lambda S, p=p, t=t: S.plot(p, t=t), area(x, m[k] / dx))
                add('plot(%s, t=%s, density=False)' % (p, t), lambda S, p=p, t=t: S.plot(p, t=t, density=False, color='r'), area(x, m[k]))
            add('getPD(avg, %s, plot=True)' % p, lambda S, p=p: S.getPD('avg', p, plot=True), area(x, m.mean(axis=0) / dx))
            add('getPDs(%s, plot=True)' % p, lambda S, p=p: S.getPDs(p, plot=True, c='r'), image(i, p, m / dx))
            add('getPDs(%s, plot=True, density=False)' % p, lambda S, p=p: S.getPDs(p, plot=True, density=False), image(i, p, m))
        else:
            add('plot(%s)' % p, lambda S, p=p: S.plot(p), area(x, m[-1] / dx))
        if on:
            add('getCPD(%s, plot=True)' % p, lambda S, p=p: S.getCPD(p, plot=True), area(x, m[-1] / dx))
            add('getCPD(%s, plot=True, density=False)' % p, lambda S, p=p: S.getCPD(p, plot=True, density=False), area(x, m[-1]))
    if T.cls in ('HyperStudy', 'ChangepointStudy'):
        for h, v in T.values.items():
            if len(v) > 1:
                y = ref.marginal(T.res, h, v)
                add('plot(%s)' % h, lambda S, h=h: S.plot(h), bars(v, y))
                add('getHPD(%s, plot=True)' % h, lambda S, h=h: S.getHPD(h, plot=True, color='r'), bars(v, y))
        for h, k in itertools.permutations(T.values, 2):
            if len(T.values[h]) > 1 and len(T.values[k]) > 1:
                add('getJHPD(%s, %s, plot=True)' % (h, k), lambda S, h=h, k=k: S.getJHPD([h, k], plot=True), joint(h, k))
                import matplotlib.pyplot as plt
                add('getJHPD(%s, %s, figure)' % (h, k), lambda S, h=h, k=k: S.getJHPD([h, k], plot=True, figure=plt.figure(), subplot=122, color='r'), joint(h, k))
        if T.cls == 'ChangepointStudy':
            add('getDD(plot=True)', lambda S: S.getDD(['t1', 't2'], plot=True, color='r'), bars(*durations(T)))
    if on:
        for h, v in T.values.items():
            d = np.array(T.hpd[h])
            o = np.argsort(v)
            add('getCHPD(%s, plot=True)' % h, lambda S, h=h: S.getCHPD(h, plot=True), bars(v, d[-1]))
            if past:
                def hevo(q, d=d, o=o, v=v):
                    out = [('number of images', len(q['image']), 1), ('number of lines', len(q['line']), 1)]
                    if len(q['image']) == 1 and len(q['line']) == 1:
                        out += [('image', q['image'][0], d[:, o].T ** .5), ('means', q['line'][0][1], d.dot(v)), ('times', q['line'][0][0], T.times)]
                    return out
                add('plot(%s)' % h, lambda S, h=h: S.plot(h), hevo)
                add('plotHyperParameterEvolution(%s)' % h, lambda S, h=h: S.plotHyperParameterEvolution(h), hevo)
                for k, t in enumerate(T.times):
                    add('plot(%s, t=%s)' % (h, t), lambda S, h=h, t=t: S.plot(h, t=t), bars(v, d[k]))
                add('getHPD(avg, %s, plot=True)' % h, lambda S, h=h: S.getHPD('avg', h, plot=True), bars(v, d.mean(axis=0)))
            else:
                add('plot(%s)' % h, lambda S, h=h: S.plot(h), bars(v, d[-1]))
        if past:
            for i, m in enumerate(T.models):
                for loc, seq in ((False, T.tmd), (True, T.loc)):
                    def line(q, seq=seq, i=i):
                        if len(q['line']) != 1:
                            return [('number of lines', len(q['line']), 1)]
                        return [('times', q['line'][0][0], T.times), ('probabilities', q['line'][0][1], [x[i] for x in seq])]
                    add('plot(%s, local=%s)' % (m, loc), lambda S, m=m, loc=loc: S.plot(m, local=loc, c='r'), line)
    return P


# --------------------------------------------------------------------------------------------------------------- cases
def ops(name):
    T = truth(name)
    return [['Q', i] for i in range(len(T.Q))] + [['E', i] for i in range(len(T.E))] + [['P', i] for i in range(len(T.P))]


def cases(tier):
    out = []
    for name in CONF:
        if name == '_tmp':
            continue
        if name in WIDE:
            out += [{'conf': name, 'part': 'fresh'}, {'conf': name, 'part': 'all', 'back': False}, {'conf': name, 'part': 'all', 'back': True}]
            continue
        out.append({'conf': name, 'part': 'fresh'})
        if tier == 'quick':
            for k in range(8):
                out.append({'conf': name, 'part': 'pairs', 'k': k, 'of': 8})
        else:
            for k in range(32):
                out.append({'conf': name, 'part': 'pairs', 'k': k, 'of': 32})
                out.append({'conf': name, 'part': 'triples', 'k': k, 'of': 32})
    return out


def do(rec, S, T, op, w):
    kind, i = op
    rec.transitions += 1
    if kind == 'Q':
        d, f, want = T.Q[i]
        got = f(S)
        check(rec, w + d, got, want)
    elif kind == 'E':
        d, f = T.E[i]
        try:
            f(S)
        except Exception:
            pass
        else:
            rec.fail(w + d + ' is answered instead of being rejected')
    else:
        import matplotlib.pyplot as plt
        plt.close('all')
        d, f, want = T.P[i]
        f(S)
        for what, a, b in want(drawn()):
            rec.close(w + d + ' shows ' + what, a, b, 1e-8)


def check(rec, w, got, want):
    rec.ok(len(got) == len(want), w + ': number of results')
    for a, b in zip(got, want):
        if isinstance(b, list) and b and isinstance(b[0], str):
            rec.ok([str(x) for x in a] == b, w + ': names')
        else:
            rec.close(w, a, b)
            if a is not None and np.all(np.asarray(b) >= 0):      # small probabilities are not altered, either
                a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
                rec.ok(np.all(np.abs(a - b) <= 1e-8 * b + 1e-250), '%s: got %s, expected %s' % (w, a, b))


def label(T, op):
    return {'Q': T.Q, 'E': T.E, 'P': T.P}[op[0]][op[1]][0]


def sequence(rec, name, seq):
    T = truth(name)
    S = build(name)
    w = name + ': ' + ', '.join(label(T, o) for o in seq[:4]) + ('' if len(seq) < 5 else ', ...') + ': '
    rec.state(name, seq)
    for o in seq:
        do(rec, S, T, o, w)
    # afterwards, all accessors give the known answers; the first one differs from sequence to sequence
    n = len(T.Q)
    k = (sum(7 * o[1] + 3 for o in seq)) % n
    for j in range(n):
        d, f, want = T.Q[(j + k) % n]
        check(rec, w + 'then ' + d, f(S), want)
    if T.cls == 'OnlineStudy':
        ref_s = build(name)
        for x in (2, 5):
            S.step(float(x))
            ref_s.step(float(x))
        compare_outcomes(rec, w + 'two more steps', outcome(S), outcome(ref_s))
    rec.traces += 1


def run(case, rec):
    name = case['conf']
    T = truth(name)
    if case['part'] == 'fresh':
        fresh(rec, name, T)
        return
    all_ops = ops(name)
    if case['part'] == 'all':
        sequence(rec, name, all_ops[::-1] if case['back'] else all_ops)
        return
    if case['part'] == 'pairs':
        few = representatives(T)
        seqs = [[o] for o in all_ops]
        if not name.endswith(('ext', 'ex2')):
            seqs += [[a, b] for a in few for b in few if b[0] != 'Q']
        for seq in seqs[case['k']::case['of']]:
            sequence(rec, name, seq)
        return
    few = [o for o in representatives(T) if o[0] != 'Q']
    seqs = [[a, b] for a in all_ops for b in few] + [list(q) for q in itertools.product(few, few, [o for o in few if o[0] == 'P'])]
    for seq in seqs[case['k']::case['of']]:
        sequence(rec, name, seq)


def representatives(T, thorough=False):
    """one call of every method (of failing calls: of every argument that is wrong)"""
    out, seen = [], set()
    for kind, l in (('Q', T.Q), ('E', T.E), ('P', T.P)):
        for i, e in enumerate(l):
            key = (kind, e[0].split('(')[0], 't=' in e[0], 'avg' in e[0])
            if kind == 'E' and not thorough:
                key = (kind, '99' in e[0], 'fit' in e[0], e[0].startswith('plot'))
            if key not in seen:
                seen.add(key)
                out.append([kind, i])
    return out


def fresh(rec, name, T):
    """distributions are normalised, results are not available before the analysis"""
    g = T.s.grid
    S = build(name)
    for i, p in enumerate(g.names):
        for k in range(len(T.times)):
            rec.close('marginal distribution', T.marg[p][k].sum(), 1.)
    for h in getattr(T, 'hpd', {}):
        for d in T.hpd[h]:
            rec.close('hyper-parameter distribution', d.sum(), 1.)
    rec.traces += 1
    if T.cls == 'OnlineStudy':
        return
    cls, spec, tm, data, extra = CONF[name]
    for mode in ('unfitted', 'evidence'):
        S = study(cls, T.s, tm, data, extra)
        if mode == 'evidence':
            S.fit(silent=True, evidenceOnly=True)
        p, t = g.names[0], T.times[0]
        for d, f in (('getPD', lambda: S.getPD(t, p)), ('getPD avg', lambda: S.getPD('avg', p)), ('getPDs', lambda: S.getPDs(p)),
                     ('getParameterMeanValues', lambda: S.getParameterMeanValues(p)), ('plot', lambda: S.plot(p)),
                     ('plotParameterEvolution', lambda: S.plotParameterEvolution(p)), ('plot t', lambda: S.plot(p, t=t))):
            try:
                f()
            except Exception:
                rec.transitions += 1
                continue
            rec.fail('%s is answered without a distribution (%s)' % (d, mode))
        if mode == 'evidence' and cls != 'Study':
            for d, f, want in T.Q:
                if d.startswith(('getHPD', 'getJHPD', 'getDD', 'logE')):
                    check(rec, 'evidence-only fit: ' + d, f(S), want)
                    rec.transitions += 1
        S.fit(silent=True, forwardOnly=name == 'Sfwd')
        for d, f, want in T.Q:
            check(rec, 'after failed queries: ' + d, f(S), want)
        rec.traces += 1
