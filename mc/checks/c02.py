"""C02: the online analysis of a stream equals the forward-only batch analysis of every prefix of the stream."""
import itertools
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, indep, comb, serial, regime, notequal, det, alpha, biv
from ..common import bl, sequences

RULE = ('all streams over the alphabet up to the maximal length; after every step the current results are compared with '
        'a forward-only batch fit of the prefix, and all stored entries with those that were current at their step; '
        'with and without queries between the steps')
BOUNDS = {'quick': 'streams of length 3 (4 for one-parameter models), alphabets of 3 to 4 symbols; streams of length 9, and of length 45 on grids of up to 273 points',
          'thorough': 'streams of length 5 (one parameter) and 4 (two parameters), alphabets of 4 symbols; streams of length 25, and of length 130 on grids of up to 273 points'}
CHUNK = 1

G1 = [0., .25, .5, .75, 1.]
G2 = [.2, .7, 1.2]
SETTINGS = {
    'flat1': {'grid': [G1]},
    'lin1': {'grid': [[.1, .5, .9]], 'prior': ['func', 'lin']},
    'lin2': {'grid': [G1, G2], 'prior': ['array', 'lin']},
    'poisson': {'om': 'poisson', 'grid': [[.5, 1.5, 2.5]], 'prior': ['poisson', 'jeffreys'], 'names': ['a']},
    'gaussian': {'om': 'gaussian', 'grid': [[-1., 0., 1.], [.5, 1.]], 'prior': ['gaussian', 'jeffreys']},
    'gaussian2d': {'om': 'gaussian', 'grid': [[-1., 0., 1.], [.5, 1.]], 'prior': ['func', 'peak']},
    'gmean': {'om': 'gaussianmean', 'grid': [[-1., 0., 1., 2.]]},
    'ar1': {'om': 'ar1', 'grid': [[-.5, 0., .5], [.5, 1.]]},
    'bernoulli': {'om': 'bernoulli', 'grid': [[.2, .5, .8]], 'prior': ['bernoulli', 'jeffreys']},
    'whitenoise': {'om': 'whitenoise', 'grid': [[.5, 1., 1.5]], 'prior': ['whitenoise', 'jeffreys']},
    'laplace': {'om': 'laplace', 'grid': [[-1., 0., 1.], [.5, 1.]], 'prior': ['laplace', 'jeffreys']},
    'scaledar1': {'om': 'scaledar1', 'grid': [[-.5, 0., .5], [.5, 1.]]},
}
SETTINGS_BIG = {'big1': {'grid': [list(np.linspace(0., 1., 70))], 'prior': ['func', 'lin']},
                'big2': {'grid': [list(np.linspace(0., 1., 21)), list(np.linspace(-1., 1., 13))], 'prior': ['array', 'lin']}}
ALPHABET = {'flat1': [0, 1, 6, None], 'lin1': [0, 1, 7, None], 'lin2': [0, 1, None], 'poisson': [0, 2, None],
            'gaussian': [-1.2, .3, None], 'gaussian2d': [[-1.2, .3], [.4, None], [None, None]],
            'gmean': [[.2, .5], [1.1, 1.], [.3, None]], 'ar1': [-1.2, .3, None], 'bernoulli': [0, 1, None],
            'whitenoise': [.3, -2., None], 'laplace': [.3, -2., None], 'scaledar1': [-1.2, .3, None]}


def single_models(nd):
    m = [static(), grw(.3), indep(), cp(1), cp(2), regime(-1.), notequal(-2.), det('lin', ['slope'], [.1 if nd == 1 else .25]),
         det('quad', ['q', 'slope'], [.1, .05]), alpha(.3, 1.5), comb(cp(1), grw(.2)), comb(grw(.2), regime(-2.)),
         serial(static(), bp(1), grw(.3)), serial(grw(.3), cp(1), det('lin', ['slope'], [.3])),
         serial(static(), bp(1, 'tb1'), det('quad', ['q', 'slope'], [.2, .1]), bp(2, 'tb2'), static())]
    if nd == 2:
        m += [grw(.4, 'b'), biv(.3, .4, .3), comb(grw(.3, 'a', 's1'), grw(.6, 'b', 's2')), alpha(.3, 1.5, 'b'),
              det('lin', ['slope'], [.25], 'b')]
    return m


def hyper_models(nd):
    m = [grw([0., .2, .4]), grw([.1, .2, .5], p=['func', 'lin']), cp([0, 1, 2]), cp([0, 2], p=['array', [1, 3]]),
         regime([-2., -1.], p=['sympy', 'Normal', [-1., 1.]]), comb(grw([.1, .3]), regime([-2., -1.])),
         alpha([.2, .4], [1., 2.], p=[None, ['func', 'lin']]), det('lin', ['slope'], [[0., .2, .4]]),
         serial(static(), bp([0, 1]), grw([.2, .5])), comb(grw(.2), cp([0, 1])),
         serial(grw([.2, .3]), cp([1, 2]), det('lin', ['slope'], [[.1, .3]]))]
    if nd == 2:
        m += [biv([.3, .5], .4, [-.2, .3]), comb(grw([.2, .3], 'a', 's1'), grw([.2, .6], 'b', 's2'))]
    return m


def cases(tier):
    out = []
    for name, s in SETTINGS.items():
        nd = len(s['grid'])
        n = (4 if nd == 1 and name in ('flat1', 'lin1') else 3)
        if tier != 'quick':
            n = 5 if nd == 1 else 4
        for kind, ms in (('single', single_models(nd)), ('hyper', hyper_models(nd))):
            for tm in ms:
                if tier == 'quick' and kind == 'hyper' and n > 3:
                    k = 3
                else:
                    k = n
                out.append({'setting': name, 'kind': kind, 'tm': tm, 'n': k, 'via': 'set' if kind == 'single' else 'add'})
        out.append({'setting': name, 'kind': 'single', 'tm': grw(.2), 'n': 3, 'via': 'add'})
        out.append({'setting': name, 'kind': 'hyper', 'tm': grw([.2, .3]), 'n': 3, 'via': 'set'})
        # longer streams
        a = [x for x in ALPHABET[name] if x not in (6, 7)]
        n = 9 if tier == 'quick' else 25
        st = [[a[(i * i + i // 3 + k) % len(a)] for i in range(n)] for k in range(2)]
        if name == 'flat1':
            st.append([[9, 10, 0, 1][(i + i // 5) % 4] for i in range(n)])
        long = [('single', t) for t in single_models(nd)] + [('hyper', t) for t in hyper_models(nd)]
        for kind, tm in long if name in ('flat1', 'lin2', 'ar1') or tier != 'quick' else long[:2]:
            out.append({'setting': name, 'kind': kind, 'tm': tm, 'via': 'add', 'streams': st})
    # large grids, many steps
    n = 45 if tier == 'quick' else 130
    st = [[(i * i + 3 * i + i // 5) % 6 if i % 17 != 11 else None for i in range(n)]]
    for name in ('big1', 'big2'):
        for kind, tm in [('single', static()), ('single', grw(.05)), ('single', comb(cp(20), grw(.02))), ('single', det('lin', ['slope'], [.004])),
                         ('single', serial(grw(.03), bp(13), static(), cp(30, 't2'), regime(-3.))),
                         ('hyper', grw([.02 * i for i in range(12)])), ('hyper', comb(grw([.02, .05]), cp([3, 11, 36]), regime([-4., -3.])))]:
            out.append({'setting': name, 'kind': kind, 'tm': tm, 'via': 'set' if tm['k'] == 'static' else 'add', 'streams': st})
    return out


def batch(case, s, prefix, cache):
    key = repr(prefix)
    if key in cache:
        return cache[key]
    b = bl()
    S = b.Study(silent=True) if case['kind'] == 'single' else b.HyperStudy(silent=True)
    S.loadData(np.array(specs.num(prefix), dtype=float), silent=True)
    S.set(s.real(b), specs.real_tm(b, case['tm']), silent=True)
    S.fit(forwardOnly=True, silent=True)
    r = {'logE': S.logEvidence}
    if np.isfinite(S.logEvidence):
        r['post'] = np.array(S.posteriorSequence[-1])
        r['mean'] = np.array(S.posteriorMeanValues)[:, -1]
        if case['kind'] == 'hyper':
            r['hpd'] = {n: [np.array(x) for x in S.getHPD(n)] for n in hyper_names(case['tm'])}
            r['joint'] = np.array(S.hyperParameterDistribution)
    cache[key] = r
    return r


def hyper_names(tm):
    return [n for n, v, p in ref.hypers(tm) if isinstance(v, list)]


def online(case, s):
    b = bl()
    S = b.OnlineStudy(storeHistory=True, silent=True)
    if case['via'] == 'set':
        S.set(s.real(b), specs.real_tm(b, case['tm']), silent=True)
    else:
        S.setOM(s.real(b), silent=True)
        S.add('model', specs.real_tm(b, case['tm'], as_array=True))
    return S


def queries(S, s, hn):
    for n in s.grid.names:
        S.getCPD(n)
        S.getPD(S.formattedTimestamps[0], n)
        S.getPDs(n)
        S.getParameterMeanValues(n)
        S.getCurrentParameterMeanValue(n)
        try:
            S.getPD(-17, n)
        except Exception:
            pass
    for n in hn:
        S.getCHPD(n)
        S.getHPDs(n)
        S.getHPD(S.formattedTimestamps[-1], n)
    S.getCTMD()
    S.getCTMD(local=True)


def run(case, rec):
    s = specs.Setting(SETTINGS.get(case['setting']) or SETTINGS_BIG[case['setting']])
    g = s.grid
    alphabet = ALPHABET.get(case['setting'])
    hn = hyper_names(case['tm']) if case['kind'] == 'hyper' else []
    cache = {}
    for i, data in enumerate(case['streams'] if 'streams' in case else itertools.product(alphabet, repeat=case['n'])):
        data = list(data)
        S = online(case, s)
        hist = []
        for k in range(len(data)):
            x = specs.num(data[k])
            if isinstance(x, list):
                S.step(np.array(x))
            elif x == x and float(x).is_integer() and (i + k) % 2:
                S.step(int(x))
            else:
                S.step(x)
            if k + 1 < s.seglen:
                continue
            w = 'stream %s, step %d: ' % (data, k)
            r = batch(case, s, data[:k + 1], cache)
            rec.state(case, repr(data[:k + 1]))
            rec.transitions += 1
            if case['kind'] == 'single' or not np.isfinite(r['logE']):
                rec.close(w + 'logEvidence', S.logEvidence, r['logE'])
            if not np.isfinite(r['logE']):
                hist = None
                continue
            if hist is None:
                rec.fail(w + 'evidence of the batch analysis became positive again')
            p = np.array(S.marginalizedPosterior)
            rec.close(w + 'current distribution', p, r['post'])
            m = [S.getCurrentParameterMeanValue(n) for n in g.names]
            rec.close(w + 'current mean values', m, r['mean'])
            h = {}
            for j, n in enumerate(g.names):
                axes = tuple(a for a in range(len(g.names)) if a != j)
                x, d = S.getCPD(n)
                rec.close(w + 'grid', x, g.values[j])
                rec.close(w + 'density of ' + n, d, r['post'].sum(axis=axes) / g.dx[j])
                x, d = S.getCurrentParameterDistribution(n, density=False)
                rec.close(w + 'probability of ' + n, d, r['post'].sum(axis=axes))
            for n in hn:
                x, d = S.getCHPD(n)
                rec.close(w + 'values of ' + n, x, r['hpd'][n][0])
                rec.close(w + 'distribution of ' + n, d, r['hpd'][n][1])
                h[n] = d.copy()
            if hn:
                rec.close(w + 'joint hyper-parameter distribution', S.hyperParameterDistribution[0], r['joint'])
            hist.append((k, p.copy(), m, h))
            if i % 2:
                queries(S, s, hn)
        rec.traces += 1
        if not hist:
            continue
        w = 'history of stream %s: ' % (data,)
        rec.ok(list(S.formattedTimestamps) == [e[0] for e in hist], w + 'time stamps')
        for j, n in enumerate(g.names):
            axes = tuple(a for a in range(len(g.names)) if a != j)
            x, seq = S.getPDs(n, density=False)
            rec.close(w + 'sequence of ' + n, seq, [e[1].sum(axis=axes) for e in hist])
            rec.close(w + 'mean values of ' + n, S.getParameterMeanValues(n), [e[2][j] for e in hist])
            for e in hist:
                rec.close(w + 'mean value at time', S.getParameterMeanValue(e[0], n), e[2][j])
                rec.close(w + 'distribution at time', S.getPD(e[0], n, density=False)[1], e[1].sum(axis=axes))
        for n in hn:
            x, seq = S.getHPDs(n)
            rec.close(w + 'sequence of ' + n, seq, [e[3][n] for e in hist])
            for e in hist:
                rec.close(w + 'distribution of ' + n, S.getHPD(e[0], n)[1], e[3][n])
