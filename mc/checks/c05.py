"""C05: online model selection (several transition models, hyper-priors, model priors) is exact at every step."""
import itertools
import math
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, indep, comb, serial, regime, notequal, det, alpha
from ..common import bl, either

RULE = ('all streams over the alphabet up to the given length for every menu of transition models, model prior and '
        'setting; after every step all current results, at the end all results of the history; oracle: one reference '
        'analysis of the prefix per hyper-parameter combination and model')
BOUNDS = {'quick': 'streams of length 3 (alphabets of 3 to 4 symbols), 16 menus of one to four transition models, up to 4 model priors, 5 settings; one or two streams of length 8 per menu and setting; streams of 12 to 22 steps for 4 menus of up to 11 models and 30 combinations on grids of 51 and 99 points',
          'thorough': 'streams of length 4 (5 for the two short menus), alphabets of 3 to 5 symbols; streams of length 24; streams of 60 steps for the wide menus'}
CHUNK = 1

G1 = [0., .25, .5, .75, 1.]
SETTINGS = {
    'flat1': {'grid': [G1]},
    'lin1': {'grid': [[.1, .5, .9]], 'prior': ['array', 'lin']},
    'lin2': {'grid': [[0., .5, 1.], [.2, .7]], 'prior': ['func', 'lin']},
    'lin3': {'grid': [[0., 1.], [.2, .7], [.1, .5, .9]], 'prior': ['func', 'lin']},
    'ar1': {'om': 'ar1', 'grid': [[-.5, 0., .5], [.5, 1.]], 'names': ['a', 'b']},
}
WIDE_SETTINGS = {
    'big1': {'grid': [[round(.02 * i, 10) for i in range(51)]]},
    'big2': {'grid': [[round(.1 * i, 10) for i in range(11)], [round(.2 + .05 * i, 10) for i in range(9)]], 'prior': ['func', 'lin']},
}
ALPHABET = {'flat1': [0, 6, 7, None, 1], 'lin1': [0, 6, 7, 2], 'lin2': [0, 7, None], 'lin3': [0, 7, None], 'ar1': [-1.2, .3, None]}

MENUS = {
    'two': [['S', static()], ['G', grw(.3)]],
    'same': [['one', grw(.2, n='s1')], ['two', grw(.2, n='s2')]],
    'three': [['x', regime(-1.)], ['static', static()], ['indep', indep()]],
    'unit': [['G', grw([0., 1., 2.])], ['S', static()]],
    'hyper1': [['G', grw([0., .2, .4])]],
    'hyper2': [['S', static()], ['G', grw([0., .2, .4])]],
    'hyper3': [['G', grw([.1, .3], n='s1')], ['H', grw([.2, .3, .4], n='s2')]],
    'prior': [['G', grw([.1, .2, .5], p=['func', 'lin'])], ['R', regime([-2., -1., 0.], p=['array', [1, 2, 5]])]],
    'priors': [['G', grw([.4, .1], p=['array', [.2, .8]])], ['S', static()],
               ['A', alpha([.2, .4], [1., 2.], p=[['func', 'steep'], ['array', [3., 1.]]])]],
    'points': [['C', cp([0, 1, 2])], ['B', serial(static(), bp([0, 1]), grw([.2, .5]))], ['S', static()]],
    'irregular': [['G', grw([.1, .2, .5], n='s1')], ['H', grw([.1, 1.1], n='s2')]],
    'nested': [['N', comb(grw([.1, .3]), regime([-2., -1., 0.]))], ['D', det('lin', ['slope'], [[0., .25, .5]])]],
    'scalar': [['N', comb(grw(.1), regime([-2., -1.], n='pm'))], ['E', notequal([-3., -1.], n='pe')]],
    'single': [['G', grw([.2])], ['S', static()]],
    'four': [['a1', static()], ['b1', indep()], ['c1', grw([.1, .2], n='sg')], ['d1', cp(1)]],
    'out': [['C0', cp([0, 1], n='t1')], ['C1', cp([1, 2], n='t2')], ['S', static()]],
}
WIDE_MENUS = {
    'six': [['m1', static()], ['m2', indep()], ['m3', grw([.05, .1, .2], n='s1')], ['m4', cp([3, 9, 14])],
            ['m5', regime([-4., -2.], n='p1')], ['m6', grw(.1, n='s2')]],
    'eleven': [['m%d' % i, grw(round(.03 * (i + 1), 10), n='s%d' % i)] for i in range(11)],
    'many': [['G', grw([round(.02 * i, 10) for i in range(25)])], ['S', static()]],
    'product': [['N', comb(grw([.05, .1, .15, .2, .25, .3]), regime([-5., -4., -3., -2., -1.]))], ['S', static()]],
}


def cases(tier):
    out = []
    for menu in WIDE_MENUS:
        for name in WIDE_SETTINGS:
            n = 22 if tier == 'quick' else 60
            if tier == 'quick' and name == 'big2' and menu in ('many', 'product'):
                n = 12
            out.append({'menu': menu, 'setting': name, 'prior': None if name == 'big1' else list(range(1, len(WIDE_MENUS[menu]) + 1)),
                        'streams': [[[0, 1, 0, None, 2, 3][(i * i + i // 4) % 6] for i in range(n)]]})
    for menu, tms in MENUS.items():
        m = len(tms)
        priors = [None] if m == 1 else [None, list(range(1, m + 1)), [.5] + [.5 / (m - 1)] * (m - 1)]
        if m > 1:
            priors.append([0.] + [1.] * (m - 1))
        for name in SETTINGS:
            if name == 'lin3' and 'alpha' in repr(MENUS[menu]):      # at most two parameters
                continue
            for i, p in enumerate(priors):
                if tier == 'quick':
                    if (name != 'flat1' and i > 1) or (name == 'lin3' and i):
                        continue
                    n, k = 3, 3 if (i or name != 'flat1') else 4
                else:
                    n, k = 4, 4
                    if m == 1 or menu == 'two':
                        n, k = (5, 4) if name != 'flat1' else (5, 5)
                # shifts are interpolated: what remains of ruled out values is rounding noise
                a = ALPHABET[name]
                if "'det'" in repr(tms):
                    a = [{6: 3, 7: 4}.get(x, x) for x in a]
                out.append({'menu': menu, 'setting': name, 'prior': p, 'n': n, 'alphabet': a[:k]})
    # longer streams that visit every symbol repeatedly
    for menu in MENUS:
        for name in SETTINGS:
            if name == 'lin3' and 'alpha' in repr(MENUS[menu]):      # at most two parameters
                continue
            a = [x for x in ALPHABET[name] if x not in (6, 7)]
            n = 8 if tier == 'quick' else 24
            st = [[a[(i * i + i // 3 + k) % len(a)] for i in range(n)] for k in range(1 if tier == 'quick' else 4)]
            if name == 'flat1' and "'det'" not in repr(MENUS[menu]):
                st.append([[9, 10, 0, 1][(i + i // 5) % 4] for i in range(n)])
            out.append({'menu': menu, 'setting': name, 'prior': None if name == 'flat1' else list(range(1, len(MENUS[menu]) + 1)), 'streams': st})
    return out


def prefix_model(s, tms, data, cache):
    """reference: per model the list of (combination, weight, log-evidence, posterior)"""
    key = repr(data)
    if key not in cache:
        like = s.like(specs.num(data))
        ts = list(range(s.seglen - 1, len(data)))
        out = []
        for name, tm in tms:
            rt = specs.ref_tm(tm)
            row = []
            for d, w in ref.combos(rt):
                sub = ref.subst(rt, d)
                q = ['cp_volume'] if any(k in repr(tm) for k in ("'cp'",)) else []
                f = ref.fit(s.grid, s.prior, like, ts, sub, 'forward', (), s.mass)
                g = ref.fit(s.grid, s.prior, like, ts, sub, 'forward', q, s.mass) if q else f
                row.append((d, w, f, g))
            out.append(row)
        cache[key] = out
    return cache[key]


def evaluate(s, tms, rows, before, tmprior, volume, hgrid, noprior):
    """expected results; volume, hgrid, noprior switch on the deviations of the known findings"""
    j = 3 if volume else 2
    res = {'hpd': [], 'post': [], 'Z': []}
    for (name, tm), row in zip(tms, rows):
        with np.errstate(divide='ignore'):
            lw = np.array([r[j]['logE'] + np.log(r[1]) for r in row])
        le = ref.logsumexp(lw)
        if hgrid:
            le -= math.log(np.prod([1.] + [ref.spacing(v) for n, v, p in ref.hypers(tm)
                                           if isinstance(v, list) and len(v) > 1]))
        res['Z'].append(le)
        if np.isfinite(le):
            w = np.exp(lw - ref.logsumexp(lw))
            res['hpd'].append(w)
            res['post'].append(sum(x * r[j]['post'][-1] for x, r in zip(w, row) if x > 0))
        else:
            res['hpd'].append(None)
            res['post'].append(np.zeros(s.grid.shape))
    Z = np.array(res['Z'])
    with np.errstate(divide='ignore'):
        lp = np.log(tmprior)
    res['logE'] = ref.logsumexp(Z + lp)
    tot = Z if noprior else Z + lp
    if not np.isfinite(np.max(tot)):
        return None
    res['tmd'] = np.exp(tot - ref.logsumexp(tot))
    if before is None:
        loc = Z + lp
    else:
        with np.errstate(invalid='ignore'):
            loc = np.where(np.isneginf(Z), -np.inf, Z - np.array(before)) + lp
    res['loc'] = np.exp(loc - ref.logsumexp(loc)) if np.isfinite(np.max(loc)) else None
    res['par'] = sum(w * p for w, p in zip(res['tmd'], res['post']))
    return res


def build(s, tms, prior, history):
    b = bl()
    S = b.OnlineStudy(storeHistory=history, silent=True)
    S.set(s.real(b), silent=True)
    for i, (name, tm) in enumerate(tms):
        (S.add, S.addTM, S.addTransitionModel)[i % 3](name, specs.real_tm(b, tm, as_array=bool(i % 2)))
    if prior is not None:
        S.setTransitionModelPrior(list(prior) if len(prior) % 2 else np.array(prior), silent=True)
    return S


def run(case, rec):
    s = specs.Setting(dict(SETTINGS, **WIDE_SETTINGS)[case['setting']])
    g = s.grid
    tms = dict(MENUS, **WIDE_MENUS)[case['menu']]
    m = len(tms)
    tp = np.ones(m) / m if case['prior'] is None else np.array(case['prior'], dtype=float) / np.sum(case['prior'])
    cache = {}
    names = [n for n, tm in tms]
    lists = [[(n, list(v)) for n, v, p in ref.hypers(tm) if isinstance(v, list)] for nm, tm in tms]
    for idx, data in enumerate(case['streams'] if 'streams' in case else itertools.product(case['alphabet'], repeat=case['n'])):
        data = list(data)
        S = build(s, tms, case['prior'], idx % 3 != 2)
        hist, bi, bq = [], None, None
        for k in range(len(data)):
            S.step(specs.num(data[k]))
            if k + 1 < s.seglen:
                continue
            w = 'stream %s, step %d: ' % (data, k)
            rows = prefix_model(s, tms, data[:k + 1], cache)
            I = evaluate(s, tms, rows, bi, tp, False, False, False)
            Q = evaluate(s, tms, rows, bq, tp, True, True, True)
            rec.state(case['menu'], case['setting'], case['prior'], repr(data[:k + 1]))
            rec.transitions += 1
            if I is None or Q is None:
                hist = None
                break
            bi, bq = I['Z'], Q['Z']
            # hyper-parameter distributions
            h = {}
            for i in range(m):
                if I['hpd'][i] is None:
                    continue
                r = {'combos': [x[0] for x in rows[i]], 'dist': I['hpd'][i]}
                rq = {'combos': r['combos'], 'dist': Q['hpd'][i]}
                for n, v in lists[i]:
                    x, p = S.getCHPD(n)
                    x2, p2 = S.getCurrentHyperParameterDistribution(n)
                    rec.close(w + 'values of ' + n, np.ravel(x), v)
                    rec.close(w + 'short form of ' + n, p, p2)
                    either(rec, w + 'distribution of ' + n, np.ravel(p), ref.marginal(r, n, v), ref.marginal(rq, n, v),
                           'KF-cp-volume')
                    h[n] = np.ravel(p).copy()
            # model probabilities
            nm, d = S.getCTMD()
            rec.ok(list(nm) == names, w + 'names of the transition models')
            either(rec, w + 'transition model distribution', d, I['tmd'], Q['tmd'], 'KF-online-weights')
            nm, d2 = S.getCurrentTransitionModelDistribution(local=True)
            rec.ok(list(nm) == names, w + 'names of the transition models')
            if I['loc'] is not None and Q['loc'] is not None:
                either(rec, w + 'local transition model distribution', d2, I['loc'], Q['loc'], 'KF-online-weights')
            for i, n in enumerate(names):
                rec.close(w + 'probability of ' + n, S.getCTMP(n), d[i], 1e-12)
                if d2[i] == d2[i]:
                    rec.close(w + 'local probability of ' + n,
                              S.getCurrentTransitionModelProbability(n, local=True), d2[i], 0)
            # averages
            either(rec, w + 'logEvidence', S.logEvidence, I['logE'], Q['logE'], 'KF-online-weights')
            mean = []
            for j, n in enumerate(g.names):
                axes = tuple(a for a in range(len(g.names)) if a != j)
                x, p = S.getCPD(n, density=False)
                either(rec, w + 'distribution of ' + n, p, I['par'].sum(axis=axes), Q['par'].sum(axis=axes),
                       'KF-online-weights')
                mean.append(S.getCurrentParameterMeanValue(n))
                rec.close(w + 'mean value of ' + n, mean[-1], np.sum(p * g.values[j]))
            hist.append((k, h, np.array(d), np.array(d2), mean))
        rec.traces += 1
        if not hist:
            continue
        w = 'history of stream %s: ' % (data,)
        if idx % 3 == 2:
            for f in (lambda: S.getTMPs(names[0]), lambda: S.getTransitionModelDistributions(),
                      lambda: S.getParameterMeanValues('a'), lambda: S.getPD(hist[0][0], 'a')):
                try:
                    f()
                except bl().exceptions.PostProcessingError:
                    continue
                rec.fail(w + 'history is available without storeHistory')
            continue
        for loc in (False, True):
            nm, D = S.getTransitionModelDistributions(local=loc)
            rec.ok(list(nm) == names, w + 'names')
            want = np.array([e[3 if loc else 2] for e in hist])
            good = ~np.isnan(want).any(axis=1)
            rec.close(w + 'transition model distributions', np.array(D)[good], want[good], 1e-12)
            for i, n in enumerate(names):
                rec.close(w + 'probabilities of ' + n, np.array(S.getTMPs(n, local=loc))[good], want[good, i], 1e-12)
        for i in range(m):
            for n, v in lists[i]:
                if not all(n in e[1] for e in hist):
                    continue
                order = np.argsort(v)
                x, D = S.getHPDs(n)
                rec.close(w + 'values of ' + n, np.ravel(x), np.array(v)[order])
                rec.close(w + 'distributions of ' + n, D, [e[1][n][order] for e in hist])
                mv = S.getHyperParameterMeanValues(n)
                rec.close(w + 'mean values of ' + n, mv, [np.sum(e[1][n] * np.array(v)) for e in hist])
                for e in hist:
                    x, p = S.getHPD(e[0], n)
                    rec.close(w + 'values of ' + n, np.ravel(x), v)
                    rec.close(w + 'distribution of %s at %d' % (n, e[0]), np.ravel(p), e[1][n])
                    rec.close(w + 'mean value of %s at %d' % (n, e[0]), S.getHyperParameterMeanValue(e[0], n),
                              np.sum(e[1][n] * np.array(v)))
                x, p = S.getHPD('avg', n)
                rec.close(w + 'time-averaged distribution of ' + n, np.ravel(p), np.mean([e[1][n] for e in hist], axis=0))
