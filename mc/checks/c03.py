"""C03: a HyperStudy is the exact average over one Study fit per combination of hyper-parameter values."""
import itertools
import math
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, indep, comb, serial, regime, notequal, det, alpha, biv
from ..common import bl, fit_mode, study

RULE = ('for every setting and every transition model with a grid of hyper-parameter values and hyper-priors: all '
        'observation sequences of the given length, all fit modes, all accessors with all (ordered pairs of) names; '
        'oracle: enumeration of all combinations of values, each analysed by a newly created Study')
BOUNDS = {'quick': 'sequences of length 3 (and 1), alphabets of 2 to 4 symbols, up to 3 hyper-parameters with up to 12 combinations; 12 models with up to 5 hyper-parameters and 72 combinations, series of 30 steps on grids of up to 153 points',
          'thorough': 'sequences of length up to 4, alphabets of 4 to 5 symbols; up to 72 combinations, series of 90 steps'}
CHUNK = 1

G1 = [.1, .3, .5, .7, .9]
G2 = [.2, .7, 1.2]
SETTINGS = {
    'flat1': {'grid': [G1]},
    'lin1': {'grid': [[.0, .5, 1.]], 'prior': ['func', 'lin']},
    'lin2': {'grid': [[.1, .5, .9], G2], 'prior': ['array', 'lin']},
    'lin3': {'grid': [[.1, .5], [.2, .7], [0., 1., 2.]], 'prior': ['func', 'lin']},
    'gaussian': {'om': 'gaussian', 'grid': [[-1., 0., 1.], [.5, 1.]], 'prior': ['gaussian', 'jeffreys']},
    'ar1': {'om': 'ar1', 'grid': [[-.5, 0., .5], [.5, 1.]]},
}
SETTINGS_BIG = {'big1': {'grid': [list(np.linspace(0., 1., 60))], 'prior': ['func', 'lin']},
                'big2': {'grid': [list(np.linspace(0., 1., 17)), list(np.linspace(-1., 1., 9))], 'prior': ['array', 'lin']}}
ALPHABET = {'flat1': [0, 1, 6, 7], 'lin1': [0, 2, 7, None], 'lin2': [0, 1, 7], 'lin3': [0, 1, 7], 'gaussian': [-1.2, .3, 2.],
            'ar1': [-1.2, .3, 1.]}


def models(nd):
    m = [grw([.1, .2, .3]), grw([.1, .2, .5]), grw([.4, .1]), grw([.3, .2, .1], p=['func', 'lin']),
         grw([0., .3], p=['array', [3, 1]]), grw([.2, .3, .9], p=['array', [.2, .3, .5]]),
         grw([.1, .2, .3], p=['sympy', 'Exponential', [2.]]), grw([.1, .2, .3], p=['func', 'gap']),
         grw([.1, .3], p=['func', 'steep']),
         cp([0, 1]), cp([0, 1, 2], p=['array', [1., 2., 5.]]), cp([0, 2]), cp('all'), cp('all', p=['func', 'lin']),
         regime([-3., -1.]), notequal([-2., -1.]), det('lin', ['slope'], [[-.2, 0., .2]]),
         det('quad', ['q', 'slope'], [[0., .1], [.1, .2, .3]], p=[None, ['func', 'lin']]),
         alpha([.1, .3], [1., 1.5, 2.]), alpha([.2, .4], 1.5),
         alpha(.2, [1., 2.], p=[None, ['array', [1, 4]]]), static(), grw(.3), grw([.3]),
         comb(grw([.1, .3]), cp([0, 1])), comb(cp([0, 1]), grw([.1, .2, .3], p=['func', 'lin'])),
         comb(cp([0, 1, 2]), grw([.001, .002, .003, .004])),     # many combinations without evidence
         comb(grw([.1, .3]), regime(-2.)), comb(regime([-2., -1., 0.]), grw(.2), cp([0, 1])),
         comb(regime([-2., -1.]), grw([.2, .3]), cp([0, 1])),
         comb(regime([-2., -1.], p=['array', [2, 1]]), grw([.2]), cp([0, 1, 2])),
         serial(static(), bp([0, 1]), grw([.1, .4])), serial(grw([.1, .4]), cp([0, 1]), regime([-2., -1.])),
         serial(static(), bp(0, 't1'), grw([.1, .3]), cp([1, 2], 't2', p=['array', [1, 2]]), static()),
         serial(det('lin', ['slope'], [[.1, .2]]), bp('all', 't1'), static()),
         comb(serial(grw([.1, .2]), bp([0, 1]), static()), regime([-2., -1.]))]
    if nd == 3:
        m += [grw([.2, .5], 'c'), comb(grw([.2, .3], 'c', 's1'), grw([.2, .6], 'b', 's2'))]
    if nd == 2:
        m += [grw([.2, .5], 'b'), comb(grw([.2, .3, .4], 'a', 's1'), grw([.2, .6], 'b', 's2')),
              comb(grw([.2, .3], 'b', 's2'), grw([.2, .6], 'a', 's1', p=['func', 'lin'])),
              biv([.3, .4], [.2, .4], [0., .3]), biv(.3, .4, [0., .3, .5], p=[None, None, ['array', [1, 1, 2]]]),
              biv([.3, .5], .4, .2)]
    return m


def cases(tier):
    out = []
    for name, s in SETTINGS.items():
        for tm in models(len(s['grid'])):
            if name == 'lin3' and 'alpha' in repr(tm):
                continue
            sym = ALPHABET[name]
            if tier == 'quick':
                if name == 'flat1':
                    out.append({'setting': name, 'tm': tm, 'alphabet': sym, 'n': 3})
                    out.append({'setting': name, 'tm': tm, 'alphabet': sym, 'n': 2})
                else:
                    out.append({'setting': name, 'tm': tm, 'alphabet': sym[:2] + sym[-1:], 'n': 3 if name not in ('lin2', 'lin3') else 2})
            else:
                for n in (2, 3, 4):
                    if n < 4 or name in ('flat1', 'lin1'):
                        out.append({'setting': name, 'tm': tm, 'alphabet': sym, 'n': n})
    # many values, many hyper-parameters, large grids, long series
    n = 30 if tier == 'quick' else 90
    data = [[(i * i + 3 * i + i // 5) % 6 if i % 17 != 11 else None for i in range(n)]]
    lin = ['func', 'lin']
    for name in ('big1', 'big2'):
        for tm in [grw([round(.01 * i, 6) for i in range(50)], p=lin), cp('all'), cp(list(range(0, 25, 2)), p=lin), alpha([.02, .05, .1], [1., 1.3, 1.6, 1.9], p=[lin, lin]),
                   comb(grw([.02, .05], n='s1'), regime([-4., -3.], p=['array', [1, 3]]), grw([.1, .2, .3], n='s2', p=lin), cp([4, 7]), det('lin', ['slope'], [[.001, .002]])),
                   serial(grw([.02, .05], p=lin), bp([2, 5, 6], 't1'), regime([-4., -3.]), cp([9, 12], 't2', p=lin), grw([.1, .2, .3], n='s2'))]:
            if tm['k'] != 'alpha' or name == 'big1':
                out.append({'setting': name, 'tm': tm, 'data': data})
    return out


def atoms(s, tm, combos, data, mode):
    """one newly created Study per combination"""
    out = []
    for d, w in combos:
        S = study('Study', s, ref.subst(tm, d), data)
        fit_mode(S, mode)
        out.append((S.logEvidence, None if mode == 'evidence' or not np.isfinite(S.logEvidence) else
                    np.array(S.posteriorSequence), w, np.array(S.localEvidence, dtype=float)))
    return out


def expected(at, g, hmass):
    with np.errstate(divide='ignore'):
        lw = np.array([a[0] + np.log(a[2]) for a in at])
    le = ref.logsumexp(lw)
    r = {'logE': le + math.log(hmass)}
    if not np.isfinite(le):
        return r
    r['dist'] = np.exp(lw - le)
    # local evidence of the average model: average over the hyper-prior
    if all(np.all(np.isfinite(a[3])) and np.isfinite(a[0]) for a in at):
        r['local'] = sum(a[2] * a[3] for a in at) * hmass
    if at[0][1] is not None or any(a[1] is not None for a in at):
        r['post'] = sum(w * a[1] for w, a in zip(r['dist'], at) if w > 0)
        r['mean'] = ref.means(g, r['post'])
    return r


def check_dists(rec, S, tm, cs, dist, w):
    """all accessors of hyper-parameter distributions"""
    hs = ref.hypers(tm)
    res = {'combos': [d for d, x in cs], 'dist': dist}
    lists = [(n, list(v)) for n, v, p in hs if isinstance(v, list)]
    if len(cs) < 2:
        return
    for n, v in lists:
        x, p = S.getHPD(n)
        rec.close(w + 'values of ' + n, np.ravel(x), v)
        rec.close(w + 'distribution of ' + n, np.ravel(p), ref.marginal(res, n, v))
        x, p = S.getHyperParameterDistribution(n)
        rec.close(w + 'sum of distribution of ' + n, np.sum(p), 1.)
    for (n1, v1), (n2, v2) in itertools.permutations(lists, 2):
        x, y, p = S.getJHPD([n1, n2])
        rec.close(w + 'values of ' + n1, x, v1)
        rec.close(w + 'values of ' + n2, y, v2)
        want = ref.joint(res, n1, v1, n2, v2)
        rec.close(w + 'joint distribution of %s, %s' % (n1, n2), np.reshape(p, want.shape), want)


def check_grid(rec, S, cs, dist, w):
    """every combination is attributed to its own values"""
    if not (hasattr(S, 'flatHyperParameterNames') and hasattr(S, 'hyperGridValues')):
        return
    names = list(S.flatHyperParameterNames)
    rows = {tuple(float(d[n]) for n in names): x for (d, q), x in zip(cs, dist)}
    got = np.array(S.hyperParameterDistribution)
    vol = 1. / np.sum(got)
    seen = {}
    for r, x in zip(np.array(S.hyperGridValues), got):
        seen[tuple(float(y) for y in r)] = x * vol
    rec.ok(set(seen) == set(rows), w + 'combinations of hyper-parameter values')
    for k in rows:
        rec.close(w + 'probability of combination %s' % (k,), seen[k], rows[k])


def run(case, rec):
    s = specs.Setting(SETTINGS.get(case['setting']) or SETTINGS_BIG[case['setting']])
    tm = case['tm']
    for data in case['data'] if 'data' in case else itertools.product(case['alphabet'], repeat=case['n']):
        data = list(data)
        ts = list(range(s.seglen - 1, len(data)))
        rt = specs.ref_tm(tm, ts[:-1])
        cs = ref.combos(rt)
        if not cs:
            continue
        hm = specs.hyper_mass(tm, ts[:-1])
        rec.state(case['setting'], tm, repr(data))
        rec.transitions += len(cs)
        for mode in ('full', 'forward', 'evidence'):
            w = 'data %s, %s fit: ' % (data, mode)
            e = expected(atoms(s, rt, cs, data, mode), s.grid, hm)
            S = study('HyperStudy', s, tm, data)
            fit_mode(S, mode)
            rec.traces += 1
            # a single combination of values is a standard fit: a SymPy hyper-prior has no influence
            if len(cs) == 1:
                e['logE'] -= math.log(hm)
            rec.close(w + 'logEvidence', S.logEvidence, e['logE'])
            if not np.isfinite(e['logE']):
                continue
            if 'local' in e:
                rec.close(w + 'localEvidence', S.localEvidence, e['local'] / (hm if len(cs) == 1 else 1.))
            if mode != 'evidence':
                rec.close(w + 'posteriorSequence', S.posteriorSequence, e['post'])
                rec.close(w + 'posteriorMeanValues', S.posteriorMeanValues, e['mean'])
                for i, n in enumerate(s.grid.names):
                    rec.close(w + 'mean values of ' + n, S.getParameterMeanValues(n), e['mean'][i])
            if len(cs) > 1:
                check_grid(rec, S, cs, e['dist'], w)
                check_dists(rec, S, rt, cs, e['dist'], w)
