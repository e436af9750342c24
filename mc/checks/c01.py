"""C01: a fit is exact Bayesian inference on the parameter grid (oracle: enumeration of all parameter paths)."""
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, indep, comb, serial
from ..common import study, fit_mode, sequences, compare_fit

RULE = ('all observation sequences over the alphabet up to the maximal length, for every setting (observation model, '
        'grid, prior) and transition model; oracle: sum over all parameter paths')
BOUNDS = {'quick': 'sequences up to length 3 (4 for one of the settings; alphabet of 4 or 5 symbols), 15 settings with grids of up to 8 points, 25 to 30 models each; series of up to 130 steps on grids of up to 312 points',
          'thorough': 'sequences up to length 5 (alphabet of 4 to 6 symbols), grids of up to 8 points, all models with all settings; series of up to 520 steps on grids of up to 819 points'}
CHUNK = 1

G1 = [[.1, .5, .9]]
G2 = [[.1, .5, .9], [.2, .7]]
SETTINGS = {
    'flat1': {'grid': G1},
    'lin1': {'grid': [[.0, .25, .5, .75]], 'prior': ['func', 'lin']},
    'arr1': {'grid': [[.1, .6]], 'prior': ['array', 'lin']},
    'zero1': {'grid': G1, 'prior': ['array1', 'zero']},
    'sym1': {'grid': G1, 'prior': ['sympy', [['Normal', [.4, .5]]]]},
    'cat1': {'grid': [[.1, .5, 1.5]], 'prior': ['func', 'peak']},       # not equally spaced: categorical
    'desc1': {'grid': [[.9, .5, .1]], 'prior': ['func', 'lin']},        # decreasing values
    'ext1': {'grid': [[0., .5, 1.]]},                                   # extreme likelihood ratios
    'flat2': {'grid': G2},
    'lin2': {'grid': G2, 'prior': ['func', 'lin']},
    'wide2': {'grid': [[0., 3.], [-2., .5, 3.]], 'prior': ['array', 'peak']},
    'lin3': {'grid': [[.1, .5], [.2, .7], [0., 1.]], 'prior': ['func', 'lin']},
    'poisson': {'om': 'poisson', 'grid': [[.5, 1.5, 2.5]], 'prior': ['poisson', 'jeffreys']},
    'gaussian': {'om': 'gaussian', 'grid': [[-1., 0., 1.], [.5, 1.]], 'prior': ['gaussian', 'jeffreys']},
    'ar1': {'om': 'ar1', 'grid': [[-.5, 0., .5], [.5, 1.]]},
}
ALPHABET = {'ext1': [0, 9, 10, 6, None], 'poisson': [0, 1, 4, None], 'gaussian': [-1.2, .3, 2.5, None], 'ar1': [-1.2, .3, 1., None]}


def models(ndim):
    m = [static(), grw(.2), grw(1.7), grw(0.), indep()]
    m += [cp(t) for t in range(4)]
    m += [comb(cp(1), grw(.3)), comb(grw(.3), cp(1)), comb(cp(0, 't1'), cp(2, 't2')), comb(static(), grw(.25)),
          comb(grw(.2, n='s1'), grw(.4, n='s2')), comb(indep(), grw(.3)), comb(grw(.3), indep())]
    m += [serial(static(), bp(1), grw(.3)), serial(grw(.3), bp(0), static()), serial(grw(.3), cp(1), static()),
          serial(static(), cp(0, 't1'), grw(.2), bp(2, 't2'), static()),
          serial(static(), bp(1, 't1'), indep(), cp(2, 't2'), grw(.3)),
          serial(comb(static(), grw(.3)), bp(1), comb(grw(.2, n='s2'), grw(.1, n='s3'))),
          comb(serial(static(), bp(1), grw(.3)), cp(2)),
          serial(static(), bp(-1), grw(.3)), serial(static(), cp(7), grw(.3))]
    if ndim > 1:
        m += [grw(.4, 'b'), comb(grw(.3, 'a', 's1'), grw(.6, 'b', 's2')),
              serial(grw(.3, 'a', 's1'), bp(1), grw(.6, 'b', 's2'))]
    if ndim > 2:
        m += [grw(.9, 'c'), comb(grw(.3, 'a', 's1'), grw(.6, 'c', 's2'))]
    return m


def cases(tier):
    out = []
    for name, s in SETTINGS.items():
        nd = len(s['grid'])
        sym = ALPHABET.get(name, [0, 1, 6, None, 8] if nd == 1 else [0, 1, 7, None])
        g = int(np.prod([len(x) for x in s['grid']]))
        if tier == 'quick':
            n = 4 if name == 'lin1' else 3
        else:
            n = 5 if g <= 4 else 4
            if g > 6:
                n = 4
            if len(sym) == 4 and name not in ALPHABET:
                sym = sym + [8, 2]
        for tm in models(nd):
            out.append({'setting': name, 'tm': tm, 'alphabet': sym, 'maxlen': n})
    # long series on larger grids (oracle: message passing, which the small cases tie to path enumeration)
    for tm in models(1):
        for k in range(2 if tier == 'quick' else 8):
            out.append({'big': k, 'tm': tm, 'ndim': 1})
    for tm in models(2):
        for k in range(1 if tier == 'quick' else 4):
            out.append({'big': k, 'tm': tm, 'ndim': 2})
    for nd in (1, 2):
        for n in (65, 130) if tier == 'quick' else (65, 130, 260, 520):
            for tm in [static(), grw(.05), indep(), cp(n // 2), comb(cp(40), grw(.02)), serial(grw(.03), bp(33), static(), cp(60, 't2'), grw(.1, n='s2'))]:
                out.append({'big': 0, 'long': n, 'tm': tm, 'ndim': nd})
    return out


def big_setting(k, ndim, n=None):
    if n:
        return {'grid': [list(np.linspace(0., 1., n + 3))] if ndim == 1 else [list(np.linspace(0., 1., 11 + n // 10)), list(np.linspace(-1., 1., 13))],
                'prior': ['func', 'lin']}
    if ndim == 1:
        return {'grid': [list(np.linspace(0., 1. + k, 30 + 3 * k))], 'prior': ['func', 'lin'] if k % 2 else None}
    return {'grid': [list(np.linspace(0., 1., 9 + k)), list(np.linspace(-1., 1., 7))],
            'prior': None if k % 2 else ['array', 'peak']}


def run(case, rec):
    tm = case['tm']
    if 'big' in case:
        k = case['big']
        s = specs.Setting(big_setting(k, case['ndim'], case.get('long')))
        data = [(i * i * (k + 2) + 3 * i + i // 5) % 6 for i in range(case.get('long') or 17 + k)]
        data[5] = None
        if k == 1:
            data[7], data[8], data[11] = 9, 10, 10
        like = s.like(specs.num(data))
        for mode in ('full', 'forward', 'evidence'):
            S = study('Study', s, tm, data)
            fit_mode(S, mode)
            compare_fit(rec, S, s, tm, like, list(range(len(data))), mode, where=mode + ' fit, long series, ')
            rec.traces += 1
            rec.transitions += len(data)
        return
    s = specs.Setting(SETTINGS[case['setting']])
    for data in sequences(case['alphabet'], case['maxlen'], s.seglen):
        d = specs.num(data)
        like = s.like(d)
        ts = list(range(s.seglen - 1, len(data)))
        ex = ref.paths_fit(s.grid, s.prior, like, ts, tm, (), s.mass)
        mp = ref.fit(s.grid, s.prior, like, ts, tm, 'full', (), s.mass)
        rec.close('reference model: message passing versus path enumeration', mp['logE'], ex['logE'])
        rec.state(case['setting'], tm, tuple(data))
        rec.transitions += 1
        rec.count('parameter_paths', ex['npaths'])
        pos = np.isfinite(ex['logE'])
        if pos:
            rec.close('reference model: smoothing distribution', mp['post'], ex['smooth'])
        for mode in ('full', 'forward', 'evidence'):
            ideal = {'logE': ex['logE']}
            if pos and mode != 'evidence':
                post = ex['smooth'] if mode == 'full' else ex['filter']
                ideal.update(post=post, mean=ref.means(s.grid, post),
                             local=ex['local_smooth'] if mode == 'full' else ex['local_filter'])
            S = study('Study', s, tm, data)
            fit_mode(S, mode)
            compare_fit(rec, S, s, tm, like, ts, mode, ideal, 'data %s, %s fit: ' % (data, mode))
            rec.ok(len(S.localEvidence) == len(like), 'number of local evidence values')
            rec.traces += 1
