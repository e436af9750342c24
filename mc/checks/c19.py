"""C19: numerical stability over the whole range of likelihood values."""
import contextlib
import io
import itertools
import math
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, indep, comb, serial, regime, notequal, alpha, det
from ..common import bl, fit_mode, outcome, kinds
from ..runner import same

RULE = ('study type x transition model x observation sequence x every assignment of scale factors from a menu to the time steps (the likelihood '
        'of a time step is multiplied by the factor): the log-evidence changes by the sum of the logarithms, the local evidence by the factor, '
        'nothing else changes; series of up to several thousand steps with all periodic patterns of observations against the reference '
        'recursion and a closed form; changes of the unit of measurement')
BOUNDS = {'quick': 'scale factors 1e-280, 1, 1e280 (and 1e-150, 1e150) for each of 3 or 4 steps; patterns of period up to 3; 1500 steps',
          'thorough': 'scale factors 1e-280 ... 1e280 (5 values) for each of 4 steps, 3 values for each of 6 steps; patterns of period up to 4; 4000 steps (period 4: 1500)'}
CHUNK = 2

SC = [0, -280, 280, -150, 150]
BASE = 16.


def scaled_like(data, *params):
    k, s = divmod(float(data), BASE)
    return specs.table_like(s, *params) * 10. ** SC[int(k)]


def like1(data, a):
    return scaled_like(data, a)


def like2(data, a, b):
    return scaled_like(data, a, b)


SETTINGS = {'s1': {'grid': [[.1, .3, .5, .7, .9]], 'prior': ['func', 'lin']},
            's2': {'grid': [[.1, .5, .9], [.2, .7]], 'prior': ['array', 'lin']}}
MODELS = {
    'Study': {'static': static(), 'grw': grw(.3), 'indep': indep(), 'cp': cp(1), 'alpha': alpha(.3, 1.5), 'notequal': notequal(-3.), 'regime': regime(-2.),
              'comb': comb(grw(.2), cp(0)), 'combr': comb(grw(.2), regime(-1.)), 'serial': serial(grw(.2), bp(1), indep()), 'serialcp': serial(grw(.2), cp(1), static()),
              'det': det('lin', ['slope'], [.13])},
    'HyperStudy': {'grw': grw([0., .2, .5]), 'grwgap': grw([.1, .2, .6], p=['array', [1, 2, 5]]), 'comb': comb(grw([.1, .4]), regime([-3., -1.])),
                   'cp': cp([0, 1]), 'serial': serial(grw([.1, .3]), bp([0, 1]), static())},
    'ChangepointStudy': {'cp': cp('all'), 'two': comb(cp('all', 'x'), cp('all', 'y')), 'bp': serial(static(), bp('all', 'x'), grw([.2, .5]))},
    'OnlineStudy': {'grw': [grw(.3)], 'hyper': [grw([.1, .2, .3])], 'two': [static(), indep()], 'three': [grw([.1, .3]), static(), regime([-4., -2.])],
                    'cp': [cp([0, 1]), notequal(-2.)], 'det': [det('lin', ['slope'], [.1]), serial(static(), bp(1), indep())]},
}


def cases(tier):
    out = []
    quick = tier == 'quick'
    for cls in MODELS:
        for m in MODELS[cls]:
            for s in SETTINGS:
                if s == 's2' and quick and m in ('alpha', 'comb', 'serial', 'det', 'two'):
                    continue
                for data in ([0, 5, 2, 5], [9, 0, 10, 3], [6, 2, 7, 0]) if quick else \
                        [list(x) for x in itertools.product([0, 5], [2, 9], [6, 10], [7])]:
                    out.append({'part': 'scale', 'cls': cls, 'tm': m, 'setting': s, 'data': data, 'scales': 3 if quick else 5})
                if not quick and s == 's1':
                    for data in ([0, 5, 2, 5, 1, 3], [9, 0, 10, 3, 9, 1]):
                        out.append({'part': 'scale', 'cls': cls, 'tm': m, 'setting': s, 'data': data, 'scales': 3})
                out.append({'part': 'scale', 'cls': cls, 'tm': m, 'setting': s, 'data': [1, 4, 0], 'scales': 5})
    sym = [0, 5, 9, 10]
    for per in (1, 2, 3) if quick else (1, 2, 3, 4):
        for pat in itertools.product(sym, repeat=per):
            for cls in MODELS:
                for m in MODELS[cls]:
                    if cls == 'ChangepointStudy' and m != 'cp':
                        continue
                    if quick and per == 3 and (cls != 'Study' or m not in ('static', 'grw', 'serial')):
                        continue
                    extreme = bool(set(pat) & {9, 10})
                    for k in ((3 if extreme else 1,) if quick or per > 2 else (0, 3, 4) if extreme else (0, 1, 2)):
                        out.append({'part': 'long', 'cls': cls, 'tm': m, 'pat': list(pat), 'k': k, 'n': 400 if cls != 'Study' else 1500 if quick or per > 3 else 4000})
    for k in (-60, -30, -8, 8, 30, 60):
        for cls in ('Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy'):
            for om in ('Gaussian', 'WhiteNoise', 'Laplace', 'AR1', 'ScaledAR1', 'GaussianMean'):
                out.append({'part': 'units', 'k': k, 'cls': cls, 'om': om})
    return out


def run(case, rec):
    return {'scale': scale, 'long': long_series, 'units': units}[case['part']](case, rec)


def make(cls, st, tm, data, ts=None):
    b = bl()
    om = b.om.NumPy([None, like1, like2][len(st.names)], *[x for n, v in zip(st.names, st.grid.values) for x in (n, np.array(v))],
                    prior=specs.prior_real(st.spec.get('prior'), st.grid))
    if cls == 'OnlineStudy':
        S = b.OnlineStudy(storeHistory=True, silent=True)
        S.set(om, silent=True)
        for i, m in enumerate(tm):
            S.addTransitionModel('m%d' % i, specs.real_tm(b, m))
        return S
    S = getattr(b, cls)(silent=True)
    S.loadData(np.array(data, dtype=float), silent=True)
    S.set(om, specs.real_tm(b, tm), silent=True)
    return S


def analyse(cls, st, tm, data, mode):
    S = make(cls, st, tm, data)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if cls == 'OnlineStudy':
            les = []
            for x in data:
                S.step(float(x))
                les.append(S.logEvidence)
            return S, les
        fit_mode(S, mode)
    return S, None


def result(S):
    if not np.isfinite(S.logEvidence):
        return {'logE': S.logEvidence}
    r = outcome(S)
    if type(S).__name__ == 'OnlineStudy':
        r['local TMDs'] = np.array(S.getTransitionModelDistributions(local=True)[1])
    return r


def healthy(rec, r, where):
    """distributions are finite, non-negative and normalised"""
    for k, v in r.items():
        if k.split(' ')[0] in ('post', 'CPD', 'CTMD', 'local CTMD', 'CHPD', 'HPD', 'TMDs', 'mean', 'means', 'PDs'):
            rec.ok(np.all(np.isfinite(v)), '%s%s is not finite: %r' % (where, k, v))
    for k in ('post', 'CTMD', 'TMDs'):
        if k in r and np.size(r[k]):
            v = np.asarray(r[k])
            rec.ok(np.min(v) >= 0, '%s%s is negative' % (where, k))
            tot = v.reshape(len(v), -1).sum(axis=1) if k == 'post' else v.sum(axis=-1)
            rec.close(where + 'sum of ' + k, tot, np.ones(np.shape(tot)), 1e-9)
    for k in r:
        if k.startswith('HPD '):
            rec.close(where + 'sum of ' + k, np.sum(r[k]), 1., 1e-9)


def scale(case, rec):
    cls, data = case['cls'], case['data']
    st = specs.Setting(SETTINGS[case['setting']])
    tm = MODELS[cls][case['tm']]
    n = len(data)
    modes = ('forward',) if cls == 'OnlineStudy' else ('full', 'forward', 'evidence')
    base, bl0 = {}, None
    for mode in modes:
        S, bl0 = analyse(cls, st, tm, data, mode)
        base[mode] = result(S)
        if np.isfinite(S.logEvidence):
            healthy(rec, base[mode], '')
    tms = tm if isinstance(tm, list) else [tm]
    has_regime = any('regime' in kinds(m) for m in tms)
    # likelihood values have to be representable: smaller factors together with extreme observations
    menu = range(case['scales']) if not set(data) & {9, 10} else (0, 3, 4)
    for j, ks in enumerate(itertools.product(menu, repeat=n)):
        d = [x + BASE * k for x, k in zip(data, ks)]
        shift = np.array([SC[k] for k in ks], dtype=float)
        for mode in modes:
            if mode != 'full' and cls != 'OnlineStudy' and j % 4:
                continue
            rec.state(case['cls'], case['tm'], case['setting'], d, mode)
            S, les = analyse(cls, st, tm, d, mode)
            rec.transitions += n
            rec.traces += 1
            where = 'factors %s: ' % ['1e%d' % e for e in shift]
            got, want = result(S), base[mode]
            rec.ok(set(got) == set(want), where + 'available results differ')
            if cls == 'OnlineStudy':
                rec.close(where + 'log-evidence per step', np.array(les), np.array(bl0) + np.cumsum(shift) * math.log(10), 1e-9)
            if not np.isfinite(want['logE']):
                rec.ok(got['logE'] == want['logE'], where + 'log-evidence %r, expected %r' % (got['logE'], want['logE']))
                continue
            healthy(rec, got, where)
            ok = True
            for key in sorted(want):
                a, w = np.asarray(got.get(key), dtype=float), np.asarray(want[key], dtype=float)
                if key == 'logE':
                    w = w + shift.sum() * math.log(10)
                if key == 'local' and cls != 'OnlineStudy':
                    if np.any(~np.isfinite(w)) or any(x in (6, 7, 8) for x in data):
                        continue
                    a, w = np.log(a), np.log(w) + shift * math.log(10)
                if key.startswith('HPDs ') and a.shape == w.shape:
                    # the hyper-parameters of a transition model that has become impossible have no distribution (C05)
                    none = np.isnan(a) & np.isnan(w)
                    a, w = np.where(none, 0., a), np.where(none, 0., w)
                if not same(a, w, 1e-9):
                    if has_regime and mode == 'full' and key not in ('logE',) and not key.startswith('HPD'):
                        ok = False
                        continue
                    rec.close(where + key, a, w, 1e-9)
            if not ok:
                quirk(rec, case, st, tm, d, data, shift, S, where)


def quirk(rec, case, st, tm, d, data, shift, S, where):
    """is this exactly the recorded scale dependence of the backward pass of RegimeSwitch?"""
    like = [l * 10. ** e for l, e in zip(st.like(data), shift)]
    ts = list(range(len(data)))
    q = ['cp_volume', 'serial_backward_prior']
    t = specs.ref_tm(tm, ts[:-1])
    r = ref.fit(st.grid, st.prior, like, ts, t, 'full', q, st.mass) if case['cls'] == 'Study' else \
        ref.hyper_fit(st.grid, st.prior, like, ts, t, 'full', None, q, st.mass)
    if same(S.posteriorSequence, r['post'], 1e-9) and same(S.posteriorMeanValues, r['mean'], 1e-9):
        rec.known('KF-regime-backward')
    else:
        rec.close(where + 'posteriorSequence (regime-switch)', S.posteriorSequence, r['post'], 1e-9)
        rec.close(where + 'posteriorMeanValues (regime-switch)', S.posteriorMeanValues, r['mean'], 1e-9)


def long_series(case, rec):
    cls, n = case['cls'], case['n']
    st = specs.Setting(SETTINGS['s1'])
    tm = MODELS[cls][case['tm']]
    pat = case['pat']
    data = [pat[i % len(pat)] for i in range(n)]
    if cls == 'ChangepointStudy':
        tm = cp([10, 100, n - 3])
    d = [x + BASE * case['k'] for x in data]
    e = SC[case['k']] * math.log(10)
    like = [l * 1. for l in st.like(data)]
    ts = list(range(n))
    rec.state(cls, case['tm'], pat, case['k'], n)
    S, les = analyse(cls, st, tm, d, 'full')
    rec.transitions += n
    rec.traces += 1
    where = '%d steps: ' % n
    got = result(S)
    healthy(rec, got, where)
    tol = 1e-9
    tms = tm if isinstance(tm, list) else [tm]
    q = ['cp_volume', 'serial_backward_prior']
    mode = 'forward' if cls == 'OnlineStudy' else 'full'
    if cls == 'OnlineStudy':
        if len(tms) == 1:
            r = ref.hyper_fit(st.grid, st.prior, like, ts, specs.ref_tm(tms[0], ts[:-1]), 'forward', None, q, st.mass)
            # the distribution of the last step is the average over the filtering distributions
            rec.close(where + 'current distribution', got['CPD a'] * st.grid.dx[0], r['post'][-1], 1e-7)
            f = ref.fit(st.grid, st.prior, like, ts, specs.ref_tm(tms[0]), 'forward', q, st.mass) if case['tm'] == 'grw' else None
            if f is not None:
                rec.close(where + 'log-evidence', les[-1] - n * e, f['logE'], 1e-9 * max(1., abs(n * e)))
                rec.close(where + 'history', got['PDs a'] * st.grid.dx[0], f['post'], 1e-8)
        return
    t = specs.ref_tm(tm, ts[:-1])
    r = ref.fit(st.grid, st.prior, like, ts, t, 'full', q, st.mass) if cls == 'Study' else ref.hyper_fit(st.grid, st.prior, like, ts, t, 'full', None, q, st.mass)
    rec.close(where + 'log-evidence', S.logEvidence - n * e, r['logE'], 1e-10 * max(1., abs(n * e)))
    if case['tm'] == 'static' and cls == 'Study':
        # closed form: all data at once
        lp = np.log(st.prior / st.prior.sum()) + sum(np.log(l) * ((n // len(pat)) + (1 if i < n % len(pat) else 0)) for i, l in enumerate(like[:len(pat)]))
        le = ref.logsumexp(lp)
        rec.close(where + 'closed form of the log-evidence', S.logEvidence - n * e, le, 1e-10 * max(1., abs(n * e)))
        for i in (0, n // 2, n - 1):
            rec.close(where + 'closed form of the distribution', S.posteriorSequence[i], np.exp(lp - le), 1e-8)
    if any('regime' in kinds(m) for m in tms) and case['k']:
        ls = [l * 10. ** SC[case['k']] for l in like]
        z = ref.fit(st.grid, st.prior, ls, ts, t, 'full', q, st.mass) if cls == 'Study' else ref.hyper_fit(st.grid, st.prior, ls, ts, t, 'full', None, q, st.mass)
        if not same(S.posteriorSequence, r['post'], 1e-8):
            if same(S.posteriorSequence, z['post'], 1e-8):
                rec.known('KF-regime-backward')
            else:
                rec.close(where + 'posteriorSequence', S.posteriorSequence, z['post'], 1e-8)
        return
    rec.close(where + 'posteriorSequence', S.posteriorSequence, r['post'], 1e-8)
    rec.close(where + 'posteriorMeanValues', S.posteriorMeanValues, r['mean'], 1e-8)


def units(case, rec):
    """the same data in another unit: densities change by the factor, nothing else does"""
    b = bl()
    cls, om = case['cls'], case['om']
    base = [.3, -1.2, 1.1, .4, 2.2]
    if om == 'GaussianMean':
        base = [[x, .5 + .2 * i] for i, x in enumerate(base)]
    res = []
    for k in (0, case['k']):
        u = 10. ** k
        data = np.array(base) * u
        loc, sc = np.array([-1., 0., 1., 2.]) * u, np.array([.5, 1., 1.5]) * u
        L = {'Gaussian': lambda: b.om.Gaussian('a', loc, 'b', sc), 'WhiteNoise': lambda: b.om.WhiteNoise('a', sc), 'Laplace': lambda: b.om.Laplace('a', loc, 'b', sc),
             'AR1': lambda: b.om.AR1('r', np.array([-.5, 0., .5]), 'a', sc, prior=lambda r, a: 1. / a), 'ScaledAR1': lambda: b.om.ScaledAR1('r', np.array([-.5, 0., .5]), 'a', sc, prior=lambda r, a: 1. / a),
             'GaussianMean': lambda: b.om.GaussianMean('a', loc)}[om]()
        seg = 2 if om in ('AR1', 'ScaledAR1') else 1
        T = {'Study': b.tm.GaussianRandomWalk('sigma', .4 * u, target='a'),
             'HyperStudy': b.tm.CombinedTransitionModel(b.tm.GaussianRandomWalk('sigma', np.array([.2, .4, .6]) * u, target='a')),
             'ChangepointStudy': b.tm.SerialTransitionModel(b.tm.Static(), b.tm.BreakPoint('t', 'all'), b.tm.GaussianRandomWalk('sigma', .4 * u, target='a')),
             'OnlineStudy': b.tm.GaussianRandomWalk('sigma', .4 * u, target='a')}[cls]
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            if cls == 'OnlineStudy':
                S = b.OnlineStudy(storeHistory=True, silent=True)
                S.set(L, T, silent=True)
                for x in data:
                    S.step(x if om != 'GaussianMean' else [list(x)])
            else:
                S = getattr(b, cls)(silent=True)
                S.loadData(data, silent=True)
                S.set(L, T, silent=True)
                S.fit(silent=True)
        res.append((S, u))
    (S, _), (R, u) = res
    k = case['k']
    n = len(base) - seg + 1
    rec.state(cls, om, k)
    rec.transitions += n
    rec.traces += 1
    rec.close('log-evidence in units of 1e%d' % -k, R.logEvidence, S.logEvidence - n * k * math.log(10), 1e-8)
    rec.close('distributions in units of 1e%d' % -k, np.array(R.posteriorSequence), np.array(S.posteriorSequence), 1e-8)
    for i, name in enumerate(S.observationModel.parameterNames):
        f = 1. if name == 'r' else u
        rec.close('mean values of %s in units of 1e%d' % (name, -k), np.array(R.getParameterMeanValues(name)) / f, np.array(S.getParameterMeanValues(name)), 1e-8)
    if cls in ('HyperStudy', 'ChangepointStudy'):
        h = 'sigma' if cls == 'HyperStudy' else 't'
        rec.close('hyper-parameter distribution', np.ravel(R.getHPD(h)[1]), np.ravel(S.getHPD(h)[1]), 1e-8)
