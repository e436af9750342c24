"""C18: time stamps label results and locate change-points, nothing else."""
import itertools
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, indep, comb, serial, regime, notequal, alpha
from ..common import bl, fit_mode, outcome, compare_outcomes, compare_fit, freeze
from .c12 import drawn

RULE = ('study type x observation model x transition model with change-/break-points at every position (on, between, before and after '
        'the data points) x every menu of time stamps (and forms: array, list, tuple, integer and floating-point types) x all '
        'observation sequences x fit modes: same results as with default time stamps (times of points mapped accordingly), and as the '
        'reference model; every accessor with a time argument at every time stamp and at every non-existing one')
BOUNDS = {'quick': '14 menus of time stamps, 4 or 5 time steps, all series over 2 symbols (from 5 steps on and for other classes than Study: every third series), up to 2 points at 11 positions; series of 36 steps with up to 10 points',
          'thorough': '14 menus of time stamps, 4 to 7 time steps, all series over 3 symbols (2 symbols from 6 steps; from 5 steps on every fifth series), up to 3 points'}
CHUNK = 4

STAMPS = {
    'shift1': lambda n: [1 + i for i in range(n)],
    'years': lambda n: [1852 + i for i in range(n)],
    'minus': lambda n: [-3 + i for i in range(n)],
    'double': lambda n: [2 * i for i in range(n)],
    'half': lambda n: [.5 * i for i in range(n)],
    'tenth': lambda n: [.1 * i for i in range(n)],
    'tenths': lambda n: [float('%.1f' % (.3 + .1 * i)) for i in range(n)],
    'thirds': lambda n: [-1. + i / 3. for i in range(n)],
    'squares': lambda n: [i * i for i in range(n)],
    'gaps': lambda n: [[-7.5, -1., 0., 2.25, 100., 100.5, 101., 1000.][i] for i in range(n)],
    'overlap': lambda n: [[0, 2, 3, 5, 6, 9, 10, 12][i] for i in range(n)],
    'large': lambda n: [10 ** 6 + 3 * i for i in range(n)],
    'seconds': lambda n: [1.6e9 + .1 * i for i in range(n)],
    'bigint': lambda n: [10 ** 12 + 7 * i * i for i in range(n)],
}
SETTINGS = {
    't1': {'grid': [[.1, .3, .5, .7, .9]], 'prior': ['func', 'lin']},
    't2': {'grid': [[.1, .5, .9], [.2, .7]], 'prior': ['array', 'lin']},
    'seg2': {'om': 'seg2', 'grid': [[.1, .5, .9]], 'prior': ['func', 'lin']},
    'seg3': {'om': 'seg3', 'grid': [[.1, .5, .9]]},
    'ar1': {'om': 'ar1', 'grid': [[-.5, 0., .5], [.5, 1.]]},
}
SYM = {'t1': [0, 5, 2], 't2': [0, 5, 2], 'seg2': [0, 5, 2], 'seg3': [0, 5, 2], 'ar1': [-1.2, .3, .9]}
NAME = {'t1': 'a', 't2': 'b', 'seg2': 'a', 'seg3': 'a', 'ar1': 'a'}
FORMS = {'array': np.array, 'list': list, 'tuple': tuple, 'float': lambda x: np.array(x, dtype=float),
         'int32': lambda x: np.array(x, dtype=np.int32)}


def map_points(tm, f):
    """change- and break-points at f(position)"""
    s = dict(tm)
    if s['k'] in ('cp', 'bp'):
        s['v'] = [v if isinstance(v, str) else [f(x) for x in v] if isinstance(v, list) else f(v) for v in s['v']]
    if 'm' in s:
        s['m'] = [map_points(m, f) for m in s['m']]
    return s


def mapper(ts):
    """position in the series -> time, also between, before and after the time stamps"""
    def f(x):
        n = len(ts)
        if x == int(x) and 0 <= x < n:
            return ts[int(x)]
        if x < 0:
            return ts[0] + x
        if x > n - 1:
            return ts[-1] + (x - n + 1)
        i = int(np.floor(x))
        return ts[i] + (x - i) * (ts[i + 1] - ts[i])
    return f


def study_models(st, n, tier):
    name = NAME[st]
    pos = [-1, 0, .5, 1, 1.5, 2, 2.5, 3, 4, 4.5, 6][:11 if tier != 'quick' or st == 't1' else 8]
    m = [static(), grw(.3, name), indep(), comb(grw(.2, name), regime(-2.)), notequal(-3.), alpha(.4, 1.5, name)]
    for x in pos:
        m += [cp(x), comb(grw(.2, name), cp(x)), serial(static(), bp(x), grw(.4, name)), serial(grw(.2, name), cp(x), indep()),
              comb(serial(indep(), bp(x), static()), grw(.3, name))]
    pairs = [(x, y) for x, y in itertools.product(pos, repeat=2) if x < y]
    if tier == 'quick':
        pairs = [p for p in pairs if p in ((0, 1), (0, 2), (1, 2), (.5, 1), (1, 1.5), (-1, 1), (1, 6), (2, 3))]
    for x, y in pairs:
        m += [serial(static(), bp(x, 'x'), grw(.4, name), bp(y, 'y'), indep()), comb(cp(x, 'x'), cp(y, 'y')),
              serial(static(), cp(x, 'x'), grw(.3, name), bp(y, 'y'), static())]
    if tier != 'quick':
        for x, y, z in ((0, 1, 2), (1, 2, 3), (0, .5, 3), (.5, 1, 1.5)):
            m += [serial(static(), bp(x, 'x'), grw(.4, name), bp(y, 'y'), indep(), cp(z, 'z'), static())]
    return m


def hyper_models(st):
    name = NAME[st]
    return [cp([0, 1, 2]), cp([2, 0]), cp([.5, 1.5, 5]), cp('all'), comb(cp('all'), grw([.1, .4], name)), serial(static(), bp('all'), grw([.2, .5], name)),
            serial(static(), bp([0, 1], 'x'), grw(.3, name), cp([2, 3], 'y'), static()), cp('all', p=['array', [1, 3, 2, 5, 4, 6, 7]])]


def long_models(st):
    name = NAME[st]
    return [m for x in (0, 9, 20, 20.5, 33, 34) for m in (cp(x), comb(grw(.2, name), cp(x)), serial(static(), bp(x), grw(.4, name)))] + \
        [serial(static(), bp(5, 'x'), grw(.4, name), bp(17, 'y'), indep(), cp(25, 'z'), static()),
         comb(*([cp(3 * i + 1, 't%d' % i) for i in range(10)] + [grw(.2, name)])),
         serial(*sum([[grw(.1 * (i + 1), name, 's%d' % i), bp(4 * i + 2, 'b%d' % i)] for i in range(7)], []) + [static()])]


def cp_models(st):
    name = NAME[st]
    return [cp('all'), comb(cp('all', 'x'), cp('all', 'y')), serial(static(), bp('all', 'x'), grw(.4, name), bp('all', 'y'), indep()),
            serial(static(), cp('all', 'x'), grw([.2, .5], name), bp([1, 2, 3], 'y'), static()), comb(cp([0, 2], 'x'), cp([1, 2, 3], 'y'), grw(.2, name))]


def trim(tm, n):
    """hyper-prior arrays of 'all' have one entry per possible time"""
    s = dict(tm)
    if 'p' in s:
        s['p'] = [['array', p[1][:n - 1]] if p is not None and p[0] == 'array' else p for p in s['p']]
    if 'm' in s:
        s['m'] = [trim(m, n) for m in s['m']]
    return s


def cases(tier):
    out = []
    lens = {'t1': [4], 't2': [4], 'seg2': [5], 'seg3': [6], 'ar1': [5]} if tier == 'quick' else \
        {'t1': [4, 5, 7], 't2': [4, 5], 'seg2': [5, 6], 'seg3': [6, 7], 'ar1': [5]}
    for s in SETTINGS:
        for n in lens[s]:
            k = n - specs.Setting(SETTINGS[s]).seglen + 1
            for i in range(len(study_models(s, n, tier))):
                if tier == 'quick' and s in ('t2', 'seg3', 'ar1') and i > 5 and i % 3:
                    continue
                out.append({'part': 'relabel', 'setting': s, 'cls': 'Study', 'n': n, 'tm': i})
            for i in range(len(hyper_models(s))):
                out.append({'part': 'relabel', 'setting': s, 'cls': 'HyperStudy', 'n': n, 'tm': i})
            for i in range(len(cp_models(s))):
                out.append({'part': 'relabel', 'setting': s, 'cls': 'ChangepointStudy', 'n': n, 'tm': i})
            for cls in ('Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy'):
                for t in ['default'] + list(STAMPS):
                    if cls == 'OnlineStudy' and t != 'default':
                        continue
                    for mode in ('full', 'forward'):
                        out.append({'part': 'access', 'setting': s, 'cls': cls, 'n': n, 'ts': t, 'mode': mode})
    # long series
    for s in ('t1', 't2', 'seg2'):
        for i in range(len(long_models(s))):
            out.append({'part': 'relabel', 'setting': s, 'cls': 'Study', 'n': 36 if tier == 'quick' else 80, 'tm': i, 'long': True})
        for i in range(3):
            out.append({'part': 'relabel', 'setting': s, 'cls': 'ChangepointStudy', 'n': 11 if i else 30, 'tm': i, 'long': True})
    for t in STAMPS:
        for form in FORMS:
            out.append({'part': 'form', 'ts': t, 'form': form})
    for cls in EXAMPLE:
        for i in range(len(EXAMPLE[cls])):
            out.append({'part': 'example', 'cls': cls, 'tm': i})
    for d in (-2, -1, 1, 3):
        out.append({'part': 'count', 'd': d})
    for c in out:
        c['tier'] = tier
    return out


def make(cls, st, tm, data, ts):
    b = bl()
    S = getattr(b, cls)(silent=True)
    S.loadData(np.array(data, dtype=float), timestamps=ts, silent=True)
    S.set(st.real(b), specs.real_tm(b, tm), silent=True)
    return S


def run(case, rec):
    return {'relabel': relabel, 'access': access, 'form': form, 'count': count, 'example': example}[case['part']](case, rec)


def select(case):
    cls, s, n = case['cls'], case['setting'], case['n']
    st = specs.Setting(SETTINGS[s])
    k = n - st.seglen + 1
    menu = long_models(s) if case.get('long') and cls == 'Study' else study_models(s, n, case['tier']) if cls == 'Study' else hyper_models(s) if cls == 'HyperStudy' else cp_models(s)
    return st, k, trim(menu[case['tm']], k)


def relabel(case, rec):
    st, k, tm0 = select(case)
    cls, n = case['cls'], case['n']
    sym = SYM[case['setting']][:2 if case['tier'] == 'quick' or n > 5 else 3]
    seqs = [] if case.get('long') else list(itertools.product(sym, repeat=n))
    if case['tier'] == 'quick' and (n > 4 or cls != 'Study'):
        seqs = [q for i, q in enumerate(seqs) if q[0] == sym[0] and i % 3 == 1]
    if case['tier'] != 'quick' and (n > 4 or cls != 'Study'):
        seqs = [q for i, q in enumerate(seqs) if i % 5 == 1]
    if case.get('long'):
        seqs = [tuple(SYM[case['setting']][(i * i + i // 3) % 3] for i in range(n))]
    off = st.seglen - 1
    default = list(range(n))
    kept = set(['full', 'forward'])
    for qi, q in enumerate(seqs):
        base = {}
        for mode in ('full', 'forward', 'evidence'):
            S = make(cls, st, map_points(tm0, lambda x: x + off), q, None)
            fit_mode(S, mode)
            base[mode] = outcome(S)
        for j, (tname, g) in enumerate(STAMPS.items()):
            if n > 8 and tname in ('gaps', 'overlap'):
                continue
            ts = g(n)
            f = mapper(ts[off:])
            tm = map_points(tm0, f)
            for mode in ('full', 'forward', 'evidence'):
                if mode != 'full' and (qi + j) % 3:
                    continue
                rec.state(case['setting'], cls, case['tm'], q, tname, mode)
                S = make(cls, st, tm, q, ts)
                fit_mode(S, mode)
                rec.transitions += k
                rec.traces += 1
                got, want = outcome(S), dict(base[mode])
                where = 'time stamps %s' % (ts,)
                rec.ok(np.array_equal(np.asarray(S.formattedTimestamps), np.asarray(ts[off:])), where + ': times are %r' % (S.formattedTimestamps,))
                # times are those of the time stamps
                want['times'] = np.array(ts[off:], dtype=float)
                for key in list(want):
                    if key.startswith('values t') or key in ('values x', 'values y'):
                        want[key] = np.array([f(v - off) for v in want[key]], dtype=float)
                compare_outcomes(rec, where, got, want, 1e-9)
                if cls == 'Study' and j % 3 == qi % 3:
                    compare_fit(rec, S, st, tm, st.like(list(q)), ts[off:], mode, where=where + ': ')


def access(case, rec):
    from bayesloop.exceptions import PostProcessingError
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    s, cls, n = case['setting'], case['cls'], case['n']
    st = specs.Setting(SETTINGS[s])
    b = bl()
    name = NAME[s]
    off = st.seglen - 1
    ts = list(range(n)) if case['ts'] == 'default' else STAMPS[case['ts']](n)
    data = [SYM[s][i % 3] for i in (0, 1, 2, 1, 1, 0, 2)][:n]
    tm = {'Study': grw(.4, name), 'HyperStudy': comb(grw([.1, .4], name), cp('all')), 'ChangepointStudy': cp('all'), 'OnlineStudy': grw([.2, .4, .6], name)}[cls]
    if cls == 'OnlineStudy':
        S = b.OnlineStudy(storeHistory=True, silent=True)
        S.set(st.real(b), silent=True)
        S.addTransitionModel('one', specs.real_tm(b, tm))
        S.addTransitionModel('two', specs.real_tm(b, static()))
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            for x in data:
                S.step(x)
    else:
        S = make(cls, st, tm, data, ts)
        fit_mode(S, case['mode'])
    times = ts[off:]
    rec.ok(np.array_equal(np.asarray(S.formattedTimestamps, dtype=float), np.asarray(times, dtype=float)), 'times are %r, expected %r' % (S.formattedTimestamps, times))
    post = np.array(S.posteriorSequence)
    rec.ok(post.shape[0] == len(times), '%d distributions for %d time stamps' % (post.shape[0], len(times)))
    before = freeze(post)
    names = st.names
    other = sorted(set(list(range(-3, n + 3)) + ts + [t + .5 for t in ts] + [t + 1 for t in ts] + [t - 1 for t in ts] + [ts[0] - 1000., 1852.]))
    missing = [t for t in other if t not in times]
    means = {m: [] for m in names}
    for i, t in enumerate(times):
        for ax, par in enumerate(names):
            m = post[i].sum(axis=tuple(a for a in range(post[i].ndim) if a != ax)) if post[i].ndim > 1 else post[i]
            means[par].append(float(np.sum(m * st.grid.values[ax])))
            for tt in (t, float(t), np.float64(t)) + ((np.int64(t), np.int32(t) if abs(t) < 2 ** 31 else np.int64(t)) if t == int(t) else ()):
                rec.close('getPD(%r, %s)' % (tt, par), S.getPD(tt, par)[1], m / st.grid.dx[ax], 1e-10)
                rec.close('getParameterDistribution(%r, %s)' % (tt, par), S.getParameterDistribution(tt, par, density=False)[1], m, 1e-12)
                rec.count('queries', 2)
            rec.close('mean of %s at %r' % (par, t), S.getParameterMeanValue(t, par) if cls == 'OnlineStudy' else S.getParameterMeanValues(par)[i],
                      means[par][-1], 1e-10)
            plt.figure()
            S.plot(par, t=t, density=False)
            fills = drawn()['fill']
            tops = [[max([y for x, y in v if abs(x - g) < 1e-9] or [-1.]) for g in st.grid.values[ax]] for v in fills]
            rec.ok(any(np.allclose(y, m, atol=1e-10) for y in tops), 'plot of %s at %r shows %s, expected %s' % (par, t, tops, m))
            if ' ' not in par:
                thr = float(np.mean(st.grid.values[ax]))
                want = float(np.sum(m[st.grid.values[ax] > thr]))
                for q, kw in (('%s@%r > %r' % (par, t, thr), {}), ('%s > %r' % (par, thr), {'t': t})):
                    rec.close('%s (%s)' % (q, kw), S.eval(q, silent=True, **kw), want, 1e-10)
                    rec.count('queries')
        if st.seglen == 1:
            xs = [0, 2, 5]
            lk = [specs.LIKE[len(names)](x, *st.grid.mesh) for x in xs]
            rec.close('simulate(t=%r)' % t, S.simulate(xs, t=t, density=True), [np.sum(l * post[i]) for l in lk], 1e-10)
        if cls == 'OnlineStudy':
            h = S.getHyperParameterDistribution(t, 'sigma')[1]
            rec.close('hyper-parameter distribution at %r' % t, np.ravel(h), np.ravel(S.getHPDs('sigma')[1][i]), 1e-12)
            rec.close('transition model probabilities at %r' % t, [S.getTransitionModelProbabilities(m)[i] for m in ('one', 'two')], S.getTransitionModelDistributions()[1][i], 1e-12)
    for par in names:
        plt.figure()
        S.plot(par)
        lines = plt.gca().lines
        rec.ok(any(np.array_equal(np.asarray(l.get_xdata(), dtype=float), np.array(times, dtype=float)) and np.allclose(l.get_ydata(), means[par]) for l in lines),
               'plot of the evolution of %s: %s' % (par, [(l.get_xdata(), l.get_ydata()) for l in lines]))
        plt.close('all')
    for t in missing:
        for par in names[:1]:
            fs = [lambda: S.getPD(t, par), lambda: S.plot(par, t=t)]
            if ' ' not in par:
                fs += [lambda: S.eval('%s > .4' % par, t=t, silent=True)]
            if st.seglen == 1:
                fs += [lambda: S.simulate([0, 2], t=t)]
            for j, fn in enumerate(fs):
                rec.count('queries')
                try:
                    r = fn()
                except Exception:
                    continue
                rec.fail('query %d for non-existing time %r returned %r' % (j, t, r))
        plt.close('all')
    if cls in ('HyperStudy', 'ChangepointStudy'):
        x, p = S.getHPD('tc')
        rec.ok(np.array_equal(np.asarray(x, dtype=float), np.asarray(times[:-1], dtype=float)), 'change-point values %r, expected %r' % (x, times[:-1]))
    rec.state(s, cls, case['ts'], case['mode'])
    rec.traces += 1
    rec.transitions += len(times)
    rec.ok(freeze(np.array(S.posteriorSequence)) == before, 'queries changed the results')


def form(case, rec):
    n = 4
    ts = STAMPS[case['ts']](n)
    if case['form'] == 'int32' and (any(t != int(t) for t in ts) or max(ts) >= 2 ** 31):
        return
    arg = FORMS[case['form']](ts)
    st = specs.Setting(SETTINGS['t1'])
    for cls, tm in (('Study', serial(static(), bp(1), grw(.4))), ('Study', cp(2)), ('HyperStudy', cp([0, 1])), ('ChangepointStudy', comb(cp('all', 'x'), cp('all', 'y')))):
        m = map_points(tm, mapper(ts))
        for order in (0, 1):
            a, c = make(cls, st, m, [0, 5, 2, 5], arg), make(cls, st, m, [0, 5, 2, 5], np.array(ts))
            snap = freeze(arg)
            for k in range(2):
                a.fit(silent=True)
                c.fit(silent=True)
            rec.ok(freeze(arg) == snap, 'time stamps were changed')
            compare_outcomes(rec, 'time stamps given as %s' % case['form'], outcome(a), outcome(c), 1e-12)
            rec.state(cls, case['ts'], case['form'], tm['k'], order)
            rec.traces += 1
            rec.transitions += n


# coal mining disasters in the UK, one symbol per year from 1852 on
DISASTERS = [int(c) for c in '54104340633402633545314415534252234213221111300101100310322011101010002100011023311211112330001400010000010010']
EXAMPLE = {'Study': [static(), cp(1890), serial(static(), bp(1885, 'x'), grw(.3), bp(1900, 'y'), static()), comb(grw(.2), cp(1891))],
           'HyperStudy': [cp([1880, 1890, 1900]), comb(grw([.1, .4]), regime(-4.)), cp('all')],
           'ChangepointStudy': [cp('all'), serial(static(), bp([1885, 1890], 'x'), grw([.2, .3]), bp([1887, 1892], 'y'), static())]}


def example(case, rec):
    """example data: one value per year from 1852 to 1961"""
    b = bl()
    grid = [.5, 1.5, 2.5, 3.5, 4.5]
    years = [1852 + i for i in range(len(DISASTERS))]
    tm = EXAMPLE[case['cls']][case['tm']]
    g = ref.Grid(['rate'], [grid])
    for silent in (True, False):
        res = []
        for k in (0, 1):
            S = getattr(b, case['cls'])(silent=silent)
            om = b.om.Poisson('rate', grid, prior=None)
            if k:
                S.loadData(np.array(DISASTERS), timestamps=years, silent=silent)
            else:
                S.loadExampleData(silent=silent)
                rec.ok(np.array_equal(S.rawData, DISASTERS) and np.array_equal(S.rawTimestamps, years), 'example data: %r, %r' % (S.rawData, S.rawTimestamps))
            S.set(om, specs.real_tm(b, retarget(tm, 'rate')), silent=silent)
            S.fit(silent=silent)
            res.append(outcome(S))
        compare_outcomes(rec, 'example data compared to loaded data', res[0], res[1], 1e-12)
        rec.traces += 2
        rec.transitions += 2 * len(DISASTERS)
        rec.state('example', case['cls'], case['tm'], silent)
        if case['cls'] == 'Study':
            like = [np.array([float(specs_poisson(x, l)) for l in grid]) for x in DISASTERS]
            ideal = ref.fit(g, np.ones(len(grid)) / len(grid), like, years, retarget(tm, 'rate'))
            rec.close('log-evidence of the example data', res[0]['logE'], ideal['logE'])
            rec.close('distributions for the example data', res[0]['post'], ideal['post'])


def specs_poisson(x, l):
    p = np.exp(-l)
    for i in range(1, x + 1):
        p *= l / i
    return p


def retarget(tm, name):
    s = dict(tm)
    if s.get('target'):
        s['target'] = name
    if 'm' in s:
        s['m'] = [retarget(m, name) for m in s['m']]
    return s


def count(case, rec):
    st = specs.Setting(SETTINGS['t1'])
    for n in (3, 4, 5):
        data = [0, 5, 2, 5, 0][:n]
        if n + case['d'] < 0:
            continue
        ts = list(range(100, 100 + n + case['d']))
        for cls, tm in (('Study', cp(1)), ('HyperStudy', grw([.1, .4])), ('ChangepointStudy', cp('all'))):
            a, c = make(cls, st, tm, data, ts), make(cls, st, tm, data, None)
            a.fit(silent=True)
            c.fit(silent=True)
            compare_outcomes(rec, '%d time stamps for %d data points' % (len(ts), n), outcome(a), outcome(c), 1e-12)
            rec.state(n, cls, case['d'])
            rec.traces += 1
            rec.transitions += n
