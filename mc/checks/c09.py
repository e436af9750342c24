"""C09: transition models transform distributions as documented, alone and composed."""
import itertools
import numpy as np
from .. import ref, specs
from ..specs import static, grw, alpha, cp, bp, indep, regime, notequal, det, biv, comb, serial
from ..common import bl, study, fit_mode, compare_fit, either, quirk_set
from ..runner import same

RULE = ('(1) every transition model x hyper-parameter value x target x grid x distribution of the menu x time step, '
        'applied directly (forward and backward); (2) every composition of sub-models up to depth 3 in complete fits of '
        'short series; oracle: reference model, non-negativity, normalisation, unchanged input, and repeated application '
        'in all orders of times and hyper-parameter values')
BOUNDS = {'quick': '1-D, 2-D and 3-D grids of 2 to 9 points per axis, 12 kinds of distributions, times -1 to 6; all pairs '
                   'of 10 sub-models in combined and serial models, 5 data points, nesting depth 3; grids of 64 and 150, 20x30, 30x5, 6x7x8 and 2x2x2x2 points',
          'thorough': 'as quick with more grids, all triples of sub-models, three fit modes and 6 data points'}
CHUNK = 6

GRIDS = {
    'g2': [[.1, .9]], 'g3': [[.1, .5, .9]], 'g4': [[0., .25, .5, .75]], 'g5': [[0., 1., 2., 3., 4.]],
    'g9': [list(np.linspace(.05, .85, 9))], 'girr': [[.1, .2, .5, .9]],
    'g33': [[.1, .5, .9], [.2, .4, .6]], 'g42': [[0., .25, .5, .75], [.2, .7]], 'g35': [[0., 1., 2.], list(np.linspace(0., 1., 5))],
    'g24': [[.1, .9], [0., 1., 2., 3.]], 'g54': [list(np.linspace(0., 2., 5)), [0., .1, .2, .3]],
    'g232': [[.1, .9], [.2, .5, .8], [0., 1.]],
}
WIDE = {
    'w64': [[round(.05 * i, 10) for i in range(64)]], 'w150': [list(np.linspace(0., 6., 150))],
    'w2030': [list(np.linspace(0., 1.9, 20)), list(np.linspace(.1, 3., 30))],
    'w305': [list(np.linspace(0., 2.9, 30)), list(np.linspace(.1, .5, 5))],
    'w678': [list(np.linspace(0., 1., 6)), list(np.linspace(0., 3., 7)), list(np.linspace(1., 2., 8))],
    'w2222': [[0., 1.], [.1, .2], [1., 3.], [.5, .7]],
}


def leaves(grid, big=False):
    """all single models for the grid"""
    n = len(grid)
    names = specs.NAMES[:n]
    out = [static(), indep()]
    for a, v in zip(names, grid):
        d = ref.spacing(v)
        for s in (0., .3, .5, 1., 2.5):
            out.append(grw(round(s * d, 6), a))
        for s in (.2, 1.3, .04):
            out.append(grw(s, a))
        if n < 3:
            for c, al in itertools.product((.2, .8, 2.), (.7, 1., 1.5, 2.)):
                out.append(alpha(round(c * d, 6), al, a))
        for s in (0., .5, 1., -1., 1.7, -.4):
            out.append(det('lin', ['slope'], [round(s * d, 6)], a))
        out.append(det('quad', ['q', 'slope'], [round(.3 * d, 6), round(-.5 * d, 6)], a))
        out.append(det('sin', ['amp'], [round(1.2 * d, 6)], a))
        out.append(det('off', ['jump'], [round(1. * d, 6)], a))
    for t in (0, 2, 3):
        out.append(cp(t))
    for v in (-7., -2., -1., -.3, 0, .5, -3):
        out.append(regime(v))
        out.append(notequal(v))
    if n < 3:                  # unchanged up to round-off errors, which must not be inverted
        for al, v in ((.7, -3.), (1.5, -1.), (2., -6.)):
            out.append(comb(alpha(0., al), notequal(v)))
    if n == 2:
        d0, d1 = ref.spacing(grid[0]), ref.spacing(grid[1])
        for x, y, r in itertools.product((.4, 1., 1.5), (.4, 1.2), (-.7, 0., .5, .9)):
            out.append(biv(round(x * d0, 6), round(y * d1, 6), r))
    return out


def distributions(shape):
    n = int(np.prod(shape))
    out = []
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.
        out.append(e)
    k = np.arange(n)
    out += [np.ones(n), 1. + k, np.exp(-.8 * k), np.exp(.5 * k), 1.2 + np.sin(1.7 * k), np.where(k % 2 == 0, 1., 0.),
            np.where(k < (n + 1) // 2, 1. + k, 0.), np.where(k == 0, 1., 1e-12), np.exp(-(k - n / 2.) ** 2)]
    if n > 60:              # unit distributions at the ends and some points in between only
        keep = sorted({0, 1, 2, n // 7, n // 3, n // 2, n // 2 + 1, n - 3, n - 2, n - 1})
        out = [out[i] for i in keep] + out[n:] + [1.2 + np.sin(.13 * k), np.exp(-.5 * ((k - n / 3.) / (.05 * n)) ** 2)]
    return [(x / x.sum()).reshape(shape) for x in out]


def small_leaves(two):
    out = [static(), grw(.35), alpha(.2, 1.3), cp(1), cp(2, 'tc2'), indep(), regime(-1.), notequal(-2.),
           det('lin', ['slope'], [.15]), det('quad', ['q', 'slope'], [.05, -.1])]
    if two:
        out += [grw(.25, 'b', 'sb'), det('sin', ['amp'], [.3], 'b'), biv(.3, .2, .4)]
    return out


def rename(spec, suffix):
    s = dict(spec)
    if s.get('n') and s['k'] != 'det':
        s['n'] = [x + suffix for x in s['n']]
    if 'm' in s:
        s['m'] = [rename(m, suffix + str(i)) for i, m in enumerate(s['m'])]
    return s


def ok_names(spec):
    n = [h[0] for h in ref.hypers(spec)]
    return len(set(n)) == len(n)


def compositions(two, tier):
    L = small_leaves(two)
    out = []
    for a, b in itertools.product(L, L):
        out.append(comb(rename(a, 'x'), rename(b, 'y')))
        for pt in (cp, bp):
            for t in (1, 2) if tier == 'quick' else (0, 1, 2, 3, 4, 7):
                if a['k'] == 'cp' or b['k'] == 'cp':
                    # a change-point directly within a serial model delimits sub-models
                    a2, b2 = [comb(x) if x['k'] == 'cp' else x for x in (a, b)]
                else:
                    a2, b2 = a, b
                out.append(serial(rename(a2, 'x'), pt(t), rename(b2, 'y')))
    core = [L[1], L[4], L[6], L[8], L[9], L[5]] if not two else [L[1], L[8], L[11], L[10], L[4]]
    core = [x for x in core]
    trip = list(itertools.product(core, repeat=3)) if tier != 'quick' else \
        [(core[i], core[(i + j) % len(core)], core[(i + 2 * j + k) % len(core)]) for i in range(len(core)) for j in (1, 2) for k in (0, 1)]
    for a, b, c in trip:
        a, b, c = [rename(x, s) for x, s in zip((a, b, c), 'xyz')]
        wrap = [comb(x) if x['k'] == 'cp' else x for x in (a, b, c)]
        out.append(comb(a, b, c))
        out.append(comb(comb(a, b), c))
        out.append(comb(a, comb(b, c)))
        out.append(serial(wrap[0], bp(1), wrap[1], bp(3, 'tb2'), wrap[2]))
        out.append(serial(wrap[0], cp(1), wrap[1], bp(2, 'tb2'), wrap[2]))
        out.append(serial(wrap[0], bp(0), wrap[1], cp(2, 'tb2'), wrap[2]))
        out.append(serial(wrap[0], wrap[1], wrap[2], bp(1), bp(2, 'tb2')))          # not alternating
        out.append(serial(comb(a, b), bp(2), wrap[2]))
        out.append(serial(wrap[0], bp(2), comb(b, c)))
        out.append(comb(serial(wrap[0], bp(2), wrap[1]), c))
        out.append(comb(a, serial(wrap[1], cp(2), wrap[2])))
        out.append(serial(serial(wrap[0], bp(1), wrap[1]), bp(2, 'tb2'), wrap[2]))
        out.append(serial(wrap[0], bp(1), serial(wrap[1], bp(3, 'tb2'), wrap[2])))
        out.append(comb(serial(comb(a, b), bp(1), wrap[2]), static()))
    return [x for x in out if ok_names(x)]


DATA = [[1, 0, 3, 2, 4], [5, 5, 1, 0, 2]]


def cases(tier):
    out = []
    for g in GRIDS:
        L = leaves(GRIDS[g])
        step = 8
        for i in range(0, len(L), step):
            out.append({'part': 'direct', 'grid': g, 'tms': L[i:i + step], 'prior': ['func', 'lin']})
        if len(GRIDS[g]) < 3:
            out.append({'part': 'sequence', 'grid': g})
    for g in WIDE:
        L = leaves(WIDE[g])
        if g in ('w150', 'w64', 'w2030', 'w305'):         # kernels that cover many or all points of the grid
            for a, v in zip(specs.NAMES, WIDE[g]):
                d = ref.spacing(v)
                L += [grw(round(f * d, 6), a) for f in (6., 15., 40., 100.)]
                L += [alpha(round(f * d, 6), x, a) for f in (5., 20.) for x in (.8, 1.5)]
                L += [det('lin', ['slope'], [round(f * d, 6)], a) for f in (7., -12., 3.4)]
        if tier == 'quick' and g in ('w2030', 'w678'):
            L = L[::3]
        if g == 'w2222':                # slow interpolation
            L = [x for x in L if x['k'] != 'det'] + [x for x in L if x['k'] == 'det'][3::12]
        if tier == 'quick' and g in ('w2030', 'w305'):
            L = [x for x in L if x['k'] != 'biv'] + [x for x in L if x['k'] == 'biv'][1::5]
        for i in range(0, len(L), 4):
            out.append({'part': 'direct', 'grid': g, 'tms': L[i:i + 4], 'prior': ['func', 'lin'] if len(WIDE[g]) < 4 else None})
    for g in ('g4', 'g42') if tier == 'quick' else ('g3', 'g4', 'girr', 'g42', 'g33'):
        two = len(GRIDS[g]) == 2
        C = compositions(two, tier)
        step = 10
        for i in range(0, len(C), step):
            out.append({'part': 'fit', 'grid': g, 'tms': C[i:i + step], 'tier': tier})
    return out


def prepared(b, s, tm):
    """study with the transition model, ready for direct application of the model"""
    S = b.Study(silent=True)
    S.loadData(np.array([0., 1.]), silent=True)
    T = specs.real_tm(b, tm)
    S.set(s.real(b), T, silent=True)
    return S, T


def run(case, rec):
    b = bl()
    s = specs.Setting({'grid': dict(GRIDS, **WIDE)[case['grid']], 'prior': case.get('prior', ['func', 'lin'])})
    g = s.grid
    ctx = ref.Ctx(g, s.prior)
    quirk = ref.Ctx(g, s.prior, ('cp_volume', 'serial_backward_prior'))
    if case['part'] == 'direct':
        for tm in case['tms']:
            S, T = prepared(b, s, tm)
            times = [-1, 0, 1, 2, 3, 6] if tm['k'] in ('cp', 'det') else [0, 3]
            for p in distributions(g.shape):
                for t in times:
                    x = p.copy()
                    got = np.array(T.computeForwardPrior(x, t))
                    rec.transitions += 1
                    w = '%s, forward from time %s, distribution %s: ' % (tm, t, p.tolist())
                    rec.ok(np.array_equal(x, p), w + 'argument was modified')
                    want = ref.forward(tm, p, t, ctx)
                    if np.isnan(want).any():          # deterministic shift moves all probability off the grid
                        rec.count('off_grid')
                        continue
                    either(rec, w, got, want, ref.forward(tm, p, t, quirk), 'KF-cp-volume')
                    rec.ok(np.all(got >= 0.), w + 'negative probability')
                    if same(got, want):
                        rec.ok(abs(got.sum() - 1.) < 1e-9, w + 'not normalised')
                    x = p.copy()
                    got = np.array(T.computeBackwardPrior(x, t + 1))
                    rec.ok(np.array_equal(x, p), w + 'argument was modified (backward)')
                    want = ref.backward(tm, p, t, ctx)
                    if np.isnan(want).any():
                        rec.count('off_grid')
                        continue
                    rec.close(w + 'backward', got / got.sum(), want / want.sum())
                    rec.transitions += 1
                rec.state(case['grid'], tm, p)
            rec.traces += 1
    elif case['part'] == 'sequence':
        # one instance, hyper-parameter values changed between applications (as by optimisation or hyper-studies)
        n = len(g.shape)
        d = [ref.spacing(v) for v in s.spec['grid']]
        menus = [([grw(x * d[0]) for x in (.3, 1., 0.)], 'grw'),
                 ([alpha(c * d[0], al) for c, al in ((.3, 1.), (1., 1.), (.3, 1.7), (1., 2.))], 'alpha'),
                 ([regime(x) for x in (-1., -3., .2)], 'regime'), ([notequal(x) for x in (-1., -3., .2)], 'notequal'),
                 ([cp(x) for x in (0, 1, 3)], 'cp'), ([det('lin', ['slope'], [x * d[0]]) for x in (.5, -1., 0.)], 'det'),
                 ([serial(grw(x * d[0]), bp(t), regime(-1.)) for x in (.5, 1.) for t in (0, 2)], 'serial')]
        if n == 2:
            menus.append(([biv(x * d[0], y * d[1], r) for x, y, r in ((.5, 1., .1), (1., .5, .1), (.5, 1., -.4))], 'biv'))
        p = distributions(g.shape)[-5]
        for menu, name in menus:
            for order in itertools.product(range(len(menu)), repeat=3):
                S, T = prepared(b, s, menu[order[0]])
                for k, i in enumerate(order):
                    set_values(T, menu[i])
                    for t in (1, 0):
                        got = np.array(T.computeForwardPrior(p.copy(), t))
                        either(rec, 'order of hyper-parameter values %s, model %s, time %s' % (order, menu[i], t), got,
                               ref.forward(menu[i], p, t, ctx), ref.forward(menu[i], p, t, quirk), 'KF-cp-volume')
                        rec.transitions += 1
                    rec.state(case['grid'], name, order[:k + 1])
                rec.traces += 1
    else:
        for tm in case['tms']:
            for d, ts in ((DATA[0], None), (DATA[1], [10, 11, 12, 13, 14])):
                if ts is not None and case['tier'] == 'quick' and 'det' not in repr(tm):
                    continue
                use = shift_times(tm, ts[0]) if ts else tm
                like = s.like(specs.num(d))
                S = study('Study', s, use, d, ts)
                modes = ('full',) if case['tier'] == 'quick' else ('full', 'forward', 'evidence')
                for mode in modes:
                    fit_mode(S, mode)
                    compare_fit(rec, S, s, use, like, ts or list(range(len(d))), mode,
                                where='%s, %s fit, %s: ' % (use, mode, d))
                    rec.traces += 1
                    rec.transitions += len(d)
                rec.state(case['grid'], use, d)


def shift_times(spec, off):
    s = dict(spec)
    if s['k'] in ('cp', 'bp'):
        s['v'] = [s['v'][0] + off]
    if 'm' in s:
        s['m'] = [shift_times(m, off) for m in s['m']]
    return s


def set_values(T, spec):
    """sets hyper-parameter values as the study classes do"""
    flat = [h[1] for h in ref.hypers(spec)]
    if spec['k'] == 'serial':
        i = 0
        for m, sub in zip(T.models, [x for x in spec['m'] if x['k'] not in ('cp', 'bp')]):
            for j in range(len(sub['n'])):
                m.hyperParameterValues[j] = flat[i]
                i += 1
        for j in range(len(flat) - i):
            T.hyperParameterValues[j] = flat[i + j]
    else:
        for j, v in enumerate(flat):
            T.hyperParameterValues[j] = v
