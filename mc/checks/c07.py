"""C07: missing values, multi-dimensional observations and data segments."""
import itertools
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, comb, regime
from ..common import bl, study, fit_mode, compare_fit

RULE = ('for every observation model: all patterns of missing values over all positions and dimensions of a data series, '
        'all fit modes, batch and online; oracle: reference model with likelihood one for missing values, product over '
        'dimensions, and explicit enumeration of all windows of consecutive observations')
BOUNDS = {'quick': 'series of up to 5 observations and up to 3 dimensions (at most 6 numbers, more for long segments), segments of 1 to 4; series of 24 numbers (1, 2, 4, 5 dimensions) with all positions of one missing number or one run of missing numbers',
          'thorough': 'series of 6 (one dimension), 4 (two dimensions) and 3 (three dimensions) observations, segments of 1 to 4; three times longer series with one run of missing numbers'}
CHUNK = 1

SETTINGS = {
    'table': {'grid': [[.1, .5, .9]], 'prior': ['func', 'lin']},
    'table2': {'grid': [[.1, .5, .9], [.2, .7]], 'prior': ['array', 'lin']},
    'tablev': {'om': 'tablev', 'grid': [[.1, .5, .9]]},
    'gmean': {'om': 'gaussianmean', 'grid': [[-1., 0., 1., 2.]]},
    'bernoulli': {'om': 'bernoulli', 'grid': [[.2, .5, .8]], 'prior': ['bernoulli', 'jeffreys']},
    'poisson': {'om': 'poisson', 'grid': [[.5, 1.5, 2.5]], 'prior': ['poisson', 'jeffreys'], 'names': ['a']},
    'gaussian': {'om': 'gaussian', 'grid': [[-1., 0., 1.], [.5, 1.]], 'prior': ['gaussian', 'jeffreys']},
    'laplace': {'om': 'laplace', 'grid': [[-1., 0., 1.], [.5, 1.]], 'prior': ['laplace', 'jeffreys']},
    'whitenoise': {'om': 'whitenoise', 'grid': [[.5, 1., 1.5]], 'prior': ['whitenoise', 'jeffreys']},
    'ar1': {'om': 'ar1', 'grid': [[-.5, 0., .5], [.5, 1.]]},
    'scaledar1': {'om': 'scaledar1', 'grid': [[-.5, 0., .5], [.5, 1.]]},
    'scipynorm': {'om': 'scipynorm', 'grid': [[-1., 0., 1.], [.5, 1.]], 'names': ['loc', 'scale']},
    'scipypoisson': {'om': 'scipypoisson', 'grid': [[.5, 1.5, 2.5]], 'names': ['mu']},
    'sympynorm': {'om': 'sympynorm', 'grid': [[-1., 0., 1.], [.5, 1.]], 'names': ['m', 's']},
    'seg1': {'om': 'seg1', 'grid': [[.1, .5, .9]]},
    'seg2': {'om': 'seg2', 'grid': [[.1, .5, .9]], 'prior': ['func', 'lin']},
    'seg3': {'om': 'seg3', 'grid': [[.1, .5, .9]]},
    'seg4': {'om': 'seg4', 'grid': [[.1, .9], [.2, .7]]},
}
INTEGER = ('bernoulli', 'poisson', 'scipypoisson')
VALUES = [.3, -1.2, 1.1, .4, 2.2, -.7, .9, .1, 1.7, -.3, .6, 1.3, -2.1]


def full_data(name, n, dim):
    out = []
    for i in range(n):
        row = []
        for j in range(dim):
            x = VALUES[(3 * i + 5 * j) % len(VALUES)]
            if name in INTEGER:
                x = int(abs(x) * 2.1) % (2 if name == 'bernoulli' else 4)
            elif name.startswith('table'):
                x = (2 * i + 3 * j + i * j) % 6
            elif name == 'gmean' and j == 1:
                x = .4 + .2 * i
            row.append(x)
        out.append(row if dim > 1 else row[0])
    return out


def cases(tier):
    out = []
    for name, s in SETTINGS.items():
        dims = [1, 2, 3]
        if name in ('table', 'table2'):
            dims = [1]
        if name in ('tablev', 'gmean'):
            dims = [2]
        for dim in dims:
            seg = specs.Setting(s).seglen
            n = {1: 4, 2: 3, 3: 2}[dim] if tier == 'quick' else {1: 6, 2: 4, 3: 3}[dim]
            n += seg - 1 if tier != 'quick' else min(seg - 1, 2)
            while n * dim > (6 if tier == 'quick' else 12):
                n -= 1
            n = max(n, seg + (1 if dim < 3 else 0))
            target = specs.Setting(s).names[0]
            tms = [static(), grw(.4, target)] + ([cp(1 + seg - 1)] if dim < 3 else [])
            if tier != 'quick':
                tms += [comb(grw(.3, target), cp(2)), regime(-2.)]
            for tm in tms:
                out.append({'setting': name, 'dim': dim, 'n': n, 'tm': tm})
                if dim == 1:
                    out.append({'setting': name, 'dim': dim, 'n': n, 'tm': tm, 'ts': [3 * i + 5 for i in range(n)]})
    # longer series and more dimensions: all positions of one missing number and of one run of missing numbers
    for name, s in SETTINGS.items():
        dims = [1] if name in ('table', 'table2') else [2] if name in ('tablev', 'gmean') else [1, 2, 4, 5]
        for dim in dims:
            n = {1: 24, 2: 14, 4: 7, 5: 6}[dim] * (1 if tier == 'quick' else 3)
            target = specs.Setting(s).names[0]
            for tm in [static(), grw(.4, target)][:2 if dim < 3 or tier != 'quick' else 1]:
                out.append({'setting': name, 'dim': dim, 'n': n, 'tm': tm, 'runs': True})
    return out


def patterns(n, dim, runs=False):
    if runs:
        m = n * dim
        yield [0] * m
        for k in (1, dim, 3 * dim):
            for i in range(m - k + 1):
                yield [int(i <= j < i + k) for j in range(m)]
        for k in (2, 3):
            yield [int(j % k == 0) for j in range(m)]
        return
    for bits in itertools.product([0, 1], repeat=n * dim):
        yield bits


def run(case, rec):
    b = bl()
    s = specs.Setting(SETTINGS[case['setting']])
    n, dim, tm = case['n'], case['dim'], case['tm']
    base = full_data(case['setting'], n, dim)
    ts = case.get('ts') or list(range(n))
    if 'ts' in case and tm['k'] == 'cp':
        tm = cp(ts[tm['v'][0]])
    fts = ts[s.seglen - 1:]
    for k, bits in enumerate(patterns(n, dim, case.get('runs'))):
        data = [[None if bits[i * dim + j] else base[i][j] for j in range(dim)] if dim > 1 else
                (None if bits[i] else base[i]) for i in range(n)]
        like = s.like(specs.num(data))
        rec.state(case['setting'], dim, tm, repr(data))
        modes = ('full', 'forward', 'evidence') if k % 7 == 0 else ('full',)
        for mode in modes:
            S = study('Study', s, tm, data, case.get('ts'))
            fit_mode(S, mode)
            rec.traces += 1
            rec.transitions += len(like)
            w = 'data %s, %s fit: ' % (data, mode)
            rec.ok(list(S.formattedTimestamps) == fts, w + 'time stamps %s' % (list(S.formattedTimestamps),))
            compare_fit(rec, S, s, tm, like, fts, mode, where=w)
        if 'ts' in case or k % 3:
            continue
        # the same data as a stream
        O = b.OnlineStudy(storeHistory=True, silent=True)
        O.set(s.real(b), specs.real_tm(b, tm), silent=True)
        r = ref.fit(s.grid, s.prior, like, fts, tm, 'forward', ('cp_volume',), s.mass)
        for i in range(n):
            x = specs.num(data[i])
            O.step(np.array(x) if dim > 1 else x)
        rec.traces += 1
        w = 'stream %s: ' % (data,)
        rec.ok(list(O.formattedTimestamps) == fts, w + 'time stamps')
        rec.close(w + 'distributions', np.array(O.posteriorSequence), r['post'])
        either_loge(rec, w, O.logEvidence, s, like, fts, tm, r)


def either_loge(rec, w, got, s, like, fts, tm, quirk):
    from ..common import either
    ideal = ref.fit(s.grid, s.prior, like, fts, tm, 'evidence', (), s.mass)
    either(rec, w + 'logEvidence', got, ideal['logE'], quirk['logE'], 'KF-cp-volume')
