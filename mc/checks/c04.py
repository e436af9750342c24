"""C04: a ChangepointStudy averages over exactly the strictly ordered combinations of change-/break-point times."""
import itertools
import math
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, indep, comb, serial, regime, det
from ..common import bl, fit_mode, study
from .c03 import expected, check_dists

RULE = ('for every setting, set of time stamps and transition model with one to three change- or break-points: all '
        'observation sequences of the given length, all fit modes, all accessors; oracle: enumeration of all strictly '
        'increasing combinations of times, each analysed by a newly created Study')
BOUNDS = {'quick': 'series of 3 to 6 time steps with 2 symbols, up to 3 points (20 ordered combinations); selected series of 8 to 26 time steps, up to 4 points, up to 50 ordered combinations',
          'thorough': 'series of up to 7 time steps, 2 to 4 symbols, up to 4 points; selected series of 10 to 60 time steps'}
CHUNK = 1

SETTINGS = {
    'flat1': {'grid': [[.1, .3, .5, .7, .9]]},
    'lin1': {'grid': [[.0, .5, 1.]], 'prior': ['func', 'lin']},
    'big1': {'grid': [[round(.04 * i, 6) for i in range(25)]], 'prior': ['func', 'lin']},
    'lin2': {'grid': [[.1, .5, .9], [.2, .7]], 'prior': ['array', 'lin']},
    'ar1': {'om': 'ar1', 'grid': [[-.5, 0., .5], [.5, 1.]]},
}
ALPHABET = {'flat1': [6, 7, 0, None], 'lin1': [0, 7, 6], 'lin2': [0, 7], 'ar1': [-1.2, .3]}
TS = {'default': None, 'shift': lambda n: [10 + i for i in range(n)], 'gaps': lambda n: [2 * i * i + i for i in range(n)],
      'frac': lambda n: [[0., 1., 2.25, 3., 3.125, 4.][i] for i in range(n)]}


def models(n, ts):
    """n: number of time stamps available"""
    a, b = ts[0], ts[1]
    last = ts[-1]
    m = [cp('all', 't1'), cp([a, b], 't1'), cp([b, a], 't1'), cp([a], 't1'),
         comb(cp('all', 't1'), cp('all', 't2')), comb(cp('all', 't1'), grw([.1, .3])),
         comb(grw(.2), cp('all', 't1', p=['func', 'lin'])),
         comb(cp([a, b], 't1'), cp([b, last], 't2')), comb(cp([a, b], 't1'), cp([a, b], 't2')),
         comb(cp([b, a], 't1'), cp([last, b, a], 't2')),
         comb(cp('all', 't2'), cp('all', 't1')),
         comb(cp('all', 't1', p=['array', list(range(1, n))]), cp('all', 't2', p=['array', list(range(n, 1, -1))])),
         comb(cp('all', 't1'), regime([-3., -1.]), cp('all', 't2')),
         serial(static(), bp('all', 't1'), grw(.3)), serial(static(), cp('all', 't1'), grw([.1, .3])),
         serial(static(), bp('all', 't1'), grw(.3), bp('all', 't2'), static()),
         serial(static(), cp('all', 't1'), grw(.3), bp('all', 't2'), static()),
         serial(static(), bp([a, b], 't1'), grw([.1, .3]), cp([b, last], 't2'), static()),
         serial(grw([.1, .3], p=['array', [1, 2]]), cp([a, b], 't1', p=['array', [1, 3]]), indep(),
                bp('all', 't2'), static()),
         serial(static(), bp('all', 't1'), det('lin', ['slope'], [[.1, .2]]))]
    if n >= 4:
        m += [comb(cp('all', 't1'), cp('all', 't2'), cp('all', 't3')),
              comb(cp('all', 't1'), comb(grw([.2, .3]), cp('all', 't2')), cp('all', 't3')),
              serial(static(), bp('all', 't1'), grw(.2), bp('all', 't2'), regime(-1.), cp('all', 't3'), static())]
    if n >= 6:
        m += [comb(cp('all', 't1'), cp('all', 't2'), cp('all', 't3'), cp('all', 't4'))]
    return m


def cases(tier):
    out = []
    plan = ([('flat1', 'default', 3, 2), ('flat1', 'default', 4, 2), ('flat1', 'shift', 4, 2), ('lin1', 'gaps', 4, 2), ('lin2', 'default', 3, 2),
             ('ar1', 'default', 4, 2), ('ar1', 'gaps', 4, 2), ('flat1', 'gaps', 6, 1), ('flat1', 'frac', 5, 1)]
            if tier == 'quick' else
            [('flat1', 'default', 3, 4), ('flat1', 'default', 4, 4), ('flat1', 'default', 5, 3), ('flat1', 'gaps', 6, 2),
             ('flat1', 'shift', 4, 3), ('lin1', 'gaps', 4, 3), ('lin1', 'default', 5, 3), ('lin2', 'default', 4, 2),
             ('lin2', 'shift', 5, 2), ('ar1', 'default', 5, 2), ('ar1', 'gaps', 5, 2), ('ar1', 'shift', 6, 2), ('flat1', 'frac', 6, 2), ('lin2', 'frac', 5, 1)])
    for name, tsn, n, k in plan:
        seg = 1 if name != 'ar1' else 2
        ts = list(range(n)) if tsn == 'default' else TS[tsn](n)
        for tm in models(n - seg + 1, ts[seg - 1:]):
            if k == 1:
                out.append({'setting': name, 'ts': ts, 'tm': tm, 'data': [[0, 1, 1, 2, 0, 6][:n], [7, 7, 6, 6, 0, 1][:n]]})
            else:
                out.append({'setting': name, 'ts': ts, 'tm': tm, 'alphabet': ALPHABET[name][:k], 'n': n})
    # long series, many combinations
    for n, tms in [(26 if tier == 'quick' else 60, [cp('all', 't1'), cp('all', 't1', p=['func', 'lin']), serial(static(), bp('all', 't1'), grw(.1)), comb(grw([.02, .1]), cp('all', 't1'))]),
                   (11 if tier == 'quick' else 20, [comb(cp('all', 't1'), cp('all', 't2')), serial(static(), bp('all', 't1', p=['func', 'lin']), grw(.1), cp('all', 't2'), static()),
                         comb(cp([1, 2, 5, 7], 't1'), cp([0, 5, 6, 9], 't2'), grw([.1, .2, .4]))]),
                   (8 if tier == 'quick' else 10, [comb(cp('all', 't1'), cp('all', 't2'), cp('all', 't3')), comb(cp('all', 't1'), cp('all', 't2', p=['func', 'lin']), cp('all', 't3'), cp('all', 't4'))])]:
        data = [[(i * i + 3 * i + i // 5) % 6 if i % 17 != 11 else None for i in range(n)]]
        for tm in tms:
            out.append({'setting': 'big1', 'ts': list(range(n)), 'tm': tm, 'data': data})
            if n < 20:
                out.append({'setting': 'big1', 'ts': [3 + 2 * i + i // 4 for i in range(n)], 'tm': tm if '[1, 2, 5, 7]' not in repr(tm) else comb(cp('all', 't1'), grw(.1), cp('all', 't2')), 'data': data})
    return out


def point_names(tm):
    """names of change- and break-points in the order of the model"""
    if tm['k'] in ('cp', 'bp'):
        return list(tm['n'])
    return [x for m in tm.get('m', []) for x in point_names(m)]


def run(case, rec):
    s = specs.Setting(SETTINGS[case['setting']])
    tm, ts = case['tm'], case['ts']
    points = point_names(tm)
    default = ts == list(range(len(ts)))
    fts = ts[s.seglen - 1:]
    seqs = case['data'] if 'data' in case else itertools.product(case['alphabet'], repeat=case['n'])
    for data in seqs:
        data = list(data)
        rt = specs.ref_tm(tm, fts[:-1])
        every = ref.combos(rt)
        cs = ref.combos(rt, ordered=points)
        rec.state(case['setting'], tm, repr(ts), repr(data))
        rec.transitions += len(cs)
        if not cs:
            S = study('ChangepointStudy', s, tm, data, None if default else ts)
            try:
                fit_mode(S, 'full')
                rec.fail('no ordered combination, but fit is carried out')
            except bl().exceptions.ConfigurationError:
                continue
        for mode in ('full', 'forward', 'evidence'):
            w = 'data %s, %s fit: ' % (data, mode)
            at = []
            for d, q in cs:
                A = study('Study', s, ref.subst(rt, d), data, None if default else ts)
                fit_mode(A, mode)
                at.append((A.logEvidence, None if mode == 'evidence' or not np.isfinite(A.logEvidence) else
                           np.array(A.posteriorSequence), q, np.array(A.localEvidence, dtype=float)))
            e = expected(at, s.grid, 1.)
            S = study('ChangepointStudy', s, tm, data, None if default else ts)
            fit_mode(S, mode)
            rec.traces += 1
            rec.close(w + 'logEvidence', S.logEvidence, e['logE'])
            if not np.isfinite(e['logE']):
                continue
            if 'local' in e:
                rec.close(w + 'localEvidence', S.localEvidence, e['local'])
            if mode != 'evidence':
                rec.close(w + 'posteriorSequence', S.posteriorSequence, e['post'])
                rec.close(w + 'posteriorMeanValues', S.posteriorMeanValues, e['mean'])
            # distribution over all combinations, excluded ones have probability zero
            if hasattr(S, 'flatHyperParameterNames') and hasattr(S, 'allHyperGridValues'):
                names = list(S.flatHyperParameterNames)
                rows = {tuple(float(d[n]) for n in names): 0. for d, q in every}
                for (d, q), x in zip(cs, e['dist']):
                    rows[tuple(float(d[n]) for n in names)] = x
                got = np.array(S.hyperParameterDistribution)
                vol = 1. / np.sum(got)
                seen = {tuple(float(y) for y in r): x * vol for r, x in zip(np.array(S.allHyperGridValues), got)}
                rec.ok(set(seen) == set(rows), w + 'combinations of hyper-parameter values')
                for k in rows:
                    rec.close(w + 'probability of combination %s' % (k,), seen[k], rows[k])
            if len(cs) < 2:
                continue
            check_dists(rec, S, rt, cs, e['dist'], w)
            for i, j in itertools.permutations(range(len(points)), 2):
                a, b = points[min(i, j)], points[max(i, j)]
                x, p = S.getDD([points[i], points[j]])
                want = {}
                for (d, q), pr in zip(cs, e['dist']):
                    k = round(d[b] - d[a], 9)
                    want[k] = want.get(k, 0.) + pr
                have = {round(float(k), 9): float(v) for k, v in zip(x, p)}
                rec.ok(len(have) == len(x), w + 'durations are not unique')
                rec.ok(set(want) <= set(have), w + 'durations between %s and %s' % (a, b))
                for k in have:
                    rec.close(w + 'duration %s between %s and %s' % (k, a, b), have[k], want.get(k, 0.))
                rec.close(w + 'sum of duration distribution', np.sum(p), 1.)
