"""C15: hyper-parameter optimisation."""
import contextlib
import copy
import io
import itertools
import numpy as np
from .. import ref, specs
from ..specs import static, grw, cp, bp, comb, serial, regime, notequal, alpha, det
from ..common import bl, study, sequences, outcome, compare_outcomes, compare_fit

RULE = ('all short data series x transition models x all ordered selections of hyper-parameter names (none, one name as string, '
        'lists, unknown names at every position) x full/forward-only; after optimize: reported values of everything that was not '
        'selected equal the initial ones, all results equal the reference and a newly created study for the reported values, the '
        'log-evidence is not below the reference evidence of the initial values, and no neighbouring value of a single optimised '
        'hyper-parameter is better; sequences of two optimisations, failing selections in between')
BOUNDS = {'quick': 'all series of 3 observations over 3 symbols and of 4 over 2, 16 transition models with 1-4 hyper-parameters, all ordered selections of at most 2 names',
          'thorough': 'all series of 3 observations over 5 symbols and of 4 over 4, all ordered selections of at most 3 names, all pairs of successive selections'}
CHUNK = 4
ASSUMPTIONS = ['the local optimiser (SciPy COBYLA) is deterministic; optimality is claimed up to its tolerance (1e-3 in log-evidence)']
TOL = 1e-3      # of the optimiser: how much better a neighbouring value may be

SETTINGS = {
    't1': {'grid': [[0., .25, .5, .75, 1.]], 'prior': ['func', 'lin']},
    't2': {'grid': [[0., .5, 1.], [0., .4, .8, 1.2]]},
    'gauss': {'om': 'gaussian', 'grid': [list(np.linspace(-1, 3, 9)), [.4, .8, 1.2]], 'prior': ['gaussian', 'jeffreys']},
}
MODELS = {
    'grw': (grw(.2), ['t1', 't2', 'gauss']),
    'grw2': (grw(1.4), ['t1', 'gauss']),
    'regime': (regime(-3.), ['t1']),
    'notequal': (notequal(-2.), ['t1']),
    'alpha': (alpha(.3, 1.5), ['t1']),
    'lin': (det('lin', ['slope'], [.1]), ['gauss']),
    'quad': (det('quad', ['q', 'slope'], [.01, .1]), ['gauss']),
    'two': (comb(grw(.2), grw(.3, 'a', 's2')), ['t1']),
    'grwreg': (comb(grw(.2), regime(-4.)), ['t1', 'gauss']),
    'axes': (comb(grw(.2, 'a'), grw(.3, 'b', 's2')), ['t2']),
    'cp': (cp(2), ['t1']),
    'grwcp': (comb(grw(.2), cp(1)), ['t1', 'gauss']),
    'serial': (serial(grw(.2, n='s1'), bp(1), grw(.3, n='s2')), ['t1']),
    'serialcp': (serial(grw(.2, n='s1'), cp(1), regime(-3.)), ['t1']),
    'nested': (comb(serial(grw(.2, n='s1'), bp(1), regime(-3.)), grw(.4, n='s3')), ['t1']),
    'break': (serial(static(), bp(1), static()), ['t1']),
}


def names_of(tm):
    """(names in the order of the model, names of change- and break-points)"""
    if 'm' in tm:
        out, pts = [], []
        for m in tm['m']:
            if m['k'] == 'bp' or (tm['k'] == 'serial' and m['k'] == 'cp'):
                continue
            a, b = names_of(m)
            out, pts = out + a, pts + b
        for m in tm['m']:
            if m['k'] == 'bp' or (tm['k'] == 'serial' and m['k'] == 'cp'):
                out, pts = out + m['n'], pts + m['n']
        return out, pts
    return list(tm['n']), list(tm['n']) if tm['k'] in ('cp', 'bp') else []


def values_of(tm, out=None):
    out = {} if out is None else out
    for n, v in zip(tm.get('n', []), tm.get('v', [])):
        out[n] = v
    for m in tm.get('m', []):
        values_of(m, out)
    return out


def with_values(tm, vals):
    t = dict(tm)
    if t.get('n'):
        t['v'] = [vals[n] for n in t['n']]
    if 'm' in t:
        t['m'] = [with_values(m, vals) for m in t['m']]
    return t


def valid(tm):
    """values for which the reference model is defined"""
    k = tm['k']
    v = tm.get('v', [])
    if k == 'grw':
        return v[0] >= 0
    if k == 'alpha':
        return v[0] > .02 and .2 < v[1] <= 2.
    if k in ('cp', 'bp') and not isinstance(v[0], str) and 0 < abs(v[0] - round(v[0])) < 1e-9:
        return False      # the optimiser ended within rounding error of a time stamp: on which side is left open
    return all(valid(m) for m in tm.get('m', []))


def datasets(setting, tier):
    if setting == 'gauss':
        sym, n = ([-.4, .6, 1.9], 3) if tier == 'quick' else ([-.4, .6, 1.1, 1.9], 4)
        return list(itertools.product(sym, repeat=n))
    a = list(itertools.product([0, 2, 5] if tier == 'quick' else [0, 1, 2, 3, 5], repeat=3))
    b = list(itertools.product([1, 4] if tier == 'quick' else [0, 2, 4, 5], repeat=4))
    return a + b + [(5, 9, 10, 4), (6, 7, 2), (6, 8, 2)]


def selections(tm, tier):
    names, _ = names_of(tm)
    if tm['k'] == 'alpha':      # the optimiser leaves the admissible range of the stability parameter
        return [['c']]
    k = 2 if tier == 'quick' else 3
    out = [None]
    for r in range(1, min(k, len(names)) + 1):
        out += [list(p) for p in itertools.permutations(names, r)]
    return out


def cases(tier):
    out = []
    for m, (tm, settings) in MODELS.items():
        for s in settings:
            slow = m == 'alpha'
            for i, data in enumerate(datasets(s, tier)):
                if slow and tier == 'quick' and i % 5:
                    continue
                for sel in selections(tm, tier):
                    out.append({'part': 'optimize', 'setting': s, 'tm': m, 'data': list(data), 'sel': sel})
    for m, (tm, settings) in MODELS.items():
        names, pts = names_of(tm)
        sels = selections(tm, 'quick')
        pairs = list(itertools.product(sels, repeat=2))
        if tier == 'quick' and len(pairs) > 30:
            pairs = [p for i, p in enumerate(pairs) if len(p[0] or []) < 2 and len(p[1] or []) < 2]
        for p in pairs:
            out.append({'part': 'sequence', 'setting': settings[0], 'tm': m, 'data': [0, 2, 5, 5] if settings[0] != 'gauss' else [-.4, .6, .6, 1.9], 'sels': list(p)})
        bad = [['nothing'], 'nothing', ['nothing'] + names[:1], names[:1] + ['nothing'], names[:1] * 2, ['A'] + names]
        for b in bad:
            out.append({'part': 'unknown', 'setting': settings[0], 'tm': m, 'data': [0, 2, 5] if settings[0] != 'gauss' else [-.4, .6, 1.9], 'sel': b})
    for opt in ({'options': {'maxiter': 3}}, {'options': {'maxiter': 7}}, {'tol': .1}, {'options': {'rhobeg': .1}}):
        for m in ('grw', 'grwreg', 'serial', 'two'):
            for data in ([0, 2, 5], [5, 5, 0, 1]):
                out.append({'part': 'optimize', 'setting': 't1', 'tm': m, 'data': data, 'sel': None, 'kw': opt})
    return out


def optimize(S, sel, forward, kw=None):
    """quiet call; returns the exception if one was raised"""
    arg = copy.deepcopy(sel)
    kw = copy.deepcopy(kw or {})
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            if sel is None:
                S.optimize(forwardOnly=forward, **kw)
            else:
                S.optimize(arg, forwardOnly=forward, **kw)
        except Exception as e:
            return e, arg == sel
    return None, arg == sel


def evidence(st, tm, data):
    N = study('Study', st, tm, data)
    N.fit(evidenceOnly=True, silent=True)
    return N.logEvidence


def judge(rec, S, st, tm, data, sel, before, forward, where, neighbours=True):
    """checks of a successful optimisation; returns the reported values"""
    names, pts = names_of(tm)
    chosen = [n for n in names if n not in pts] if sel is None else ([sel] if isinstance(sel, str) else sel)
    after = {n: S.getHyperParameterValue(n) for n in names}
    for n in names:
        if n not in chosen:
            rec.ok(after[n] == before[n], '%shyper-parameter %s was not selected but changed from %r to %r' % (where, n, before[n], after[n]))
    t1 = with_values(tm, after)
    like = st.like(specs.num(data))
    ts = list(range(len(data)))
    mode = 'forward' if forward else 'full'
    # everything equals a newly created study with the reported values
    N = study('Study', st, t1, data)
    N.fit(forwardOnly=forward, silent=True)
    if np.isfinite(N.logEvidence):
        compare_outcomes(rec, where + 'new study with the reported values', outcome(S), outcome(N), 1e-9)
    else:
        rec.ok(S.logEvidence == N.logEvidence, where + 'log-evidence %r, expected %r' % (S.logEvidence, N.logEvidence))
    if valid(t1):
        compare_fit(rec, S, st, t1, like, ts, mode, where=where)
    # not worse than before
    first = study('Study', st, with_values(tm, before), data)
    first.fit(evidenceOnly=True, silent=True)
    l0 = first.logEvidence
    rec.ok(S.logEvidence >= l0 - 1e-9, '%slog-evidence %r after optimisation, %r before' % (where, S.logEvidence, l0))
    # no better value next to a single optimised one
    if neighbours and len(chosen) == 1 and chosen[0] not in pts and np.isfinite(S.logEvidence):
        n = chosen[0]
        for h in (.02, .1):
            for d in (-h, h):
                v = dict(after)
                v[n] = after[n] + d
                t2 = with_values(tm, v)
                if not valid(t2):
                    continue
                l = evidence(st, t2, data)
                rec.count('neighbours')
                if l > S.logEvidence + 5 * TOL and h > .02 and any(
                        evidence(st, with_values(tm, dict(after, **{n: after[n] + d * i / 20.})), data) < S.logEvidence - TOL for i in range(1, 20)):
                    continue        # another local maximum
                rec.ok(not l > S.logEvidence + 5 * TOL,
                       '%s%s = %r is better (%r) than the reported optimum %r (%r)' % (where, n, v[n], l, after[n], S.logEvidence))
    rec.transitions += 1
    rec.traces += 1
    return after


def run(case, rec):
    from bayesloop.exceptions import ConfigurationError
    st = specs.Setting(SETTINGS[case['setting']])
    tm = MODELS[case['tm']][0]
    names, pts = names_of(tm)
    data = case['data']
    v0 = values_of(tm)
    if case['part'] == 'optimize':
        sel = case['sel']
        for forward in ((False, True) if sum(data) % 2 == 0 else (False,)):
            for form in ((sel, sel[0]) if sel and len(sel) == 1 and not forward else (sel,)):
                S = study('Study', st, tm, data)
                e, unchanged = optimize(S, form, forward, case.get('kw'))
                where = 'optimize(%r) ' % (form,)
                rec.ok(unchanged, where + 'changed the list of names')
                rec.state(case['setting'], case['tm'], data, form, forward)
                if sel is None and all(n in pts for n in names):
                    rec.ok(isinstance(e, ConfigurationError), where + 'without anything to optimise raised %r' % (e,))
                    continue
                if e is not None:
                    rec.fail(where + 'raised %r' % (e,))
                    continue
                judge(rec, S, st, tm, data, form, v0, forward, where, neighbours=not case.get('kw') and not forward)
    elif case['part'] == 'sequence':
        S = study('Study', st, tm, data)
        cur = dict(v0)
        for i, sel in enumerate(case['sels']):
            if sel is None and all(n in pts for n in names):
                e, _ = optimize(S, sel, False)
                rec.ok(isinstance(e, ConfigurationError), 'nothing to optimise, but optimize raised %r' % (e,))
                S.fit(silent=True)
                N = study('Study', st, with_values(tm, cur), data)
                N.fit(silent=True)
                compare_outcomes(rec, 'fit after a rejected optimisation', outcome(S), outcome(N))
                continue
            where = 'optimisation %d of %r: ' % (i + 1, case['sels'])
            e, _ = optimize(S, sel, i == 0 and len(sel or []) == 1)
            if e is not None:
                rec.fail(where + 'raised %r' % (e,))
                return
            cur = judge(rec, S, st, tm, data, sel, cur, i == 0 and len(sel or []) == 1, where, neighbours=False)
        rec.state(case['tm'], case['sels'])
        # a further fit uses the reported values
        before = outcome(S)
        S.fit(silent=True)
        N = study('Study', st, with_values(tm, cur), data)
        N.fit(silent=True)
        compare_outcomes(rec, 'fit after optimisation', outcome(S), outcome(N))
    elif case['part'] == 'unknown':
        S = study('Study', st, tm, data)
        e, unchanged = optimize(S, case['sel'], False)
        rec.ok(isinstance(e, ConfigurationError), 'optimize(%r) raised %r, expected ConfigurationError' % (case['sel'], e))
        rec.ok(unchanged, 'optimize changed the list of names')
        for n in names:
            rec.ok(S.getHyperParameterValue(n) == v0[n], 'rejected optimisation changed %s' % n)
        rec.state(case['tm'], case['sel'])
        S.fit(silent=True)
        N = study('Study', st, tm, data)
        N.fit(silent=True)
        compare_outcomes(rec, 'fit after a rejected optimisation', outcome(S), outcome(N))
        e, _ = optimize(S, names[:1], False)
        if e is not None:
            rec.fail('optimize(%r) after a rejected one raised %r' % (names[:1], e))
            return
        judge(rec, S, st, tm, data, names[:1], v0, False, 'after a rejected optimisation: ')
