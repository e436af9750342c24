"""helpers shared by the checks"""
import itertools
import numpy as np
from . import ref, specs
from .runner import same

NAN = float('nan')


def bl():
    import bayesloop
    return bayesloop


def sequences(symbols, maxlen, minlen=1):
    for n in range(minlen, maxlen + 1):
        for s in itertools.product(symbols, repeat=n):
            yield list(s)


def kinds(tm):
    out = {tm['k']}
    for m in tm.get('m', []):
        out |= kinds(m)
    return out


def has_serial_cp(tm):
    if tm['k'] == 'serial' and any(m['k'] == 'cp' for m in tm['m']):
        return True
    return any(has_serial_cp(m) for m in tm.get('m', []))


def study(cls, setting, tm_spec, data, ts=None, silent=True, **kw):
    b = bl()
    S = getattr(b, cls)(silent=silent, **kw)
    arr = np.array(specs.num(data), dtype=float)
    if ts is None:
        S.loadData(arr, silent=True)
    else:
        S.loadData(arr, timestamps=np.array(ts), silent=True)
    S.set(setting.real(b), specs.real_tm(b, tm_spec), silent=True)
    return S


FITS = [0]      # number of fits since the case was started (set to zero by the runner)


def fit_mode(S, mode, **kw):
    """every other fit produces output (and thus runs through the code of the progress bars)"""
    FITS[0] += 1
    kw.setdefault('silent', FITS[0] % 4 != 2)
    if mode == 'full':
        S.fit(**kw)
    elif mode == 'forward':
        S.fit(forwardOnly=True, **kw)
    else:
        S.fit(evidenceOnly=True, **kw)


def hyper_names(T):
    """names of all hyper-parameters of a transition model, sub-models first"""
    out = []
    for m in getattr(T, 'models', ()):
        out += hyper_names(m)
    return out + list(getattr(T, 'hyperParameterNames', ()))


def hyper_values(T):
    out = []
    for m in getattr(T, 'models', ()):
        out += hyper_values(m)
    return out + list(getattr(T, 'hyperParameterValues', ()))


SMOOTH = {'static', 'cp', 'bp', 'indep', 'grw', 'comb', 'serial'}      # models that only add and multiply probabilities


def relative(rec, what, got, want, tol=1e-7):
    """small probabilities are exact, too"""
    a, b = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    with np.errstate(all='ignore'):
        ok = (np.abs(a - b) <= tol * b) | (b < 1e-280)
    rec.ok(np.all(ok), '%s: got %s, expected %s' % (what, a[~ok], b[~ok]))


def either(rec, what, got, ideal, quirk, fid, tol=1e-9):
    """ideal value, or the value of a known finding (quirk is None if the finding cannot occur here)"""
    if same(got, ideal, tol):
        return
    if quirk is not None and same(got, quirk, tol):
        rec.known(fid)
        return
    rec.close(what, got, ideal, tol)


def quirk_set(tm):
    q = []
    if 'cp' in kinds(tm):
        q.append('cp_volume')
    if has_serial_cp(tm):
        q.append('serial_backward_prior')
    return q


def compare_fit(rec, S, setting, tm, like, ts, mode, ideal=None, where='', tol=1e-9):
    """
    Compares the results of a Study with the reference (message passing, or `ideal` obtained by path enumeration).
    Deviations that are exactly those of the known findings are reported as such.
    """
    g = setting.grid
    if ideal is None:
        ideal = ref.fit(g, setting.prior, like, ts, tm, mode, (), setting.mass)
    q = quirk_set(tm)
    quirk = ref.fit(g, setting.prior, like, ts, tm, mode, q, setting.mass) if q else None
    either(rec, where + 'logEvidence', S.logEvidence, ideal['logE'], quirk and quirk['logE'], 'KF-cp-volume', tol)
    if mode == 'evidence':
        rec.ok(len(S.posteriorSequence) == 0 and len(S.posteriorMeanValues) == 0,
               where + 'evidence-only fit stores distributions')
        return ideal
    if not np.isfinite(ideal['logE']):
        return ideal
    qs = quirk if (quirk is not None and quirk['post'] is not None) else {}
    either(rec, where + 'posteriorSequence', S.posteriorSequence, ideal['post'], qs.get('post'),
           'KF-serial-backward', tol)
    either(rec, where + 'posteriorMeanValues', S.posteriorMeanValues, ideal['mean'], qs.get('mean'),
           'KF-serial-backward', tol)
    if kinds(tm) <= SMOOTH and not qs.get('post') is not None:
        relative(rec, where + 'posteriorSequence (small probabilities)', S.posteriorSequence, ideal['post'])
    if ideal.get('local') is not None:
        either(rec, where + 'localEvidence', S.localEvidence, ideal['local'], qs.get('local'),
               'KF-cp-volume' if mode == 'forward' else 'KF-serial-backward', max(tol, 1e-8))
    return ideal


# ------------------------------------------------------------------------------------------- observable state of a study
def outcome(S):
    """all results of a study that can be observed after a fit or step, by name"""
    out = {'logE': S.logEvidence}
    om = S.observationModel
    online = type(S).__name__ == 'OnlineStudy'
    if online:
        if S.formattedTimestamps is None or len(S.formattedTimestamps) == 0:
            return {}
        for n in om.parameterNames:
            out['CPD ' + n] = np.array(S.getCPD(n)[1])
            out['mean ' + n] = S.getCurrentParameterMeanValue(n)
        out['CTMD'] = np.array(S.getCTMD()[1])
        out['local CTMD'] = np.array(S.getCTMD(local=True)[1])
        for hp in S.hyperParameterNames:
            for n in hp:
                x, p = S.getCHPD(n)
                out['CHPD ' + n] = np.array([np.ravel(x), np.ravel(p)])
        if S.storeHistory:
            for n in om.parameterNames:
                out['PDs ' + n] = np.array(S.getPDs(n)[1])
                out['means ' + n] = np.array(S.getParameterMeanValues(n))
            out['TMDs'] = np.array(S.getTransitionModelDistributions()[1])
            for hp in S.hyperParameterNames:
                for n in hp:
                    out['HPDs ' + n] = np.array(S.getHPDs(n)[1])
        out['times'] = np.array(S.formattedTimestamps, dtype=float)
        return out
    out['local'] = np.array(S.localEvidence, dtype=float)
    out['post'] = np.array(S.posteriorSequence)
    out['means'] = np.array(S.posteriorMeanValues)
    out['times'] = np.array([] if S.formattedTimestamps is None else S.formattedTimestamps, dtype=float)
    if len(S.posteriorSequence):
        for n in om.parameterNames:
            out['mean ' + n] = np.array(S.getParameterMeanValues(n))
            out['PDs ' + n] = np.array(S.getPDs(n)[1])
    if hasattr(S, 'getHPD') and np.isfinite(S.logEvidence):
        from bayesloop.exceptions import PostProcessingError
        names = hyper_names(S.transitionModel)
        for n in names:
            try:
                x, p = S.getHPD(n)
            except PostProcessingError:
                continue
            if isinstance(x, str):
                x = []
            out['HPD ' + n] = np.array(np.ravel(p))
            out['values ' + n] = np.array(np.ravel(x), dtype=float)
    return out


def compare_outcomes(rec, what, got, want, tol=1e-9):
    rec.ok(set(got) == set(want), '%s: available results %s, expected %s' % (what, sorted(got), sorted(want)))
    for k in sorted(want):
        a, b = np.asarray(got[k], dtype=float), np.asarray(want[k], dtype=float)
        if a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)):
            a, b = np.nan_to_num(a, nan=0., posinf=np.inf, neginf=-np.inf), np.nan_to_num(b, nan=0., posinf=np.inf, neginf=-np.inf)
        rec.close('%s: %s' % (what, k), a, b, tol)


def freeze(x):
    """deep snapshot of a user object for comparison"""
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(y) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, freeze(v)) for k, v in sorted(x.items()))
    return (type(x).__name__, repr(x))
