"""C11: results depend only on the current configuration, not on the history."""
import itertools
import numpy as np
from .. import ref, specs
from ..specs import static, grw, alpha, cp, bp, indep, comb, serial, regime, notequal, det, biv
from ..common import bl, outcome, compare_outcomes, fit_mode, freeze, hyper_names, hyper_values
from ..runner import Mismatch

RULE = ('all sequences of operations (loading data, setting shared model instances, fits in all modes, optimisation, '
        'queries, failing calls, analyses of other studies with the same model instances) up to the depth bound, followed '
        'by a fit; oracle: newly created study with newly created models of the current configuration')
BOUNDS = {'quick': 'depth 2 of all and depth 3 of the main operations (Study: 31 and 17 operations, HyperStudy and ChangepointStudy: 18 and 18), depth 4 starting with a fit with estimated parameter values; OnlineStudy: depth 3 or 4 of 9 operations',
          'thorough': 'depth 4 (after a first operation that is not a main one, with the main operations from the third on; HyperStudy, ChangepointStudy with fewer operations), OnlineStudy: depth 5 (without history 4)'}
CHUNK = 1

DATA = {'D3': ([0, 3, 1], None), 'D4': ([2, 0, 1, 5], None), 'D4t': ([2, 0, 1, 5], [5, 6, 8, 9]), 'Dn': ([1, None, 4], None),
        'Dbad': ([0, 8, 1], None), 'D3p': ([3, 0, 1], None), 'D3w': ([0, 3, 1], [4, 5]), 'D3s': ([0, 3, 1], [-1, 0, 1])}
OMS = {'A': {'grid': [[0., .25, .5, .75]]}, 'B': {'grid': [[.1, .5, .9]], 'prior': ['array', 'lin']},
       'C': {'grid': [[.1, .5, .9], [.2, .7]], 'prior': ['func', 'lin']}, 'A4': {'grid': [[1., 2., 3., 4.]], 'prior': ['array1', 'lin']},
       'A3': {'grid': [[.1, .35, .6]]}, 'A5': {'grid': [[0., .25, .5, .75, 1.]]},      # lattice constant of A
       'Cn': {'grid': [[.1, .5, .9], [.2, .7]], 'names': ['b', 'a']},                  # parameter names of C interchanged
       'Cr': {'grid': [[.2, .7], [.1, .5, .9]], 'prior': ['func', 'lin']},             # axes of C interchanged
       'C4': {'grid': [[.1, .5, .9, 1.3], [.2, .7, 1.2]]},                             # lattice constants of C
       'E': None}                                   # Poisson model whose parameter values are estimated from the data loaded when it is set
SHARED = {'d': det('quad', ['c', 'd'], [.05, .02]), 'e': det('lin', ['slope'], [.1], 'b'), 'a': alpha(.25, 1.3), 'v': biv(.4, .3, .5), 'n': notequal(-2., 'pe')}
TMS = {'grw': grw(.3), 'alpha': alpha(.25, 1.3), 'cp': cp(1), 'serial': serial(grw(.2), bp(1), static()),
       'scp': serial(static(), cp(6), alpha(.3, 1.7)), 'comb': comb(grw(.1), regime(-1.)), 'biv': biv(.4, .3, .5), 'static': static(),
       'det': comb(det('lin', ['slope'], [.1])), 'indep': indep(), 'nest': comb(alpha(.2, 1.), serial(regime(-1.), bp(0), notequal(-2., 'pe'))),
       # hyper-studies
       'Hgrw': grw([.1, .4]), 'Hcomb': comb(grw([.1, .3, .4]), regime(-1.)), 'Hcp': cp([0, 1]), 'Hal': alpha([.2, .4], [1., 2.]),
       'H1': comb(grw([.2]), regime([-1.])), 'Hbiv': biv(.4, .3, [0., .5]), 'Hser': serial(static(), bp([0, 1]), grw(.2)),
       'Call': cp('all'), 'C2': comb(cp([0, 1, 2], 't1'), cp([1, 2], 't2')), 'Cs': serial(static(), bp('all'), grw(.2)),
       'Cg': comb(grw([.1, .3]), cp('all')), 'C1': cp([1]),
       # models that contain the same instance of a low-level model
       **{g + v: t for g, m in SHARED.items() for v, t in
          (('P', m), ('S', serial(static(), bp(1), m)), ('Z', serial(m, bp(1), static())), ('C', comb(cp(1, 't1'), m)),
           ('N', serial(comb(m, regime(-2.)), bp(1), grw(.2, n='s2'))), ('L', serial(static(), cp(1), comb(m, grw(.1, n='s2')))))}}

OPS = {
    'Study': ['load D3', 'load D4', 'load D4t', 'load Dbad', 'load D3p', 'load D3w', 'load D3s', 'om A', 'om B', 'om C', 'om A4'] +
             ['tm ' + t for t in ('grw', 'alpha', 'cp', 'scp', 'comb', 'biv', 'nest', 'det')] +
             ['fit full', 'fit forward', 'fit evidence', 'optimize', 'query', 'fail', 'seldom fail', 'other Study A', 'other Study C', 'other Hyper', 'other Online', 'other Same'],
    'HyperStudy': ['load D4t', 'load Dbad', 'load D3p', 'om B', 'om C', 'tm Hgrw', 'tm Hcomb', 'tm Hcp', 'tm Hal', 'tm H1', 'tm static', 'tm Hser',
                   'fit full', 'fit evidence', 'query', 'fail', 'other Hyper', 'other Online'],
    'ChangepointStudy': ['load D4', 'load D4t', 'load D3p', 'load D3s', 'om B', 'om C', 'tm Call', 'tm C2', 'tm Cs', 'tm Cg', 'tm C1', 'tm static',
                         'fit full', 'fit forward', 'query', 'fail', 'other Cp', 'other Study A'],
    'OnlineStudy': ['step 0', 'step 3', 'step 7', 'step nan', 'query', 'fail', 'other Online', 'other Hyper', 'other Study A'],
}
START = {'Study': ('D3', 'A', 'grw'), 'HyperStudy': ('D3', 'A', 'Hgrw'), 'ChangepointStudy': ('D3', 'A', 'Call'), 'OnlineStudy': (None, 'A', None)}
CORE = ('load D4', 'load D4t', 'load Dbad', 'om B', 'om C', 'tm alpha', 'tm scp', 'tm comb', 'tm biv', 'tm nest', 'tm Hcomb', 'tm Hal', 'tm H1',
        'tm Hcp', 'tm Call', 'tm C2', 'tm Cg', 'tm C1', 'tm static', 'fit full', 'fit evidence', 'optimize', 'fail', 'query', 'other Study C',
        'other Hyper', 'other Online', 'other Cp')


def CORE_OPS(ops):
    return [o for o in ops if o in CORE]


ONLINE_MENUS = [['grw'], ['Hgrw', 'static'], ['Hal', 'cp', 'indep'], ['Hcomb'], ['serial', 'Hcp']]


def cases(tier):
    out = []
    for kind in ('Study', 'HyperStudy', 'ChangepointStudy'):
        ops = OPS[kind]
        depth = 3 if tier == 'quick' else 4
        for a in ops:
            for b in ops if tier != 'quick' else [None]:
                out.append({'kind': kind, 'prefix': [a] + ([b] if b else []), 'depth': depth if tier != 'quick' or a in CORE else 2,
                            'ops': ops if tier == 'quick' or a in CORE else CORE_OPS(ops)})
        if tier == 'quick':
            out[-len(ops):] = [dict(c, ops=CORE_OPS(ops)) if c['depth'] == 3 else c for c in out[-len(ops):]]
        few = [o for o in ops if o.startswith('fit') or o.startswith('query') or o in ('load D4', 'load D4t', 'om C', 'other Hyper')]
        for seq in itertools.product(few, repeat=1 if tier == 'quick' else 2):
            out.append({'kind': kind, 'prefix': list(seq) + ['eval'], 'depth': len(seq) + (1 if tier == 'quick' else 2), 'ops': few})
        # observation model with estimated parameter values, data of the same length
        t = START[kind][2]
        few = ['load D3p', 'load D4', 'load D4t', 'load D3s', 'om E', 'om A', 'fit full', 'fit evidence', 'other Same', 'query', 'tm ' + t]
        for a in few:
            out.append({'kind': kind, 'start': ['D3', 'E', t], 'prefix': ['fit full', a], 'depth': 4 if tier == 'quick' else 5, 'ops': few})
    # the same low-level model in several models and studies, grids that differ in size, in the order of axes or in parameter names
    for g in SHARED:
        two = g in 'ev'
        ops = ['om ' + m for m in (('C', 'Cn', 'Cr', 'C4') if two else ('A', 'A3', 'A5', 'C', 'Cn', 'Cr', 'C4'))] + \
              ['tm ' + g + v for v in 'PSZCNL'] + ['load D4', 'load D4t', 'fit full', 'fit forward', 'other Shared']
        for a in ['om ' + m for m in (('Cn', 'Cr', 'C4') if two else ('A3', 'A5', 'C', 'Cn'))] + ['tm ' + g + v for v in 'SZCNL'] + ['other Shared']:
            out.append({'kind': 'Study', 'start': ['D3', 'C' if two else 'A', g + 'P'], 'prefix': ['fit full', a],
                        'depth': 3 if tier == 'quick' else 4, 'ops': ops})
        for v in 'SNL':
            out.append({'kind': 'Study', 'start': ['D4t', 'C', g + v], 'prefix': ['fit full'], 'depth': 2 if tier == 'quick' else 4, 'ops': ops})
    for menu in ONLINE_MENUS:
        out.append({'kind': 'OnlineStudy', 'menu': menu, 'history': True, 'prefix': ['step 0', 'eval'], 'depth': 3, 'ops': ['step 3', 'step 7']})
        out.append({'kind': 'OnlineStudy', 'menu': menu, 'history': False, 'prefix': ['step 0', 'eval'], 'depth': 3, 'ops': ['step 3', 'step 7']})
        for hist in (True, False):
            ops = OPS['OnlineStudy']
            if tier == 'quick':
                for a in ops:
                    out.append({'kind': 'OnlineStudy', 'menu': menu, 'history': hist, 'prefix': [a], 'depth': 4 if menu == ['Hal', 'cp', 'indep'] and hist else 3, 'ops': ops})
            else:
                for a in ops:
                    for b in ops:
                        out.append({'kind': 'OnlineStudy', 'menu': menu, 'history': hist, 'prefix': [a, b], 'depth': 5 if hist else 4, 'ops': ops})
    return out


def new_om(b, n):
    return specs.Setting(OMS[n]).real(b) if n != 'E' else b.om.Poisson('a')


def share(model, instance):
    """the model with the sub-model of the same kind as the given instance replaced by this instance"""
    if type(model) is type(instance):
        return instance
    if hasattr(model, 'models'):
        model.models = [share(m, instance) for m in model.models]
    return model


class World(object):
    """a study, the model instances shared by all studies, and the current configuration"""
    def __init__(self, kind, start, case):
        self.kind = kind
        self.case = case
        self.om, self.tm, self.over, self.shared = {}, {}, {}, {}
        self.kept = []
        b = self.b = bl()
        self.S = getattr(b, kind)(silent=True) if kind != 'OnlineStudy' else \
            b.OnlineStudy(storeHistory=case['history'], silent=True)
        self.data, self.omn, self.tmn = start
        self.omdata = self.data
        self.stream = []
        if kind == 'OnlineStudy':
            self.S.set(self.get_om(self.omn), silent=True)
            for t in case['menu']:
                self.S.add(t, self.get_tm(t))
        else:
            self.load(self.S, self.data)
            self.S.set(self.get_om(self.omn), self.get_tm(self.tmn), silent=True)

    def get_om(self, n):
        if n not in self.om:
            self.om[n] = new_om(self.b, n)
        return self.om[n]

    def get_tm(self, n):
        if n not in self.tm:
            self.tm[n] = specs.real_tm(self.b, TMS[n])
            if n[0] in SHARED and len(n) == 2 and n[1] in 'PSZCNL':
                if n[0] not in self.shared:
                    self.shared[n[0]] = specs.real_tm(self.b, SHARED[n[0]])
                self.tm[n] = share(self.tm[n], self.shared[n[0]])
        return self.tm[n]

    def load(self, S, d, fresh=False):
        x, ts = DATA[d]
        x = np.array(specs.num(x))
        if ts is None or (fresh and len(ts) != len(x)):        # a wrong number of time stamps is ignored
            S.loadData(x, silent=True)
        else:
            S.loadData(x, timestamps=np.array(ts), silent=True)

    def apply(self, op):
        """carries out an operation; errors of the study are part of the history"""
        w = op.split(' ', 1)
        S, b = self.S, self.b
        try:
            if w[0] == 'load':
                self.data = w[1]
                self.load(S, w[1])
            elif w[0] == 'om':
                self.omn = w[1]
                self.omdata = self.data
                S.set(self.get_om(w[1]), silent=True) if w[1] != 'B' else S.setOM(self.get_om(w[1]), silent=True)
            elif w[0] == 'tm':
                self.tmn = w[1]
                S.set(self.get_tm(w[1]), silent=True) if w[1] != 'cp' else S.setTM(self.get_tm(w[1]), silent=True)
            elif w[0] == 'fit':
                fit_mode(S, w[1])
            elif w[0] == 'step':
                x = float('nan') if w[1] == 'nan' else float(w[1])
                self.stream.append(x)
                S.step(x)
            elif w[0] == 'optimize':
                try:
                    S.optimize(options={'maxiter': 3})
                finally:
                    self.over[self.tmn] = [float(v) for v in hyper_values(S.transitionModel)]
            elif w[0] == 'query':
                self.query()
            elif op == 'fail':
                for f in (lambda: S.getPD(99, 'a'), lambda: S.getPDs('nothing'), lambda: S.getPD(0, 'x'), lambda: S.plot('nothing'),
                          lambda: S.set(b.tm.BreakPoint('t', 1), silent=True), lambda: S.setTM(b.tm.BreakPoint('t', 1)),
                          lambda: S.loadData('abc'), lambda: S.getHPD('nothing'), lambda: S.getHPD(99, 'sigma'), lambda: S.getJHPD(['sigma']), lambda: S.getDD(['x', 'y']),
                          lambda: S.optimize(['nothing']), lambda: S.simulate([1.], t=99), lambda: S.setTransitionModelPrior([1.]),
                          lambda: S.getTMPs('nothing'), lambda: S.plotParameterEvolution('nothing')):
                    try:
                        f()
                    except Exception:
                        pass
            elif op == 'eval':
                for q, t in (('a > .3', 1), ('nothing > 1', None), ('a@99 > 1', None), ('a > 1', None)):
                    try:
                        S.eval(q, t=t, silent=True)
                    except Exception:
                        pass
            elif op == 'seldom fail':
                # failing analysis with an incompatible model, afterwards the current model is set again
                om = b.om.NumPy(specs.like1, 'a', np.array([0., .25, .5, .75]), prior=np.ones(3))
                try:
                    S.set(om, silent=True)
                    S.fit(silent=True)
                except Exception:
                    pass
                self.omdata = self.data
                S.set(self.get_om(self.omn), silent=True)
            elif w[0] == 'other':
                self.other(w[1])
        except Mismatch:
            raise
        except Exception as e:
            return type(e).__name__
        return None

    def other(self, what):
        """another study that uses the same instances with another configuration"""
        b = self.b
        if what == 'Shared':
            O = b.Study(silent=True)
            self.load(O, 'D4t')
            for v in 'PSL':
                O.set(self.get_om('C'), self.get_tm(self.tmn[0] + v), silent=True)
                O.fit(silent=True)
            return
        mine = [self.tmn] if self.kind != 'OnlineStudy' else self.case['menu']
        for t in mine:
            if what.startswith('Study') or what == 'Same':
                O = b.Study(silent=True)
            elif what == 'Hyper':
                O = b.HyperStudy(silent=True)
            elif what == 'Cp':
                O = b.ChangepointStudy(silent=True)
            else:
                O = b.OnlineStudy(silent=True)
            om = {'Same': self.omn, 'Study A': 'A', 'Study C': 'C', 'Hyper': 'B', 'Cp': 'A4', 'Online': 'A4'}[what]
            if what == 'Online':
                O.set(self.get_om(om), silent=True)
                O.add('x', self.get_tm(t))
                for x in (1., 0., 2.):
                    O.step(x)
            else:
                self.load(O, 'D4t')
                O.set(self.get_om(om), self.get_tm(t), silent=True)
                try:
                    O.fit(silent=True)
                except Exception:
                    pass

    def keep(self, *arrays):
        for a in arrays:
            if isinstance(a, np.ndarray):
                self.kept.append((a, a.copy()))

    def query(self):
        S = self.S
        for n in S.observationModel.parameterNames:
            for f in (lambda: S.getPDs(n), lambda: S.getPD('avg', n), lambda: [S.getParameterMeanValues(n)], lambda: S.getCPD(n)):
                try:
                    self.keep(*f())
                except (AttributeError, self.b.exceptions.PostProcessingError, IndexError):
                    pass
        for f in (lambda: [S.posteriorSequence, S.posteriorMeanValues, S.localEvidence], lambda: S.getCTMD(),
                  lambda: S.getTransitionModelDistributions(), lambda: [S.simulate([0., 1.])]):
            try:
                self.keep(*f())
            except Exception:
                pass
        for n in hyper_names(S.transitionModel) if S.transitionModel is not None else []:
            for f in (lambda: S.getHPD(n), lambda: S.getCHPD(n), lambda: S.getHPDs(n)):
                try:
                    self.keep(*f())
                except Exception:
                    pass

    def config(self):
        return (self.data, self.omn, self.omdata if self.omn == 'E' else '', self.tmn, repr(self.over.get(self.tmn)))


FRESH = {}


def plotted(S):
    """contents of the plots of all parameters and hyper-parameters"""
    import matplotlib.pyplot as plt
    from .c12 import drawn
    out = {}
    names = list(S.observationModel.parameterNames)
    if hasattr(S, 'getHPD') and np.isfinite(S.logEvidence):
        names += hyper_names(S.transitionModel)
    for n in names:
        plt.close('all')
        try:
            S.plot(n)
            lim = [list(plt.gca().get_xlim()), list(plt.gca().get_ylim())]
        except Exception as e:
            out['plot of ' + n] = type(e).__name__
            continue
        d = drawn()
        out['plot of ' + n] = [('limits', lim)] + sorted(d.items())
    plt.close('all')
    return out


def flatten(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flatten(y)]
    return [x]


def compare_plots(rec, what, got, want):
    for n in want:
        a, b = flatten(got.get(n)), flatten(want[n])
        rec.ok(len(a) == len(b), '%s: %s differs' % (what, n))
        for x, y in zip(a, b):
            if isinstance(x, str) or isinstance(y, str):
                rec.ok(isinstance(x, str) and isinstance(y, str) and x == y, '%s: %s: %s, expected %s' % (what, n, x, y))
            else:
                compare_outcomes(rec, what, {n: x}, {n: y}, 1e-8)


def fresh_result(world, mode, plots=False):
    key = (plots,) + (world.kind, world.config(), mode, repr(world.stream) if world.kind == 'OnlineStudy' else '', repr(world.case.get('menu')),
           world.case.get('history'))
    if key not in FRESH:
        b = world.b
        if len(FRESH) > 5000:
            FRESH.clear()
        if world.kind == 'OnlineStudy':
            W = World(world.kind, START[world.kind], world.case)
            for x in world.stream:
                W.S.step(x)
            FRESH[key] = outcome(W.S)
        else:
            try:
                S = getattr(b, world.kind)(silent=True)
                world.load(S, world.omdata, True)
                om = new_om(b, world.omn)
                S.set(om, silent=True)
                world.load(S, world.data, True)
                spec = TMS[world.tmn]
                if world.over.get(world.tmn):
                    spec = ref.subst(spec, dict(zip([h[0] for h in ref.hypers(spec)], world.over[world.tmn])))
                S.set(specs.real_tm(b, spec), silent=True)
                fit_mode(S, mode)
                FRESH[key] = plotted(S) if plots else outcome(S)
            except Exception as e:
                FRESH[key] = type(e).__name__
    return FRESH[key]


def run(case, rec):
    kind = case['kind']
    n = case['depth'] - len(case['prefix'])
    for k in range(n + 1):
        for rest in itertools.product(case['ops'], repeat=k):
            hist = case['prefix'] + list(rest)
            if kind == 'OnlineStudy' and not any(h.startswith('step') for h in hist):
                continue
            history(kind, case, hist, rec)


def history(kind, case, hist, rec):
    W = World(kind, case.get('start') or START[kind], case)
    for op in hist:
        W.apply(op)
        rec.transitions += 1
    rec.traces += 1
    rec.state(kind, hist, case.get('menu'), case.get('history'))
    w = '%s, history %s' % (kind, hist)
    if kind == 'OnlineStudy':
        w += ' models %s' % case['menu']
        got = outcome(W.S)
        compare_outcomes(rec, w, got, fresh_result(W, None))
    else:
        for mode in (('full',) if len(hist) > 2 else ('full', 'evidence', 'forward')):
            want = fresh_result(W, mode)
            try:
                fit_mode(W.S, mode)
                got = outcome(W.S)
            except Exception as e:
                got = type(e).__name__
            if isinstance(want, str) or isinstance(got, str):
                rec.ok(got == want, w + ': fit gives %s, in a new study %s' % (got if isinstance(got, str) else 'results', want if isinstance(want, str) else 'results'))
            else:
                compare_outcomes(rec, w + ', then %s fit' % mode, got, want)
                if mode == 'full' and len(hist) <= 2:
                    compare_plots(rec, w + ', then %s fit' % mode, plotted(W.S), fresh_result(W, mode, True))
    for a, c in W.kept:
        rec.ok(np.array_equal(a, c, equal_nan=True) if a.dtype.kind == 'f' else np.array_equal(a, c), w + ': results returned earlier have changed')
