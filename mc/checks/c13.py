"""C13: parsed queries give the probability of the expression as written."""
import itertools
import numpy as np
from scipy import special
from .. import ref, specs
from ..specs import static, grw, cp, comb, regime
from ..common import bl, study

RULE = ('all expressions of the query grammar up to the size bound (parameters at time steps, hyper-parameters, numbers, the '
        'five operators with and without parentheses, signs, functions) x relational operators, in ten combinations of '
        'studies; 27 queries with every ordered pair of names from a menu (also names that are, or begin with, names of functions), compared to plain names; oracle: own evaluator over the explicit product of the joint distributions')
BOUNDS = {'quick': 'up to 2 atoms (all pairs of atoms and operators), 3 atoms (selected atoms, all 25 operator pairs, all 3 ways to set parentheses), one function or sign, 5 relations, derived distributions, malformed queries; 27 queries with all ordered pairs of 24 names',
          'thorough': '3 atoms (all atoms, all operator pairs and parentheses, 5 relations), 4 atoms without parentheses, two functions; all ordered pairs of 52 names'}
CHUNK = 1

FUNCS = {'exp': np.exp, 'sqrt': np.sqrt, 'abs': np.abs, 'log': np.log, 'expit': special.expit, 'sin': np.sin, 'floor': np.floor}
EXACT = {'+', '-', '*', 'abs', 'neg', 'floor'}
PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '^': 4}
RELS = ['>', '<', '>=', '<=', '==']

W = {}


class World(object):
    """studies, atoms (text -> group and values) and groups (key -> probabilities)"""
    def __init__(self):
        self.groups, self.atoms, self.studies = {}, {}, []

    def par(self, name, t, grp, values):
        self.atoms['%s@%s' % (name, t)] = (grp, np.array(values, dtype=float), 'par', name, t)

    def hyper(self, name, t, grp, values):
        self.atoms[name if t is None else '%s@%s' % (name, t)] = (grp, np.array(values, dtype=float), 'hyper', name, t)


def add_batch(w, cls, key, spec, tm, data, ts, times=None):
    s = specs.Setting(spec)
    S = study(cls, s, tm, data, ts)
    S.fit(silent=True)
    w.studies.append(S)
    post = np.array(S.posteriorSequence)
    T = list(range(len(data))) if ts is None else list(ts)
    for k, t in enumerate(T):
        if times is not None and t not in times:
            continue
        w.groups[key, 'par', t] = post[k].ravel()
        for i, n in enumerate(s.grid.names):
            w.par(n, t, (key, 'par', t), s.grid.mesh[i].ravel())
    if cls != 'Study':
        rt = specs.ref_tm(tm, T[:-1])
        hs = [h for h, v, p in ref.hypers(rt)]
        ordered = [h for h in hs if h.startswith('t')] if cls == 'ChangepointStudy' else None
        res = ref.hyper_fit(s.grid, s.prior, s.like(specs.num(data)), T, rt, 'evidence', ordered)
        w.groups[key, 'hyper'] = res['dist']
        for h in hs:
            w.hyper(h, None, (key, 'hyper'), [c[h] for c in res['combos']])
    return S


def add_online(w, key, spec, tms, data, history, times=None):
    b = bl()
    s = specs.Setting(spec)
    S = b.OnlineStudy(storeHistory=history, silent=True)
    S.set(s.real(b), silent=True)
    for n, t in tms:
        S.add(n, specs.real_tm(b, t))
    for x in data:
        S.step(specs.num(x))
    w.studies.append(S)
    n = len(data)
    for t in range(n) if history else [n - 1]:
        if times is not None and t not in times:
            continue
        rows = []
        for m, tm in tms:
            rt = specs.ref_tm(tm)
            res = ref.hyper_fit(s.grid, s.prior, s.like(specs.num(data[:t + 1])), list(range(t + 1)), rt, 'forward')
            rows.append(res)
            if ref.hypers(rt):
                w.groups[key, 'hyper', m, t] = res['dist']
                for h, v, p in ref.hypers(rt):
                    w.hyper(h, t if history else None, (key, 'hyper', m, t), [c[h] for c in res['combos']])
        if len(tms) == 1:
            p = rows[0]['post'][-1].ravel()
        else:               # 1-D grids: the marginal distribution is the joint distribution
            p = np.array(S.getPDs('a', density=False)[1][t] if history else S.getCPD('a', density=False)[1])
        w.groups[key, 'par', t] = p
        for i, nm in enumerate(s.grid.names):
            if history:
                w.par(nm, t, (key, 'par', t), s.grid.mesh[i].ravel())
            else:
                w.atoms[nm] = ((key, 'par', t), s.grid.mesh[i].ravel(), 'par', nm, None)
    return S


def world(name):
    if name in W:
        return W[name]
    w = World()
    A = [.25, .5, 1.]
    B = [.5, 1., 1.5]
    if name == 'study':
        add_batch(w, 'Study', 's', {'grid': [A, B], 'prior': ['func', 'lin']}, grw(.3), [0, 3, 1], None, [0, 2])
        w.pick = ['a@0', 'b@0', 'a@2']
    elif name == 'times':
        add_batch(w, 'Study', 's', {'grid': [[0., 1., 2.]]}, grw(.6), [0, 3, 1, 2], [-1, 1850, 1851, 1900.5])
        w.pick = ['a@1850', 'a@-1', 'a@1900.5']
    elif name == 'hyper':
        add_batch(w, 'HyperStudy', 's', {'grid': [A, B]}, comb(grw([.25, .5, 1.]), regime([-2., -1.], n='q')), [0, 3, 1], None, [1])
        w.pick = ['a@1', 'b@1', 'sigma', 'q']
    elif name == 'points':
        add_batch(w, 'ChangepointStudy', 's', {'grid': [A]}, comb(cp('all', 't1'), cp('all', 't2')), [0, 3, 1, 2], None, [1, 3])
        w.pick = ['t2', 't1', 'a@1']
    elif name == 'online':
        add_online(w, 's', {'grid': [A]}, [['G', comb(grw([.25, .5]), regime([-2., -1.], n='q'))], ['H', grw([.5, 1., 2.], n='s2')]], [0, 3, 1], True, [0, 2])
        w.pick = ['a@2', 'sigma@2', 's2@2', 'sigma@0']
    elif name == 'current':
        add_online(w, 's', {'grid': [A, B]}, [['G', comb(grw([.25, .5]), regime([-2., -1.], n='q'))]], [0, 3, 1], False)
        w.pick = ['a', 'b', 'q']
    elif name == 'two':
        add_batch(w, 'Study', 's', {'grid': [A, B], 'names': ['c', 'd']}, grw(.3, 'c'), [0, 3, 1], [4, 5, 6], [5])
        add_batch(w, 'HyperStudy', 'h', {'grid': [A]}, grw([.25, .5, 1.]), [5, 2, 1, 3], [3, 4, 5, 6], [5, 6])
        w.pick = ['c@5', 'a@5', 'd@5', 'sigma']
    elif name == 'mixed':
        add_batch(w, 'Study', 's', {'grid': [A], 'names': ['x']}, static(), [4, 3, 1], None, [1])
        add_online(w, 'o', {'grid': [B]}, [['G', grw([.25, .5])]], [0, 1, 2], True, [1])
        w.pick = ['x@1', 'a@1', 'sigma@1']
    elif name == 'wide':
        V = [round(.05 * i, 10) for i in range(1, 31)]
        add_batch(w, 'Study', 's', {'grid': [V]}, grw(.2), [0, 3, 1, 2, 0, 1, 5, 2, 4, 0, 3, 3], None, [2, 11])
        w.pick = ['a@2', 'a@11']
    elif name == 'wide2':
        add_batch(w, 'HyperStudy', 'h', {'grid': [[.1, .2, .3, .4, .5, .6, .7], [.25, .5, .75, 1.]], 'names': ['c', 'd']},
                  comb(grw([.1 * i for i in range(1, 9)], 'c'), regime([-5., -4., -3., -2., -1.], n='q')), [0, 3, 1, 2, 0, 1, 5, 2, 4, 0, 3, 3],
                  [100 + i for i in range(12)], [111])
        w.pick = ['c@111', 'd@111', 'q']
    W[name] = w
    import bayesloop
    w.parser = bayesloop.Parser(*w.studies)
    return w


NAMES = ['p', 'log10pMin', 'std', 'mean', 'a', 'rate', 'accident_rate', 'exp_rate', 'sqrtp', 'e', 'pi', 'sin', 's', 'beta', 'gamma', 'sinc',
         'test', 'noise amplitude', 'sigma', 't1', 'eta', 'logp', 'abs', 'E']
MORE = ['alpha', 'sigma_2', 'x', 'i', 'n', 'mu', 'lambda', 'c', 'pmin', 'std_p', 'minimum', 'correlation coefficient', 'image', 'real', 'error',
        'erf', 'inf', 'nan', 'ln', 't', 'ta', 'round', 'log1p', 'sum', 'powerlaw', 'maxp', 'rho', 'tc']
TEMPLATES = ['{a}@1 > 0.4', '{b} < -1.5', '{a}@1*2 + {b} < -1.3', '{b}*2*3 < -9', '{b}*{a}@2*2 > -0.9', '-{b} > 1.5', '+{b} > -1.5', '{b}-1 < -2.5',
             '{b} - -1 < -0.5', '({b}+1)*{a}@1 < -0.2', '{a}@1 > {a}@2', '{b}^2 - 1 > 1', '2^{b} > 0.2', 'fabs({b}) > 1.5', 'sqrt({a}@1) + {b} > -1.2',
             'sqrt({a}@1)*2*3 > 4', 'log({a}@2) < {b}', '{b} == -2', '1e0 < -{b}', '{b} + 2 * {a}@0 >= -1.5', '{b}', '{a}@1*{b}', 'exp({b})']
GLOBAL = ['{a} > 0.4', '{a}*{b} < -0.5', 'sqrt({a})+{b}', '{a}']


WORLDS = ['study', 'times', 'hyper', 'points', 'online', 'current', 'two', 'mixed', 'wide', 'wide2']


# ---------------------------------------------------------------------------------------------------------- expressions
# AST: ('num', text) | ('atom', name) | (op, left, right) | ('neg', x) | ('f', name, x)
def N(x):
    return ('num', x)


def A_(x):
    return ('atom', x)


def text(e, full=False, sp=' '):
    """usual notation; parentheses only where needed unless `full`"""
    k = e[0]
    if k in ('num', 'atom'):
        return e[1]
    if k == 'f':
        return '%s(%s)' % (e[1], text(e[2], full, sp))
    if k == 'neg':
        x = text(e[1], full, sp)
        return '-' + (x if e[1][0] in ('atom', 'f', '^') and not full else '(%s)' % x)
    l, r = text(e[1], full, sp), text(e[2], full, sp)
    if needs(e[1], k, 'l', full):
        l = '(%s)' % l
    if needs(e[2], k, 'r', full):
        r = '(%s)' % r
    s = '' if k == '^' else sp
    return l + s + k + s + r


def needs(x, op, side, full):
    if x[0] == 'neg':
        return True
    if x[0] == 'atom' and '@-' in x[1]:
        return op == '^'
    if x[0] in ('num', 'atom', 'f'):
        return x[0] == 'num' and x[1].startswith('-') and side == 'r'
    if full:
        return True
    a, b = PREC[x[0]], PREC[op]
    if a != b:
        return a < b
    return side == ('l' if op == '^' else 'r')


def evaluate(e, val):
    k = e[0]
    if k == 'num':
        return float(e[1])
    if k == 'atom':
        return val[e[1]]
    if k == 'neg':
        return -evaluate(e[1], val)
    if k == 'f':
        return FUNCS[e[1]](evaluate(e[2], val))
    a, b = evaluate(e[1], val), evaluate(e[2], val)
    if k == '+':
        return a + b
    if k == '-':
        return a - b
    if k == '*':
        return a * b
    if k == '/':
        return np.true_divide(a, b)
    return np.power(a, b)


def atoms(e):
    if e[0] == 'atom':
        return [e[1]]
    if e[0] == 'num':
        return []
    return [x for y in e[1:] if isinstance(y, tuple) for x in atoms(y)]


def exact(e):
    if e[0] == 'atom':
        return True
    if e[0] == 'num':
        return float(e[1]) * 64 % 1 == 0
    if e[0] == 'f':
        return e[1] in EXACT and exact(e[2])
    return e[0] in EXACT and all(exact(y) for y in e[1:])


def product(w, names):
    """joint distribution of all groups of the given atoms: values of the atoms and probabilities, broadcastable"""
    gs = []
    for n in names:
        if w.atoms[n][0] not in gs:
            gs.append(w.atoms[n][0])
    val = {}
    for n in set(names):
        i = gs.index(w.atoms[n][0])
        shape = [1] * len(gs)
        shape[i] = -1
        val[n] = w.atoms[n][1].reshape(shape)
    p = np.ones([1] * len(gs))
    for i, g in enumerate(gs):
        shape = [1] * len(gs)
        shape[i] = -1
        p = p * w.groups[g].reshape(shape)
    return val, p


def compare(a, rel, b):
    return {'>': np.greater, '<': np.less, '>=': np.greater_equal, '<=': np.less_equal, '==': np.equal}[rel](a, b)


def probability(w, l, rel, r):
    """(smallest, largest) admissible answer"""
    names = atoms(l) + atoms(r)
    val, p = product(w, names)
    a, b = evaluate(l, val), evaluate(r, val)
    z = np.zeros(p.shape)
    a, b = a + z, b + z
    sel = compare(a, rel, b)
    if exact(l) and exact(r):
        q = p[sel].sum()
        return q, q
    near = np.abs(a - b) <= 1e-9 * (1 + np.abs(a) + np.abs(b))
    return p[sel & ~near].sum(), p[sel | near].sum()


# tree-wise evaluation: known finding KF-parser-reuse (parameters that were already combined with others are treated as
# independent of themselves)
def tree(w, e):
    k = e[0]
    if k == 'num':
        return float(e[1])
    if k == 'atom':
        g, v, kind = w.atoms[e[1]][:3]
        return (v, w.groups[g], g)
    if k == 'neg':
        return bin_('*', -1., tree(w, e[1]))
    if k == 'f':
        x = tree(w, e[2])
        return FUNCS[e[1]](x) if isinstance(x, float) else (FUNCS[e[1]](x[0]), x[1], x[2])
    return bin_(k, tree(w, e[1]), tree(w, e[2]))


def bin_(op, a, b):
    f = lambda x, y: evaluate((op, ('atom', 'x'), ('atom', 'y')), {'x': x, 'y': y})
    if isinstance(a, float) and isinstance(b, float):
        return float(f(a, b))
    if isinstance(a, float):
        return (f(a, b[0]), b[1], b[2])
    if isinstance(b, float):
        return (f(a[0], b), a[1], a[2])
    if a[2] is not None and a[2] == b[2]:
        return (f(a[0], b[0]), a[1], a[2])
    v = f(a[0][:, None], b[0][None, :]).ravel()
    return (v, np.outer(a[1], b[1]).ravel(), None)


def tree_probability(w, l, rel, r):
    d = bin_('+', bin_('*', -1., tree(w, r)), tree(w, l))
    sel = compare(d[0], rel, 0.)
    near = np.abs(d[0]) <= (0. if exact(l) and exact(r) else 1e-9)
    return d[1][sel & ~near | (sel if exact(l) and exact(r) else False)].sum(), d[1][sel | (near if not (exact(l) and exact(r)) else False)].sum()


def reused(w, l, r):
    """a group occurs several times, and more than one group occurs"""
    gs = [w.atoms[n][0] for n in atoms(l) + atoms(r)]
    return len(set(gs)) > 1 and len(set(gs)) < len(gs)


# -------------------------------------------------------------------------------------------------------------- queries
OPS = ['+', '-', '*', '/', '^']


def relations(w, tier):
    """all (left, relation, right, style)"""
    names = list(w.atoms)
    out = []
    for n in names:
        vals = sorted(set(w.atoms[n][1]))
        for c in [vals[0], vals[len(vals) // 2], vals[-1], vals[0] - .1]:
            for rel in RELS:
                out.append((A_(n), rel, N(repr(float(c)))))
        for rel in RELS:
            out.append((N(repr(float(vals[1 % len(vals)]))), rel, A_(n)))
        out.append((('neg', A_(n)), '<', N('-0.5')))
        out.append((('neg', ('^', A_(n), N('2'))), '>=', N('-1')))
        out.append((('^', ('neg', A_(n)), N('2')), '>=', N('0.25')))
        out.append((A_(n), '>', N('1e-1')))
        out.append((A_(n), '>', N('5E-1')))
        out.append((A_(n), '<=', ('neg', A_(n))))
        out.append((('-', A_(n), N('1')), '>', N('-0.5')))
        for f in FUNCS:
            out.append((('f', f, A_(n)), '>', N('0.75')))
            out.append((('*', ('f', f, A_(n)), N('2')), '<=', ('f', 'exp', N('1'))))
            out.append((N('1'), '<', ('f', f, ('+', A_(n), N('0.5')))))
            out.append((('f', 'exp', ('f', f, A_(n))), '>', N('1.5')))
            out.append((('neg', ('f', f, A_(n))), '<', N('-0.6')))
    for a, b in itertools.permutations(names, 2):
        for rel in RELS:
            out.append((A_(a), rel, A_(b)))
    for a in names + ['2', '0.5']:
        for b in names + ['2', '-1']:
            x, y = [A_(q) if q in w.atoms else N(q) for q in (a, b)]
            if x[0] == 'num' and y[0] == 'num':
                continue
            for i, op in enumerate(OPS):
                out.append(((op, x, y), RELS[i], N('1')))
                out.append((N('1.5'), RELS[(i + 1) % 4], (op, x, y)))
                if y[0] == 'atom' and x[0] == 'atom':
                    out.append((('f', 'sqrt', (op, x, y)), '>', N('1')))
                    out.append((('*', (op, x, y), N('2')), '>=', ('+', N('1'), N('1'))))
    pick = w.pick if tier == 'quick' else list(w.atoms)
    if len(pick) < 3:
        return out
    trip = list(itertools.permutations(pick, 3))[:6 if tier == 'quick' else 60] + [(pick[0], pick[0], pick[1]), (pick[1], pick[0], pick[0])]
    trip += [(pick[0], pick[1], '2'), ('2', pick[0], pick[1]), (pick[0], '0.5', pick[1]), (pick[0], '2', '3'), ('3', '2', pick[0])]
    for n, (a, b, c) in enumerate(trip):
        x, y, z = [A_(q) if q in w.atoms else N(q) for q in (a, b, c)]
        for i, (o, q) in enumerate(itertools.product(OPS, OPS)):
            for rel in ([RELS[(i + n) % 4]] if tier == 'quick' else RELS):
                out.append(((q, (o, x, y), z), rel, N('1')))
                out.append(((o, x, (q, y, z)), rel, N('1')))
    for a, b, c in trip:
        x, y, z = [A_(q) if q in w.atoms else N(q) for q in (a, b, c)]
        for op in OPS:
            if z[0] == 'atom' or y[0] == 'atom':
                out.append(((op, x, y), '>', z))
                out.append((z, '<=', (op, x, y)))
                out.append(((op, x, y), '<', ('*', z, N('2'))))
                out.append((('+', (op, x, y), N('1')), '>=', ('-', z, N('-1'))))
    if tier != 'quick':
        for a, b, c in trip[:12]:
            x, y, z = [A_(q) if q in w.atoms else N(q) for q in (a, b, c)]
            for o, q, r in itertools.product(OPS[:4], repeat=3):
                out.append(((r, (q, (o, x, y), z), x), '>', N('1')))
                out.append(((o, x, (q, y, (r, z, N('2')))), '<', N('2')))
    return [o for o in out if atoms(o[0]) + atoms(o[2])]


def malformed(w):
    p = list(w.atoms)[0]
    par = [n for n in w.atoms if w.atoms[n][2] == 'par' and w.atoms[n][4] is not None]
    bare = w.atoms[par[0]][3] if par else None
    out = ['nothing > 1', p + ' + nothing > 1', 'nothing@1 > 1', p + ' > nothing', p + ' 2 > 1', p + ' > 1 1', p + ' > 1)', '(' + p + ' > 1',
           p + ' =! 1', p + ' => 1', p + ' >> 1', p + ' > 1 > 0', '0 < ' + p + ' < 1', p + ' * > 1', p + ' ** 2 > 1', '> 1', '', p + ' ' + p + ' > 1',
           p + ' foo > 1', 'foo ' + p + ' > 1', 'nofunction(' + p + ') > 1', p + ' 3', p + ')', p + ' + nothing']
    if bare:
        out += [bare + ' > 1', bare + ' * 2 > 1', 'exp(%s) > 1' % bare, '%s + %s > 1' % (bare, par[0]), '1 < ' + bare, bare, bare + '@99 > 1',
                bare + '@0.75 > 1', bare + '@99', '2*%s@99' % bare]
    hy = [n for n in w.atoms if w.atoms[n][2] == 'hyper' and w.atoms[n][4] is not None]
    if hy:
        h = w.atoms[hy[0]][3]
        out += [h + ' > 1', h + '@99 > 1', h + ' + 1 > 0']
    return out


def named(a, b):
    B = bl()
    S = B.HyperStudy(silent=True)
    S.loadData(np.array([1., 0., 1., 1., 0.]), silent=True)
    S.set(B.om.Bernoulli(a, B.oint(0, 1, 5)), B.tm.RegimeSwitch(b, [-3., -2., -1.]), silent=True)
    S.fit(silent=True)
    return B.Parser(S)


def names(case, rec):
    """results do not depend on the names of parameters and hyper-parameters"""
    a = case['a']
    plain = named('uu', 'vv')
    for b in case['b']:
        if a == b:
            continue
        P = named(a, b)
        for t, qs in ((None, TEMPLATES), (2, GLOBAL)):
            for i, q in enumerate(qs):
                if any(f + '(' in q for f in ('fabs', 'sqrt', 'log', 'exp') if f in (a, b)):
                    continue
                q1 = q.format(a=a, b=b)
                try:
                    got = P(q1, t=t, silent=i % 3 > 0)
                except Exception as e:
                    rec.fail('names %r and %r: query "%s" fails: %s' % (a, b, q1, repr(e)[:200]))
                    continue
                rec.close('names %r and %r: %s' % (a, b, q1), np.array(got), np.array(plain(q.format(a='uu', b='vv'), t=t, silent=True)))
                rec.transitions += 1
        rec.traces += 1
        rec.state('names', a, b)


def cases(tier):
    out = []
    menu = NAMES + (MORE if tier != 'quick' else [])
    for a in menu:
        for k in range(1 if tier == 'quick' else 4):
            out.append({'part': 'names', 'a': a, 'b': menu[k::1 if tier == 'quick' else 4]})
    parts = 6 if tier == 'quick' else 48
    for w in WORLDS:
        for k in range(parts):
            out.append({'world': w, 'part': 'relations', 'k': k, 'of': parts, 'tier': tier})
        out.append({'world': w, 'part': 'malformed'})
        for k in range(2 if tier == 'quick' else 8):
            out.append({'world': w, 'part': 'distribution', 'k': k, 'of': 2 if tier == 'quick' else 8, 'tier': tier})
    return out


def run(case, rec):
    if case['part'] == 'names':
        names(case, rec)
        return
    w = world(case['world'])
    if case['part'] == 'malformed':
        for q in malformed(w):
            rec.traces += 1
            rec.state(case['world'], q)
            for call in (lambda: w.parser(q, silent=True), lambda: w.studies[0].eval(q, silent=True)):
                try:
                    r = call()
                except Exception:
                    continue
                rec.fail('malformed query "%s" is answered with %s' % (q, r))
        # the parser is still usable
        n = list(w.atoms)[0]
        lo, hi = probability(w, A_(n), '>', N('0.5'))
        rec.close('query after malformed queries', w.parser(n + ' > 0.5', silent=True), lo)
        return
    if case['part'] == 'distribution':
        distributions(case, w, rec)
        return
    qs = relations(w, case['tier'])
    for i in range(case['k'], len(qs), case['of']):
        l, rel, r = qs[i]
        lo, hi = probability(w, l, rel, r)
        styles = [(False, ' ')]
        if i % 4 == 0:
            styles += [(True, ' '), (False, '')]
        for full, sp in styles:
            q = text(l, full, sp) + sp + rel + sp + text(r, full, sp)
            rec.state(case['world'], q)
            rec.transitions += 1
            judge(rec, w, q, w.parser(q, silent=i % 9 > 0), l, rel, r, lo, hi)
        if i % 40 == 0 and len(w.studies) == 1:
            q = text(l) + ' ' + rel + ' ' + text(r)
            judge(rec, w, 'eval ' + q, w.studies[0].eval(q, silent=True), l, rel, r, lo, hi)
        # the same query with a global time
        times = set(w.atoms[n][4] for n in atoms(l) + atoms(r) if w.atoms[n][4] is not None)
        if len(times) == 1 and case['world'] != 'current':
            t = list(times)[0]
            q = (text(l) + ' ' + rel + ' ' + text(r)).replace('@%s' % t, '')
            rec.transitions += 1
            if all(t in list(S.formattedTimestamps) for S in w.studies):
                judge(rec, w, q + ', t=%s' % t, w.parser(q, t=t, silent=True), l, rel, r, lo, hi)
                if i % 40 == 0 and len(w.studies) == 1:
                    judge(rec, w, 'eval %s, t=%s' % (q, t), w.studies[0].eval(q, t=t, silent=True), l, rel, r, lo, hi)
            else:
                try:
                    w.parser(q, t=t, silent=True)
                except Exception:
                    pass
                else:
                    rec.fail('%s, t=%s: time step does not exist in all studies' % (q, t))
        rec.traces += 1


def judge(rec, w, q, got, l, rel, r, lo, hi):
    got = float(got)
    if lo - 1e-9 <= got <= hi + 1e-9:
        return
    if reused(w, l, r):
        a, b = tree_probability(w, l, rel, r)
        if a - 1e-9 <= got <= b + 1e-9:
            rec.known('KF-parser-reuse')
            return
    rec.fail('P(%s) = %r, expected %r%s' % (q, got, lo, '' if lo == hi else ' to %r' % hi))


def distributions(case, w, rec):
    qs, seen = [], set()
    for l, rel, r in relations(w, 'quick'):
        for e in (l, r):
            k = repr(e)
            if k not in seen and atoms(e):
                seen.add(k)
                qs.append(e)
    step = case['of'] * (6 if case['tier'] == 'quick' else 1)
    first = [e for e in qs if e[0] in ('atom', 'f', 'neg')]
    sel = first[case['k']::case['of']] + [e for e in qs if e[0] not in ('atom', 'f', 'neg')][case['k']::step]
    for e in sel:
        val, p = product(w, atoms(e))
        v = (evaluate(e, val) + np.zeros(p.shape)).ravel()
        p = p.ravel()
        if not np.all(np.isfinite(v)):
            continue
        q = text(e)
        rec.state(case['world'], 'dist', q)
        rec.traces += 1
        rec.transitions += 1
        variants = [(v, p)]
        if reused(w, e, N('0')):
            x = tree(w, e)
            variants.append((x[0], x[1]))
        times = set(w.atoms[n][4] for n in atoms(e) if w.atoms[n][4] is not None)
        calls = [(q, w.parser(q, silent=True))]
        if len(times) == 1 and case['world'] != 'current' and all(list(times)[0] in list(S.formattedTimestamps) for S in w.studies):
            t = list(times)[0]
            calls.append((q + ' (t=%s)' % t, w.parser(q.replace('@%s' % t, ''), t=t, silent=True)))
        for d, (x, y) in calls:
            x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
            if len(variants) > 1 and not np.all(np.isfinite(variants[1][0])) and abs(y.sum() - 1.) > 1e-9 and \
                    abs(y.sum() - variants[1][1][np.isfinite(variants[1][0])].sum()) < 1e-9:
                rec.known('KF-parser-reuse')      # combinations that do not exist have no finite value
                continue
            rec.close('total probability of ' + d, y.sum(), 1.)
            rec.ok(x.shape == y.shape and x.ndim == 1 and len(x) > 0 and np.all(np.diff(x) > 0) and np.all(y >= 0), d + ': shape of distribution')
            msgs = [binned(x, y, a, b, case['world'] == 'points') for a, b in variants]
            if msgs[0] is not None:
                if len(msgs) > 1 and msgs[1] is None:
                    rec.known('KF-parser-reuse')
                else:
                    rec.fail('distribution of %s: %s' % (d, msgs[0]))


def binned(x, y, v, p, zero):
    """None if y is the histogram of the values for bins centred at x, which cover all values (`zero`: values of
    probability zero, unknown to the oracle, may be part of the range)"""
    lo, hi = v.min(), v.max()
    h = (x[1] - x[0]) / 2. if len(x) > 1 else (hi - lo) / 2.
    tol = 1e-9 * (1 + abs(lo) + abs(hi))
    if len(x) > 1 and (x[0] - h > lo + 1e-7 * (1 + abs(lo)) or x[-1] + h < hi - 1e-7 * (1 + abs(hi))):
        return 'values %s do not cover [%s, %s]' % (x, lo, hi)
    if len(x) == 1 and not lo - tol <= x[0] <= hi + tol and not zero:
        return 'value %s is not in [%s, %s]' % (x, lo, hi)
    if len(x) > 1 and np.any(np.abs(np.diff(x) - 2 * h) > 1e-7 * (1 + abs(h))):
        return 'bins are not equally wide'
    c = np.cumsum(y)
    for i in range(len(x) - 1):
        e = x[i] + h
        a, b = p[v < e - tol].sum(), p[v <= e + tol].sum()
        if not a - 1e-9 <= c[i] <= b + 1e-9:
            return 'probability below %s is %s, expected %s' % (e, c[i], a)
    return None
