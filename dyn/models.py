"""Properties of the loaded ensemble (C01) and the laws of Shapley values on it (C03)."""
from fractions import Fraction as F

import numpy as np

import gen
import oracle as O
import rf
import trees as T
from gen import np_


def fit_model(rng, quick=False):
    """-> (name, fitted model, data, raw output function on arrays (n x outputs), tolerance)"""
    from sklearn.tree import DecisionTreeRegressor, DecisionTreeClassifier
    from sklearn.ensemble import (RandomForestRegressor, RandomForestClassifier, ExtraTreesRegressor,
                                  ExtraTreesClassifier, GradientBoostingRegressor, GradientBoostingClassifier)
    d = rng.randrange(1, 5)
    n = rng.randrange(12, 40)
    data = np_([[rng.choice(gen.GRID) + rng.choice([0.0, .125]) for _ in range(d)] for _ in range(n)])
    s = rng.randrange(10**6)
    kind = rng.choice(['dtr', 'dtc', 'rfr', 'rfc', 'etr', 'etc', 'gbr', 'gbc', 'hgb', 'xgr', 'xgc', 'xgm', 'rgc'])
    K = rng.choice([2, 3])
    nt = rng.randrange(1, 5)
    dep = rng.randrange(1, 5)
    yr = np_([gen.dy(rng) for _ in range(n)])
    if kind in ('dtr', 'rfr', 'etr') and rng.random() < .3:
        yr = np_([[gen.dy(rng) for _ in range(2)] for _ in range(n)])
    yc = np.array([rng.randrange(K) for _ in range(n)])
    yc[:K] = range(K)
    yb = np.array([rng.randrange(2) for _ in range(n)])
    yb[:2] = (0, 1)
    cl = dict(random_state=s, max_depth=dep)

    def out(a):
        a = np.asarray(a)
        return a.reshape(a.shape[0], -1)
    if kind == 'dtr':
        m = DecisionTreeRegressor(**cl).fit(data, yr)
        f = m.predict
    elif kind == 'dtc':
        m = DecisionTreeClassifier(**cl).fit(data, yc)
        f = m.predict_proba
    elif kind == 'rfr':
        m = RandomForestRegressor(n_estimators=nt, **cl).fit(data, yr)
        f = m.predict
    elif kind == 'rfc':
        m = RandomForestClassifier(n_estimators=nt, **cl).fit(data, yc)
        f = m.predict_proba
    elif kind == 'etr':
        m = ExtraTreesRegressor(n_estimators=nt, **cl).fit(data, yr)
        f = m.predict
    elif kind == 'etc':
        m = ExtraTreesClassifier(n_estimators=nt, **cl).fit(data, yc)
        f = m.predict_proba
    elif kind == 'gbr':
        yr = yr[:, 0] if yr.ndim > 1 else yr
        m = GradientBoostingRegressor(n_estimators=nt, learning_rate=rng.choice([.1, .5, 1.0]), **cl).fit(data, yr)
        f = m.predict
    elif kind == 'gbc':
        m = GradientBoostingClassifier(n_estimators=nt, learning_rate=rng.choice([.1, .5, 1.0]), **cl).fit(data, yb)
        f = m.decision_function
    elif kind == 'hgb':
        from sklearn.ensemble import HistGradientBoostingRegressor
        m = HistGradientBoostingRegressor(max_iter=nt, min_samples_leaf=rng.choice([1, 3]), **cl).fit(data, yr)
        f = m.predict
    elif kind == 'rgc':
        from skranger.ensemble import RangerForestClassifier
        m = RangerForestClassifier(n_estimators=nt, seed=s % 1000, max_depth=dep, enable_tree_details=True)
        m.fit(data, yc)

        def f(X, m=m):
            return None
    else:
        import xgboost as xgb
        kw = dict(n_estimators=nt, max_depth=dep, random_state=s, n_jobs=1, min_child_weight=rng.choice([0, 1]),
                  learning_rate=rng.choice([.3, 1.0]), base_score=rng.choice([.5, .25]))
        if kind == 'xgr':
            m = xgb.XGBRegressor(**kw).fit(data, yr)
        else:
            yy = yb
            if kind == 'xgm':
                K = 3
                yy = np.array([rng.randrange(3) for _ in range(n)])
                yy[:3] = range(3)
            m = xgb.XGBClassifier(use_label_encoder=False, eval_metric='logloss', **kw).fit(data, yy)

        def f(X, m=m):
            return m.get_booster().predict(xgb.DMatrix(X), output_margin=True)
    return kind, m, data, (lambda X: out(f(X))), (2e-5 if kind.startswith('xg') else 1e-9)


def ensemble_of(rng):
    """An ensemble with leaves filled by its background: a fitted model, or trees given as a dictionary."""
    from acv_explainers import ACVTree
    if rng.random() < .75:
        kind, m, data, f, tol = fit_model(rng)
        return kind, ACVTree(m, data), data, f, tol, (m if kind == 'rgc' else None)
    d = rng.randrange(1, 5)
    trees = [gen.rand_tree(rng, list(range(d)), 6, rng.choice([1])) for _ in range(rng.randrange(1, 4))]
    K = rng.choice([1, 2, 3])
    for t in trees:
        t.v = [[gen.dy(rng) for _ in range(K)] for _ in t.v]
    data = np_(gen.rand_data(rng, rng.randrange(2, 12), d))
    off = gen.dy(rng)
    a = ACVTree({'trees': [t.as_dict(data.tolist()) for t in trees], 'base_offset': off}, data)
    return 'dict', a, data, lambda X: np_([[float(O.raw(trees, x, j)) + off for j in range(K)] for x in X.tolist()]), \
        1e-9, None


def points(rng, data):
    out = []
    d = data.shape[1]
    for _ in range(rng.randrange(1, 6)):
        q = rng.random()
        if q < .4:
            out.append(list(data[rng.randrange(len(data))]))
        elif q < .8:
            out.append([rng.choice(gen.GRID) + rng.choice([0, .125, .25]) for _ in range(d)])
        else:
            out.append([rng.choice([-50.0, 50.0, rng.choice(gen.GRID)]) for _ in range(d)])
    return np_(out)


def ranger_probs(m):
    """The forest ranger describes, with the class frequencies ranger stores in the leaves."""
    return [e.tree_ for e in m.estimators_]


def C01(rng, rec):
    kind, a, data, f, tol, rg = ensemble_of(rng)
    X = points(rng, data)
    inp = dict(model=kind, data=data.tolist(), X=X.tolist())
    rec.case(inp, a.values.shape[1] > 3)
    got = np.asarray(a.predict(X))
    got = got.reshape(len(X), -1)
    if rg is not None:
        want = np.zeros(got.shape)
        trs = rf.ranger_trees(rg)
        for e, t in zip(rg.estimators_, trs):
            for i, x in enumerate(X.tolist()):
                v = np.asarray(e.tree_.value[t.leaf_of(x)]).reshape(-1)
                want[i] += v / v.sum() / len(trs)
    else:
        want = f(X)
    rec.ok(got.shape == want.shape, '%s: predict has shape %r, the model %r' % (kind, got.shape, want.shape), inp)
    for i in range(len(X)):
        for j in range(want.shape[1]):
            rec.eq('%s: predict[%d,%d]' % (kind, i, j), got[i, j], want[i, j], inp, tol)
        one = np.asarray(a.predict(X[i])).reshape(-1)
        for j in range(want.shape[1]):
            rec.eq('%s: predict(one sample)[%d,%d]' % (kind, i, j), one[j], want[i, j], inp, tol)
    # the partition the estimators work on: with every variable known, a row of the background gets its prediction,
    # and with none the average over the background
    off = np.asarray(a.base_offset).reshape(-1)
    d = data.shape[1]
    D = data[:6]
    xs = xfloat(kind, D)
    dd = xfloat(kind, data)
    if kind not in ('dict',) or True:
        full = np.asarray(a.shap_values(xs)).sum(axis=1)
        fD, fall = f_all(a, rg, f, D), f_all(a, rg, f, data)
        for i in range(len(D)):
            for j in range(full.shape[1]):
                rec.eq('%s: sum of the Shapley values of a background row[%d,%d]' % (kind, i, j), full[i, j],
                       fD[i, j] - fall[:, j].mean(), inp, max(tol * 10, 1e-8))


def f_all(a, rg, f, X):
    if rg is None:
        return f(X)
    trs = rf.ranger_trees(rg)
    want = np.zeros((len(X), a.num_outputs))
    for e, t in zip(rg.estimators_, trs):
        for i, x in enumerate(X.tolist()):
            v = np.asarray(e.tree_.value[t.leaf_of(x)]).reshape(-1)
            want[i] += v / v.sum() / len(trs)
    return want


def xfloat(kind, X):
    return X


def C03(rng, rec):
    """Efficiency, null players, symmetry, linearity in the trees; singles and groups."""
    from acv_explainers import ACVTree
    big = rng.random() < .3
    if big:
        d = rng.randrange(4, 9)
        trees = [gen.rand_tree(rng, rng.sample(range(d), rng.randrange(1, d + 1)), 9, 1, chain=rng.random() < .4)
                 for _ in range(rng.randrange(1, 4))]
        data = gen.rand_data(rng, rng.randrange(2, 10), d)
        X = [list(rng.choice(data)) if rng.random() < .5 else gen.rand_data(rng, 1, d)[0] for _ in range(2)]
        nout = 1
    else:
        d, nout, data, trees, X = T.ens(rng)
    C = T.groups(rng, d) if rng.random() < .4 else [[]]
    inp = T.inp_of(trees, data, X, C=C)
    rec.case(inp, T.nontriv(trees))
    a = gen.acv_of(trees, data)
    sv = np.asarray(a.shap_values(np_(X), C))
    pl = O.players_of(d, C)
    tb = O.leaf_table(trees, data)
    used = {f for t in trees for f in t.f if f >= 0}
    reach = [{f for k, box in t.leaves() for f in box} for t in trees]
    for j in range(nout):
        mean = sum((O.raw(trees, r, j) for r in data), F(0)) / len(data)
        for i, x in enumerate(X):
            g = O.LeafGame(trees, data, x, j, tb)
            tot = sum(float(sv[i, p[0], j]) for p in pl)
            rec.eq('sum of the Shapley values[%d,%d]' % (i, j), tot, g(range(d)) - mean, inp)
            for p in pl:
                for f in p:
                    rec.eq('value of the members of a group[%d,%d]' % (i, f), sv[i, f, j], sv[i, p[0], j], inp)
                if not any(f in used for f in p):
                    rec.ok(sv[i, p[0], j] == 0, 'feature %r is not used by the trees but has the value %r' %
                           (p, float(sv[i, p[0], j])), inp)
    # linearity
    if len(trees) > 1:
        parts = sum(np.asarray(gen.acv_of([t], data).shap_values(np_(X), C)) for t in trees)
        for i in range(len(X)):
            for f in range(d):
                for j in range(nout):
                    rec.eq('value[%d,%d,%d] against the sum over the trees' % (i, f, j), sv[i, f, j], parts[i, f, j], inp)
    # symmetry: swapping two features everywhere swaps their values
    if d > 1 and not C[0]:
        p, q = rng.sample(range(d), 2)
        sw = {p: q, q: p}
        tr2 = []
        for t in trees:
            u = gen.Tree()
            u.l, u.r, u.t, u.v = t.l, t.r, t.t, t.v
            u.f = [sw.get(f, f) for f in t.f]
            tr2.append(u)

        def swap(r):
            r = list(r)
            r[p], r[q] = r[q], r[p]
            return r
        b = np.asarray(gen.acv_of(tr2, [swap(r) for r in data]).shap_values(np_([swap(x) for x in X])))
        for i in range(len(X)):
            for f in range(d):
                for j in range(nout):
                    rec.eq('value[%d,%d,%d] after renaming features' % (i, f, j), b[i, sw.get(f, f), j], sv[i, f, j], inp)
