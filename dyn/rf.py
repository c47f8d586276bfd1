"""Properties of the projected forest (agnostic explainer and its tree twin)."""
import itertools
from fractions import Fraction as F

import numpy as np

import gen
import oracle as O
from gen import np_


class Forest(object):
    """A fitted agnostic explainer with the trees it must be using."""

    def __init__(self, acx, trees, depth, injected):
        self.acx, self.trees, self.depth, self.injected = acx, trees, depth, injected


def ranger_trees(model):
    """The trees of the fitted forest, from ranger's own description of it."""
    f = model.ranger_forest_['forest']
    out = []
    for ch, var, val in zip(f['child_node_ids'], f['split_var_ids'], f['split_values']):
        t = gen.Tree()
        for k in range(len(var)):
            leaf = ch[0][k] == 0 and ch[1][k] == 0
            t.l.append(-1 if leaf else int(ch[0][k]))
            t.r.append(-1 if leaf else int(ch[1][k]))
            t.f.append(-1 if leaf else int(var[k]))
            t.t.append(0.0 if leaf else float(val[k]))
            t.v.append([0.0])
        out.append(t)
    return out


def make(rng, classifier, d, nrows, nclass=2, exact=False, synth=None):
    """-> Forest, data, y.  Half of the forests are grown by ranger, half are arbitrary trees put in its place."""
    from acv_explainers import ACXplainer
    data = gen.rand_data(rng, nrows, d)
    if classifier:
        y = [float(rng.randrange(nclass)) for _ in range(nrows)]
        if len(set(y)) < 2:
            y[0] = 1.0 - y[0] if nclass == 2 else float((int(y[0]) + 1) % nclass)
    else:
        y = [gen.dy(rng) for _ in range(nrows)]
    nt = rng.choice([1, 2, 4]) if exact else rng.randrange(1, 5)
    a = ACXplainer(classifier=classifier, n_estimators=nt, max_depth=rng.randrange(2, 5), min_node_size=1,
                   seed=rng.randrange(10**6))
    a.fit(np_(data), np_(y))
    a.check_is_explainer()
    trees = ranger_trees(a.model)
    inj = False
    if synth or (synth is None and rng.random() < .6):
        syn = [gen.rand_tree(rng, list(range(d)), 6, 1, chain=rng.random() < .3) for _ in range(nt)]
        b = getattr(a, 'ACXplainer', None)
        if b is not None and all(hasattr(b, k) for k in ('features', 'thresholds', 'children_left',
                                                          'children_right', 'max_depth')):
            n = max(len(t.l) for t in syn)
            pad = rng.choice([-1, -2])
            arr = {k: np.full((nt, n), -1, dtype=np.int32) for k in ('l', 'r')}
            fe = np.full((nt, n), pad, dtype=np.int32)
            th = np.zeros((nt, n))
            for i, t in enumerate(syn):
                k = len(t.l)
                arr['l'][i, :k], arr['r'][i, :k] = t.l, t.r
                fe[i, :k] = [pad if q < 0 else q for q in t.f]
                th[i, :k] = t.t
            b.features, b.thresholds, b.children_left, b.children_right = fe, th, arr['l'], arr['r']
            b.max_depth = max(1, max(t.depth() for t in syn))
            trees, inj = syn, True
    return Forest(a, trees, max([1] + [t.depth() for t in trees]), inj), data, y


def case(rng, exact=False, d=None, nmax=9, one_S=False):
    clf = rng.random() < .6
    d = d or rng.randrange(2, 5)
    n = rng.choice([4, 8]) if exact else rng.randrange(4, nmax + 3)
    nclass = rng.choice([2, 2, 3])
    fo, data, y = make(rng, clf, d, n, nclass, exact)
    k = rng.randrange(1, 4)
    X, yX = [], []
    for _ in range(k):
        if rng.random() < .5:
            i = rng.randrange(n)
            X.append(list(data[i]))
            yX.append(y[i])
        else:
            X.append(gen.rand_data(rng, 1, d)[0])
            yX.append(float(rng.randrange(nclass)) if clf else gen.dy(rng))
    if one_S:
        S0 = rng.sample(range(d), rng.randrange(0, d + 1))
        S = [list(S0) for _ in X]
    else:
        S = [rng.sample(range(d), rng.randrange(0, d + 1)) for _ in X]
    t = None
    if not clf:
        t = np.array([sorted([gen.dy(rng), gen.dy(rng)]) for _ in X])
    mns = rng.choice([0, 1, 1, 2, 3, 5])
    inp = dict(classifier=clf, trees=dump(fo.trees), data=data, y=y, X=X, yX=yX, S=S, t=None if t is None else
               t.tolist(), min_node_size=mns, injected=fo.injected)
    return fo, clf, data, y, X, yX, S, t, mns, inp


def dump(trees):
    return [dict(left=t.l, right=t.r, feature=t.f, threshold=t.t, value=t.v) for t in trees]


def same(clf, y, t):
    if clf:
        return lambda r: 1 if r.y == y else 0
    return lambda r: 1 if t[0] <= r.y <= t[1] else 0


def diff(clf, y, t):
    g = same(clf, y, t)
    return lambda r: 1 - g(r)


def t_of(t, i):
    return None if t is None else t[i]


def C09(rng, rec):
    fo, clf, data, y, X, yX, S, t, mns, inp = case(rng)
    rows = O.rows_of(data, y)
    rec.case(inp, len(fo.trees) > 0 and any(S) and max(tr.depth() for tr in fo.trees) > 1)
    got = fo.acx.compute_sdp_rf(np_(X), np_(yX), np_(data), np_(y), S, mns, t)
    for i, x in enumerate(X):
        want = O.forest_mean(fo.trees, fo.depth, mns, rows, O.side_of(x, S[i]), same(clf, yX[i], t_of(t, i)))
        rec.eq('compute_sdp_rf[%d]' % i, got[i], want, inp)
    if rng.random() < .5:
        tw = twin(rng, fo, data)
        if tw is not None:
            tt = np.zeros((len(X), 2)) if t is None else t
            got = tw.compute_sdp_rf(np_(X), np_(yX), np_(data), np_(y), S, mns, int(clf), tt)
            for i, x in enumerate(X):
                want = O.forest_mean(fo.trees, fo.depth, mns, rows, O.side_of(x, S[i]),
                                     same(clf, yX[i], t_of(t, i)))
                rec.eq('tree explainer compute_sdp_rf[%d]' % i, got[i], want, inp)


def twin(rng, fo, data):
    """The same trees in the tree explainer, which offers the same estimators."""
    if not fo.injected:
        return None
    from acv_explainers import ACVTree
    a = gen.acv_of(fo.trees, data)
    return a


def C10(rng, rec):
    fo, clf, data, y, X, yX, S, t, mns, inp = case(rng, one_S=rng.random() < .5)
    d = len(data[0])
    rows = O.rows_of(data, y)
    a = fo.acx
    cond = np.zeros((len(X), d, 2))
    for i in range(len(X)):
        for f in range(d):
            lo, hi = sorted([rng.choice(gen.GRID + [-1e10, 1e10]), rng.choice(gen.GRID + [-1e10, 1e10])])
            cond[i, f] = lo, hi
    down = np_([min(gen.dy(rng), 1.0) for _ in X])
    up = np_([q + abs(gen.dy(rng)) for q in down])
    inp = dict(inp, cond=cond.tolist(), down=down.tolist(), up=up.tolist())
    rec.case(inp, any(S) and max(tr.depth() for tr in fo.trees) > 1)
    A = (np_(X), np_(yX))
    B = (np_(data), np_(y), S)
    which = rng.randrange(4)
    n = len(data)

    def want(i, side, g, cell=None, w=None):
        return O.forest_mean(fo.trees, fo.depth, mns, rows, side, g, cell, w)

    def inr(i):
        if clf:
            return same(True, yX[i], None)
        return lambda r: 1 if down[i] <= r.y <= up[i] else 0
    if which == 0:
        g1 = a.compute_ddp_rf(*A, *B, mns, t)
        g2 = a.compute_cdp_rf(*A, down, up, *B, mns, t)
        g3, w3 = a.compute_ddp_weights(*A, *B, mns, t)
        g4, w4 = a.compute_cdp_weights(*A, down, up, *B, mns, t)
        for i, x in enumerate(X):
            side = O.side_of(x, S[i])
            w = [F(0)] * n
            dd = want(i, side, diff(clf, yX[i], t_of(t, i)), None, w)
            cc = want(i, side, inr(i))
            rec.eq('compute_ddp_rf[%d]' % i, g1[i], dd, inp)
            rec.eq('compute_cdp_rf[%d]' % i, g2[i], cc, inp)
            rec.eq('compute_ddp_weights[%d]' % i, g3[i], dd, inp)
            rec.eq('compute_cdp_weights[%d]' % i, g4[i], cc, inp)
            for r in range(n):
                rec.eq('compute_ddp_weights weight[%d,%d]' % (i, r), w3[i, r], w[r], inp)
                rec.eq('compute_cdp_weights weight[%d,%d]' % (i, r), w4[i, r], w[r], inp)
    elif which == 1:
        g1, w1 = a.compute_ddp_cond_weights(*A, *B, cond, mns, t)
        g2, w2 = a.compute_cdp_cond_weights(*A, down, up, *B, cond, mns, t)
        for i, x in enumerate(X):
            side = O.side_cond(x, S[i], cond[i])
            w = [F(0)] * n
            rec.eq('compute_ddp_cond_weights[%d]' % i, g1[i], want(i, side, diff(clf, yX[i], t_of(t, i)), None, w),
                   inp)
            rec.eq('compute_cdp_cond_weights[%d]' % i, g2[i], want(i, side, inr(i)), inp)
            for r in range(n):
                rec.eq('compute_ddp_cond_weights weight[%d,%d]' % (i, r), w1[i, r], w[r], inp)
                rec.eq('compute_cdp_cond_weights weight[%d,%d]' % (i, r), w2[i, r], w[r], inp)
    elif which == 2:
        g1, w1 = a.compute_ddp_intv_weights(*A, *B, cond, mns, t)
        g2, w2 = a.compute_cdp_intv_weights(*A, *B, cond, mns, t)
        for i, x in enumerate(X):
            side = O.side_intv(S[i], cond[i])
            w = [F(0)] * n
            gd = diff(clf, yX[i], t_of(t, i))
            rec.eq('compute_ddp_intv_weights[%d]' % i, g1[i], want(i, side, gd, None, w), inp)
            if not clf:
                gd = same(clf, yX[i], t_of(t, i))
            rec.eq('compute_cdp_intv_weights[%d]' % i, g2[i], want(i, side, gd), inp)
            for r in range(n):
                rec.eq('compute_ddp_intv_weights weight[%d,%d]' % (i, r), w1[i, r], w[r], inp)
                rec.eq('compute_cdp_intv_weights weight[%d,%d]' % (i, r), w2[i, r], w[r], inp)
    else:
        g1, r1 = a.compute_ddp_rule(*A, *B, mns, t)
        g2, r2 = a.compute_cdp_rule(*A, down, up, *B, mns, t)
        g0 = a.compute_sdp_rf(*A, *B, mns, t)
        for i, x in enumerate(X):
            side = O.side_of(x, S[i])
            cell = [[-1e10, 1e10] for _ in range(d)]
            dd = want(i, side, diff(clf, yX[i], t_of(t, i)), cell)
            rec.eq('compute_ddp_rule[%d]' % i, g1[i], dd, inp)
            rec.eq('compute_cdp_rule[%d]' % i, g2[i], want(i, side, inr(i)), inp)
            for f in range(d):
                for k in (0, 1):
                    rec.eq('compute_ddp_rule rule[%d,%d,%d]' % (i, f, k), r1[i, f, k], cell[f][k], inp)
                    rec.eq('compute_cdp_rule rule[%d,%d,%d]' % (i, f, k), r2[i, f, k], cell[f][k], inp)


def C11(rng, rec):
    fo, clf, data, y, X, yX, S, t, mns, inp = case(rng)
    rows = O.rows_of(data, y)
    rec.case(inp, any(S) and max(tr.depth() for tr in fo.trees) > 1)
    tt = t
    got = fo.acx.compute_exp_rf(np_(X), np_(yX), np_(data), np_(y), S, mns, tt)
    for i, x in enumerate(X):
        rec.eq('compute_exp_rf[%d]' % i, got[i],
               O.forest_mean(fo.trees, fo.depth, mns, rows, O.side_of(x, S[i]), lambda r: r.y), inp)
    mns = rng.choice([0, 1])
    lev = np_([gen.dy(rng) for _ in X])
    inp = dict(inp, cdf_levels=lev.tolist(), cdf_min_node_size=mns)
    if not clf:
        got = fo.acx.compute_cdf_rf(np_(X), np_(yX), np_(data), np_(y), S, mns, lev)
        for i, x in enumerate(X):
            rec.eq('compute_cdf_rf[%d]' % i, got[i],
                   O.forest_mean(fo.trees, fo.depth, mns, rows, O.side_of(x, S[i]),
                                 lambda r: 1 if r.y <= lev[i] else 0), inp)
    tw = twin(rng, fo, data)
    if tw is not None:
        got = tw.compute_cdf_rf(np_(X), np_(yX), np_(data), np_(y), S, mns, int(clf), lev)
        for i, x in enumerate(X):
            rec.eq('tree explainer compute_cdf_rf[%d]' % i, got[i],
                   O.forest_mean(fo.trees, fo.depth, mns, rows, O.side_of(x, S[i]),
                                 lambda r: 1 if r.y <= lev[i] else 0), inp)


def C15(rng, rec):
    fo, clf, data, y, X, yX, S, t, mns, inp = case(rng)
    d = len(data[0])
    rows = O.rows_of(data, y)
    rec.case(inp, any(S) and max(tr.depth() for tr in fo.trees) > 1)
    got, rule = fo.acx.compute_sdp_rule(np_(X), np_(yX), np_(data), np_(y), S, mns, t)
    for i, x in enumerate(X):
        cell = [[-1e10, 1e10] for _ in range(d)]
        g = same(clf, yX[i], t_of(t, i))
        want = O.forest_mean(fo.trees, fo.depth, mns, rows, O.side_of(x, S[i]), g, cell)
        rec.eq('compute_sdp_rule sdp[%d]' % i, got[i], want, inp)
        for f in range(d):
            for k in (0, 1):
                rec.eq('compute_sdp_rule rule[%d,%d,%d]' % (i, f, k), rule[i, f, k], cell[f][k], inp)
            lo, hi = float(rule[i, f, 0]), float(rule[i, f, 1])
            rec.ok(lo < x[f] <= hi, 'the rule of sample %d does not hold its sample: %r' % (i, rule[i].tolist()), inp)
            rec.ok(f in S[i] or (lo == -1e10 and hi == 1e10),
                   'the rule of sample %d constrains feature %d, which is not in S' % (i, f), inp)
        # any point of the rule has the same estimate
        z = list(x)
        for f in range(d):
            if f in S[i]:
                lo, hi = float(rule[i, f, 0]), float(rule[i, f, 1])
                z[f] = rng.choice([hi if hi < 1e9 else x[f] + 5, max(lo, min(hi, 50) - 100) / 2 + min(hi, 50) / 2])
                if not lo < z[f] <= hi:
                    z[f] = x[f]
            else:
                z[f] = rng.choice(gen.GRID)
        g2 = fo.acx.compute_sdp_rf(np_([z]), np_([yX[i]]), np_(data), np_(y), [S[i]], mns,
                                   None if t is None else t[i:i + 1])
        rec.eq('sdp of a point of the rule of sample %d' % i, g2[0], want, dict(inp, point=z))


# ---- searches over subsets ---------------------------------------------------------------------------------------

def exactly(trees, depth, mns, rows, side, g):
    """-> (value, whether floating arithmetic gives it exactly in any order)"""
    tot, ex = F(0), True
    n = len(trees)
    for t in trees:
        left = O.walk(t, depth, mns, rows, side)
        if left:
            den = n * len(left)
            ex = ex and den & (den - 1) == 0
            tot += sum((F(g(r)) for r in left), F(0)) / den
    return tot, ex


EPS = F(1, 10**9)


def players_in(search, C):
    if C and C[0]:
        ing = {f for gr in C for f in gr}
        return [(i,) for i in search if i not in ing] + [tuple(gr) for gr in C if any(f in search for f in gr)]
    return [(i,) for i in search]


def check_minimal(rec, name, res, players, d, N, val, pi, minimal, stop, inp, full_one=True, half=None):
    """res = (importance, sets, sizes, sdp); val(i, S) -> (Fraction, exact)."""
    glob, sets, sizes, sdp = res
    m = len(players)
    left = list(range(N))
    best = {i: F(0) for i in range(N)}
    found = {}
    memo = {}

    def v(i, S):
        k = (i, S)
        if k not in memo:
            memo[k] = (F(1), True) if full_one and len(S) == d else val(i, S)
        return memo[k]
    top = {}
    for s0 in range(minimal, m + 1):
        last = 0
        for co in itertools.combinations(players, s0):
            S = frozenset(f for p in co for f in p)
            last = len(S)
            for i in left:
                q, ex = v(i, S)
                if abs(q - pi) < EPS and not (ex and float(pi) == float(q)):
                    rec.skipped += 1
                    return False
                best[i] = max(best[i], q)
        for i in list(left):
            if best[i] >= pi:
                found[i] = s0
                left.remove(i)
        if (not left or last >= (d // 2 if half is None else half)) and stop:
            break
    count = [0] * d
    for i in range(N):
        n = int(sizes[i])
        rec.ok(0 <= n <= d, '%s: size %d for sample %d' % (name, n, i), inp)
        S = [int(q) for q in list(sets[i])[:n]]
        rec.ok(len(set(S)) == n and all(0 <= q < d for q in S),
               '%s: sample %d gets the set %r of size %d' % (name, i, S, n), inp)
        fs = frozenset(S)
        rec.eq('%s: probability of sample %d' % (name, i), sdp[i], best[i], inp)
        if i in found:
            parts = [p for p in players if set(p) <= fs]
            rec.ok(len(parts) == found[i] and sum(len(p) for p in parts) == n,
                   '%s: sample %d gets %r, which is not made of %d variables; the smallest sufficient sets are' %
                   (name, i, S, found[i]), inp)
            rec.ok(v(i, fs)[0] >= best[i] - EPS, '%s: sample %d gets %r of probability %r, but another set of '
                   'this size has %r' % (name, i, S, float(v(i, fs)[0]), float(best[i])), inp)
            for f in fs:
                count[f] += 1
        if all(len(p) == 1 for p in players):
            rec.ok(all(int(q) == -1 for q in list(sets[i])[n:]), '%s: sample %d: the row of sets %r goes on after '
                   'its %d variables' % (name, i, list(map(int, sets[i])), n), inp)
    for f in range(d):
        rec.eq('%s: importance of feature %d' % (name, f), glob[f], F(count[f], N), inp)
    return True


def groups(rng, d):
    if d < 3 or rng.random() < .6:
        return [[]]
    fs = rng.sample(range(d), d)
    k = rng.randrange(2, min(3, d) + 1)
    C = [fs[:k]]
    if len(fs) - k >= 2 and rng.random() < .4:
        C.append(fs[k:k + 2])
    return C


def setup_search(rng):
    exact = rng.random() < .5
    wide = rng.random() < .04
    fo, clf, data, y, X, yX, S, t, mns, inp = case(rng, exact=exact, d=12 if wide else None)
    d = len(data[0])
    if wide:
        X, yX, t = X[:1], yX[:1], None if t is None else t[:1]
        imp = -np.array(fo.acx.model.feature_importances_)
        order = list(np.argsort(imp))
        if abs(imp[order[9]] - imp[order[10]]) < 1e-9:
            return None
        search = [int(q) for q in order[:10]]
        C = [[]]
    else:
        search = list(range(d))
        C = groups(rng, d)
    pi = rng.choice([F(1, 2), F(3, 4), F(1), F(9, 10), F(2, 3), F(4, 5)])
    minimal = rng.choice([1, 1, 1, 2])
    stop = True if wide else rng.random() < .5
    pl = players_in(search, C)
    if minimal > len(pl):
        minimal = 1
    inp = dict(inp, X=X, yX=yX, t=None if t is None else t.tolist(), C=C, pi_level=float(pi), minimal=minimal, stop=stop)
    inp.pop('S')
    rows = O.rows_of(data, y)
    return fo, clf, data, y, X, yX, t, mns, inp, d, C, pi, minimal, stop, pl, rows


def C12(rng, rec):
    su = setup_search(rng)
    if su is None:
        return
    fo, clf, data, y, X, yX, t, mns, inp, d, C, pi, minimal, stop, pl, rows = su
    rec.case(inp, max(tr.depth() for tr in fo.trees) > 1)

    def val(i, S):
        return exactly(fo.trees, fo.depth, mns, rows, O.side_of(X[i], S), same(clf, yX[i], t_of(t, i)))
    tw = twin(rng, fo, data) if len(data[0]) <= 10 and rng.random() < .3 else None
    if tw is not None:
        tt = np.zeros((len(X), 2)) if t is None else t
        res = tw.importance_sdp_rf(np_(X), np_(yX), np_(data), np_(y), mns, int(clf), tt, C, float(pi), minimal, stop)
    else:
        res = fo.acx.importance_sdp_rf(np_(X), np_(yX), np_(data), np_(y), mns, t, C, float(pi), minimal, stop)
    check_minimal(rec, 'importance_sdp_rf', res, pl, d, len(X), val, pi, minimal, stop, inp)


def C23(rng, rec):
    su = setup_search(rng)
    if su is None:
        return
    fo, clf, data, y, X, yX, t, mns, inp, d, C, pi, minimal, stop, pl, rows = su
    if d > 10:
        return
    N = len(X)
    a = fo.acx
    which = rng.randrange(4)
    cond = np.zeros((N, d, 2))
    for i in range(N):
        for f in range(d):
            cond[i, f] = sorted([rng.choice(gen.GRID + [-1e10, 1e10]), rng.choice(gen.GRID + [-1e10, 1e10])])
    down = np_([min(gen.dy(rng), 1.0) for _ in X])
    up = np_([q + abs(gen.dy(rng)) for q in down])
    inp = dict(inp, cond=cond.tolist(), down=down.tolist(), up=up.tolist(), which=which)
    rec.case(inp, max(tr.depth() for tr in fo.trees) > 1)
    al = frozenset(range(d))
    if which == 0:
        res = a.importance_ddp_rf(np_(X), np_(yX), np_(data), np_(y), mns, t, C, float(pi), minimal, stop)
        nm = 'importance_ddp_rf'

        def val(i, S):
            return exactly(fo.trees, fo.depth, mns, rows, O.side_of(X[i], al - S), diff(clf, yX[i], t_of(t, i)))
    elif which == 1:
        res = a.importance_cdp_rf(np_(X), np_(yX), down, up, np_(data), np_(y), mns, t, C, float(pi), minimal, stop)
        nm = 'importance_cdp_rf'

        def val(i, S):
            g = same(True, yX[i], None) if clf else (lambda r: 1 if down[i] <= r.y <= up[i] else 0)
            return exactly(fo.trees, fo.depth, mns, rows, O.side_of(X[i], al - S), g)
    else:
        ddp = which == 2
        nm = 'importance_ddp_intv' if ddp else 'importance_cdp_intv'
        res = getattr(a, nm)(np_(X), np_(yX), np_(data), np_(y), cond, mns, t, C, float(pi), minimal, stop)

        def val(i, S):
            g = (diff if ddp or clf else same)(clf, yX[i], t_of(t, i))
            return exactly(fo.trees, fo.depth, mns, rows, O.side_intv(S, cond[i]), g)
    check_minimal(rec, nm, res, pl, d, N, val, pi, minimal, stop, inp)


def check_all(rec, name, coal, prob, glob, players, d, N, val, pi, minimal, inp):
    want = []
    for i in range(N):
        fam = {}
        for s0 in range(minimal, len(players) + 1):
            for co in itertools.combinations(players, s0):
                S = frozenset(f for p in co for f in p)
                q, ex = val(i, S)
                if abs(q - pi) < EPS and not (ex and float(pi) == float(q)):
                    rec.skipped += 1
                    return
                if q >= pi and not any(B <= S for B in fam):
                    fam[S] = q
        want.append(fam)
    K = sum(len(f) for f in want)
    rec.ok(len(coal) == N and len(prob) == N, '%s: %d and %d lists for %d samples' % (name, len(coal), len(prob), N), inp)
    for i in range(N):
        got = [frozenset(int(q) for q in S) for S in coal[i]]
        rec.ok(len(got) == len(set(got)) and set(got) == set(want[i]),
               '%s: sample %d gets the sets %r, expected %r' % (name, i, sorted(map(sorted, got)),
                                                              sorted(map(sorted, want[i]))), inp)
        rec.ok(len(prob[i]) == len(got), '%s: sample %d: %d sets but %d probabilities' %
               (name, i, len(got), len(prob[i])), inp)
        for S, p in zip(got, prob[i]):
            rec.eq('%s: probability of %r for sample %d' % (name, sorted(S), i), p, want[i][S], inp)
    if K:
        for f in range(d):
            rec.eq('%s: importance of feature %d' % (name, f), glob[f],
                   F(sum(1 for fam in want for S in fam if f in S), K), inp)
    return want


def C13(rng, rec):
    su = setup_search(rng)
    if su is None:
        return
    fo, clf, data, y, X, yX, t, mns, inp, d, C, pi, minimal, stop, pl, rows = su
    if d > 10:
        return
    N = len(X)
    rec.case(inp, max(tr.depth() for tr in fo.trees) > 1)
    a = fo.acx
    counter = rng.random() < .3
    if counter:
        r = a.sufficient_cxpl_rf(np_(X), np_(yX), np_(data), np_(y), mns, t, C, float(pi), minimal, stop)

        def val(i, S):
            return exactly(fo.trees, fo.depth, mns, rows, O.side_of(X[i], S), diff(clf, yX[i], t_of(t, i)))
    else:
        r = a.sufficient_expl_rf(np_(X), np_(yX), np_(data), np_(y), mns, t, C, float(pi), minimal, stop)

        def val(i, S):
            return exactly(fo.trees, fo.depth, mns, rows, O.side_of(X[i], S), same(clf, yX[i], t_of(t, i)))
    fam = check_all(rec, 'sufficient_cxpl_rf' if counter else 'sufficient_expl_rf', r[0], r[1], r[2], pl, d, N, val,
                    pi, minimal, inp)
    if fam and any(fam):
        loc = type(a).compute_local_sdp(d, [[list(map(int, S)) for S in c] for c in r[0]])
        k = sum(1 for f in fam if f)
        for f in range(d):
            rec.eq('compute_local_sdp feature %d' % f, loc[f],
                   sum((F(sum(1 for S in fm if f in S), len(fm)) for fm in fam if fm), F(0)) / k, inp)
