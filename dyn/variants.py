"""C05: the serial, parallel and cached variants; C06: active Shapley values; C14: active/null partitions;
C20: batches and inputs."""
import copy
from fractions import Fraction as F

import numpy as np

import gen
import oracle as O
import rf
import trees as T
from gen import np_


def same(rec, what, a, b, inp, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    rec.ok(a.shape == b.shape, '%s: shapes %r and %r' % (what, a.shape, b.shape), inp)
    for k in np.ndindex(*a.shape):
        if np.isnan(a[k]) and np.isnan(b[k]):
            continue
        rec.eq('%s %r' % (what, k), a[k], b[k], inp, tol)


def filled(rng, d=None, splits=5, thr=gen.GRID):
    """An ensemble whose every leaf holds a background row: rows are sent through, empty leaves are pruned."""
    while True:
        d, nout, data, trees, X = T.ens(rng, d, nmax=12, splits=splits, thr=thr)
        ok = []
        for t in trees:
            u = gen.Tree()

            def grow(k, rows, u=u, t=t):
                while t.l[k] >= 0:
                    a = [r for r in rows if r[t.f[k]] <= t.t[k]]
                    b = [r for r in rows if r[t.f[k]] > t.t[k]]
                    if a and b:
                        n = u.add(t.v[k])
                        l_, r_ = grow(t.l[k], a), grow(t.r[k], b)
                        u.l[n], u.r[n], u.f[n], u.t[n] = l_, r_, t.f[k], t.t[k]
                        return n
                    k = t.l[k] if a else t.r[k]
                return u.add(t.v[k])
            u2 = gen.Tree()
            root = u.add([0.0] * nout)   # placeholder, replaced below
            u.__init__()
            grow(0, data)
            ok.append(u)
        if any(len(t.l) > 1 for t in ok):
            return d, nout, data, ok, X


def C05(rng, rec):
    from acv_explainers import ACVTree
    q = rng.random()
    if q < .45:
        d, nout, data, trees, X = T.ens(rng, splits=5)
        C = T.groups(rng, d) if rng.random() < .5 else [[]]
        inp = T.inp_of(trees, data, X, C=C)
        rec.case(inp, T.nontriv(trees))
        a = gen.acv_of(trees, data)
        x = np_(X)
        sv = a.shap_values(x, C)
        same(rec, 'shap_values_nopa', a.shap_values_nopa(x, C), sv, inp)
        c = gen.acv_of(trees, data, cache=True, C=C)
        same(rec, 'shap_values of a caching explainer', c.shap_values(x, C), sv, inp)
        same(rec, 'shap_values_cache_nopa', c.shap_values_cache_nopa(x, C), sv, inp)
        if rng.random() < .5:
            c2 = gen.acv_of(trees, data, cache=True, C=C, multi_threads=False)
            same(rec, 'shap_values of a caching explainer built serially', c2.shap_values(x, C), sv, inp)
        same(rec, 'shap_values, number of threads', a.shap_values(x, C, num_threads=rng.randrange(1, 9)), sv, inp)
    elif q < .6:
        d, nout, data, trees, X = filled(rng)
        m = d
        act = sorted(rng.sample(range(d), rng.randrange(1, d + 1)))
        null = [f for f in range(d) if f not in act]
        inp = T.inp_of(trees, data, X, S_star=act, N_star=null)
        rec.case(inp, T.nontriv(trees))
        a = gen.acv_of(trees, data)
        x = np_(X)
        same(rec, 'shap_values_acv_nopa', a.shap_values_acv_nopa(x, np_(act, np.int64), np_(null, np.int64)),
             a.shap_values_acv(x, np_(act, np.int64), np_(null, np.int64)), inp)
        ss, ns, size = parts(rng, d, len(X))
        inp = dict(inp, S_star=ss.tolist(), N_star=ns.tolist(), size=size.tolist())
        same(rec, 'shap_values_acv_adap_nopa', a.shap_values_acv_adap_nopa(x, ss, ns, size),
             a.shap_values_acv_adap(x, ss, ns, size), inp)
    elif q < .75:
        d, nout, data, trees, X = T.ens(rng, thr=gen.OFF)
        data = [[v - .125 if v * 4 % 1 else v for v in r] for r in data]
        X = [[v - .125 if v * 4 % 1 else v for v in r] for r in X]
        S = np.array(rng.sample(range(d), rng.randrange(0, d + 1)), dtype=np.int64)
        inp = T.inp_of(trees, data, X, S=S.tolist())
        rec.case(inp, T.nontriv(trees))
        a = gen.acv_of(trees, data)
        for nm in ('compute_exp', 'compute_exp_cat', 'compute_exp_normalized'):
            same(rec, nm + '_nopa', getattr(a, nm + '_nopa')(np_(X), S, np_(data)), getattr(a, nm)(np_(X), S, np_(data)),
                 inp)
    else:
        a, d, K, data, trees, X, fx, fy, tb, inp = T.clf_case(rng)
        S = np.array(rng.sample(range(d), rng.randrange(0, d + 1)), dtype=np.int64)
        inp = dict(inp, S=S.tolist())
        rec.case(inp, T.nontriv(trees))
        x, D = np_(X), np_(data)
        for nm in ('compute_sdp_clf', 'compute_sdp_clf_cat'):
            w = [T.sdp_val(tb, trees, data, q_, set(S.tolist()), fx[i], fy, nm.endswith('cat')) for i, q_ in enumerate(X)]
            g, h = getattr(a, nm + '_nopa')(x, S, D), getattr(a, nm)(x, S, D)
            for i in range(len(X)):
                if isinstance(w[i], F) or len(S) in (0, d):
                    rec.eq('%s_nopa[%d]' % (nm, i), g[i], h[i], inp)
                else:
                    rec.skipped += 1


def parts(rng, d, n):
    ss = np.full((n, d), -1, dtype=np.int64)
    ns = np.full((n, d), -1, dtype=np.int64)
    size = np.zeros(n, dtype=np.int64)
    for i in range(n):
        k = rng.randrange(1, d + 1)
        p = rng.sample(range(d), d)
        ss[i, :k], ns[i, k:], size[i] = p[:k], p[k:], k
    return ss, ns, size


class ActiveGame(object):
    """v of the active variables, the null ones known whenever anything is."""

    def __init__(self, g, null, base):
        self.g, self.null, self.base = g, frozenset(null), base

    def __call__(self, S):
        return self.g(frozenset(S) | self.null) if S else self.base


def C06(rng, rec):
    d, nout, data, trees, X = filled(rng, splits=7)
    tb = O.leaf_table(trees, data)
    a = gen.acv_of(trees, data)
    x = np_(X)
    adap = rng.random() < .5
    C = [[]]
    if adap:
        ss, ns, size = parts(rng, d, len(X))
        acts = [ss[i, :size[i]].tolist() for i in range(len(X))]
        inp = T.inp_of(trees, data, X, S_star=ss.tolist(), N_star=ns.tolist(), size=size.tolist())
        rec.case(inp, T.nontriv(trees) and any(len(q) < d for q in acts))
        got = a.shap_values_acv_adap(x, ss, ns, size)
        nm = 'shap_values_acv_adap'
    else:
        act = rng.sample(range(d), rng.randrange(1, d + 1))
        null = [f for f in range(d) if f not in act]
        rng.shuffle(null)
        if rng.random() < .4 and len(act) > 1:
            k = rng.randrange(2, len(act) + 1)
            C = [rng.sample(act, k)]
            rest = [f for f in act if f not in C[0]]
            if len(rest) > 1 and rng.random() < .5:
                C.append(rest)
        acts = [act] * len(X)
        inp = T.inp_of(trees, data, X, S_star=act, N_star=null, C=C)
        rec.case(inp, T.nontriv(trees) and 0 < len(null))
        got = a.shap_values_acv(x, np_(act, np.int64), np_(null, np.int64), C)
        nm = 'shap_values_acv'
    got = np.asarray(got)
    rec.ok(got.shape == (len(X), d, nout), '%s has shape %r' % (nm, got.shape), inp)
    for i, xi in enumerate(X):
        A = acts[i]
        N = [f for f in range(d) if f not in A]
        ing = {f for g in C for f in g}
        pl = [(f,) for f in A if f not in ing] + [tuple(g) for g in C if len(g)]
        for j in range(nout):
            base = sum((O.raw(trees, r, j) for r in data), F(0)) / len(data)
            phi = O.shapley(pl, ActiveGame(O.LeafGame(trees, data, xi, j, tb), N, base))
            for p, v in phi.items():
                for f in p:
                    rec.eq('%s[%d,%d,%d]' % (nm, i, f, j), got[i, f, j], v, inp)
            for f in N:
                rec.ok(got[i, f, j] == 0, '%s[%d,%d,%d] = %r for a null variable' % (nm, i, f, j, float(got[i, f, j])),
                       inp)


def C14(rng, rec):
    from acv_explainers.utils import get_null_coalition, get_active_null_coalition_list
    d = rng.randrange(1, 8)
    n = rng.randrange(1, 6)
    ss, _, size = parts(rng, d, n)
    inp = dict(s_star=ss.tolist(), len_s_star=size.tolist())
    rec.case(inp, n > 1 and d > 2)
    keep = ss.copy()
    a, b = get_null_coalition(ss, size)
    l, m = get_active_null_coalition_list(ss, size)
    rec.ok(np.array_equal(ss, keep), 'the sets passed in were changed', inp)
    rec.ok(len(l) == n and len(m) == n, 'lists of %d and %d coalitions for %d samples' % (len(l), len(m), n), inp)
    for i in range(n):
        k = size[i]
        act = keep[i, :k].tolist()
        null = sorted(set(range(d)) - set(act))
        rec.ok(list(map(int, a[i, :k])) == act, 'active variables of sample %d: %r' % (i, a[i].tolist()), inp)
        rec.ok(all(int(q) == -1 for q in b[i, :k]) and sorted(map(int, b[i, k:])) == null,
               'null variables of sample %d: %r' % (i, b[i].tolist()), inp)
        rec.ok(list(map(int, l[i])) == act and sorted(map(int, m[i])) == null,
               'partition of sample %d: %r, %r' % (i, l[i], m[i]), inp)
    # what a search returns can be passed on: the active values of its partition are those of its sets
    if rng.random() < .5:
        d, nout, data, trees, X = filled(rng)
        k = len(X)
        ss, ns, size = parts(rng, d, k)
        s2, n2 = get_null_coalition(ss, size)
        tr = gen.acv_of(trees, data)
        inp = T.inp_of(trees, data, X, s_star=ss.tolist(), size=size.tolist())
        same(rec, 'active values with the partition', tr.shap_values_acv_adap(np_(X), s2, n2, size),
             tr.shap_values_acv_adap(np_(X), ss, ns, size), inp)


# ---- batches and inputs ------------------------------------------------------------------------------------------

def calls(rng):
    """-> [(name, f(rows) -> list of arrays with one entry per row, X, arguments to keep)]"""
    out = []
    if rng.random() < .5:
        d, nout, data, trees, X = T.ens(rng, thr=gen.OFF)
        data = [[v - .125 if v * 4 % 1 else v for v in r] for r in data]
        X = [[v - .125 if v * 4 % 1 else v for v in r] for r in X] + [list(rng.choice(data)) for _ in range(2)]
        a = gen.acv_of(trees, data)
        D = np_(data)
        S = np.array(rng.sample(range(d), rng.randrange(0, d + 1)), dtype=np.int64)
        C = T.groups(rng, d)
        inp = T.inp_of(trees, data, X, S=S.tolist(), C=C)
        args = dict(data=D, S=S, C=C)
        out += [('shap_values', lambda x, i: [a.shap_values(x)]),
                ('shap_values with groups', lambda x, i: [a.shap_values(x, C)]),
                ('compute_exp', lambda x, i: [a.compute_exp(x, S, D)]),
                ('compute_exp_normalized', lambda x, i: [a.compute_exp_normalized(x, S, D)]),
                ('compute_exp_cat', lambda x, i: [a.compute_exp_cat(x, S, D)]),
                ('predict', lambda x, i: [np.asarray(a.predict(x)).reshape(len(x), -1)])]
        if d > 1:
            K = 2

            def proba(x):
                r = __import__('random').Random(repr(x))
                return [r.random() for _ in range(K)]
            t2 = [gen.rand_tree(rng, list(range(d)), 5, K, thr=gen.OFF) for _ in range(2)]
            b = gen.acv_of(t2, data)
            b.model = gen.Proba(proba)
            inp = dict(inp, trees2=rf.dump(t2))
            out += [('compute_sdp_clf', lambda x, i: [b.compute_sdp_clf(x, S, D)]),
                    ('compute_sdp_clf_cat', lambda x, i: [b.compute_sdp_clf_cat(x, S, D)]),
                    ('importance_sdp_clf', lambda x, i: list(b.importance_sdp_clf(x, D, [[]], .7, 1, False)[1:]))]
        return out, np_(X), inp, args
    fo, clf, data, y, X, yX, S, t, mns, inp = rf.case(rng)
    k = 2
    for _ in range(k):
        i = rng.randrange(len(data))
        X.append(list(data[i]))
        yX.append(y[i])
        S.append(rng.sample(range(len(data[0])), rng.randrange(0, len(data[0]) + 1)))
    if t is not None:
        t = np.array([sorted([gen.dy(rng), gen.dy(rng)]) for _ in X])
    D, Y, yx = np_(data), np_(y), np_(yX)
    e = fo.acx
    inp = dict(inp, X=X, yX=yX, S=S, t=None if t is None else t.tolist())

    def tt(i):
        return None if t is None else t[i].copy()

    def s(i):
        return [S[k] for k in i]
    up = yx + 1.0
    dn = yx - 1.0
    args = dict(data=D, y_data=Y, y=yx, t=t, S=S)
    out += [('compute_sdp_rf', lambda x, i: [e.compute_sdp_rf(x, yx[i], D, Y, s(i), mns, tt(i))]),
            ('compute_ddp_rf', lambda x, i: [e.compute_ddp_rf(x, yx[i], D, Y, s(i), mns, tt(i))]),
            ('compute_sdp_rule', lambda x, i: list(e.compute_sdp_rule(x, yx[i], D, Y, s(i), mns, tt(i)))),
            ('compute_exp_rf', lambda x, i: [e.compute_exp_rf(x, yx[i], D, Y, s(i), mns, tt(i))]),
            ('compute_cdp_rf', lambda x, i: [e.compute_cdp_rf(x, yx[i], dn[i], up[i], D, Y, s(i), mns, tt(i))]),
            ('compute_cdp_weights', lambda x, i: list(e.compute_cdp_weights(x, yx[i], dn[i], up[i], D, Y, s(i), mns,
                                                                            tt(i)))),
            ('compute_ddp_weights', lambda x, i: list(e.compute_ddp_weights(x, yx[i], D, Y, s(i), mns, tt(i))))]
    if clf:
        out += [('importance_sdp_rf', lambda x, i: list(e.importance_sdp_rf(x, yx[i], D, Y, mns, tt(i), [[]], .7, 1,
                                                                            False)[1:])),
                ('importance_ddp_rf', lambda x, i: list(e.importance_ddp_rf(x, yx[i], D, Y, mns, tt(i), [[]], .7, 1,
                                                                            False)[1:]))]
    return out, np_(X), inp, args


def C20(rng, rec):
    fs, X, inp, args = calls(rng)
    n = len(X)
    rec.case(inp, n > 2)
    before = copy.deepcopy(args)
    perm = rng.sample(range(n), n)
    for nm, f in rng.sample(fs, min(4, len(fs))):
        x = X.copy()
        all_ = f(x, list(range(n)))
        rec.ok(np.array_equal(x, X), '%s changed its samples' % nm, inp)
        for k, v in args.items():
            w = before[k]
            eq = np.array_equal(v, w) if isinstance(w, np.ndarray) else v == w
            rec.ok(eq, '%s changed its argument %s' % (nm, k), inp)
        again = f(X.copy(), list(range(n)))
        sets = 'importance' in nm
        for q in range(len(all_)):
            cmp(rec, '%s called twice' % nm, all_, again, range(n), range(n), inp)
        pe = f(X[perm].copy(), perm)
        cmp(rec, '%s on the rows in the order %r' % (nm, perm), all_, pe, perm, range(n), inp)
        i = rng.randrange(n)
        one = f(X[i:i + 1].copy(), [i])
        cmp(rec, '%s on row %d alone' % (nm, i), all_, one, [i], [0], inp)


def cmp(rec, what, a, b, ia, ib, inp):
    for q in range(len(a)):
        u, v = np.asarray(a[q], dtype=float), np.asarray(b[q], dtype=float)
        for p, r in zip(ia, ib):
            same(rec, '%s: result %d of a row differs from the batch' % (what, q), v[r], u[p], inp)
