"""C16 maximal rules; C17 the global rules model; C18 counterfactual rules; C19 marginal same decision probability."""
import itertools
import random
from fractions import Fraction as F

import numpy as np

import gen
import oracle as O
import rf
from gen import np_


def inside(rule, x, feats=None):
    return all(rule[f][0] <= x[f] <= rule[f][1] for f in (range(len(x)) if feats is None else feats))


def C16(rng, rec):
    fo, clf, data, y, X, yX, S, t, mns, inp = rf.case(rng, nmax=7)
    d = len(data[0])
    rows = O.rows_of(data, y)
    pi = rng.choice([F(1, 4), F(1, 2), F(3, 4), F(9, 10)]) + F(1, 997)
    seed = rng.randrange(10**6)
    inp = dict(inp, pi_level=float(pi), numpy_seed=seed)
    rec.case(inp, any(S) and max(tr.depth() for tr in fo.trees) > 1)
    np.random.seed(seed)
    random.seed(seed)
    sdp, rule, sdp_all, rdata, w = fo.acx.compute_sdp_maxrules(
        np_(X), np_(yX), np_(data), np_(y), S, mns, t, pi_level=float(pi), verbose=rng.random() < .5,
        p_best=rng.choice([.85, .3]), n_try=5, batch=4, max_iter=8, max_iter_convergence=4)
    rule = np.asarray(rule)
    rec.ok(rule.shape == (len(X), d, 2), 'rules have shape %r' % (rule.shape,), inp)
    for i, x in enumerate(X):
        g = rf.same(clf, yX[i], rf.t_of(t, i))
        cell = [[-1e10, 1e10] for _ in range(d)]
        ws = [F(0)] * len(data)
        want = O.forest_mean(fo.trees, fo.depth, mns, rows, O.side_of(x, S[i]), g, cell, ws)
        rec.eq('sdp[%d]' % i, sdp[i], want, inp)
        good = []
        lo = [{cell[f][0]} for f in range(d)]
        hi = [{cell[f][1]} for f in range(d)]
        for j in range(len(data)):
            rec.eq('weights[%d,%d]' % (i, j), w[i, j], ws[j], inp)
            if not ws[j]:
                rec.eq('sdp of the row %d, which has no weight' % j, sdp_all[i, j], 0, inp)
                good.append(False)
                continue
            c = [[-1e10, 1e10] for _ in range(d)]
            v = O.forest_mean(fo.trees, fo.depth, mns, rows, O.side_of(data[j], S[i]), g, c)
            rec.eq('sdp of row %d for sample %d' % (j, i), sdp_all[i, j], v, inp)
            for f in range(d):
                for q in (0, 1):
                    rec.eq('rule of row %d for sample %d [%d,%d]' % (j, i, f, q), rdata[i, j, f, q], c[f][q], inp)
                    if v >= pi:
                        (lo, hi)[q][f].add(c[f][q])
            good.append(v >= pi)
        r = rule[i].tolist()
        for f in range(d):
            rec.ok(r[f][0] <= cell[f][0] and r[f][1] >= cell[f][1],
                   'the rule of sample %d is narrower than its sufficient rule on feature %d: %r in %r' %
                   (i, f, r[f], cell[f]), inp)
            rec.ok(r[f][0] in lo[f] and r[f][1] in hi[f],
                   'a bound of the rule of sample %d on feature %d is no bound of a compatible rule: %r' % (i, f, r[f]),
                   inp)
            rec.ok(f in S[i] or r[f] == [-1e10, 1e10], 'the rule of sample %d constrains feature %d' % (i, f), inp)
        rec.ok(inside(r, x), 'sample %d is outside its rule %r' % (i, r), inp)
        if not any(inside(cell, data[j]) and not good[j] for j in range(len(data))):
            for j in range(len(data)):
                rec.ok(good[j] or not inside(r, data[j]),
                       'the rule of sample %d holds row %d, whose probability is below the level' % (i, j), inp)


def C17(rng, rec):
    from acv_explainers import ACXplainer
    clf = rng.random() < .6
    d = rng.randrange(1, 4)
    n = rng.randrange(4, 14)
    data = gen.rand_data(rng, n, d)
    y = [float(rng.randrange(2)) for _ in range(n)] if clf else [gen.dy(rng) for _ in range(n)]
    m = rng.randrange(1, 7)
    rules, S = [], []
    for _ in range(m):
        if rules and rng.random() < .2:
            k = rng.randrange(len(rules))
            rules.append([list(q) for q in rules[k]])
            S.append(list(S[k]))
            continue
        s = sorted(rng.sample(range(d), rng.randrange(1, d + 1)))
        c = rng.choice(data)
        r = []
        for f in range(d):
            if f in s:
                a, b = rng.choice([-1e10, c[f], c[f] - .5]), rng.choice([1e10, c[f], c[f] + .5, c[f] + 1])
                r.append([a, b])
            else:
                r.append([-1e10, 1e10])
        if r in rules:
            s = list(S[rules.index(r)])
        rules.append(r)
        S.append(s)
    X = [rng.choice(data) if rng.random() < .5 else gen.rand_data(rng, 1, d)[0] for _ in range(rng.randrange(1, 6))]
    cov = rng.choice([0.0, 0.0, .2, .4])
    lev = rng.choice([.5, .8, .0]) if clf else rng.choice([1000.0, 1.0, .25])
    inp = dict(classifier=clf, data=data, y=y, rules=rules, rules_s_star=S, X=X, coverage=cov, level=lev)
    rec.case(inp, m > 1)
    e = ACXplainer(classifier=clf)
    e.fit_global_rules(np_(data), np_(y), np_(rules), S)
    uniq = []
    for r, s in zip(rules, S):
        if (r, s) not in uniq:
            uniq.append((r, s))
    met = []
    for r, s in uniq:
        ys = [F(v) for q, v in zip(data, y) if inside(r, q, s)]
        mean = sum(ys, F(0)) / len(ys)
        if clf:
            out = 1 if mean > F(1, 2) else 0
            q = sum(1 for v in ys if v == out) / F(len(ys))
        else:
            out = mean
            q = sum((v - mean) ** 2 for v in ys) / len(ys)
        var = sum((v - mean) ** 2 for v in ys) / len(ys)
        met.append(dict(rule=r, S=s, cov=F(len(ys), n), acc=q, out=out, proba=mean, var=var))
    rr = np.asarray(e.rules)
    rec.ok(len(rr) == len(uniq), '%d rules kept of %d different ones' % (len(rr), len(uniq)), inp)
    for k in range(len(rr)):
        ms = [q for q in met if q['rule'] == rr[k].tolist()]
        rec.ok(len(ms) == 1, 'rule %d is not one of the given rules' % k, inp)
        q = ms[0]
        rec.eq('coverage of rule %d' % k, e.rules_coverage[k], q['cov'], inp)
        rec.eq('quality of rule %d' % k, e.rules_acc[k], q['acc'], inp)
        rec.eq('variance of rule %d' % k, e.rules_var[k], q['var'], inp)
        rec.eq('output of rule %d' % k, e.rules_output[k], q['out'], inp)
        rec.ok(list(e.rules_s_star[k]) == q['S'], 'variables of rule %d: %r' % (k, e.rules_s_star[k]), inp)
    kw = dict(coverage=cov, **({'min_acc': lev} if clf else {'min_reg': lev}))
    for proba in ((False, True) if clf else (False,)):
        apps = []
        for x in X:
            app = [q for q in met if inside(q['rule'], x, q['S'])]
            apps.append(([q for q in app if q['cov'] >= F(cov) - F(1, 10**9)], app))
        if any(abs(float(q['cov']) - cov) < 1e-9 and cov for q in met):
            rec.skipped += 1
            return
        o, r_, s_ = (e.predict_proba_global_rules if proba else e.predict_global_rules)(np_(X), **kw)
        rec.ok(len(o) == len(X) == len(r_) == len(s_), 'lengths %d, %d, %d for %d samples' % (len(o), len(r_), len(s_),
                                                                                            len(X)), inp)
        for i, x in enumerate(X):
            el, app = apps[i]
            best = None
            if el:
                best = (max if clf else min)(q['acc'] for q in el)
                if abs(best - F(lev)) < F(1, 10**9) and best != F(lev):
                    rec.skipped += 1
                    continue
                if (best < F(lev)) if clf else (best > F(lev)):
                    best = None
            if best is None:
                rec.ok(o[i] is None and r_[i] is None and s_[i] is None,
                       'sample %d gets %r although no rule qualifies' % (i, o[i]), inp)
                continue
            rec.ok(o[i] is not None, 'sample %d gets no rule' % i, inp)
            ms = [q for q in el if q['rule'] == np.asarray(r_[i]).tolist()]
            rec.ok(len(ms) == 1, 'the rule given for sample %d does not apply to it, or has not the coverage: %r' % (i, r_[i]), inp)
            q = ms[0]
            rec.ok(abs(q['acc'] - best) < F(1, 10**9), 'sample %d gets a rule of quality %r, the best is %r' %
                   (i, float(q['acc']), float(best)), inp)
            rec.ok(list(s_[i]) == q['S'], 'variables given for sample %d: %r' % (i, s_[i]), inp)
            rec.eq('output given for sample %d' % i, o[i], q['proba'] if proba else q['out'], inp)


def C19(rng, rec):
    from acv_explainers import ACXplainer
    from acv_explainers.acv_tree import ACVTreeAgnostic
    clf = rng.random() < .6
    d = rng.randrange(2, 5)
    n = rng.choice([2, 4, 8, 5, 7])
    data = gen.rand_data(rng, n, d)
    X = [list(rng.choice(data)) if rng.random() < .4 else gen.rand_data(rng, 1, d)[0] for _ in range(rng.randrange(1, 4))]
    K = rng.choice([2, 3])
    mem = {}
    salt = rng.randrange(10**6)
    k = rng.randrange(1, d + 1)
    dep = sorted(rng.sample(range(d), k))

    def f(x):
        r = random.Random(repr(([x[q] for q in dep], salt)))
        return r.randrange(K) if clf else gen.dy(r)
    mod = gen.Reg(f)
    thr = rng.choice([.25, .5, 1.0]) + .125 if not clf else 0.2
    S = rng.sample(range(d), rng.randrange(0, d + 1))
    C = rf.groups(rng, d)
    pi = rng.choice([F(1, 2), F(3, 4), F(9, 10)]) + F(rng.choice([1, -1]), 997)
    minimal = rng.choice([1, 1, 2])
    stop = rng.random() < .5
    search = None if rng.random() < .6 else rng.sample(range(d), rng.randrange(1, d + 1))
    pl = rf.players_in(search if search is not None else list(range(d)), C)
    if search is None and C[0]:
        ing = {q for g in C for q in g}
        pl = [(q,) for q in range(d) if q not in ing] + [tuple(g) for g in C]
    if minimal > len(pl):
        minimal = 1
    inp = dict(classifier=clf, depends_on=dep, salt=salt, data=data, X=X, S=S, C=C, pi_level=float(pi), minimal=minimal,
               stop=stop, search=search, threshold=thr)
    rec.case(inp, k < d)

    def val(i, S):
        S = list(S)
        if len(S) == d:
            return F(1), True
        fx = f(X[i])
        c = 0
        for r in data:
            z = list(r)
            for q in S:
                z[q] = X[i][q]
            c += (f(z) == fx) if clf else (abs(f(z) - fx) <= thr)
        return F(c, len(data)), True
    D, x = np_(data), np_(X)
    Dk, xk = D.copy(), x.copy()
    tree = rng.random() < .5
    if tree:
        e = gen.acv_of([gen.rand_tree(rng, list(range(d)), 2, 1)], data)
        e.model = mod
        kw = {} if rng.random() < .5 else {'model': mod}
    else:
        e = ACXplainer
        kw = {'model': mod}
    Sa = np.array(S, dtype=np.int64)
    got = e.compute_msdp_clf(x, Sa, D, **kw) if clf else e.compute_msdp_reg(x, Sa, D, threshold=thr, **kw)
    nm = 'compute_msdp_clf' if clf else 'compute_msdp_reg'
    for i in range(len(X)):
        rec.eq('%s[%d]' % (nm, i), got[i], val(i, S)[0], inp)
    ar = dict(C=C, minimal=minimal, pi_level=float(pi), r_search_space=search, stop=stop)
    if not pl:
        return
    if clf:
        nm = 'importance_msdp_clf_search'
        res = e.importance_msdp_clf_search(x, D, **dict(ar, **kw))
    else:
        nm = 'importance_msdp_reg_search'
        res = e.importance_msdp_reg_search(x, D, **dict(ar, threshold=thr, **kw))
    rec.ok(np.array_equal(D, Dk) and np.array_equal(x, xk), '%s changed its arguments' % nm, inp)
    # this search leaves at size >= d/2, not at size >= d//2
    rf.check_minimal(rec, nm, res, pl, d, len(X), val, pi, minimal, stop, inp, half=F(d, 2))


def C18(rng, rec):
    from acv_explainers.counterfactual_rules import CR
    clf = rng.random() < .55
    d = rng.randrange(2, 4)
    n = rng.randrange(6, 12)
    fo, data, y = rf.make(rng, clf, d, n, rng.choice([2, 2, 3]))
    k = rng.randrange(1, 3)
    X = [list(rng.choice(data)) if rng.random() < .5 else gen.rand_data(rng, 1, d)[0] for _ in range(k)]
    rows = O.rows_of(data, y)
    yX = [y[data.index(x)] if x in data else rng.choice(y) for x in X]
    if clf:
        tgt = [rng.choice(sorted(set(y))) for _ in X]
        down = up = [0.0] * k
        t = None
    else:
        tgt = list(yX)
        lo = [rng.choice(y) for _ in X]
        down = [q - rng.choice([0, .25, .5]) for q in lo]
        up = [q + rng.choice([0, .25, 1]) for q in lo]
        t = np.array([[q - 1.0, q + 1.0] for q in yX])
    pi = rng.choice([F(1, 2), F(3, 4), F(1, 4)]) + F(1, 997)
    acc = rng.choice([.3, .6, .9])
    stop = rng.random() < .6
    regional = rng.random() < .5
    seed = rng.randrange(10**6)
    inp = dict(classifier=clf, trees=rf.dump(fo.trees), data=data, y=y, X=X, yX=yX, target=tgt, down=down, up=up,
               pi_level=float(pi), acc_level=acc, stop=stop, regional=regional, numpy_seed=seed)
    rec.case(inp, max(tr.depth() for tr in fo.trees) > 1)
    np.random.seed(seed)
    random.seed(seed)
    Xa, D, Y = np_(X), np_(data), np_(y)
    cr = CR(fo.acx, D, Xa, Y, np_(yX), ['v%d' % q for q in range(d)])
    kw = dict(p_best=.5, n_try=4, batch=3, max_iter=4, max_iter_convergence=2)
    if not regional:
        cr.run_local_divergent_set(Xa, np_(tgt), np_(down), np_(up), stop=stop, pi_level=float(pi))
        cr.run_local_counterfactual_rules(Xa, np_(tgt), np_(down), np_(up), acc_level=acc, pi_level=float(pi), **kw)
        base = None
        SS, SB = cr.S_star_local, cr.S_bar_set_local
        rules, probs, ws = cr.counterfactuals_samples_local, cr.counterfactuals_samples_sdp_local, \
            cr.counterfactuals_samples_w_local
    else:
        du = np_([list(q) for q in zip(down, up)])
        cr.run_sufficient_rules(Xa, np_(yX), t=t, pi_level=float(pi), **kw)
        cr.run_regional_divergent_set(np_(tgt), du, stop=stop, pi_level=float(pi))
        base = np.asarray(cr.rules).reshape(k, d, 2)
        cr.run_regional_counterfactual_rules(acc_level=acc, pi_level=float(pi), **kw)
        SS, SB = cr.S_star_regional, cr.S_bar_set_regional
        rules, probs, ws = cr.counterfactuals_samples_regional, cr.counterfactuals_samples_sdp_regional, \
            cr.counterfactuals_samples_w_regional
    rec.ok(len(rules) == len(probs) == len(ws) == k, 'rules for %d of %d samples' % (len(rules), k), inp)
    cuts = [{-1e10, 1e10} for _ in range(d)]
    for tr in fo.trees:
        for f, th in zip(tr.f, tr.t):
            if f >= 0:
                cuts[f].add(float(np.round(th, 2)))
    for i, x in enumerate(X):
        S, B = [int(q) for q in SS[i]], [int(q) for q in SB[i]]
        rec.ok(sorted(S + B) == list(range(d)) and len(S) > 0, 'sample %d: divergent set %r and its rest %r' % (i, S, B),
               inp)
        R = np.asarray(rules[i])
        m = len(R)
        rec.ok(m >= 1, 'sample %d has no rule' % i, inp)
        rec.ok(R.shape == (m, d, 2) and len(probs[i]) == m and len(ws[i]) == m,
               'sample %d: %r rules, %d probabilities, %d rows of weights' % (i, R.shape, len(probs[i]), len(ws[i])), inp)
        g = rf.same(True, tgt[i], None) if clf else (lambda r: 1 if down[i] <= r.y <= up[i] else 0)
        for q in range(m):
            r = R[q].tolist()
            for f in range(d):
                if f in B:
                    want = [x[f], x[f]] if base is None else base[i, f].tolist()
                    rec.ok(r[f] == want, 'rule %d of sample %d has %r on feature %d, outside the divergent set, not %r' %
                           (q, i, r[f], f, want), inp)
                else:
                    rec.ok(r[f][0] in cuts[f] and r[f][1] in cuts[f],
                           'rule %d of sample %d has the bounds %r on feature %d, which no tree has' % (q, i, r[f], f),
                           inp)
            w = [F(0)] * n
            p = O.forest_mean(fo.trees, fo.depth, 5, rows, O.side_cond(x, B if base is None else [], r), g, None, w)
            rec.eq('probability of rule %d of sample %d' % (q, i), probs[i][q], p, inp)
            for j in range(n):
                rec.eq('weight of row %d under rule %d of sample %d' % (j, q, i), ws[i][q][j], w[j], inp)
            rec.ok(p >= pi or m == 1, 'rule %d of sample %d has probability %r, below the level' % (q, i, float(p)), inp)
        for q in range(m):
            for o in range(m):
                rec.ok(q == o or any(R[q, f, 1] > R[o, f, 1] or R[q, f, 0] < R[o, f, 0] for f in range(d)),
                       'rule %d of sample %d lies inside rule %d' % (q, i, o), inp)
