"""Properties of the tree explainer."""
import itertools
from fractions import Fraction as F

import numpy as np

import gen
import oracle as O
import rf
from gen import np_


def nested(a):
    return np.asarray(a)


def ens(rng, d=None, nmax=9, thr=gen.GRID, nout=None, ntrees=None, splits=5):
    d = d or rng.randrange(1, 5)
    n = rng.randrange(1, nmax)
    nout = nout or rng.choice([1, 1, 2, 3])
    nt = ntrees or rng.randrange(1, 4)
    data = gen.rand_data(rng, n, d)
    trees = [gen.rand_tree(rng, list(range(d)), splits, nout, thr=thr, chain=rng.random() < .3) for _ in range(nt)]
    X = [list(rng.choice(data)) if rng.random() < .4 else gen.rand_data(rng, 1, d)[0] for _ in range(rng.randrange(1, 4))]
    return d, nout, data, trees, X


def inp_of(trees, data, X, **kw):
    return dict(kw, trees=rf.dump(trees), data=data, X=X)


def nontriv(trees):
    return max(len(t.l) for t in trees) > 3


def groups(rng, d):
    if d < 2:
        return [[]]
    fs = rng.sample(range(d), d)
    k = rng.randrange(2, d + 1)
    C = [fs[:k]]
    if d - k >= 2 and rng.random() < .5:
        C.append(fs[k:])
    if rng.random() < .5:
        rng.shuffle(C)
    return C


def check_sv(rec, name, sv, trees, data, X, nout, d, C, inp):
    tb = O.leaf_table(trees, data)
    sv = np.asarray(sv)
    rec.ok(sv.shape == (len(X), d, nout), '%s has shape %r' % (name, sv.shape), inp)
    for i, x in enumerate(X):
        for j in range(nout):
            phi = O.shapley(O.players_of(d, C), O.LeafGame(trees, data, x, j, tb))
            for p, v in phi.items():
                for f in p:
                    rec.eq('%s[%d,%d,%d]' % (name, i, f, j), sv[i, f, j], v, inp)


def C02(rng, rec):
    d, nout, data, trees, X = ens(rng, splits=7)
    inp = inp_of(trees, data, X)
    rec.case(inp, nontriv(trees))
    a = gen.acv_of(trees, data)
    check_sv(rec, 'shap_values', a.shap_values(np_(X)), trees, data, X, nout, d, [[]], inp)


def C04(rng, rec):
    d, nout, data, trees, X = ens(rng, d=rng.randrange(2, 6))
    C = groups(rng, d)
    inp = inp_of(trees, data, X, C=C)
    rec.case(inp, nontriv(trees))
    a = gen.acv_of(trees, data)
    check_sv(rec, 'shap_values', a.shap_values(np_(X), C), trees, data, X, nout, d, C, inp)


def sdp_val(tb, trees, data, x, S, fx, ydat, cat=False):
    """The share of the way from the value of the other decisions to that of this one; None if undefined or
    numerically undecided.  The leaf estimator of each tree, taken over all rows / the rows with the same decision /
    the others, each normalised by its total weight."""
    d = len(x)
    S = frozenset(S)
    if cat and not S and False:
        return F(0)
    tot = [F(0), F(0), F(0)]
    ups = [j for j in range(len(data)) if ydat[j] == fx]
    dns = [j for j in range(len(data)) if ydat[j] != fx]
    sets = (range(len(data)), ups, dns)
    for t in trees:
        acc = [F(0), F(0), F(0)]
        nrm = [F(0), F(0), F(0)]
        for k, box in tb[id(t)]:
            if not O.inbox(x, box, S):
                continue
            for q, rows in enumerate(sets):
                if cat:
                    base = [j for j in rows if all(data[j][f] == x[f] for f in S)]
                else:
                    base = [j for j in rows if O.inbox(data[j], box, S)]
                num = sum(1 for j in (base if cat else rows) if O.inbox(data[j], box))
                if base:
                    acc[q] += F(num, len(base)) * F(t.v[k][fx])
                    nrm[q] += F(num, len(base))
        for q in range(3):
            if cat:
                tot[q] += acc[q]
            elif nrm[q]:
                tot[q] += acc[q] / nrm[q]
    a, u, dn = tot
    if abs(u - dn) < F(1, 10**6) and u != dn:
        return None
    if u == dn:
        return 'degenerate'
    r = (a - dn) / (u - dn)
    if cat:
        r = max(F(0), min(F(1), r))
    return r


def clf_case(rng, d=None):
    """A classifier made of trees (no row or sample lies on a split)."""
    d = d or rng.randrange(2, 5)
    K = rng.choice([2, 2, 3])
    n = rng.randrange(4, 11)
    data = [[rng.choice(gen.GRID) for _ in range(d)] for _ in range(n)]
    nt = rng.randrange(1, 4)

    def vals():
        w = [rng.randrange(0, 5) for _ in range(K)]
        w[rng.randrange(K)] += 1
        s = float(sum(w))
        return [q / s / nt for q in w]
    trees = [gen.rand_tree(rng, list(range(d)), 6, K, thr=gen.OFF, vals=vals) for _ in range(nt)]
    X = [list(rng.choice(data)) if rng.random() < .6 else [rng.choice(gen.GRID) for _ in range(d)]
         for _ in range(rng.randrange(1, 4))]
    a = gen.acv_of(trees, data)
    dec = {}

    def proba(x):
        p = [float(O.raw(trees, x, j)) for j in range(K)]
        return p
    # decisions need not follow the trees: any classifier may be explained with its own decisions
    if rng.random() < .4:
        mem = {}

        def proba(x, mem=mem):
            k = tuple(x)
            if k not in mem:
                r = __import__('random').Random(repr(k))
                mem[k] = [r.random() for _ in range(K)]
            return mem[k]
    a.model = gen.Proba(proba)
    fx = [int(np.argmax(proba(x))) for x in X]
    fy = [int(np.argmax(proba(r))) for r in data]
    tb = {id(t): t.leaves() for t in trees}
    inp = inp_of(trees, data, X, decisions_X=fx, decisions_data=fy)
    return a, d, K, data, trees, X, fx, fy, tb, inp


def C08(rng, rec):
    a, d, K, data, trees, X, fx, fy, tb, inp = clf_case(rng)
    S = rng.sample(range(d), rng.randrange(0, d + 1))
    inp = dict(inp, S=S)
    rec.case(inp, nontriv(trees) and 0 < len(S) < d)
    Sa = np.array(S, dtype=np.int64)
    for cat in (False, True):
        nm = 'compute_sdp_clf_cat' if cat else 'compute_sdp_clf'
        got = getattr(a, nm)(np_(X), Sa, np_(data))
        for i, x in enumerate(X):
            w = F(1) if len(S) == d else F(0) if not S else sdp_val(tb, trees, data, x, S, fx[i], fy, cat)
            if w is None:
                rec.skipped += 1
                continue
            if w == 'degenerate':
                # numerator over exactly 0, or over the rounding of it: only the defined 0 is checked
                if not single_exact(trees):
                    continue
                w = F(0)
            rec.eq('%s[%d]' % (nm, i), got[i], w, inp)


def single_exact(trees):
    return False


def sdp_search_val(tb, trees, data, X, fx, fy, d):
    def val(i, S):
        q = sdp_val(tb, trees, data, X[i], S, fx[i], fy)
        return q
    return val


class Undecided(Exception):
    pass


def C22(rng, rec):
    """Minimal sufficient explanations of a tree classifier."""
    a, d, K, data, trees, X, fx, fy, tb, inp = clf_case(rng)
    C = rf.groups(rng, d)
    pi = rng.choice([F(1, 2), F(3, 4), F(9, 10), F(2, 3), F(4, 5)]) + F(rng.choice([1, -1]), 997)
    minimal = rng.choice([1, 1, 1, 2])
    stop = rng.random() < .5
    search = list(range(d))
    which = rng.randrange(3)
    if which == 1:
        search = rng.sample(range(d), rng.randrange(1, d + 1))
    pl = rf.players_in(search, C)
    if which != 1 and C[0]:
        ing = {f for g in C for f in g}
        pl = [(f,) for f in range(d) if f not in ing] + [tuple(g) for g in C]
    if minimal > len(pl):
        minimal = 1
    if not pl:
        return
    inp = dict(inp, C=C, pi_level=float(pi), minimal=minimal, stop=stop, search=search)
    rec.case(inp, nontriv(trees))

    def val(i, S):
        q = sdp_val(tb, trees, data, X[i], S, fx[i], fy)
        if q is None or q == 'degenerate':
            raise Undecided()
        return q, False
    if which == 0:
        nm = 'importance_sdp_clf'
        res = a.importance_sdp_clf(np_(X), np_(data), C, float(pi), minimal, stop)
    elif which == 1:
        nm = 'importance_sdp_clf_search'
        res = a.importance_sdp_clf_search(np_(X), np_(data), C, float(pi), minimal, search, stop)
    else:
        nm = 'importance_sdp_clf_greedy'
        res = a.importance_sdp_clf_greedy(np_(X), np_(data), C, float(pi), minimal, stop)
    try:
        rf.check_minimal(rec, nm, res, pl, d, len(X), val, pi, minimal, stop, inp)
    except Undecided:
        rec.skipped += 1


def C07(rng, rec):
    d, nout, data, trees, X = ens(rng, thr=gen.OFF)
    data = [[v - .125 if v * 4 % 1 else v for v in r] for r in data]
    X = [[v - .125 if v * 4 % 1 else v for v in r] for r in X]
    S = rng.sample(range(d), rng.randrange(0, d + 1))
    inp = inp_of(trees, data, X, S=S)
    rec.case(inp, nontriv(trees) and len(S) > 0)
    a = gen.acv_of(trees, data)
    Sa = np.array(S, dtype=np.int64)
    fS = frozenset(S)
    g1 = a.compute_exp(np_(X), Sa, np_(data))
    g2 = a.compute_exp_normalized(np_(X), Sa, np_(data))
    g3 = a.compute_exp_cat(np_(X), Sa, np_(data))
    tb = O.leaf_table(trees, data)
    for i, x in enumerate(X):
        for j in range(nout):
            rec.eq('compute_exp[%d,%d]' % (i, j), g1[i, j], O.LeafGame(trees, data, x, j, tb)(S), inp)
            tot, cat = F(0), F(0)
            same = [r for r in data if all(r[f] == x[f] for f in S)]
            for t in trees:
                num = den = F(0)
                for k, box in t.leaves():
                    if not O.inbox(x, box, fS):
                        continue
                    b = sum(1 for r in data if O.inbox(r, box, fS))
                    if b:
                        p = F(sum(1 for r in data if O.inbox(r, box)), b)
                        num += p * F(t.v[k][j])
                        den += p
                    if same:
                        cat += F(sum(1 for r in same if O.inbox(r, box)), len(same)) * F(t.v[k][j])
                if den:
                    tot += num / den
            rec.eq('compute_exp_normalized[%d,%d]' % (i, j), g2[i, j], tot, inp)
            rec.eq('compute_exp_cat[%d,%d]' % (i, j), g3[i, j], cat, inp)
