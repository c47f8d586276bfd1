"""Inputs for the differential runs: small tree ensembles, forests and data, on a grid of dyadic numbers."""
import numpy as np

GRID = [-1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0]
OFF = [-0.75, -0.25, 0.25, 0.75, 1.25, 1.75]


class Tree(object):
    """One tree as plain lists; leaves have child -1."""

    def __init__(self):
        self.l, self.r, self.f, self.t, self.v = [], [], [], [], []

    def add(self, v):
        self.l.append(-1)
        self.r.append(-1)
        self.f.append(-1)
        self.t.append(0.0)
        self.v.append(v)
        return len(self.l) - 1

    def split(self, k, f, t, order, vals):
        a, b = (self.add(vals[0]), self.add(vals[1])) if order == 0 else (None, None)
        if order:
            b = self.add(vals[1])
            a = self.add(vals[0])
        self.l[k], self.r[k], self.f[k], self.t[k] = a, b, f, t
        return a, b

    def leaves(self):
        """[(node, box)] with box {feature: (lo, hi)}: the inputs with lo < x[f] <= hi for every f of the box."""
        out = []
        todo = [(0, {})]
        while todo:
            k, box = todo.pop()
            if self.l[k] < 0:
                out.append((k, box))
                continue
            f, t = self.f[k], self.t[k]
            lo, hi = box.get(f, (-np.inf, np.inf))
            todo.append((self.l[k], dict(box, **{'': 0}) and upd(box, f, (lo, min(hi, t)))))
            todo.append((self.r[k], upd(box, f, (max(lo, t), hi))))
        return out

    def leaf_of(self, x):
        k = 0
        while self.l[k] >= 0:
            k = self.l[k] if x[self.f[k]] <= self.t[k] else self.r[k]
        return k

    def depth(self):
        def d(k):
            return 0 if self.l[k] < 0 else 1 + max(d(self.l[k]), d(self.r[k]))
        return d(0)

    def as_dict(self, data):
        n = len(self.l)
        w = np.zeros(n)
        for x in data:
            k = 0
            w[0] += 1
            while self.l[k] >= 0:
                k = self.l[k] if x[self.f[k]] <= self.t[k] else self.r[k]
                w[k] += 1
        return dict(children_left=np.array(self.l, dtype=np.int32), children_right=np.array(self.r, dtype=np.int32),
                    children_default=np.array(self.l, dtype=np.int32), features=np.array(self.f, dtype=np.int32),
                    thresholds=np.array(self.t, dtype=np.float64), values=np.array(self.v, dtype=np.float64),
                    node_sample_weight=w + 1e-3)


def upd(box, f, iv):
    b = dict(box)
    b[f] = iv
    return b


def dy(rng):
    return rng.randrange(-8, 9) / 4.0


def rand_tree(rng, feats, max_splits, nout, thr=GRID, vals=None, chain=False):
    """A random tree over the features `feats`; a feature may be split again below, also into an empty cell."""
    vals = vals or (lambda: [dy(rng) for _ in range(nout)])
    t = Tree()
    t.add(vals())
    n = rng.randrange(0 if rng.random() < .1 else 1, max_splits + 1)
    for _ in range(n):
        lv = [k for k in range(len(t.l)) if t.l[k] < 0]
        k = lv[-1] if chain else rng.choice(lv)
        t.split(k, rng.choice(feats), rng.choice(thr), rng.randrange(2), (vals(), vals()))
    return t


def rand_data(rng, n, d, grid=GRID):
    mode = rng.random()
    if mode < .25:
        return [[rng.choice(grid) + (0.125 if rng.random() < .5 else 0.0) for _ in range(d)] for _ in range(n)]
    return [[rng.choice(grid) for _ in range(d)] for _ in range(n)]


class Proba(object):
    """A classifier with the given probabilities as a function of the input."""

    def __init__(self, fn):
        self.fn = fn

    def predict_proba(self, X):
        return np.array([self.fn(list(map(float, x))) for x in np.asarray(X)])

    def predict(self, X):
        return np.argmax(self.predict_proba(X), axis=1)


class Reg(object):
    def __init__(self, fn):
        self.fn = fn

    def predict(self, X):
        return np.array([self.fn(list(map(float, x))) for x in np.asarray(X)])


def quiet():
    """The library draws progress bars on stderr and warns a lot."""
    import warnings
    warnings.filterwarnings('ignore')
    try:
        import tqdm

        class T(tqdm.tqdm):
            def __init__(self, *a, **k):
                k['disable'] = True
                super().__init__(*a, **k)
        tqdm.tqdm = T
    except Exception:
        pass


def acv_of(trees, data, **kw):
    from acv_explainers import ACVTree
    dat = np.array(data, dtype=np.float64)
    return ACVTree({'trees': [t.as_dict(data) for t in trees], 'base_offset': 0.}, dat, **kw)


def forest_of_acx(base):
    """The trees a fitted agnostic explainer uses, as Tree objects, read from its dense arrays."""
    out = []
    for b in range(len(base.features)):
        t = Tree()
        n = base.features.shape[1]
        for k in range(n):
            t.l.append(int(base.children_left[b, k]))
            t.r.append(int(base.children_right[b, k]))
            t.f.append(int(base.features[b, k]))
            t.t.append(float(base.thresholds[b, k]))
            t.v.append([0.0])
        out.append(t)
    return out


def np_(a, dt=np.float64):
    return np.array(a, dtype=dt)
