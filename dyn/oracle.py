"""What the library should compute, written from the properties' statements, in exact arithmetic where it can be."""
import itertools
import math
from fractions import Fraction as F

INF = float('inf')


def inbox(x, box, feats=None):
    """lo < x[f] <= hi for the features of the box (restricted to feats)."""
    for f, (lo, hi) in box.items():
        if feats is not None and f not in feats:
            continue
        if not (lo < x[f] <= hi):
            return False
    return True


def value(tree, k, j):
    return F(tree.v[k][j])


def raw(trees, x, j):
    return sum(value(t, t.leaf_of(x), j) for t in trees)


# ---- leaf estimator -------------------------------------------------------------------------------------------

def leaf_table(trees, data):
    """[(tree, leaf, box, rows inside)]"""
    return [(t, k, box, [r for r in data if inbox(r, box)]) for t in trees for k, box in t.leaves()]


class LeafGame(object):
    """v(S) = sum over leaves compatible with x on S of value * P(leaf) / P(leaf's cell on S), 0 where P is 0."""

    def __init__(self, trees, data, x, j, table=None):
        self.x, self.data, self.j = x, data, j
        self.table = table or leaf_table(trees, data)
        self.memo = {}
        self.n = len(data)

    def leaf(self, e, S):
        t, k, box, inside = e
        if not inbox(self.x, box, S):
            return F(0)
        rel = tuple(sorted(f for f in box if f in S))
        key = (id(t), k, rel)
        den = self.memo.get(key)
        if den is None:
            den = self.memo[key] = sum(1 for r in self.data if inbox(r, box, rel))
        if den == 0:
            return F(0)
        return F(len(inside), den) * value(t, k, self.j)

    def __call__(self, S):
        S = frozenset(S)
        return sum((self.leaf(e, S) for e in self.table), F(0))


def shapley(players, v):
    """players: list of tuples of features; v: frozenset of features -> Fraction. -> {player: value}"""
    m = len(players)
    cache = {}

    def val(idx):
        if idx not in cache:
            cache[idx] = v(frozenset(f for i in idx for f in players[i]))
        return cache[idx]
    out = {}
    for i in range(m):
        rest = [k for k in range(m) if k != i]
        tot = F(0)
        for size in range(m):
            w = F(math.factorial(size) * math.factorial(m - size - 1), math.factorial(m))
            for T in itertools.combinations(rest, size):
                tot += w * (val(tuple(sorted(T + (i,)))) - val(T))
        out[players[i]] = tot
    return out


def players_of(d, C):
    groups = [tuple(g) for g in C if len(g)]
    ing = {f for g in groups for f in g}
    return [(f,) for f in range(d) if f not in ing] + groups


# ---- classifiers: same decision probability with trees ---------------------------------------------------------

def decision_sdp(trees, data, x, S, fx, ydata, cat, nclass):
    """P over the leaf estimator that the tree ensemble keeps deciding fx; see the statement of C08."""
    raise NotImplementedError


# ---- projected forest -------------------------------------------------------------------------------------------

def walk(tree, max_depth, mns, rows, side, cell=None):
    """Rows left after walking the tree.  side(f, t) -> 'l', 'r' or 'b' (both) at a split x[f] <= t.
    Level by level (a level holds every node reached so far below the root), nodes in increasing number; a level
    is left as soon as fewer than mns rows remain."""
    rows = list(rows)
    level, below = {0}, set()
    for _ in range(max_depth):
        for k in sorted(level):
            if k < 0 or tree.l[k] < 0:
                continue
            s = side(tree.f[k], tree.t[k])
            if s in 'lb':
                below.add(tree.l[k])
            if s in 'rb':
                below.add(tree.r[k])
            if s == 'l':
                rows = [r for r in rows if r[tree.f[k]] <= tree.t[k]]
                if cell is not None and tree.t[k] <= cell[tree.f[k]][1]:
                    cell[tree.f[k]][1] = tree.t[k]
            if s == 'r':
                rows = [r for r in rows if r[tree.f[k]] > tree.t[k]]
                if cell is not None and tree.t[k] >= cell[tree.f[k]][0]:
                    cell[tree.f[k]][0] = tree.t[k]
            if len(rows) < mns:
                break
        level = set(below)
    return rows


class Row(object):
    """A background row with its target; indexable by feature."""
    __slots__ = ('x', 'y', 'i')

    def __init__(self, x, y, i):
        self.x, self.y, self.i = x, y, i

    def __getitem__(self, f):
        return self.x[f]


def rows_of(data, ydata):
    return [Row(x, y, i) for i, (x, y) in enumerate(zip(data, ydata))]


def side_of(x, S):
    return lambda f, t: 'b' if f not in S else ('l' if x[f] <= t else 'r')


def side_cond(x, S, cond):
    """Splits on S: x's side; the others: the side that holds the whole interval of the rule, both if it is cut."""
    def side(f, t):
        if f in S:
            return 'l' if x[f] <= t else 'r'
        if cond[f][1] <= t:
            return 'l'
        if cond[f][0] > t:
            return 'r'
        return 'b'
    return side


def side_intv(S, cond):
    def side(f, t):
        if f in S:
            return 'b'
        if cond[f][1] <= t:
            return 'l'
        if cond[f][0] > t:
            return 'r'
        return 'b'
    return side


def forest_mean(trees, max_depth, mns, rows, side, g, cell=None, weights=None):
    """Average over the trees of the mean of g over the remaining rows (0 for a tree with none)."""
    tot = F(0)
    n = len(trees)
    for t in trees:
        left = walk(t, max_depth, mns, rows, side, cell)
        if left:
            s = F(0)
            w = F(1, n * len(left))
            for r in left:
                s += F(g(r))
                if weights is not None:
                    weights[r.i] += w
            tot += w * s
    return tot


def dyadic(fr):
    return (fr.denominator & (fr.denominator - 1)) == 0
