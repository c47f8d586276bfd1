"""What the conditional expectations and same decision probabilities of the tree explainer are (C07, C08): sums over the
leaves of a tree of the leaf value times the background share of the leaf within its cell restricted to S."""
import numpy as np

from dsl import contract, PYX, NOPA

LEAVES = ['data.shape[1] == X.shape[1]', 'leaves_nb[b] <= partition_leaves_trees.shape[1]']


def below_closed(v, box, f):
    return box[f, 0] <= v and v <= box[f, 1]


def below(v, box, f):
    return box[f, 0] < v and v <= box[f, 1]


def in_leaf_closed(row, box):
    return all(below_closed(row[f], box, f) for f in range(row.shape[0]))


def in_leaf(row, box):
    return all(below(row[f], box, f) for f in range(row.shape[0]))


def in_cell_closed(row, box, S):
    return all(below_closed(row[S[s]], box, S[s]) for s in range(len(S)))


def in_cell(row, box, S):
    return all(below(row[S[s]], box, S[s]) for s in range(len(S)))


def equal_on(row, x, S):
    return all(row[S[s]] == x[S[s]] for s in range(len(S)))


def ratio(a, b):
    return a / b if b != 0 else 0.


@contract((PYX, 'compute_exp', 'C07 C05 C20'), (NOPA, 'compute_exp_nopa', 'C07 C05 C20'), requires=LEAVES)
def compute_exp(X, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, scaling, num_threads):
    out = np.zeros((X.shape[0], values.shape[2]))
    for i in range(X.shape[0]):
        for c in range(values.shape[2]):
            tot = 0.
            for b in range(values.shape[0]):
                for l in range(leaves_nb[b]):
                    box = partition_leaves_trees[b, l]
                    leaf = sum(in_leaf_closed(data[r], box) for r in range(data.shape[0]))
                    cell = sum(in_cell(data[r], box, S) for r in range(data.shape[0]))
                    if in_cell_closed(X[i], box, S):
                        tot += ratio(leaf * values[b, leaf_idx_trees[b, l], c], cell)
            out[i, c] = tot
    return out


def leaf_share(x, S, data, box):
    leaf = sum(in_leaf_closed(data[r], box) for r in range(data.shape[0]))
    cell = sum(in_cell(data[r], box, S) for r in range(data.shape[0]))
    return ratio(leaf, cell) if in_cell_closed(x, box, S) else 0.


@contract((PYX, 'compute_exp_normalized', 'C07 C05 C20'), (NOPA, 'compute_exp_normalized', 'C07 C05 C20'), requires=LEAVES)
def compute_exp_normalized(X, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, scaling, num_threads):
    out = np.zeros((X.shape[0], values.shape[2]))
    for i in range(X.shape[0]):
        for c in range(values.shape[2]):
            tot = 0.
            for b in range(values.shape[0]):
                z = sum(leaf_share(X[i], S, data, partition_leaves_trees[b, l]) for l in range(leaves_nb[b]))
                for l in range(leaves_nb[b]):
                    tot += ratio(leaf_share(X[i], S, data, partition_leaves_trees[b, l]) * values[b, leaf_idx_trees[b, l], c], z)
            out[i, c] = tot
    return out


@contract((PYX, 'compute_exp_cat', 'C07 C05 C20'), (NOPA, 'compute_exp_cat_nopa', 'C07 C05 C20'), requires=LEAVES)
def compute_exp_cat(X, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, scaling, num_threads):
    out = np.zeros((X.shape[0], values.shape[2]))
    for i in range(X.shape[0]):
        for c in range(values.shape[2]):
            tot = 0.
            for b in range(values.shape[0]):
                for l in range(leaves_nb[b]):
                    box = partition_leaves_trees[b, l]
                    cell = sum(equal_on(data[r], X[i], S) for r in range(data.shape[0]))
                    leaf = sum(equal_on(data[r], X[i], S) and in_leaf(data[r], box) for r in range(data.shape[0]))
                    if in_cell(X[i], box, S):
                        tot += ratio(leaf * values[b, leaf_idx_trees[b, l], c], cell)
            out[i, c] = tot
    return out


def group(same, k):
    """k = 0: every row; 1: the rows of the same class; 2: the others"""
    return k == 0 or (k == 1 and same) or (k == 2 and not same)


def class_share(x, fx, y_pred, S, data, box, k):
    leaf = sum(in_leaf_closed(data[r], box) and group(fx == y_pred[r], k) for r in range(data.shape[0]))
    cell = sum(in_cell_closed(data[r], box, S) and group(fx == y_pred[r], k) for r in range(data.shape[0]))
    return ratio(leaf, cell) if in_cell_closed(x, box, S) else 0.


def class_mean(x, fx, y_pred, S, data, values, part, leaf_idx, leaves_nb, k):
    """the expectation of the score of class fx given S over the rows of group k, normalised tree by tree"""
    tot = 0.
    for b in range(values.shape[0]):
        z = sum(class_share(x, fx, y_pred, S, data, part[b, l], k) for l in range(leaves_nb[b]))
        for l in range(leaves_nb[b]):
            tot += ratio(class_share(x, fx, y_pred, S, data, part[b, l], k) * values[b, leaf_idx[b, l], fx], z)
    return tot


@contract((PYX, 'compute_sdp_clf', 'C08 C05 C20'), (NOPA, 'compute_sdp_clf_nopa', 'C08 C05 C20'), requires=LEAVES)
def compute_sdp_clf(X, fX, y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, scaling, num_threads):
    if S.shape[0] == X.shape[1]:
        return np.ones(X.shape[0])
    if S.shape[0] == 0:
        return np.zeros(X.shape[0])
    out = np.zeros(X.shape[0])
    for i in range(X.shape[0]):
        a = class_mean(X[i], fX[i], y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, 0)
        u = class_mean(X[i], fX[i], y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, 1)
        d = class_mean(X[i], fX[i], y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, 2)
        out[i] = ratio(a - d, u - d)
    return out


def class_mean_cat(x, fx, y_pred, S, data, values, part, leaf_idx, leaves_nb, k):
    """the same given the rows equal to x on S, not normalised"""
    tot = 0.
    for b in range(values.shape[0]):
        for l in range(leaves_nb[b]):
            cell = sum(equal_on(data[r], x, S) and group(fx == y_pred[r], k) for r in range(data.shape[0]))
            leaf = sum(equal_on(data[r], x, S) and group(fx == y_pred[r], k) and in_leaf_closed(data[r], part[b, l])
                       for r in range(data.shape[0]))
            if in_cell_closed(x, part[b, l], S):
                tot += ratio(leaf * values[b, leaf_idx[b, l], fx], cell)
    return tot


@contract((PYX, 'compute_sdp_clf_cat', 'C08 C05 C20'), (NOPA, 'compute_sdp_clf_cat_nopa', 'C08 C05 C20'), requires=LEAVES)
def compute_sdp_clf_cat(X, fX, y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, scaling, num_threads):
    if S.shape[0] == X.shape[1]:
        return np.ones(X.shape[0])
    if S.shape[0] == 0:
        return np.zeros(X.shape[0])
    out = np.zeros(X.shape[0])
    for i in range(X.shape[0]):
        a = class_mean_cat(X[i], fX[i], y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, 0)
        u = class_mean_cat(X[i], fX[i], y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, 1)
        d = class_mean_cat(X[i], fX[i], y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, 2)
        p = ratio(a - d, u - d)
        if p > 1:
            p = 1.
        elif not p >= 0:
            p = 0.
        out[i] = p
    return out
