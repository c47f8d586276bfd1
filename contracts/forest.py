"""The projected forest (C09, C10, C11, C15, C16): the rows of a sample's cell in a tree, the bounds of the cell, and what is
counted on it."""
import numpy as np

from dsl import contract, PYX


def cell(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size):
    """the background rows on x's side of every split on a feature of S, both branches followed at the others, level by level,
    a level being left as soon as fewer than min_node_size rows are left"""
    rows = set(range(data.shape[0]))
    seen = set()
    level = {0}
    for depth in range(max_depth):
        for node in sorted(level):
            if node < 0 or left[b, node] < 0:
                continue
            f = features[b, node]
            s = thresholds[b, node]
            if f in S:
                below = x[f] <= s
                seen |= {left[b, node] if below else right[b, node]}
                rows = {r for r in rows if (data[r, f] <= s) == below}
            else:
                seen |= {left[b, node], right[b, node]}
            if len(rows) < min_node_size:
                break
        level = seen
    return rows


def cell_bounds(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds):
    """cell, narrowing the bounds of every feature it splits on to x's side"""
    rows = set(range(data.shape[0]))
    seen = set()
    level = {0}
    for depth in range(max_depth):
        for node in sorted(level):
            if node < 0 or left[b, node] < 0:
                continue
            f = features[b, node]
            s = thresholds[b, node]
            if f in S:
                below = x[f] <= s
                seen |= {left[b, node] if below else right[b, node]}
                rows = {r for r in rows if (data[r, f] <= s) == below}
                if below:
                    bounds[f, 1] = min(bounds[f, 1], s)
                else:
                    bounds[f, 0] = max(bounds[f, 0], s)
            else:
                seen |= {left[b, node], right[b, node]}
            if len(rows) < min_node_size:
                break
        level = seen
    return rows


def cell_cond(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds, cond):
    """cell_bounds, the features outside S being known to be in the intervals cond"""
    rows = set(range(data.shape[0]))
    seen = set()
    level = {0}
    for depth in range(max_depth):
        for node in sorted(level):
            if node < 0 or left[b, node] < 0:
                continue
            f = features[b, node]
            s = thresholds[b, node]
            if f in S:
                go_left = x[f] <= s
                go_right = not go_left
            else:
                go_left = f >= 0 and cond[f, 1] <= s
                go_right = f >= 0 and not go_left and cond[f, 0] > s
            if go_left:
                seen |= {left[b, node]}
                rows = {r for r in rows if data[r, f] <= s}
                bounds[f, 1] = min(bounds[f, 1], s)
            elif go_right:
                seen |= {right[b, node]}
                rows = {r for r in rows if data[r, f] > s}
                bounds[f, 0] = max(bounds[f, 0], s)
            else:
                seen |= {left[b, node], right[b, node]}
            if len(rows) < min_node_size:
                break
        level = seen
    return rows


def cell_intv(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds, cond):
    """the features of S are free, the others are in the intervals cond"""
    rows = set(range(data.shape[0]))
    seen = set()
    level = {0}
    for depth in range(max_depth):
        for node in sorted(level):
            if node < 0 or left[b, node] < 0:
                continue
            f = features[b, node]
            s = thresholds[b, node]
            inside = f >= 0 and not f in S
            if inside and cond[f, 1] <= s:
                seen |= {left[b, node]}
                rows = {r for r in rows if data[r, f] <= s}
                bounds[f, 1] = min(bounds[f, 1], s)
            elif inside and cond[f, 0] > s:
                seen |= {right[b, node]}
                rows = {r for r in rows if data[r, f] > s}
                bounds[f, 0] = max(bounds[f, 0], s)
            else:
                seen |= {left[b, node], right[b, node]}
            if len(rows) < min_node_size:
                break
        level = seen
    return rows


def wanted(y, y_x, classifier, t):
    """same class, or in the interval"""
    return y == y_x if classifier == 1 else t[0] <= y and y <= t[1]


def target(y, y_x, classifier, down, up):
    return y == y_x if classifier == 1 else down <= y and y <= up


# ---------------------------------------------------------------- counted on the cell
@contract((PYX, 'single_compute_sdp_rf', 'C09 C12 C13 C20'), ret='r')
def single_compute_sdp_rf(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size)
        p += sum(wanted(y_data[r], y_x, classifier, t) / (n * len(rows)) for r in rows)
    return p


@contract((PYX, 'single_compute_ddp_rf', 'C10 C13 C23 C20'), ret='r')
def single_compute_ddp_rf(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size)
        p += sum((not wanted(y_data[r], y_x, classifier, t)) / (n * len(rows)) for r in rows)
    return p


@contract((PYX, 'single_compute_cdp_rf', 'C10 C23 C20'), ret='r')
def single_compute_cdp_rf(x, y_x, down, up, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size,
                          classifier, t):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size)
        p += sum(target(y_data[r], y_x, classifier, down, up) / (n * len(rows)) for r in rows)
    return p


@contract((PYX, 'single_compute_exp_rf', 'C11 C20'), ret='r')
def single_compute_exp_rf(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    n = features.shape[0]
    e = 0.
    for b in range(n):
        rows = cell(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size)
        e += sum(y_data[r] / (n * len(rows)) for r in rows)
    return e


# ---------------------------------------------------------------- with the bounds of the cell
@contract((PYX, 'single_compute_sdp_rule', 'C15 C16 C20'), ret='r', writes=[13])
def single_compute_sdp_rule(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t,
                            bounds):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_bounds(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds)
        p += sum(wanted(y_data[r], y_x, classifier, t) / (n * len(rows)) for r in rows)
    return p


@contract((PYX, 'single_compute_ddp_rule', 'C10 C20'), ret='r', writes=[13])
def single_compute_ddp_rule(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t,
                            bounds):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_bounds(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds)
        p += sum((not wanted(y_data[r], y_x, classifier, t)) / (n * len(rows)) for r in rows)
    return p


@contract((PYX, 'single_compute_cdp_rule', 'C10 C20'), ret='r', writes=[15])
def single_compute_cdp_rule(x, y_x, down, up, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size,
                            classifier, t, bounds):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_bounds(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds)
        p += sum(target(y_data[r], y_x, classifier, down, up) / (n * len(rows)) for r in rows)
    return p


# ---------------------------------------------------------------- and the weights of the rows
@contract((PYX, 'single_compute_sdp_rule_weights', 'C16 C20'), ret='r', writes=[13, 14])
def single_compute_sdp_rule_weights(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size,
                                    classifier, t, bounds, w):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_bounds(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds)
        p += sum(wanted(y_data[r], y_x, classifier, t) / (n * len(rows)) for r in rows)
        for r in sorted(rows):
            w[r] += 1 / (n * len(rows))
    return p


@contract((PYX, 'single_compute_ddp_rule_weights', 'C10 C20'), ret='r', writes=[13, 14])
def single_compute_ddp_rule_weights(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size,
                                    classifier, t, bounds, w):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_bounds(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds)
        p += sum((not wanted(y_data[r], y_x, classifier, t)) / (n * len(rows)) for r in rows)
        for r in sorted(rows):
            w[r] += 1 / (n * len(rows))
    return p


@contract((PYX, 'single_compute_cdp_rule_weights', 'C10 C20'), ret='r', writes=[15, 16])
def single_compute_cdp_rule_weights(x, y_x, down, up, data, y_data, S, features, thresholds, left, right, max_depth,
                                    min_node_size, classifier, t, bounds, w):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_bounds(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds)
        p += sum(target(y_data[r], y_x, classifier, down, up) / (n * len(rows)) for r in rows)
        for r in sorted(rows):
            w[r] += 1 / (n * len(rows))
    return p


# ---------------------------------------------------------------- within intervals
@contract((PYX, 'single_compute_ddp_cond_rule_weights', 'C10 C18 C20'), ret='r', writes=[13, 14])
def single_compute_ddp_cond_rule_weights(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size,
                                         classifier, t, bounds, w, cond):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_cond(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds, cond)
        p += sum((not wanted(y_data[r], y_x, classifier, t)) / (n * len(rows)) for r in rows)
        for r in sorted(rows):
            w[r] += 1 / (n * len(rows))
    return p


@contract((PYX, 'single_compute_cdp_cond_rule_weights', 'C10 C18 C20'), ret='r', writes=[15, 16])
def single_compute_cdp_cond_rule_weights(x, y_x, down, up, data, y_data, S, features, thresholds, left, right, max_depth,
                                         min_node_size, classifier, t, bounds, w, cond):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_cond(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds, cond)
        p += sum(target(y_data[r], y_x, classifier, down, up) / (n * len(rows)) for r in rows)
        for r in sorted(rows):
            w[r] += 1 / (n * len(rows))
    return p


@contract((PYX, 'single_compute_ddp_intv_rule_weights', 'C10 C18 C20 C23'), ret='r', writes=[13, 14])
def single_compute_ddp_intv_rule_weights(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size,
                                         classifier, t, bounds, w, cond):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_intv(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds, cond)
        p += sum((not wanted(y_data[r], y_x, classifier, t)) / (n * len(rows)) for r in rows)
        for r in sorted(rows):
            w[r] += 1 / (n * len(rows))
    return p


@contract((PYX, 'single_compute_cdp_intv_rule_weights', 'C10 C18 C20 C23'), ret='r', writes=[13, 14])
def single_compute_cdp_intv_rule_weights(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size,
                                         classifier, t, bounds, w, cond):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_intv(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size, bounds, cond)
        # a different class (the class of y_x is not the target), or in the target interval
        p += sum((y_data[r] != y_x if classifier == 1 else t[0] <= y_data[r] and y_data[r] <= t[1]) / (n * len(rows))
                 for r in rows)
        for r in sorted(rows):
            w[r] += 1 / (n * len(rows))
    return p


# ---------------------------------------------------------------- every sample on its own
@contract((PYX, 'compute_sdp_rf', 'C09 C20'))
def compute_sdp_rf(X, y_X, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    out = np.zeros(X.shape[0])
    for i in range(X.shape[0]):
        out[i] = single_compute_sdp_rf(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right, max_depth,
                                       min_node_size, classifier, t[i])
    return out


@contract((PYX, 'compute_ddp_rf', 'C10 C20'))
def compute_ddp_rf(X, y_X, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    out = np.zeros(X.shape[0])
    for i in range(X.shape[0]):
        out[i] = single_compute_ddp_rf(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right, max_depth,
                                       min_node_size, classifier, t[i])
    return out


@contract((PYX, 'compute_exp_rf', 'C11 C20'))
def compute_exp_rf(X, y_X, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    out = np.zeros(X.shape[0])
    for i in range(X.shape[0]):
        out[i] = single_compute_exp_rf(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right, max_depth,
                                       min_node_size, classifier, t[i])
    return out


@contract((PYX, 'compute_cdp_rf', 'C10 C20'))
def compute_cdp_rf(X, y_X, down, up, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    out = np.zeros(X.shape[0])
    for i in range(X.shape[0]):
        out[i] = single_compute_cdp_rf(X[i], y_X[i], down[i], up[i], data, y_data, S[i], features, thresholds, left, right,
                                       max_depth, min_node_size, classifier, t[i])
    return out


@contract((PYX, 'compute_sdp_rf_same_set', 'C12 C13 C20'))
def compute_sdp_rf_same_set(X, y_X, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    out = np.zeros(X.shape[0])
    for i in range(X.shape[0]):
        out[i] = single_compute_sdp_rf(X[i], y_X[i], data, y_data, S, features, thresholds, left, right, max_depth,
                                       min_node_size, classifier, t[i])
    return out


@contract((PYX, 'compute_ddp_rf_same_set', 'C13 C23 C20'))
def compute_ddp_rf_same_set(X, y_X, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    out = np.zeros(X.shape[0])
    for i in range(X.shape[0]):
        out[i] = single_compute_ddp_rf(X[i], y_X[i], data, y_data, S, features, thresholds, left, right, max_depth,
                                       min_node_size, classifier, t[i])
    return out


@contract((PYX, 'compute_cdp_rf_same_set', 'C23 C20'))
def compute_cdp_rf_same_set(X, y_X, down, up, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size,
                            classifier, t):
    out = np.zeros(X.shape[0])
    for i in range(X.shape[0]):
        out[i] = single_compute_cdp_rf(X[i], y_X[i], down[i], up[i], data, y_data, S, features, thresholds, left, right,
                                       max_depth, min_node_size, classifier, t[i])
    return out


def unbounded(n, d):
    """no bound yet on any feature"""
    b = np.zeros((n, d, 2))
    b[:, :, 0] = -1e+10
    b[:, :, 1] = 1e+10
    return b


@contract((PYX, 'compute_sdp_rule', 'C15 C20'))
def compute_sdp_rule(X, y_X, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    out = np.zeros(X.shape[0])
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_sdp_rule(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right, max_depth,
                                         min_node_size, classifier, t[i], bounds[i])
    return out, bounds


@contract((PYX, 'compute_ddp_rule', 'C10 C20'))
def compute_ddp_rule(X, y_X, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    out = np.zeros(X.shape[0])
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_ddp_rule(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right, max_depth,
                                         min_node_size, classifier, t[i], bounds[i])
    return out, bounds


@contract((PYX, 'compute_cdp_rule', 'C10 C20'))
def compute_cdp_rule(X, y_X, down, up, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size,
                     classifier, t):
    out = np.zeros(X.shape[0])
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_cdp_rule(X[i], y_X[i], down[i], up[i], data, y_data, S[i], features, thresholds, left, right,
                                         max_depth, min_node_size, classifier, t[i], bounds[i])
    return out, bounds


@contract((PYX, 'compute_ddp_weights', 'C10 C20'), (PYX, 'compute_ddp_weights_verbose', 'C10 C20'))
def compute_ddp_weights(X, y_X, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t, pi):
    out = np.zeros(X.shape[0])
    weights = np.zeros((X.shape[0], data.shape[0]))
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_ddp_rule_weights(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right,
                                                 max_depth, min_node_size, classifier, t[i], bounds[i], weights[i])
    return out, weights


@contract((PYX, 'compute_cdp_weights', 'C10 C20'), (PYX, 'compute_cdp_weights_verbose', 'C10 C20'))
def compute_cdp_weights(X, y_X, down, up, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size,
                        classifier, t, pi):
    out = np.zeros(X.shape[0])
    weights = np.zeros((X.shape[0], data.shape[0]))
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_cdp_rule_weights(X[i], y_X[i], down[i], up[i], data, y_data, S[i], features, thresholds, left,
                                                 right, max_depth, min_node_size, classifier, t[i], bounds[i], weights[i])
    return out, weights


@contract((PYX, 'compute_ddp_cond_weights', 'C10 C18 C20'))
def compute_ddp_cond_weights(X, y_X, data, y_data, S, features, thresholds, left, right, cond, max_depth, min_node_size,
                             classifier, t, pi):
    out = np.zeros(X.shape[0])
    weights = np.zeros((X.shape[0], data.shape[0]))
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_ddp_cond_rule_weights(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right,
                                                      max_depth, min_node_size, classifier, t[i], bounds[i], weights[i], cond[i])
    return out, weights


@contract((PYX, 'compute_cdp_cond_weights', 'C10 C18 C20'))
def compute_cdp_cond_weights(X, y_X, down, up, data, y_data, S, features, thresholds, left, right, cond, max_depth,
                             min_node_size, classifier, t, pi):
    out = np.zeros(X.shape[0])
    weights = np.zeros((X.shape[0], data.shape[0]))
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_cdp_cond_rule_weights(X[i], y_X[i], down[i], up[i], data, y_data, S[i], features, thresholds,
                                                      left, right, max_depth, min_node_size, classifier, t[i], bounds[i],
                                                      weights[i], cond[i])
    return out, weights


@contract((PYX, 'compute_ddp_intv_weights', 'C10 C18 C20'))
def compute_ddp_intv_weights(X, y_X, data, y_data, S, features, thresholds, left, right, cond, max_depth, min_node_size,
                             classifier, t):
    out = np.zeros(X.shape[0])
    weights = np.zeros((X.shape[0], data.shape[0]))
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_ddp_intv_rule_weights(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right,
                                                      max_depth, min_node_size, classifier, t[i], bounds[i], weights[i], cond[i])
    return out, weights


@contract((PYX, 'compute_cdp_intv_weights', 'C10 C18 C20'))
def compute_cdp_intv_weights(X, y_X, data, y_data, S, features, thresholds, left, right, cond, max_depth, min_node_size,
                             classifier, t):
    out = np.zeros(X.shape[0])
    weights = np.zeros((X.shape[0], data.shape[0]))
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_cdp_intv_rule_weights(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right,
                                                      max_depth, min_node_size, classifier, t[i], bounds[i], weights[i], cond[i])
    return out, weights


@contract((PYX, 'compute_ddp_intv_same_set', 'C23 C20'))
def compute_ddp_intv_same_set(X, y_X, data, y_data, S, features, thresholds, left, right, cond, max_depth, min_node_size,
                              classifier, t):
    out = np.zeros(X.shape[0])
    weights = np.zeros((X.shape[0], data.shape[0]))
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_ddp_intv_rule_weights(X[i], y_X[i], data, y_data, S, features, thresholds, left, right,
                                                      max_depth, min_node_size, classifier, t[i], bounds[i], weights[i], cond[i])
    return out


@contract((PYX, 'compute_cdp_intv_same_set', 'C23 C20'))
def compute_cdp_intv_same_set(X, y_X, data, y_data, S, features, thresholds, left, right, cond, max_depth, min_node_size,
                              classifier, t):
    out = np.zeros(X.shape[0])
    weights = np.zeros((X.shape[0], data.shape[0]))
    bounds = unbounded(X.shape[0], X.shape[1])
    for i in range(X.shape[0]):
        out[i] = single_compute_cdp_intv_rule_weights(X[i], y_X[i], data, y_data, S, features, thresholds, left, right,
                                                      max_depth, min_node_size, classifier, t[i], bounds[i], weights[i], cond[i])
    return out


@contract((PYX, 'compute_sdp_maxrule', 'C16 C20'), (PYX, 'compute_sdp_maxrule_verbose', 'C16 C20'))
def compute_sdp_maxrule(X, y_X, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t, pi):
    n = X.shape[0]
    m = data.shape[0]
    out = np.zeros(n)
    weights = np.zeros((n, m))
    bounds = unbounded(n, X.shape[1])
    out_rows = np.zeros((n, m))
    bounds_rows = np.zeros((n, m, X.shape[1], 2))
    bounds_rows[:, :, :, 0] = -1e+10
    bounds_rows[:, :, :, 1] = 1e+10
    for i in range(n):
        out[i] = single_compute_sdp_rule_weights(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right, max_depth,
                                                 min_node_size, classifier, t[i], bounds[i], weights[i])
        for j in range(m):
            if weights[i, j] != 0:
                out_rows[i, j] = single_compute_sdp_rule(data[j], y_X[i], data, y_data, S[i], features, thresholds, left, right,
                                                         max_depth, min_node_size, classifier, t[i], bounds_rows[i, j])
    return out, bounds, out_rows, bounds_rows, weights


# ---------------------------------------------------------------- the distribution function
def cell_queue(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size):
    """cell, the nodes met so far being visited in the order they were met on every level"""
    rows = set(range(data.shape[0]))
    met = []
    level = [0]
    for depth in range(max_depth):
        for k in range(len(level)):
            if level[k] < 0 or left[b, level[k]] < 0:
                continue
            f = features[b, level[k]]
            s = thresholds[b, level[k]]
            if f in S:
                if x[f] <= s:
                    met.append(left[b, level[k]])
                    rows = {r for r in rows if data[r, f] <= s}
                else:
                    met.append(right[b, level[k]])
                    rows = {r for r in rows if data[r, f] > s}
            else:
                met.append(left[b, level[k]])
                met.append(right[b, level[k]])
            if len(rows) < min_node_size:
                break
        level = met
    return rows


@contract((PYX, 'single_compute_cdf_rf', 'C11 C20'), ret='r')
def single_compute_cdf_rf(x, y_x, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    n = features.shape[0]
    p = 0.
    for b in range(n):
        rows = cell_queue(x, data, S, features, thresholds, left, right, b, max_depth, min_node_size)
        p += sum((y_data[r] <= t) / (n * len(rows)) for r in rows)
    return p


@contract((PYX, 'compute_cdf_rf', 'C11 C20'))
def distribution(X, y_X, data, y_data, S, features, thresholds, left, right, max_depth, min_node_size, classifier, t):
    """row by row"""
    return np.array([single_compute_cdf_rf(X[i], y_X[i], data, y_data, S[i], features, thresholds, left, right, max_depth, min_node_size,
                                           classifier, t[i]) for i in range(X.shape[0])])
