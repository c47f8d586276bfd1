"""The searches for minimal sufficient sets (C12, C13, C22, C23)."""
import itertools

import numpy as np

from dsl import contract, cut, PYX, NOPA
from leaf import class_mean, ratio, LEAVES

LISTS = dict(C=('vec', 2, 'i'), search_space=('vec', 1, 'i'), minimal='n')


def players(C, search_space):
    """what sets are made of: single features, and the coalitions with a feature in the search space"""
    if C[0] != []:
        grouped = [C[i][j] for i in range(len(C)) for j in range(len(C[i]))]
        r = [[f] for f in search_space if f not in grouped]
        for i in range(len(C)):
            if any(f in search_space for f in C[i]):
                r += [C[i]]
    else:
        r = [[f] for f in search_space]
    return r


def subsets(P):
    """by size, the unions of that many players"""
    r = []
    for size in range(len(P) + 1):
        same = []
        for c in itertools.combinations(P, size):
            same.append(sum(list(c), []))
        r.append(same)
    return r


@contract((PYX, 'sufficient_expl_rf', 'C13 C20'), sorts=LISTS, split=['len(C[0])'])
def all_sufficient(X, y_X, data, y_data, features, thresholds, left, right, max_depth, min_node_size, classifier, t, C, pi_level,
                   minimal, stop, search_space):
    """the minimal sets of players of which the same decision probability is at least pi_level, and how often a feature is in one"""
    n = X.shape[0]
    P = players(C, search_space)
    sets = subsets(P)
    found = [[[-1]] for i in range(n)]
    prob = [[-1] for i in range(n)]
    count = np.zeros(X.shape[1])
    total = 0.0
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = sets[size][s]
            for i in range(n):
                p = single_compute_sdp_rf(X[i], y_X[i], data, y_data, S, features, thresholds, left, right, max_depth,
                                          min_node_size, classifier, t[i])
                if p >= pi_level and not any(all(f in S for f in Q) for Q in found[i]):
                    found[i].append(S)
                    prob[i].append(p)
                    for f in S:
                        count[f] += 1
                    total += 1
    return found, prob, count / total


@contract((PYX, 'sufficient_cxpl_rf', 'C13 C20'), sorts=LISTS, split=['len(C[0])'])
def all_sufficient_different(X, y_X, data, y_data, features, thresholds, left, right, max_depth, min_node_size, classifier, t, C,
                             pi_level, minimal, stop, search_space):
    """the same for the different decision probability"""
    n = X.shape[0]
    P = players(C, search_space)
    sets = subsets(P)
    found = [[[-1]] for i in range(n)]
    prob = [[-1] for i in range(n)]
    count = np.zeros(X.shape[1])
    total = 0.0
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = sets[size][s]
            for i in range(n):
                p = single_compute_ddp_rf(X[i], y_X[i], data, y_data, S, features, thresholds, left, right, max_depth,
                                          min_node_size, classifier, t[i])
                if p >= pi_level and not any(all(f in S for f in Q) for Q in found[i]):
                    found[i].append(S)
                    prob[i].append(p)
                    for f in S:
                        count[f] += 1
                    total += 1
    return found, prob, count / total


ROWS = ['y_X.shape[0] == X.shape[0]', 't.shape[0] == X.shape[0]']
CELLS = ROWS + ['cond.shape[0] == X.shape[0]']
TARGETS = ROWS + ['DOWN.shape[0] == X.shape[0]', 'UP.shape[0] == X.shape[0]']


def offer(prob, length, best, i, p, S):
    """the set S with probability p for sample i: taken if it is as good as what there is; the set of all features is sufficient"""
    d = best.shape[1]
    if p >= prob[i]:
        prob[i] = p
        length[i] = len(S)
        for j in range(len(S)):
            best[i, j] = S[j]
    if len(S) == d:
        prob[i] = 1
        length[i] = d
        for j in range(d):
            best[i, j] = S[j]


def complement(S, d):
    """the features not in S, as many as there are if S has no feature twice"""
    rest = list(range(d))
    for f in S:
        rest.remove(f)
    return rest[:d - len(S)]


@contract((PYX, 'global_sdp_rf', 'C12 C20'), sorts=LISTS, split=['len(C[0])'], requires=ROWS)
def smallest_sufficient(X, y_X, data, y_data, features, thresholds, left, right, max_depth, min_node_size, classifier, t, C,
                        pi_level, minimal, stop, search_space):
    """sets of players by size; of the first size with a set of which the same decision probability is at least pi_level the best (the
    last of the best), and how often a feature is in one"""
    n = X.shape[0]
    d = X.shape[1]
    P = players(C, search_space)
    sets = subsets(P)
    prob = np.zeros(n)
    length = np.zeros(n, dtype=int)
    best = -1 * np.ones((n, d), dtype=int)
    count = np.zeros(d)
    left_over = list(range(n))
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = sets[size][s]
            for i in left_over:
                p = single_compute_sdp_rf(X[i], y_X[i], data, y_data, S, features, thresholds, left, right, max_depth,
                                          min_node_size, classifier, t[i])
                offer(prob, length, best, i, p, S)
        for i in list(left_over):
            if prob[i] >= pi_level:
                left_over.remove(i)
                for j in range(length[i]):
                    count[best[i, j]] += 1
        if stop and (len(left_over) == 0 or len(sets[size][len(sets[size]) - 1]) >= d // 2):
            break
    return count / n, best, length, prob


@contract((PYX, 'global_ddp_rf', 'C23 C20'), sorts=LISTS, split=['len(C[0])'], requires=ROWS)
def smallest_different(X, y_X, data, y_data, features, thresholds, left, right, max_depth, min_node_size, classifier, t, C,
                       pi_level, minimal, stop, search_space):
    """sets of players by size; of the first size with a set of which the different decision probability, the other features given, is at least pi_level the best (the
    last of the best), and how often a feature is in one"""
    n = X.shape[0]
    d = X.shape[1]
    P = players(C, search_space)
    sets = subsets(P)
    prob = np.zeros(n)
    length = np.zeros(n, dtype=int)
    best = -1 * np.ones((n, d), dtype=int)
    count = np.zeros(d)
    left_over = list(range(n))
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = sets[size][s]
            rest = complement(S, data.shape[1])
            for i in left_over:
                p = single_compute_ddp_rf(X[i], y_X[i], data, y_data, rest, features, thresholds, left, right, max_depth,
                                          min_node_size, classifier, t[i])
                offer(prob, length, best, i, p, S)
        for i in list(left_over):
            if prob[i] >= pi_level:
                left_over.remove(i)
                for j in range(length[i]):
                    count[best[i, j]] += 1
        if stop and (len(left_over) == 0 or len(sets[size][len(sets[size]) - 1]) >= d // 2):
            break
    return count / n, best, length, prob


@contract((PYX, 'global_cdp_rf', 'C23 C20'), sorts=LISTS, split=['len(C[0])'], requires=TARGETS)
def smallest_counterfactual(X, y_X, DOWN, UP, data, y_data, features, thresholds, left, right, max_depth, min_node_size, classifier, t, C,
                            pi_level, minimal, stop, search_space):
    """sets of players by size; of the first size with a set of which the counterfactual probability, the other features given, is at least pi_level the best (the
    last of the best), and how often a feature is in one"""
    n = X.shape[0]
    d = X.shape[1]
    P = players(C, search_space)
    sets = subsets(P)
    prob = np.zeros(n)
    length = np.zeros(n, dtype=int)
    best = -1 * np.ones((n, d), dtype=int)
    count = np.zeros(d)
    left_over = list(range(n))
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = sets[size][s]
            rest = complement(S, data.shape[1])
            for i in left_over:
                p = single_compute_cdp_rf(X[i], y_X[i], DOWN[i], UP[i], data, y_data, rest, features, thresholds, left, right,
                                          max_depth, min_node_size, classifier, t[i])
                offer(prob, length, best, i, p, S)
        for i in list(left_over):
            if prob[i] >= pi_level:
                left_over.remove(i)
                for j in range(length[i]):
                    count[best[i, j]] += 1
        if stop and (len(left_over) == 0 or len(sets[size][len(sets[size]) - 1]) >= d // 2):
            break
    return count / n, best, length, prob


@contract((PYX, 'global_ddp_intv', 'C23 C20'), sorts=LISTS, split=['len(C[0])'], requires=CELLS)
def smallest_changed_given(X, y_X, data, y_data, features, thresholds, left, right, cond, max_depth, min_node_size, classifier, t, C,
                           pi_level, minimal, stop, search_space):
    """sets of players by size; of the first size with a set of which the probability of a changed decision, the other
    features in the given intervals, is at least pi_level the best (the
    last of the best), and how often a feature is in one"""
    n = X.shape[0]
    d = X.shape[1]
    P = players(C, search_space)
    sets = subsets(P)
    prob = np.zeros(n)
    length = np.zeros(n, dtype=int)
    best = -1 * np.ones((n, d), dtype=int)
    count = np.zeros(d)
    left_over = list(range(n))
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = sets[size][s]
            for i in left_over:
                bounds = np.zeros((d, 2))
                bounds[:, 0] = -1e+10
                bounds[:, 1] = 1e+10
                p = single_compute_ddp_intv_rule_weights(X[i], y_X[i], data, y_data, S, features, thresholds, left, right,
                                                         max_depth, min_node_size, classifier, t[i], bounds,
                                                         np.zeros(data.shape[0]), cond[i])
                offer(prob, length, best, i, p, S)
        for i in list(left_over):
            if prob[i] >= pi_level:
                left_over.remove(i)
                for j in range(length[i]):
                    count[best[i, j]] += 1
        if stop and (len(left_over) == 0 or len(sets[size][len(sets[size]) - 1]) >= d // 2):
            break
    return count / n, best, length, prob


@contract((PYX, 'global_cdp_intv', 'C23 C20'), sorts=LISTS, split=['len(C[0])'], requires=CELLS)
def smallest_wanted_given(X, y_X, data, y_data, features, thresholds, left, right, cond, max_depth, min_node_size, classifier, t, C,
                           pi_level, minimal, stop, search_space):
    """sets of players by size; of the first size with a set of which the probability of a wanted decision, the other
    features in the given intervals, is at least pi_level the best (the
    last of the best), and how often a feature is in one"""
    n = X.shape[0]
    d = X.shape[1]
    P = players(C, search_space)
    sets = subsets(P)
    prob = np.zeros(n)
    length = np.zeros(n, dtype=int)
    best = -1 * np.ones((n, d), dtype=int)
    count = np.zeros(d)
    left_over = list(range(n))
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = sets[size][s]
            for i in left_over:
                bounds = np.zeros((d, 2))
                bounds[:, 0] = -1e+10
                bounds[:, 1] = 1e+10
                p = single_compute_cdp_intv_rule_weights(X[i], y_X[i], data, y_data, S, features, thresholds, left, right,
                                                         max_depth, min_node_size, classifier, t[i], bounds,
                                                         np.zeros(data.shape[0]), cond[i])
                offer(prob, length, best, i, p, S)
        for i in list(left_over):
            if prob[i] >= pi_level:
                left_over.remove(i)
                for j in range(length[i]):
                    count[best[i, j]] += 1
        if stop and (len(left_over) == 0 or len(sets[size][len(sets[size]) - 1]) >= d // 2):
            break
    return count / n, best, length, prob


def all_players(C, d):
    """what sets are made of: single features and the coalitions"""
    if C[0] != []:
        grouped = [C[i][j] for i in range(len(C)) for j in range(len(C[i]))]
        return [[f] for f in range(d) if f not in grouped] + C
    return [[f] for f in range(d)]


GROUPS = dict(C=('vec', 2, 'i'), minimal='n')


def class_same(x, fx, y_pred, S, data, values, part, leaf_idx, leaves_nb):
    """the same decision probability of a classifier"""
    a = class_mean(x, fx, y_pred, S, data, values, part, leaf_idx, leaves_nb, 0)
    u = class_mean(x, fx, y_pred, S, data, values, part, leaf_idx, leaves_nb, 1)
    d = class_mean(x, fx, y_pred, S, data, values, part, leaf_idx, leaves_nb, 2)
    return ratio(a - d, u - d)


@contract((PYX, 'global_sdp_clf', 'C22 C05 C20'), sorts=GROUPS, split=['len(C[0])'], requires=LEAVES)
def smallest_sufficient_clf(X, fX, y_pred, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, scaling, C, pi_level,
                            minimal, stop):
    """as smallest_sufficient, with the same decision probability of the leaf estimator"""
    n = X.shape[0]
    d = X.shape[1]
    P = all_players(C, d)
    prob = np.zeros(n)
    length = np.zeros(n, dtype=int)
    best = -1 * np.ones((n, d), dtype=int)
    count = np.zeros(d)
    left_over = list(range(n))
    sets = subsets(P)
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = sets[size][s]
            for i in left_over:
                p = cut(class_same(X[i], fX[i], y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb))
                offer(prob, length, best, i, p, S)
        for i in list(left_over):
            if prob[i] >= pi_level:
                left_over.remove(i)
                for j in range(length[i]):
                    count[best[i, j]] += 1
        if stop and (len(left_over) == 0 or len(sets[size][len(sets[size]) - 1]) >= d // 2):
            break
    return count / n, best, length, prob


@contract((NOPA, 'global_sdp_clf_nopa', 'C22 C05 C20'), sorts=GROUPS, split=['len(C[0])'], requires=LEAVES)
def smallest_sufficient_clf_serial(X, fX, y_pred, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb, scaling, C, pi_level,
                            minimal):
    """as smallest_sufficient, with the same decision probability of the leaf estimator"""
    n = X.shape[0]
    d = X.shape[1]
    P = all_players(C, d)
    prob = np.zeros(n)
    length = np.zeros(n, dtype=int)
    best = -1 * np.ones((n, d), dtype=int)
    count = np.zeros(d)
    left_over = list(range(n))
    sets = subsets(P)
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = sets[size][s]
            for i in left_over:
                p = cut(class_same(X[i], fX[i], y_pred, S, data, values, partition_leaves_trees, leaf_idx_trees, leaves_nb))
                offer(prob, length, best, i, p, S)
        for i in list(left_over):
            if prob[i] >= pi_level:
                left_over.remove(i)
                for j in range(length[i]):
                    count[best[i, j]] += 1
        if len(left_over) == 0 or len(sets[size][len(sets[size]) - 1]) >= d // 2:
            break
    return count / n, best, length, prob
