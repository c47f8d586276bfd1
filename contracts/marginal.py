"""The marginal same decision probability of any model and its search (C19)."""
import itertools

import numpy as np

from dsl import contract
from search import players, subsets, offer

MODEL = ('obj', {}, {'predict': 'rowwise'})
ONE = dict(x=('arr', 'r', 1), X=('arr', 'r', 2), S=('arr', 'i', 1), model=MODEL, rg_data=('arr', 'r', 2), threshold='r', pi_level='r',
           minimal='n', stop='b', C=('vec', 2, 'i'))
SEARCH = dict(ONE, r_search_space=('oneof', 'none', ('vec', 1, 'i')))
FIT = ['rg_data.shape[1] == x.shape[0]']


def replaced(x, S, rows):
    """the rows with x's values on S"""
    r = rows.copy()
    for i in range(rows.shape[0]):
        for f in range(rows.shape[1]):
            if any(S[k] == f for k in range(S.shape[0])):
                r[i, f] = x[f]
    return r


@contract(('utils_sdp.py', 'single_msdp', 'C19 C20'), sorts=ONE, ret='r', requires=FIT)
def same_class(x, S, model, rg_data):
    """share of the rows that get x's class with x's values on S; 1 if S is everything"""
    n = rg_data.shape[0]
    if S.shape[0] == x.shape[0]:
        return 1
    own = model.predict(x.reshape(1, -1))[0]
    got = model.predict(replaced(x, S, rg_data))
    return sum(got[i] == own for i in range(n)) / n


@contract(('utils_sdp.py', 'single_msdp_reg', 'C19 C20'), sorts=ONE, ret='r', requires=FIT)
def same_value(x, S, model, rg_data, threshold):
    """share of the rows that get a value within the threshold of x's"""
    n = rg_data.shape[0]
    if S.shape[0] == x.shape[0]:
        return 1
    own = model.predict(x.reshape(1, -1))[0]
    got = model.predict(replaced(x, S, rg_data))
    return sum(abs(got[i] - own) <= threshold for i in range(n)) / n


@contract(('utils_sdp.py', 'msdp', 'C19 C20'), sorts=ONE)
def same_classes(X, S, model, rg_data):
    return np.array([single_msdp(X[i], S, model, rg_data) for i in range(X.shape[0])])


@contract(('utils_sdp.py', 'msdp_reg', 'C19 C20'), sorts=ONE)
def same_values(X, S, model, rg_data, threshold):
    return np.array([single_msdp_reg(X[i], S, model, rg_data, threshold) for i in range(X.shape[0])])


FIT2 = ['rg_data.shape[1] == X.shape[1]']


@contract(('utils_sdp.py', 'importance_msdp_clf_search', 'C19 C20'), sorts=SEARCH, split=['len(C[0])'], requires=FIT2)
def smallest_marginal(X, model, rg_data, C, minimal, pi_level, r_search_space, stop):
    """sets of players by size; of the first size with a set of which the marginal same decision probability is at least pi_level
    the best (the last of the best), and how often a feature is in one"""
    n = X.shape[0]
    d = X.shape[1]
    P = players(C, list(range(d)) if r_search_space is None else r_search_space)
    sets = subsets(P)
    prob = np.zeros(n)
    length = np.zeros(n, dtype=int)
    best = -1 * np.ones((n, d), dtype=int)
    count = np.zeros(d)
    left_over = list(range(n))
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = np.array(sets[size][s])
            for i in left_over:
                offer(prob, length, best, i, single_msdp(X[i], S, model, rg_data), S)
        for i in list(left_over):
            if prob[i] >= pi_level:
                left_over.remove(i)
                for j in range(length[i], d):
                    best[i, j] = -1
                for j in range(length[i]):
                    count[best[i, j]] += 1
        if (len(left_over) == 0 or 2 * len(sets[size][len(sets[size]) - 1]) >= d) and stop:
            break
    return count / n, best, length, prob


@contract(('utils_sdp.py', 'importance_msdp_reg_search', 'C19 C20'), sorts=SEARCH, split=['len(C[0])'], requires=FIT2)
def smallest_marginal_reg(X, model, rg_data, C, minimal, pi_level, threshold, r_search_space, stop):
    """sets of players by size; of the first size with a set of which the marginal same decision probability is at least pi_level
    the best (the last of the best), and how often a feature is in one"""
    n = X.shape[0]
    d = X.shape[1]
    P = players(C, list(range(d)) if r_search_space is None else r_search_space)
    sets = subsets(P)
    prob = np.zeros(n)
    length = np.zeros(n, dtype=int)
    best = -1 * np.ones((n, d), dtype=int)
    count = np.zeros(d)
    left_over = list(range(n))
    for size in range(minimal, len(P) + 1):
        for s in range(len(sets[size])):
            S = np.array(sets[size][s])
            for i in left_over:
                offer(prob, length, best, i, single_msdp_reg(X[i], S, model, rg_data, threshold), S)
        for i in list(left_over):
            if prob[i] >= pi_level:
                left_over.remove(i)
                for j in range(length[i], d):
                    best[i, j] = -1
                for j in range(length[i]):
                    count[best[i, j]] += 1
        if (len(left_over) == 0 or 2 * len(sets[size][len(sets[size]) - 1]) >= d) and stop:
            break
    return count / n, best, length, prob
