"""The active and null variables of a search result (C14)."""
import numpy as np

from dsl import contract

SETS = dict(s_star=('arr', 'i', 2), len_s_star=('arr', 'n', 1))


@contract(('utils.py', 'get_active_null_coalition_list', 'C14 C20'), sorts=SETS)
def lists(s_star, len_s_star):
    """the first entries of each row, and the features that are none of them (in any order)"""
    n = s_star.shape[0]
    active = [[s_star[i, j] for j in range(len_s_star[i])] for i in range(n)]
    null = [list({f for f in range(s_star.shape[1]) if not any(s_star[i, j] == f for j in range(len_s_star[i]))}) for i in range(n)]
    return active, null


@contract(('utils.py', 'get_null_coalition', 'C14 C20'), sorts=SETS)
def padded(s_star, len_s_star):
    """the rows, and the features that are not in the row, behind as many -1 as the row has features"""
    null = np.zeros(s_star.shape)
    for i in range(s_star.shape[0]):
        for j in range(s_star.shape[1]):
            null[i, j] = -1
        rest = {f for f in range(s_star.shape[1]) if not any(s_star[i, j] == f for j in range(s_star.shape[1]))}
        null[i, len_s_star[i]:] = list(rest)
    return s_star, null
