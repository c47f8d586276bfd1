"""The methods of ACVTree: the kernel they call, with what, and what they return of it."""
from dsl import wrapper

AT = 'acv_tree.py'


def decisions(self, X):
    return np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)


def boosted(self):
    """a binary boosted model with one output"""
    return safe_isinstance(self.model, ["xgboost.sklearn.XGBClassifier", "catboost.core.CatBoostClassifier",
                                        "lightgbm.sklearn.LGBMClassifier",
                                        "sklearn.ensemble.GradientBoostingClassifier",
                                        "sklearn.ensemble._gb.GradientBoostingClassifier",
                                        "sklearn.ensemble.gradient_boosting.GradientBoostingClassifier"]) and self.num_outputs == 1


def votes(self):
    """the leaf values whose sign decides"""
    return self.values_binary if boosted(self) else self.values


def frequent(self):
    """the features by the number of nodes that split on them"""
    return [v for v in pd.Series([i for t in self.node_idx_trees for n in t for i in n]).value_counts().keys()]


@wrapper(AT, 'ACVTree.shap_values', 'C02 C03 C04 C05')
def shap_values(self, X, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer; with a cache, the caching method"""
    if self.cache:
        return self.shap_values_cache(X, C)
    return cyext_acv.shap_values_leaves_pa(X, self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees,
        self.leaves_nb, self.max_var, self.node_idx_trees, C, num_threads)


@wrapper(AT, 'ACVTree.shap_values_nopa', 'C05')
def shap_values_nopa(self, X, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv_nopa.shap_values_leaves_nopa(X, self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees,
        self.leaves_nb, self.max_var, self.node_idx_trees, C, num_threads)


@wrapper(AT, 'ACVTree.shap_values_cache', 'C05')
def shap_values_cache(self, X, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv_cache.shap_values_leaves_cache(X, self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees,
        self.leaves_nb, self.lm, self.lm_s, self.lm_si, self.max_var, self.node_idx_trees, C, num_threads)


@wrapper(AT, 'ACVTree.shap_values_cache_nopa', 'C05')
def shap_values_cache_nopa(self, X, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv_nopa.shap_values_leaves_cache_nopa(X, self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees,
        self.leaves_nb, self.lm, self.lm_s, self.lm_si, self.max_var, self.node_idx_trees, C, num_threads)


@wrapper(AT, 'ACVTree.shap_values_acv', 'C06')
def shap_values_acv(self, X, S_star, N_star, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv.shap_values_acv_leaves(X, self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees,
        self.leaves_nb, self.max_var, self.node_idx_trees, S_star, N_star, C, num_threads)


@wrapper(AT, 'ACVTree.shap_values_acv_nopa', 'C05 C06')
def shap_values_acv_nopa(self, X, S_star, N_star, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv_nopa.shap_values_acv_leaves_nopa(X, self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees,
        self.leaves_nb, self.max_var, self.node_idx_trees, S_star, N_star, C, num_threads)


@wrapper(AT, 'ACVTree.shap_values_acv_adap', 'C06')
def shap_values_acv_adap(self, X, S_star, N_star, size, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv.shap_values_acv_leaves_adap(X, self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees,
        self.leaves_nb, self.max_var, self.node_idx_trees, check_array(S_star, dtype=[np.long]), check_array(N_star, dtype=[np.long]), size, C, num_threads)


@wrapper(AT, 'ACVTree.shap_values_acv_adap_nopa', 'C05 C06')
def shap_values_acv_adap_nopa(self, X, S_star, N_star, size, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv_nopa.shap_values_acv_leaves_adap_nopa(X, self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees,
        self.leaves_nb, self.max_var, self.node_idx_trees, check_array(S_star, dtype=[np.long]), check_array(N_star, dtype=[np.long]), size, C, num_threads)


@wrapper(AT, 'ACVTree.shap_values_normalized', 'C05')
def shap_values_normalized(self, X, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    if self.cache_normalized:
        return self.shap_values_normalized_cache(X, C)
    return cyext_acv.shap_values_leaves_normalized(X, self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees,
        self.leaves_nb, self.max_var, self.node_idx_trees, C, num_threads)


@wrapper(AT, 'ACVTree.shap_values_normalized_cache', 'C05')
def shap_values_normalized_cache(self, X, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv_cache.shap_values_leaves_normalized_cache(X, self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees,
        self.leaves_nb, self.lm_n, self.lm_s_n, self.lm_si_n, self.max_var, self.node_idx_trees, C, num_threads)


@wrapper(AT, 'ACVTree.leaves_cache', 'C05')
def leaves_cache(self, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv_cache.leaves_cache(self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
        self.max_var, self.node_idx_trees, C, num_threads)


@wrapper(AT, 'ACVTree.leaves_cache_normalized', 'C05')
def leaves_cache_normalized(self, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv_cache.leaves_cache_normalized(self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
        self.max_var, self.node_idx_trees, C, num_threads)


@wrapper(AT, 'ACVTree.leaves_cache_nopa', 'C05')
def leaves_cache_nopa(self, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv_nopa.leaves_cache_nopa(self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
        self.max_var, self.node_idx_trees, C, num_threads)


@wrapper(AT, 'ACVTree.leaves_cache_normalized_nopa', 'C05')
def leaves_cache_normalized_nopa(self, C=[[]], num_threads=10):
    """the kernel, on the trees and the background data of the explainer"""
    return cyext_acv_nopa.leaves_cache_normalized_nopa(self.data, self.values, self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
        self.max_var, self.node_idx_trees, C, num_threads)


@wrapper(AT, 'ACVTree.compute_exp', 'C07')
def compute_exp(self, X, S, data, num_threads=10):
    """the kernel, on the trees of the explainer"""
    return cyext_acv.compute_exp(X, S, data, self.values, self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)


@wrapper(AT, 'ACVTree.compute_exp_cat', 'C07')
def compute_exp_cat(self, X, S, data, num_threads=10):
    """the kernel, on the trees of the explainer"""
    return cyext_acv.compute_exp_cat(X, S, data, self.values, self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)


@wrapper(AT, 'ACVTree.compute_exp_normalized', 'C07')
def compute_exp_normalized(self, X, S, data, num_threads=10):
    """the kernel, on the trees of the explainer"""
    return cyext_acv.compute_exp_normalized(X, S, data, self.values, self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)


@wrapper(AT, 'ACVTree.compute_exp_nopa', 'C07 C05')
def compute_exp_nopa(self, X, S, data, num_threads=10):
    """the kernel, on the trees of the explainer"""
    return cyext_acv_nopa.compute_exp_nopa(X, S, data, self.values, self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)


@wrapper(AT, 'ACVTree.compute_exp_cat_nopa', 'C07 C05')
def compute_exp_cat_nopa(self, X, S, data, num_threads=10):
    """the kernel, on the trees of the explainer"""
    return cyext_acv_nopa.compute_exp_cat_nopa(X, S, data, self.values, self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)


@wrapper(AT, 'ACVTree.compute_exp_normalized_nopa', 'C07 C05')
def compute_exp_normalized_nopa(self, X, S, data, num_threads=10):
    """the kernel, on the trees of the explainer"""
    return cyext_acv_nopa.compute_exp_normalized(X, S, data, self.values, self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)


@wrapper(AT, 'ACVTree.compute_sdp_clf', 'C08')
def compute_sdp_clf(self, X, S, data, num_threads=10):
    """the kernel, on the trees of the explainer and the decisions of the model"""
    return cyext_acv.compute_sdp_clf(X, decisions(self, X), decisions(self, data), S, data, votes(self),
        self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)


@wrapper(AT, 'ACVTree.compute_sdp_clf_cat', 'C08')
def compute_sdp_clf_cat(self, X, S, data, num_threads=10):
    """the kernel, on the trees of the explainer and the decisions of the model"""
    return cyext_acv.compute_sdp_clf_cat(X, decisions(self, X), decisions(self, data), S, data, votes(self),
        self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)


@wrapper(AT, 'ACVTree.compute_sdp_clf_nopa', 'C08 C05')
def compute_sdp_clf_nopa(self, X, S, data, num_threads=10):
    """the kernel, on the trees of the explainer and the decisions of the model"""
    return cyext_acv_nopa.compute_sdp_clf_nopa(X, decisions(self, X), decisions(self, data), S, data, self.values,
        self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)


@wrapper(AT, 'ACVTree.compute_sdp_clf_cat_nopa', 'C08 C05')
def compute_sdp_clf_cat_nopa(self, X, S, data, num_threads=10):
    """the kernel, on the trees of the explainer and the decisions of the model"""
    return cyext_acv_nopa.compute_sdp_clf_cat_nopa(X, decisions(self, X), decisions(self, data), S, data, self.values,
        self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)


@wrapper(AT, 'ACVTree.importance_sdp_clf_greedy', 'C22')
def importance_sdp_clf_greedy(self, X, data, C=[[]], pi_level=0.9, minimal=1, stop=True):
    """the search over sets of all features"""
    return cyext_acv.global_sdp_clf(X, decisions(self, X), decisions(self, data), data, votes(self),
        self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, C, pi_level, minimal, stop)


@wrapper(AT, 'ACVTree.importance_sdp_clf_search', 'C22')
def importance_sdp_clf_search(self, X, data, C=[[]], pi_level=0.9, minimal=1, search_space=[], stop=True):
    """the search over sets of the given features"""
    return cyext_acv.global_sdp_clf_approx(X, decisions(self, X), decisions(self, data), data, votes(self),
        self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, C, pi_level, minimal, search_space, stop)


@wrapper(AT, 'ACVTree.importance_sdp_clf_nopa', 'C22 C05')
def importance_sdp_clf_nopa(self, X, data, C=[[]], pi_level=0.9, minimal=0):
    """the serial search"""
    return cyext_acv_nopa.global_sdp_clf_nopa(X, decisions(self, X), decisions(self, data), data, self.values,
        self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings, C, pi_level, minimal)


@wrapper(AT, 'ACVTree.importance_sdp_clf', 'C22')
def importance_sdp_clf(self, X, data, C=[[]], pi_level=0.9, minimal=1, stop=True):
    """the search over all features, or over the ten most frequent"""
    if X.shape[1] > 10:
        return self.importance_sdp_clf_search(X, data, C, pi_level, minimal, frequent(self)[:10], stop)
    return self.importance_sdp_clf_greedy(X, data, C, pi_level, minimal, stop)


@wrapper(AT, 'ACVTree.compute_msdp_clf', 'C19')
def compute_msdp_clf(self, X, S, data, model=None, N=10000):
    """the estimator, of the model given or of the explainer"""
    return msdp(X, S, self.model if model == None else model, data)


@wrapper(AT, 'ACVTree.compute_msdp_reg', 'C19')
def compute_msdp_reg(self, X, S, data, model=None, N=10000, threshold=0.2):
    """the estimator, of the model given or of the explainer"""
    return msdp_reg(X, S, self.model if model == None else model, data, threshold)


@wrapper(AT, 'ACVTree.importance_msdp_clf_search', 'C19')
def search_clf(self, X, data, model=None, C=[[]], minimal=1, pi_level=0.9, r_search_space=None, stop=True):
    """the search, of the model given or of the explainer"""
    return importance_msdp_clf_search(X=X, rg_data=data, model=self.model if model == None else model, C=C, minimal=minimal,
        pi_level=pi_level, r_search_space=r_search_space, stop=stop)


@wrapper(AT, 'ACVTree.importance_msdp_reg_search', 'C19')
def search_reg(self, X, data, model=None, C=[[]], minimal=1, pi_level=0.9, threshold=0.2, r_search_space=None, stop=True):
    """the search, of the model given or of the explainer"""
    return importance_msdp_reg_search(X=X, rg_data=data, model=self.model if model == None else model, C=C, minimal=minimal,
        pi_level=pi_level, threshold=threshold, r_search_space=r_search_space, stop=stop)


@wrapper(AT, 'ACVTree.importance_msdp_clf', 'C19')
def importance_msdp_clf(self, X, data, model=None, C=[[]], pi_level=0.9, minimal=1, stop=True):
    """over all features, or over the fifteen most frequent"""
    return self.importance_msdp_clf_search(X=X, data=data, model=model, C=C, pi_level=pi_level, minimal=minimal, stop=stop,
        r_search_space=frequent(self)[:15] if X.shape[1] > 15 else None)


@wrapper(AT, 'ACVTree.importance_msdp_reg', 'C19')
def importance_msdp_reg(self, X, data, model=None, C=[[]], pi_level=0.9, minimal=1, threshold=0.2, stop=True):
    """over all features, or over the fifteen most frequent"""
    return self.importance_msdp_reg_search(X=X, data=data, model=model, C=C, pi_level=pi_level, minimal=minimal,
        threshold=threshold, stop=stop, r_search_space=frequent(self)[:15] if X.shape[1] > 15 else None)


@wrapper(AT, 'ACVTree.compute_sdp_rf', 'C09')
def compute_sdp_rf(self, X, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
    """the kernel, on the trees of the explainer"""
    return cyext_acv.compute_sdp_rf(X, y, data, y_data, S, self.features, self.thresholds, self.children_left,
        self.children_right, self.max_depth, min_node_size, classifier, t)


@wrapper(AT, 'ACVTree.compute_exp_rf', 'C11')
def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, classifier=1, t=20):
    """the kernel, on the trees of the explainer"""
    return cyext_acv.compute_exp_rf(X, y, data, y_data, S, self.features, self.thresholds, self.children_left,
        self.children_right, self.max_depth, min_node_size, classifier, t)
