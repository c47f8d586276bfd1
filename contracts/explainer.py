"""The methods of ACXplainer and ACVTree: the kernel they call, with what, and what they return of it."""
from dsl import wrapper

AX, AT = 'acv_agnosticX.py', 'acv_tree.py'


def level(self, X, t):
    """the interval of a regression, by default the predicted quantiles; not used for a classifier"""
    if self.classifier:
        return np.zeros((X.shape[0], 2))
    if t is None:
        return self.model.predict_quantiles(X, quantiles=[0.05, 0.95])
    return t


def candidates(self, X):
    """the ten most important features, or all"""
    if X.shape[1] > 10:
        return np.argsort(-self.model.feature_importances_)[:10]
    return range(X.shape[1])[:10]


@wrapper(AX, 'ACXplainer.compute_sdp_rf', 'C09')
def compute_sdp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
    """the kernel, on the forest of the explainer"""
    return cyext_acv.compute_sdp_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                    self.ACXplainer.children_left, self.ACXplainer.children_right,
                                    self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))


@wrapper(AX, 'ACXplainer.compute_sdp_rule', 'C15')
def compute_sdp_rule(self, X, y, data, y_data, S, min_node_size=5, t=None):
    """the kernel, on the forest of the explainer"""
    r = cyext_acv.compute_sdp_rule(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                   self.ACXplainer.children_left, self.ACXplainer.children_right,
                                   self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))
    return r[0], r[1]


@wrapper(AX, 'ACXplainer.compute_ddp_rf', 'C10')
def compute_ddp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
    """the kernel, on the forest of the explainer"""
    return cyext_acv.compute_ddp_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                    self.ACXplainer.children_left, self.ACXplainer.children_right,
                                    self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))


@wrapper(AX, 'ACXplainer.compute_ddp_rule', 'C10')
def compute_ddp_rule(self, X, y, data, y_data, S, min_node_size=5, t=None):
    """the kernel, on the forest of the explainer"""
    r = cyext_acv.compute_ddp_rule(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                   self.ACXplainer.children_left, self.ACXplainer.children_right,
                                   self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))
    return r[0], r[1]


@wrapper(AX, 'ACXplainer.compute_exp_rf', 'C11')
def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
    """the kernel, on the forest of the explainer"""
    return cyext_acv.compute_exp_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                    self.ACXplainer.children_left, self.ACXplainer.children_right,
                                    self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))


@wrapper(AX, 'ACXplainer.compute_cdf_rf', 'C11')
def compute_cdf_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
    """the kernel, on the forest of the explainer"""
    return cyext_acv.compute_cdf_rf(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                    self.ACXplainer.children_left, self.ACXplainer.children_right,
                                    self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))


@wrapper(AX, 'ACXplainer.compute_cdp_rf', 'C10')
def compute_cdp_rf(self, X, y, down, up, data, y_data, S, min_node_size=5, t=None):
    """the kernel, on the forest of the explainer"""
    return cyext_acv.compute_cdp_rf(X, y, down, up, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                    self.ACXplainer.children_left, self.ACXplainer.children_right,
                                    self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))


@wrapper(AX, 'ACXplainer.compute_cdp_rule', 'C10')
def compute_cdp_rule(self, X, y, down, up, data, y_data, S, min_node_size=5, t=None):
    """the kernel, on the forest of the explainer"""
    r = cyext_acv.compute_cdp_rule(X, y, down, up, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                                   self.ACXplainer.children_left, self.ACXplainer.children_right,
                                   self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))
    return r[0], r[1]


@wrapper(AX, 'ACXplainer.importance_sdp_rf', 'C12')
def importance_sdp_rf(self, X, y, data, y_data, min_node_size=5, t=None, C=[[]], pi_level=0.9, minimal=1, stop=True):
    """the search, over sets of the candidates"""
    return cyext_acv.global_sdp_rf(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                   self.ACXplainer.children_left, self.ACXplainer.children_right,
                                   self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), C,
                                   pi_level, minimal, stop, candidates(self, X))


@wrapper(AX, 'ACXplainer.importance_ddp_rf', 'C23')
def importance_ddp_rf(self, X, y, data, y_data, min_node_size=5, t=None, C=[[]], pi_level=0.9, minimal=1, stop=True):
    """the search, over sets of the candidates"""
    return cyext_acv.global_ddp_rf(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                   self.ACXplainer.children_left, self.ACXplainer.children_right,
                                   self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), C,
                                   pi_level, minimal, stop, candidates(self, X))


@wrapper(AX, 'ACXplainer.importance_cdp_rf', 'C23')
def importance_cdp_rf(self, X, y, down, up, data, y_data, min_node_size=5, t=None, C=[[]], pi_level=0.9, minimal=1, stop=True):
    """the search, over sets of the candidates"""
    return cyext_acv.global_cdp_rf(X, y, down, up, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                   self.ACXplainer.children_left, self.ACXplainer.children_right,
                                   self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), C,
                                   pi_level, minimal, stop, candidates(self, X))


@wrapper(AX, 'ACXplainer.sufficient_expl_rf', 'C13')
def sufficient_expl_rf(self, X, y, data, y_data, min_node_size=5, t=None, C=[[]], pi_level=0.9, minimal=1, stop=True):
    """the listing, without the placeholder in front"""
    r = cyext_acv.sufficient_expl_rf(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                     self.ACXplainer.children_left, self.ACXplainer.children_right,
                                     self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), C,
                                     pi_level, minimal, stop, candidates(self, X))
    return [q[1:] for q in r[0]], [q[1:] for q in r[1]], r[2]


@wrapper(AX, 'ACXplainer.sufficient_cxpl_rf', 'C13')
def sufficient_cxpl_rf(self, X, y, data, y_data, min_node_size=5, t=None, C=[[]], pi_level=0.9, minimal=1, stop=True):
    """the listing, without the placeholder in front"""
    r = cyext_acv.sufficient_cxpl_rf(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                                     self.ACXplainer.children_left, self.ACXplainer.children_right,
                                     self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), C,
                                     pi_level, minimal, stop, candidates(self, X))
    return [q[1:] for q in r[0]], [q[1:] for q in r[1]], r[2]



@wrapper(AX, 'ACXplainer.compute_ddp_weights', 'C10 C18')
def compute_ddp_weights(self, X, y, data, y_data, S, min_node_size=5, t=None, pi_level=0.95, verbose=False, algo2=False, rdm_size=20):
    """the kernel, on the forest of the explainer; verbose: the one with a progress bar"""
    if verbose:
        r = cyext_acv.compute_ddp_weights_verbose(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), pi_level)
    else:
        r = cyext_acv.compute_ddp_weights(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), pi_level)
    return r[0], r[1]


@wrapper(AX, 'ACXplainer.compute_cdp_weights', 'C10 C18')
def compute_cdp_weights(self, X, y, down, up, data, y_data, S, min_node_size=5, t=None, pi_level=0.95, verbose=False, algo2=False, rdm_size=20):
    """the kernel, on the forest of the explainer; verbose: the one with a progress bar"""
    if verbose:
        r = cyext_acv.compute_cdp_weights_verbose(X, y, down, up, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), pi_level)
    else:
        r = cyext_acv.compute_cdp_weights(X, y, down, up, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), pi_level)
    return r[0], r[1]


@wrapper(AX, 'ACXplainer.compute_cdp_cond_weights', 'C10 C18')
def compute_cdp_cond_weights(self, X, y, down, up, data, y_data, S, cond, min_node_size=5, t=None, pi_level=0.95, verbose=False, algo2=False, rdm_size=20):
    """the kernel, on the forest of the explainer"""
    r = cyext_acv.compute_cdp_cond_weights(X, y, down, up, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                cond, self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), pi_level)
    return r[0], r[1]


@wrapper(AX, 'ACXplainer.compute_ddp_cond_weights', 'C10 C18')
def compute_ddp_cond_weights(self, X, y, data, y_data, S, cond, min_node_size=5, t=None, pi_level=0.95, verbose=False, algo2=False, rdm_size=20):
    """the kernel, on the forest of the explainer"""
    r = cyext_acv.compute_ddp_cond_weights(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                cond, self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), pi_level)
    return r[0], r[1]


@wrapper(AX, 'ACXplainer.compute_ddp_intv_weights', 'C10 C18')
def compute_ddp_intv_weights(self, X, y, data, y_data, S, cond, min_node_size=5, t=None, pi_level=0.95, verbose=False, algo2=False, rdm_size=20):
    """the kernel, on the forest of the explainer"""
    r = cyext_acv.compute_ddp_intv_weights(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                cond, self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))
    return r[0], r[1]


@wrapper(AX, 'ACXplainer.compute_cdp_intv_weights', 'C10 C18')
def compute_cdp_intv_weights(self, X, y, data, y_data, S, cond, min_node_size=5, t=None, pi_level=0.95, verbose=False, algo2=False, rdm_size=20):
    """the kernel, on the forest of the explainer"""
    r = cyext_acv.compute_cdp_intv_weights(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                cond, self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))
    return r[0], r[1]


@wrapper(AX, 'ACXplainer.compute_ddp_intv_same', 'C10')
def compute_ddp_intv_same(self, X, y, data, y_data, S, cond, min_node_size=5, t=None, pi_level=0.95, verbose=False, algo2=False, rdm_size=20):
    """the kernel, on the forest of the explainer"""
    return cyext_acv.compute_ddp_intv_same_set(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                cond, self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))


@wrapper(AX, 'ACXplainer.compute_cdp_intv_same', 'C10')
def compute_cdp_intv_same(self, X, y, data, y_data, S, cond, min_node_size=5, t=None, pi_level=0.95, verbose=False, algo2=False, rdm_size=20):
    """the kernel, on the forest of the explainer"""
    return cyext_acv.compute_cdp_intv_same_set(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                cond, self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t))


@wrapper(AX, 'ACXplainer.importance_ddp_intv', 'C23')
def importance_ddp_intv(self, X, y, data, y_data, cond, min_node_size=5, t=None, C=[[]], pi_level=0.9, minimal=1, stop=True):
    """the search, over sets of the candidates"""
    return cyext_acv.global_ddp_intv(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                cond, self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), C, pi_level,
                minimal, stop, candidates(self, X))


@wrapper(AX, 'ACXplainer.importance_cdp_intv', 'C23')
def importance_cdp_intv(self, X, y, data, y_data, cond, min_node_size=5, t=None, C=[[]], pi_level=0.9, minimal=1, stop=True):
    """the search, over sets of the candidates"""
    return cyext_acv.global_cdp_intv(X, y, data, y_data, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                cond, self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), C, pi_level,
                minimal, stop, candidates(self, X))


@wrapper(AX, 'ACXplainer.compute_sdp_maxrules', 'C16')
def compute_sdp_maxrules(self, X, y, data, y_data, S, min_node_size=5, t=None, pi_level=0.95, verbose=False, algo2=False,
                         p_best=0.85, n_try=50, batch=50, max_iter=200, temp=1, max_iter_convergence=10):
    """the rules of the kernel, extended by annealing (or by algo2), with the other results as they are"""
    if verbose:
        r = cyext_acv.compute_sdp_maxrule_verbose(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), pi_level)
    else:
        r = cyext_acv.compute_sdp_maxrule(X, y, data, y_data, S, self.ACXplainer.features, self.ACXplainer.thresholds,
                self.ACXplainer.children_left, self.ACXplainer.children_right,
                self.ACXplainer.max_depth, min_node_size, self.classifier, level(self, X, t), pi_level)
    rules, rules_data, sdp_all = r[1], r[3], r[2]
    if algo2:
        extend_partition(rules, rules_data, sdp_all, pi=pi_level, S=S)
    else:
        rules = rules_by_annealing(volume_rectangles, rules, rules_data, sdp_all, data, pi_level=pi_level, p_best=p_best,
                                   n_try=n_try, batch=batch, max_iter=max_iter, temp=temp,
                                   max_iter_convergence=max_iter_convergence)[0]
    return r[0], rules, sdp_all, rules_data, r[4]


@wrapper(AX, 'ACXplainer.compute_msdp_clf', 'C19')
def compute_msdp_clf(X, S, data, model=None):
    """the estimator of classifiers"""
    return msdp(X, S, model, data)


@wrapper(AX, 'ACXplainer.compute_msdp_reg', 'C19')
def compute_msdp_reg(X, S, data, model=None, threshold=0.2):
    """the estimator of regressors"""
    return msdp_reg(X, S, model, data, threshold)


@wrapper(AX, 'ACXplainer.importance_msdp_clf_search', 'C19')
def importance_clf(X, data, model=None, C=[[]], minimal=1, pi_level=0.9, r_search_space=None, stop=True):
    """the search for classifiers"""
    return importance_msdp_clf_search(X=X, rg_data=data, model=model, C=C, minimal=minimal, pi_level=pi_level,
                                      r_search_space=r_search_space, stop=stop)


@wrapper(AX, 'ACXplainer.importance_msdp_reg_search', 'C19')
def importance_reg(X, data, model=None, C=[[]], minimal=1, pi_level=0.9, threshold=0.2, r_search_space=None, stop=True):
    """the search for regressors"""
    return importance_msdp_reg_search(X=X, rg_data=data, model=model, C=C, minimal=minimal, pi_level=pi_level,
                                      threshold=threshold, r_search_space=r_search_space, stop=stop)


@wrapper(AX, 'ACXplainer.predict_global_rules', 'C17')
def predict_global_rules(self, X, coverage=0.0, min_acc=0.8, min_reg=1000):
    """the rules fitted, their outputs, coverages and accuracies"""
    if not self.check_is_globalrule:
        raise NotFittedError()
    if self.classifier:
        return global_rules_model(X, self.rules, self.rules_output, self.rules_coverage, self.rules_acc, coverage,
                                  self.rules_s_star, min_acc)
    return global_rules_model_reg(X, self.rules, self.rules_output, self.rules_coverage, self.rules_acc, coverage,
                                  self.rules_s_star, min_reg)


@wrapper(AX, 'ACXplainer.predict_proba_global_rules', 'C17')
def predict_proba_global_rules(self, X, coverage=0.0, min_acc=0.8):
    """as for predict_global_rules, with the output probabilities; an error for a regressor"""
    if not self.check_is_globalrule or not self.classifier:
        raise NotFittedError()
    return global_rules_model(X, self.rules, self.rules_output_proba, self.rules_coverage, self.rules_acc, coverage,
                              self.rules_s_star, min_acc)


@wrapper(AX, 'ACXplainer.fit_global_rules', 'C17')
def fit_global_rules(self, X, y, rules, rules_s_star):
    """the distinct rules, and their metrics on the data"""
    u = unique_rules_s_star(rules, rules_s_star)
    m = compute_rules_metrics(u[0], X, y, u[1], self.classifier)
    self.rules_ori = rules
    self.rules_s_star_ori = rules_s_star
    self.rules = u[0]
    self.rules_s_star = u[1]
    if self.classifier:
        self.rules_output_proba = m[4]
    self.rules_coverage = m[0]
    self.rules_acc = m[1]
    self.rules_var = m[2]
    self.rules_output = m[3]
    self.check_is_globalrule = True
