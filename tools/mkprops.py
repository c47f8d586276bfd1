"""Writes properties.jsonl."""
import json
import os
K = 'acv_explainers/cyext_acv/cyext_acv.pyx'
NP = 'acv_explainers/cyext_acv/cyext_acv_nopa.pyx'
CA = 'acv_explainers/cyext_acv/cyext_acv_cache.pyx'
AT = 'acv_explainers/acv_tree.py'
AX = 'acv_explainers/acv_agnosticX.py'
BT = 'acv_explainers/base_tree.py'
BA = 'acv_explainers/base_agnostree.py'
UT = 'acv_explainers/utils.py'
UC = 'acv_explainers/utils_cr.py'
US = 'acv_explainers/utils_sdp.py'
CR = 'acv_explainers/counterfactual_rules.py'
PY = 'acv_explainers/py_acv.py'
P = []


def p(id, title, st, over, text, why, files, mech, obs, state=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=obs)))


p('C01', 'The loaded tree ensemble is the model it was loaded from',
  'For every fitted model the tree explainer accepts (scikit-learn trees, forests, extra-trees and gradient boosting, '
  'XGBoost, ranger and the plain dictionary format) and every complete input row, the prediction recomputed from the '
  'explainer\'s own trees equals the model\'s raw output: leaf mean or class frequencies for trees and forests, margin or '
  'log-odds for boosted ensembles. A tree limit gives the output of that many first trees (rounds for multiclass '
  'boosting).',
  ['inputs', 'configurations'], 'all models of the supported families, all background sets, all rows without missing values',
  'The tests check a handful of fitted models with a loose tolerance; they cannot cover every tree shape, class count, '
  'learning rate, initial score or tree limit.',
  [BT, 'acv_explainers/cext_acv/_cext.cc', 'acv_explainers/cext_acv/acv_tree.h'],
  [('BaseTree / TreeEnsemble loaders', BT), ('dense_tree_predict', 'acv_explainers/cext_acv/acv_tree.h')],
  ['ACVTree(model, data).predict(X) against model.predict/decision_function/predict_proba'],
  [('trees[*].children/features/thresholds/values', 'the explainer\'s copy of the ensemble', BT)])

p('C02', 'Tree Shapley values are the exact Shapley values of the leaf game',
  'For every tree ensemble, background set, sample and output, the Shapley value of each feature is the exact Shapley '
  'value of the game whose worth of a feature set S is the sum over leaves compatible with the sample on S of the '
  'leaf value times the background share of the leaf within its cell restricted to S (zero where that cell holds no '
  'background row).',
  ['inputs'], 'all ensembles, background sets, samples and outputs, with singleton players',
  'The tests compare two implementations in the same package on one or two models; a shared or rare-shape error (a '
  'feature absent from a leaf, an empty cell, a threshold equal to a value) is never met.',
  [K, AT], [('shap_values_leaves_pa', K), ('binomialC', K), ('shap_values', AT)],
  ['ACVTree.shap_values(X, C=[[]])'])

p('C03', 'Shapley values are efficient, symmetric, linear and give null features zero',
  'For every ensemble, sample and output: the Shapley values of all players sum to the prediction minus the mean '
  'prediction over the background set; a feature no tree splits on gets zero; features of one coalition get the same '
  'value; and the values of a sum of trees are the sums of the values of the trees.',
  ['inputs'], 'all ensembles, background sets, coalitions, samples and outputs whose leaves are all reached by the background',
  'The tests print or compare a few values; the axioms quantify over every ensemble, sample and coalition.',
  [K, AT], [('shap_values_leaves_pa', K), ('shap_values', AT)], ['ACVTree.shap_values', 'ACVTree.predict'])

p('C04', 'Shapley values of coalitions treat each group of features as one player',
  'With a list of disjoint feature coalitions, every feature of a coalition gets the exact Shapley value of that '
  'coalition as one player in the game of C02, and the other features their value as single players, whatever the '
  'number, order and size of the coalitions.',
  ['inputs', 'configurations'], 'all ensembles, all families of disjoint coalitions, all samples',
  'The tests use one fixed coalition on one model.',
  [K, NP, AT], [('shap_values_leaves_pa', K), ('shap_values_leaves_nopa', NP)], ['ACVTree.shap_values(X, C=coalitions)'])

p('C05', 'Serial, parallel and cached computations give the same values',
  'The parallel, the serial and the cached computation of the same Shapley values, active Shapley values, conditional '
  'expectations or same decision probabilities agree on every input, with any number of threads, and a cached table '
  'serves every later batch of samples.',
  ['inputs', 'schedules', 'configurations'], 'all inputs, thread schedules and thread counts, all sequences of cached calls',
  'The tests compare a few variants on one model with the default thread count; races and divergent copies of the same '
  'kernel need other inputs and schedules.',
  [K, NP, CA, AT], [('shap_values_leaves_pa / _nopa / _cache', K), ('leaves_cache', CA), ('compute_exp_nopa', NP)],
  ['ACVTree.shap_values', 'shap_values_nopa', 'shap_values_cache', 'compute_exp_nopa', 'compute_sdp_clf_nopa'])

p('C06', 'Active Shapley values share the prediction among the active features only',
  'For every sample with an active and a null set of features, null features get zero and the active features get the '
  'Shapley values of the game restricted to the active ones, in which the null features are always known, the empty '
  'set being worth the mean prediction over the background set. With per-sample sets each sample is treated with its '
  'own set, and with all features active the values are those of C02.',
  ['inputs'], 'all ensembles whose leaves are reached by the background, all active/null splits, samples, coalitions',
  'The tests run one fixed split on one model.',
  [K, NP, AT], [('shap_values_acv_leaves', K), ('single_shap_values_acv_leaves', K)],
  ['ACVTree.shap_values_acv', 'shap_values_acv_adap'])

p('C07', 'Conditional expectations follow the leaf estimator',
  'For every ensemble, background set, sample and feature set S, the conditional expectation of the output given the '
  'sample\'s values on S is the sum over the leaves compatible with the sample on S of the leaf value times the '
  'background share of the leaf within its cell restricted to S; the normalised version divides, tree by tree, by the '
  'sum of those shares; for categorical data the share is taken among the rows equal to the sample on S. A share whose '
  'cell holds no row counts as zero.',
  ['inputs'], 'all ensembles, background sets, samples and S, no value lying exactly on a threshold',
  'The tests check shapes and one model; empty cells, S empty or full, trees of different size and categorical ties are '
  'not sampled.',
  [K, NP, AT, 'acv_explainers/utils_exp.py'], [('compute_exp', K), ('compute_exp_normalized', K), ('compute_exp_cat', K)],
  ['ACVTree.compute_exp', 'compute_exp_normalized', 'compute_exp_cat'])

p('C08', 'The same decision probability of a tree classifier follows its leaf estimator',
  'For a tree classifier, the same decision probability of S is (a - d)/(u - d), zero when u equals d, with a, u and d '
  'the conditional expectations (normalised tree by tree) of the predicted class\'s score given S over all background '
  'rows, over those the model gives the same class, and over the others; it is one for all features and zero for none. '
  'The categorical version conditions on rows equal to the sample on S, does not normalise, and is kept within 0 and 1.',
  ['inputs'], 'all classifiers, background sets, samples and S, no value lying exactly on a threshold',
  'The tests look at one model and do not compare with any independent value.',
  [K, NP, AT, US], [('compute_sdp_clf', K), ('compute_sdp_clf_cat', K)], ['ACVTree.compute_sdp_clf', 'compute_sdp_clf_cat'])

p('C09', 'The projected forest estimates the same decision probability',
  'For every forest, background set, sample and feature set S, the same decision probability is the mean over trees of '
  'the share, among the background rows on the sample\'s side of every split on S met while following both branches of '
  'the other splits (going no deeper once fewer rows than the minimal node size remain), of rows with the sample\'s '
  'class, or with a target within the given interval in regression. It is the same for the agnostic and for the tree '
  'explainer.',
  ['inputs'], 'all forests, background sets, samples, S, node sizes and intervals',
  'The tests check shapes or run one model; per-level stopping, leaves at different depths and empty cells are not covered.',
  [K, AX, AT], [('single_compute_sdp_rf', K), ('compute_sdp_rf', K)], ['ACXplainer.compute_sdp_rf', 'ACVTree.compute_sdp_rf'])

p('C10', 'Decision-change and target probabilities are the duals of the projected forest',
  'On the same cells of the projected forest, the different decision probability counts the rows with another class (or '
  'a target outside the interval) and the counterfactual probability those of the wanted class (or target interval); '
  'conditioning on a rule keeps, at each split on another feature, the side holding the whole interval and both sides if '
  'the split cuts it. The weights returned with a probability are those of the rows behind it, and the returned rule is '
  'the cell.',
  ['inputs'], 'all forests, background sets, samples, S, rules, node sizes and intervals',
  'The tests never call most of these functions.',
  [K, AX], [('single_compute_ddp_rf', K), ('single_compute_cdp_rf', K), ('single_compute_ddp_cond_rule_weights', K),
            ('single_compute_cdp_intv_rule_weights', K)],
  ['ACXplainer.compute_ddp_rf', 'compute_cdp_rf', 'compute_ddp_weights', 'compute_cdp_cond_weights', 'compute_ddp_intv_weights',
   'compute_ddp_rule'])

p('C11', 'The projected forest\'s conditional mean and distribution function',
  'For every forest, background set, sample and S, the conditional mean is the mean over trees of the average target of '
  'the rows in the sample\'s projected cell, and the conditional distribution function at a level is the mean share of '
  'those rows with a target at most the level.',
  ['inputs'], 'all forests, background sets, samples, S and levels (distribution function: minimal node size at most 1)',
  'The tests do not compare either with an independent value.',
  [K, AX, AT], [('single_compute_exp_rf', K), ('single_compute_cdf_rf', K)], ['ACXplainer.compute_exp_rf', 'compute_cdf_rf',
                                                                           'ACVTree.compute_cdf_rf'])

p('C12', 'Minimal sufficient explanations of the projected forest are minimal',
  'The search for a minimal sufficient explanation returns for each sample a union of players whose same decision '
  'probability is the reported one; when it reaches the level no searched union with fewer players reaches it, and among '
  'those of its size none is more probable; otherwise the reported one is the largest found. The global importance of a '
  'feature is the share of samples whose returned set reached the level with it.',
  ['inputs', 'configurations'], 'all forests, samples, levels, coalitions, search spaces, minimal sizes, stop settings',
  'The tests run the search on one data set and check no minimality.',
  [K, AX, AT], [('global_sdp_rf', K), ('importance_sdp_rf', AX)], ['ACXplainer.importance_sdp_rf', 'ACVTree.importance_sdp_rf'])

p('C13', 'All minimal sufficient explanations are listed, and nothing else',
  'The listing of sufficient explanations returns, for each sample, exactly the unions of players that reach the level '
  'and contain no listed union of fewer players, each once and with its probability; the listing of counterfactual '
  'explanations does the same for the probability of a changed decision. The importances are the shares of features '
  'among what is listed.',
  ['inputs', 'configurations'], 'all forests, samples, levels, coalitions and minimal sizes with at least one explanation',
  'The tests never compare the list with an exhaustive enumeration.',
  [K, AX], [('sufficient_expl_rf', K), ('sufficient_cxpl_rf', K)],
  ['ACXplainer.sufficient_expl_rf', 'sufficient_cxpl_rf'])

p('C14', 'Active and null coalitions partition the features',
  'From any search result, each sample\'s active coalition is the explanation found (its first size entries) and its null '
  'coalition the remaining features, so that the two are disjoint and together all features; per-sample lists and padded '
  'arrays describe the same sets.',
  ['inputs'], 'all arrays of explanations and sizes',
  'The tests use one result; sizes 0 and full, unordered explanations and padding are not covered.',
  [UT], [('get_null_coalition', UT), ('get_active_null_coalition_list', UT)],
  ['get_null_coalition', 'get_active_null_coalition_list'])

p('C15', 'A sufficient rule is the projected cell of its sample',
  'For every forest, sample and S, the sufficient rule is the intersection over the trees of the sample\'s projected '
  'cells: the sample satisfies it, it bounds only features of S and only at thresholds of the forest, and its '
  'probability is the same decision probability of S.',
  ['inputs'], 'all forests, background sets, samples, S, node sizes and intervals',
  'The one test on rules checks that a call succeeds.',
  [K, AX], [('single_compute_sdp_rule', K), ('compute_sdp_rule', K)], ['ACXplainer.compute_sdp_rule'])

p('C16', 'A maximal rule extends its sufficient rule without taking in a bad row',
  'Whatever the random search does, the maximal rule of a sample contains its sufficient rule, takes every bound from '
  'the sufficient rules of background rows of positive weight that reach the level (or its own), and contains no '
  'background row of which the rule lacks the level unless its sufficient rule already did. The accompanying '
  'probabilities, rules and weights of background rows are theirs.',
  ['inputs', 'histories'], 'all forests, samples, S, levels, and all runs of the random search',
  'The search is random and the tests only check that it returns.',
  [K, AX, UT], [('compute_sdp_maxrule', K), ('rules_by_annealing', UT), ('generate_valid_rule', UT)],
  ['ACXplainer.compute_sdp_maxrules'])

p('C17', 'The rules model answers with the best applicable rule',
  'A rules model fitted on a list of rules keeps each different rule once with the share of training rows inside it, its '
  'output (majority class or mean target) and its quality (accuracy or variance). A sample is answered by an applicable '
  'rule of sufficient coverage whose quality is the best among them and reaches the required level, with that rule\'s '
  'output, and by no answer if there is none.',
  ['inputs', 'configurations'], 'all rule lists, training sets, samples, coverages and levels',
  'No test calls the rules model with known rules.',
  [AX, UT], [('fit_global_rules', AX), ('predict_global_rules', AX)],
  ['ACXplainer.fit_global_rules', 'predict_global_rules', 'predict_proba_global_rules'])

p('C18', 'Counterfactual rules fix what they must and report their own probability',
  'Each instance gets at least one counterfactual rule; a local rule holds the features outside the divergent set at the '
  'instance\'s values and a regional one at the given rule\'s intervals, the other bounds being thresholds of the forest. '
  'The reported probability and weights are those of the wanted target under that rule; every rule reaches the asked '
  'probability unless it is the single best fallback; no rule returned lies inside another.',
  ['inputs', 'configurations', 'histories'], 'all forests, instances, targets (occurring in the training set), levels, runs of the random search',
  'The counterfactual rules have no test.',
  [CR, UC, K], [('return_counterfactuals', UC), ('return_ge_counterfactuals', UC), ('remove_in_wsdp', UC),
                ('run_local_counterfactual_rules', CR)],
  ['CR.run_local_counterfactual_rules', 'CR.run_regional_counterfactual_rules'])

p('C19', 'The marginal same decision probability is exact for every model',
  'For every model, sample and S, the marginal same decision probability is the share of background rows for which '
  'replacing their values on S by the sample\'s makes the model decide as on the sample (within the threshold in '
  'regression). Its search for minimal sufficient sets is sound and minimal as in C12, and changes neither data nor '
  'samples.',
  ['inputs', 'configurations'], 'all models, background sets, samples, S, thresholds, levels, coalitions and search spaces',
  'No test covers it.',
  [PY, AT, AX], [('msdp', PY), ('importance_msdp_clf_search', AT)],
  ['compute_msdp_clf', 'compute_msdp_reg', 'importance_msdp_clf_search', 'importance_msdp_reg_search'])

p('C20', 'Explanations do not depend on the batch and leave their inputs alone',
  'The explanation of a sample is the same alone, in any batch and in any order of samples, and on every repetition of '
  'the call; no explanation function changes its samples, background data, targets or the explainer\'s trees.',
  ['inputs', 'histories', 'schedules'], 'all batches, orders, repetitions and thread counts',
  'The tests run each call once, on one batch.',
  [K, NP, AT, AX], [('per-sample loops', K)], ['every compute_*, importance_* and shap_values* method'])

p('C22', 'Minimal sufficient explanations of a tree classifier are minimal',
  'The search for a minimal sufficient explanation of a tree classifier returns for each sample a union of players whose '
  'same decision probability (C08) is the reported one; when it reaches the level no union with fewer players reaches it, '
  'and among those of its size none is more probable. The global importance of a feature is the share of samples whose '
  'set reached the level with it.',
  ['inputs', 'configurations'], 'all classifiers, samples, levels, coalitions, minimal sizes, stop settings',
  'The tests run the search on one data set and check no minimality.',
  [K, NP, AT], [('global_sdp_clf', K), ('importance_sdp_clf', AT)],
  ['ACVTree.importance_sdp_clf', 'importance_sdp_clf_ptrees'])

p('C23', 'The minimal divergent set is divergent and minimal',
  'The searches for a minimal divergent or counterfactual set, for a sample or for a rule, return a union of players '
  'such that freeing it (and conditioning on the rest) gives the reported probability of a changed (or wanted) decision; '
  'when it reaches the level no searched union with fewer players reaches it, and among those of its size none is more '
  'probable. The global importance of a feature is the share of samples whose set reached the level with it.',
  ['inputs', 'configurations'], 'all forests, samples, rules, levels, coalitions, minimal sizes, stop settings',
  'No test covers these searches.',
  [K, AX], [('global_ddp_rf', K), ('global_cdp_rf', K), ('global_ddp_intv', K), ('global_cdp_intv', K)],
  ['ACXplainer.importance_ddp_rf', 'importance_cdp_rf', 'importance_ddp_intv', 'importance_cdp_intv'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
