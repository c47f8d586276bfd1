"""Writes tools/levels.json: what decides each property (kept in step with contracts/ by hand)."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = 'contract-based deductive verification: obligations generated from the current sources, discharged by prove/'
BOTH = PROOF + '; bounded differential stand-in for what has no contract'
BND = 'bounded differential stand-in for functions not yet under contract'
L = dict(
    setup='/opt/veriftools/pyvenv/bin/python -c "import z3"',
    default=dict(technique=BND, level='exploration', note='bounded run of the compiled library against an exact oracle'),
    C05=dict(technique=BOTH, level='exploration', note='proved: serial and parallel expectation and same-decision kernels have one '
             'specification (12 functions, the two searches of the tree explainer included). Bounded: the Shapley kernels and the caching versions'),
    C07=dict(technique=PROOF, level='proof', note='all six expectation kernels proved equal to the leaf estimator for all inputs; doubles as '
             'reals, indices in range, no NaN. Bounded: the Python wrapper that passes the tree to them'),
    C08=dict(technique=PROOF, level='proof', note='the four same-decision kernels proved equal to the leaf estimator for all inputs; doubles as '
             'reals, indices in range; the methods too'),
    C09=dict(technique=PROOF, level='proof', note='the walk and its wrapper proved equal to the estimator for all forests, data and S; doubles as '
             'reals, indices in range; the methods too'),
    C10=dict(technique=PROOF, level='proof', note='22 walks and wrappers proved; doubles as reals, indices in range; the methods too'),
    C11=dict(technique=PROOF, level='proof', note='the conditional mean and the distribution function, walks and wrappers, proved; doubles '
             'as reals, indices in range; the methods too'),
    C12=dict(technique=BOTH, level='proof', note='the estimator and the search kernel proved: smallest set, reported probability, share of the '
             'samples; doubles as reals, indices in range; the methods too'),
    C13=dict(technique=BOTH, level='proof', note='the estimators and the two listing kernels proved; doubles as reals, indices in range. '
             'The methods too'),
    C02=dict(technique=BND, level='exploration', note='proved: the method passes the trees and the background data to the kernel. Bounded: the kernel'),
    C03=dict(technique=BND, level='exploration', note='proved: the method passes the trees and the background data to the kernel. Bounded: the kernel'),
    C04=dict(technique=BND, level='exploration', note='proved: the method passes the trees and the background data to the kernel. Bounded: the kernel'),
    C06=dict(technique=BND, level='exploration', note='proved: the four methods pass the trees, the background data and S*, N* to the kernels. Bounded: the kernels'),
    C17=dict(technique=BND, level='exploration', note='proved: the methods use the fitted rules, outputs, coverages and accuracies, and raise before fitting. Bounded: the '
             'selection of rules and their metrics'),
    C14=dict(technique=BOTH, level='proof', note='both functions of utils.py proved: order is the numpy order of a set, which no '
             'contract depends on. Bounded: that the tree explainer passes them the data it says'),
    C19=dict(technique=BOTH, level='proof', note='the estimators of any model (an arbitrary row-wise function) and the two searches proved; doubles '
             'as reals, indices in range; the methods too'),
    C15=dict(technique=BOTH, level='proof', note='the kernel (the cell, its bounds and its probability) and the method proved; doubles as reals, indices in range'),
    C16=dict(technique=BOTH, level='exploration', note='proved: the probability of a rule. Bounded: the extension loop'),
    C18=dict(technique=BOTH, level='exploration', note='proved: probabilities of counterfactual rules. Bounded: their generation'),
    C20=dict(technique=BOTH, level='exploration', note='proved: every function under contract computes each row from that row, and leaves its inputs alone (frames). Bounded: the rest'),
    C22=dict(technique=BOTH, level='proof', note='the two search kernels (parallel, serial) and the estimators they call proved; doubles as reals, '
             'indices in range; the methods too'),
    C23=dict(technique=BOTH, level='proof', note='the estimators and the four search kernels proved; doubles as reals, indices in range. '
             'The methods too'),
)
json.dump(L, open(os.path.join(H, 'tools', 'levels.json'), 'w'), indent=1)
