"""writes tools/levels.json: deciding method and note per property"""
import json, os
COMMON = (' Exhaustive within the stated bounds, nothing is sampled; every state and trace of the model is replayed on '
          'the code of /repo. Trusts numpy/scipy/sympy arithmetic and the reference model in mc/ref.py.')
L = {
 'C01': ('explicit-state exploration of all observation sequences; oracle: enumeration of all parameter paths; every trace replayed on the implementation', ''),
 'C02': ('exploration of the prefix tree of all data streams (with interleaved queries) on the implementation; oracle: forward-only fit and reference model at every node', ''),
 'C03': ('enumeration of all hyper-grids, nestings, hyper-priors and short data series; oracle: explicit average over all combinations of the reference model', ''),
 'C04': ('enumeration of all change-/break-point configurations; oracle: explicit enumeration of ordered combinations in the reference model', ''),
 'C05': ('exploration of all data streams for menus of transition models; oracle: explicit Bayesian model average over all hypotheses of the reference model', ''),
 'C06': ('stateless exploration of all job orders under a controlled worker pool, plus conformance runs with the real process pool', ' Order of pickling inside a worker process of the real pool is not controlled.'),
 'C07': ('enumeration of all patterns of missing values; oracle: reference model with explicit windows', ''),
 'C08': ('enumeration of all observation/parameter/order combinations of finite menus; oracle: closed-form densities', ''),
 'C09': ('enumeration of all transition model/hyper-parameter/distribution/time combinations and compositions up to depth 3; oracle: reference model', ''),
 'C10': ('enumeration of all prior forms, scalings and study types, repeated use; oracle: reference model and byte-wise snapshots of the inputs', ''),
 'C11': ('explicit-state exploration of all operation sequences up to the depth bound on the implementation; oracle: newly created study', ''),
 'C12': ('exploration of all sequences of post-processing calls up to the depth bound; oracle: reference model and snapshots', ''),
 'C13': ('enumeration of all expressions of the query grammar up to the size bound; oracle: own evaluator over the explicit joint distribution', ''),
 'C14': ('enumeration of all save points of operation histories, of all truncations of the file and of all failing writes', ''),
 'C15': ('enumeration of all selections and start values; oracle: reference evidence for the reported and the initial values', ' Global optimality is not claimed.'),
 'C16': ('enumeration of all single defects of all valid configurations; oracle: list of documented exceptions, corrected study equals new study', ''),
 'C17': ('enumeration of all value sequences, time steps, models and study types; oracle: explicit predictive distribution', ''),
 'C18': ('enumeration of all time-stamp menus and models; oracle: relabelling relation and reference model', ''),
 'C19': ('enumeration of all assignments of scale factors to time steps; oracle: scaling relation and reference model', ''),
}
V = os.path.dirname(os.path.abspath(__file__))
json.dump({k: dict({'technique': t, 'note': COMMON.strip() + n}, **({'level': 'fault_enumeration'} if k == 'C14' else {})) for k, (t, n) in L.items()}, open(os.path.join(V, 'levels.json'), 'w'), indent=1)
