"""C05: calibration models fitted together with boosted models. C04 (VERIF_MODE=vectors): label vectors seen in training."""
import os, random
import numpy as np
from lc import *


def jobs(seed, tier):
    mode = os.environ.get('VERIF_MODE', 'isotonic')
    n = {'isotonic': 300, 'vectors': 150}[mode] * (1 if tier == 'quick' else 15)
    for i in range(n):
        def fn(i=i):
            rng = random.Random(seed * 700001 + i)
            nout = rng.choice([1, 2, 3, 4])
            # The training process and the rules only agree on the covered examples if neither finding F1 nor F2 applies
            # (see DESIGN.md). Therefore: no ordinal features, positive values of numerical features.
            d = gen_data(rng, rng.choice([6, 10, 20, 40]), rng.choice([1, 2, 3]), nout, types='nc',
                         missing=rng.choice([0, 0, 0.1]))
            for f, t in enumerate(d.types):
                if t == 'n':
                    d.x[:, f] += np.float32(4)
            if rng.random() < 0.3:
                d.y[:] = d.y[:, :1]  # few distinct label vectors
            p = {'loss': rng.choice(['logistic-decomposable', 'logistic-non-decomposable']),
                 'max_rules': rng.choice([1, 2, 5, 12]), 'random_state': rng.randint(1, 10 ** 6),
                 'head_type': rng.choice(['single', 'complete']), 'shrinkage': rng.choice([0.3, 1.0]),
                 'default_rule': rng.choice(['true', 'false']), 'statistic_format': 'dense',
                 'output_format': rng.choice(['dense', 'sparse'])}
            hold = rng.choice([None, 'random', 'stratified-output-wise', 'stratified-example-wise'])
            if hold:
                p['holdout'] = hold + '{holdout_set_size=%s}' % rng.choice([0.2, 0.33, 0.5])
            m = rng.random() < 0.8
            j = rng.random() < 0.6
            um, uj = rng.random() < 0.6, rng.random() < 0.6
            if mode == 'vectors':
                p['binary_predictor'] = 'example-wise'
                m = j = False
            if m:
                p['marginal_probability_calibration'] = 'isotonic{use_holdout_set=%s}' % str(um).lower()
            if j:
                p['joint_probability_calibration'] = 'isotonic{use_holdout_set=%s}' % str(uj).lower()
            if not (m or j) and mode == 'isotonic':
                p['marginal_probability_calibration'] = 'isotonic'
                m, um = True, True
            y = d.y
            if rng.random() < 0.5:
                y = rng.choice([sp.lil_array, sp.csr_array, sp.coo_array])(d.y)
            est, ev = fit(BoomerClassifier, d, p, y=y)
            segs, part = segments(ev)
            n_ex = len(d.x)
            every = list(range(n_ex))
            train, holdout = part if part else (every, [])
            vecs, freqs = vectors_of(est.output_space_info_)
            # the default rule is part of the model, the others are induced one after another
            rules = rules_of(est.model_, used=False)
            return {'kind': '%s%s' % ('m' if m else '', 'j' if j else ''), 'nout': nout,
                    'x': fbm(d.x), 'y': [[o + 1 for o in range(nout) if row[o]] for row in d.y],
                    'rules': [r.enc(nout) for r in rules],
                    'mset': [k + 1 for k in (holdout if um and part else train)],
                    'jset': [k + 1 for k in (holdout if uj and part else train)],
                    'vecs': vecs, 'freqs': freqs, 'hasm': int(m), 'hasj': int(j),
                    'marg': bins_of(est.marginal_probability_calibration_model_),
                    'joint': bins_of(est.joint_probability_calibration_model_)}
        yield '%s-%d' % (mode, i), fn


if __name__ == '__main__':
    main(jobs)
