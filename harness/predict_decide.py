"""C04: labels and probabilities predicted for chosen scores, for all predictors, losses and calibration models.
C05 (VERIF_MODE=calibrate): output-wise probabilities for chosen calibration maps, including extreme ones."""
import os, random
import numpy as np
from hc import *

LOSSES = ['logistic', 'squared-error', 'squared-hinge']
THRESHOLD = {'logistic': 0.0, 'squared-error': 0.0, 'squared-hinge': 0.5}


def calibration(rng, nlists, cls, extreme):
    lists = []
    for _ in range(nlists):
        k = rng.choice([1, 2, 3, 5])
        ts = [0.1, 0.2, 0.3, 0.45, 0.5, 0.6, 0.75, 0.9]
        if extreme:
            ts += [0.0, 1.0, 1e-300, 0.5]
        ts = sorted(rng.sample(sorted(set(ts)), k))
        ps = sorted(rng.sample([0.0, 0.05, 0.15, 0.35, 0.4, 0.5, 0.55, 0.7, 0.95, 1.0], k))
        lists.append([(t, p) for t, p in zip(ts, ps)])
    m = cls()
    m.__setstate__((V_CAL, lists))
    return m, [[[fb(t), fb(p)] for t, p in l] for l in lists]


def rand_score(rng, extreme):
    pool = [0.0, 0.0, 0.5, 1.0, -1.0, 0.25, -0.25, 2.0, rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-0.1, 0.1),
            rng.choice([-30.0, 30.0, -6.0, 6.0])]
    if extreme:
        pool += [-800.0, 800.0, -745.0, 40.0]
    return rng.choice(pool)


def mat(res, n, labels):
    res = dense(res)
    res = res.reshape(n, -1)
    return [[int(v) for v in row] for row in res] if labels else fbm(res.astype(np.float64))


def jobs(seed, tier):
    mode = os.environ.get('VERIF_MODE', 'decide')
    n = {'decide': 700, 'calibrate': 200}[mode] if tier == 'quick' else {'decide': 12000, 'calibrate': 3000}[mode]
    for i in range(n):
        def fn(i=i):
            rng = random.Random(seed * 1000033 + i)
            extreme = mode == 'calibrate' or rng.random() < 0.1
            if mode == 'calibrate':
                kind, pred = 'proba', 'output-wise'
            else:
                kind = rng.choice(['label', 'label', 'proba'])
                pred = rng.choice(['output-wise', 'example-wise', 'gfm', 'gfm'] if kind == 'label' else
                                  ['output-wise', 'marginalized'])
            prob = kind == 'proba' or pred == 'gfm' or rng.random() < 0.4
            loss = 'logistic' if prob else rng.choice(LOSSES)
            dec = rng.random() < 0.5
            nout = rng.choice([1, 2, 3, 4, 5])
            nv = rng.choice([0, 1, 2, 3, 5, 8, 12])
            vecs = [[j for j in range(nout) if v >> j & 1] for v in rng.sample(range(2 ** nout), min(nv, 2 ** nout))]
            n_ex = rng.choice([1, 4, 8])
            scores = [[rand_score(rng, extreme) for _ in range(nout)] for _ in range(n_ex)]
            for row in scores:
                if rng.random() < 0.3:
                    row[:] = [row[0]] * nout
            params = {'loss': loss + ('-decomposable' if dec else '-non-decomposable')}
            marg = joint = None
            enc_m, enc_j = [], []
            # non-extreme calibration maps do not start at zero (see known findings of C05)
            if (prob and rng.random() < 0.5) or mode == 'calibrate':
                marg, enc_m = calibration(rng, nout, IsotonicMarginalProbabilityCalibrationModel, mode == 'calibrate')
            if prob and vecs and rng.random() < 0.5 and mode != 'calibrate':
                joint, enc_j = calibration(rng, len(vecs), IsotonicJointProbabilityCalibrationModel, False)
            opts = []
            if kind == 'label' and pred != 'gfm' and prob:
                opts.append('based_on_probabilities=true')
            if rng.random() < 0.2 and (marg or joint) and mode != 'calibrate':
                opts.append('use_probability_calibration=false')
                enc_m, enc_j = [], []
            auto = mode != 'calibrate' and not opts and ((kind == 'label' and not prob) or kind == 'proba') and rng.random() < 0.3
            if auto:
                if kind == 'label':
                    pred = 'output-wise' if dec else 'example-wise'
                else:
                    pred = 'output-wise' if dec else 'marginalized'
                name = 'auto'
            else:
                name = pred + ('{' + ','.join(opts) + '}' if opts else '')
            params['binary_predictor' if kind == 'label' else 'probability_predictor'] = name
            rules = [Rule([(0, NOM_EQ, k)], None, row) for k, row in enumerate(scores)]
            rng.shuffle(rules)
            model = build_model(rules, len(rules))
            x = np.asarray([[k] for k in range(n_ex)], dtype=np.float32)
            info = label_vectors(vecs, [rng.randint(1, 5) for _ in vecs])
            obs = []
            for sparse in ((False, True) if kind == 'label' else (False,)):
                for threads in (1, 3):
                    for fmt in ('dense', 'csr'):
                        est = estimator(BoomerClassifier, model, nout, 1, info=info, marginal=marg, joint=joint,
                                        sparse=sparse, feature_format='sparse' if fmt == 'csr' else 'auto',
                                        parallel_prediction='true{num_preferred_threads=%d}' % threads, **params)
                        q = to_sparse(x, 0.0, 'csr') if fmt == 'csr' else x
                        res = est.predict(q) if kind == 'label' else est.predict_proba(q)
                        if kind == 'label' and sp.issparse(res) != sparse:
                            raise RuntimeError('unexpected prediction format')
                        obs.append(mat(res, n_ex, kind == 'label'))
            return {'kind': kind, 'nout': nout, 'pred': pred, 'prob': int(prob), 'loss': loss, 'dec': int(dec),
                    'threshold': fb(THRESHOLD[loss]), 'marg': enc_m, 'joint': enc_j, 'cfg': name,
                    'vecs': [[j + 1 for j in v] for v in vecs], 'scores': fbm(scores), 'obs': obs}
        yield '%s-%d' % (mode, i), fn


if __name__ == '__main__':
    main(jobs)
