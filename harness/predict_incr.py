"""C03: histories of incremental predictors together with the ordinary predictions for each rule prefix."""
import random
import numpy as np
from hc import *
from predict_scores import rand_rule, rand_x, VALUES, NF

KINDS = ['score', 'score', 'label-ow', 'label-ow', 'label-ew', 'label-gfm', 'proba-ow', 'proba-mg', 'seco', 'reg']


def rand_calibration(rng, nlists, cls):
    lists = []
    for _ in range(nlists):
        k = rng.choice([1, 1, 2, 4])
        ts = sorted(rng.sample([0.1, 0.2, 0.3, 0.45, 0.5, 0.6, 0.75, 0.9], k))
        ps = sorted(rng.sample([0.0, 0.05, 0.15, 0.35, 0.4, 0.55, 0.7, 0.95, 1.0], k))
        lists.append([(t, p) for t, p in zip(ts, ps)])
    m = cls()
    m.__setstate__((V_CAL, lists))
    return m


def setup(rng, kind, sparse):
    """Returns (estimator, rules, used, num outputs, value pool)."""
    nout = rng.choice([1, 2, 3, 4])
    pool = rng.sample(VALUES, rng.randint(2, 5))
    k = rng.choice([1, 2, 3, 5, 8])
    rules = [rand_rule(rng, nout, pool) for _ in range(k)]
    for r in rules:
        r.scores = [s * rng.choice([1, 0.5, 1.37]) for s in r.scores]
        if rng.random() < 0.5:
            r.conds = r.conds[:1]
    cls = SeCoClassifier if kind == 'seco' else BoomerRegressor if kind == 'reg' else BoomerClassifier
    if kind == 'seco':
        for r in rules:
            r.scores = [float(rng.randint(0, 1)) for _ in r.scores]
    if rng.random() < 0.6:
        d = Rule([], None, [rng.choice([-1.0, 0.25, 1.0]) for _ in range(nout)], default=True)
        rules = rules + [d] if kind == 'seco' else [d] + rules
    used = rng.choice([0, 0, rng.randint(1, len(rules))])
    model = build_model(rules, used, default_last=kind == 'seco')
    params, info, marg, joint = {}, None, None, None
    if kind in ('label-ew', 'label-gfm', 'proba-mg', 'label-ow', 'proba-ow'):
        nv = rng.randint(1, min(4, 2 ** nout))
        vecs = rng.sample(range(2 ** nout), nv)
        vecs = [[j for j in range(nout) if v >> j & 1] for v in vecs]
        info = label_vectors(vecs, [rng.randint(1, 5) for _ in vecs])
        if rng.random() < 0.4:
            marg = rand_calibration(rng, nout, IsotonicMarginalProbabilityCalibrationModel)
            params['marginal_probability_calibration'] = 'isotonic'
        if rng.random() < 0.4:
            joint = rand_calibration(rng, nv, IsotonicJointProbabilityCalibrationModel)
            params['joint_probability_calibration'] = 'isotonic'
    if kind == 'label-ow':
        params['binary_predictor'] = 'output-wise' + rng.choice(['', '{based_on_probabilities=true}'])
    elif kind == 'label-ew':
        params['binary_predictor'] = 'example-wise' + rng.choice(['', '{based_on_probabilities=true}'])
    elif kind == 'label-gfm':
        params['binary_predictor'] = 'gfm'
    elif kind == 'proba-ow':
        params['probability_predictor'] = 'output-wise'
    elif kind == 'proba-mg':
        params['probability_predictor'] = 'marginalized'
    if kind.startswith(('label', 'proba')):
        params['loss'] = rng.choice(['logistic-decomposable', 'logistic-non-decomposable'])
    if rng.random() < 0.3:
        params['parallel_prediction'] = 'true{num_preferred_threads=%d}' % rng.choice([1, 3])
    est = estimator(cls, model, nout, NF, info=info, marginal=marg, joint=joint, sparse=sparse, **params)
    return est, rules, used, nout, pool


def mat(res):
    res = dense(res)
    if res.ndim == 1:
        res = res.reshape(-1, 1)
    return fbm(res.astype(np.float64))


def jobs(seed, tier):
    n = 500 if tier == 'quick' else 5000
    for i in range(n):
        kind = KINDS[i % len(KINDS)]

        def fn(i=i, kind=kind):
            rng = random.Random(seed * 300007 + i)
            sparse = kind.startswith(('label', 'seco')) and rng.random() < 0.5
            est, rules, used, nout, pool = setup(rng, kind, sparse)
            mx = rng.choice([0, 0, 0, rng.randint(1, len(rules) + 1)])
            x = rand_x(rng, rng.choice([1, 4]), pool, rng.choice([0, 0, 0.3]))
            sv = rng.choice([0.0, 1.0])
            csr = rng.random() < 0.4
            q = to_sparse(x, sv, 'csr', rng, explicit=0.2) if csr else x
            kw = {'sparse_feature_value': sv} if csr else {}
            if csr:
                est.feature_format = 'sparse'
            if kind in ('score',):
                kw['predict_scores'] = True
            proba = kind.startswith('proba')
            incr = est.predict_proba_incrementally if proba else est.predict_incrementally
            plain = est.predict_proba if proba else est.predict
            mkw = dict(kw, max_rules=mx) if mx else kw
            total = used or len(rules)
            preds = [incr(q, **mkw) for _ in range(2)]
            start = [{'rem': p.get_num_next(), 'next': int(p.has_next())} for p in preds]
            hists = [[], []]
            for _ in range(rng.randint(2, 8)):
                j = rng.randrange(2)
                p = preds[j]
                if not p.has_next():
                    continue
                step = rng.choice([1, 1, 2, 3, 50])
                res = mat(p.apply_next(step))
                hists[j].append({'step': step, 'rem': p.get_num_next(), 'next': int(p.has_next()), 'res': res})
            want = [mat(plain(q, **dict(kw, max_rules=k))) for k in range(1, len(rules) + 1)]
            cases = []
            for j in range(2):
                cases.append({'id': 'incr-%s-%d-%d' % (kind, i, j), 'kind': kind + ('-sparse' if sparse else ''),
                              'nrules': len(rules), 'used': used, 'max': mx, 'start': start[j], 'hist': hists[j],
                              'plain': want})
                if kind in ('score', 'reg'):
                    cases[-1].update(rules=[r.enc(nout) for r in rules], x=fbm(x), nout=nout)
            return cases
        yield 'incr-%s-%d' % (kind, i), fn


if __name__ == '__main__':
    main(jobs)
