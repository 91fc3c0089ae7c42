"""C02: labels predicted by constructed and learned separate-and-conquer models (dense/sparse predictions and queries)."""
import random
import numpy as np
from hc import *
from predict_scores import rand_rule, rand_x, VALUES, NF


def observations(mk, x, mx, rng, sv):
    obs = []
    for how, fmt, sparse, threads in (('dense-dense', 'dense', False, 1), ('csr-dense', 'csr', False, 2),
                                      ('dense-sparse', 'dense', True, 2), ('csr-sparse', 'csr', True, 1)):
        est = mk(sparse, fmt, threads)
        kw = {'max_rules': mx} if mx else {}
        if fmt == 'csr':
            q = to_sparse(x, sv, 'csr', rng, explicit=0.3)
            kw['sparse_feature_value'] = sv
        else:
            q = x
        res = dense(est.predict(q, **kw))
        if res.ndim == 1:
            res = res.reshape(-1, 1)
        obs.append({'how': how, 'sparse': int(sparse), 'res': [[int(v) for v in row] for row in res]})
    return obs


def jobs(seed, tier):
    n = 400 if tier == 'quick' else 5000
    for i in range(n):
        def fn(i=i):
            rng = random.Random(seed * 7000003 + i)
            large = i % 8 == 0
            nout = rng.choice([2, 33, 40, 70]) if large else rng.choice([1, 2, 3, 4, 6])
            pool = rng.sample(VALUES, rng.randint(2, 5))
            rules = []
            num = rng.choice([20, 40, 90] if large else [0, 1, 2, 3, 5, 8])
            late = large and rng.random() < 0.7  # the remaining labels are only predicted by the last rules
            for k in range(num):
                r = rand_rule(rng, nout, pool)
                if late and k < 0.8 * num:
                    r.outs = sorted(rng.sample(range((nout + 1) // 2), rng.randint(1, (nout + 1) // 2)))
                    r.scores = [1.0] * len(r.outs)
                if rng.random() < (0.8 if large else 0.4):
                    r.conds = r.conds[:1]
                r.scores = [float(rng.randint(0, 1)) for _ in r.scores]
                rules.append(r)
            if rng.random() < 0.7:
                rules.append(Rule([], None, [float(rng.randint(0, 1)) for _ in range(nout)], default=True))
            if not rules:
                rules.append(Rule([], None, [1.0] * nout, default=True))
            used = rng.choice([0, 0, 0, rng.randint(1, len(rules))])
            mx = rng.choice([0, 0, rng.randint(1, len(rules) + 1)])
            x = rand_x(rng, rng.choice([1, 5, 9]), pool, rng.choice([0, 0, 0.3]))
            sv = rng.choice([0.0, 0.0, 1.0, -1.0])
            model = build_model(rules, used, default_last=True)

            def mk(sparse, fmt, threads):
                return estimator(SeCoClassifier, model, nout, NF, sparse=sparse,
                                 feature_format='sparse' if fmt == 'csr' else 'auto',
                                 parallel_prediction='true{num_preferred_threads=%d}' % threads)
            return {'kind': 'constructed', 'nout': nout, 'rules': [r.enc(nout) for r in rules], 'used': used, 'max': mx,
                    'x': fbm(x), 'obs': observations(mk, x, mx, rng, sv)}
        yield 'seco-%d' % i, fn
    n = 40 if tier == 'quick' else 300
    for i in range(n):
        def fn2(i=i):
            rng = random.Random(seed * 900007 + i)
            nr = np.random.RandomState(seed * 131 + i)
            nout = rng.choice([1, 3, 4])
            x = nr.randint(0, 5, size=(30, 3)).astype(np.float32)
            y = (nr.rand(30, nout) < rng.choice([0.2, 0.5, 0.8])).astype(np.uint8)
            fits = {}

            def mk(sparse, fmt, threads):
                if sparse not in fits:
                    fits[sparse] = SeCoClassifier(random_state=i + 1, max_rules=12,
                                                  head_type=('single', 'partial')[i % 2],
                                                  prediction_format='sparse' if sparse else 'dense').fit(x, y)
                return fits[sparse]
            q = nr.randint(-1, 6, size=(12, 3)).astype(np.float32)
            mx = rng.choice([0, 0, 3])
            obs = observations(mk, q, mx, rng, 0.0)
            rules = rules_of(fits[False].model_, used=False)
            if [r.key() for r in rules] != [r.key() for r in rules_of(fits[True].model_, used=False)]:
                raise RuntimeError('prediction format influences training')
            return {'kind': 'learned', 'nout': nout, 'rules': [r.enc(nout) for r in rules], 'used': 0, 'max': mx,
                    'x': fbm(q), 'obs': obs}
        yield 'seco-learned-%d' % i, fn2


if __name__ == '__main__':
    main(jobs)
