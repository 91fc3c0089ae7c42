"""C01: scores predicted by constructed models, over condition kinds, missing values, sparse values, prefixes, heads."""
import itertools, random
import numpy as np
from hc import *

VALUES = [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0]
INTS = [-2, -1, 0, 1, 2, 3]
NF = 4  # features 0,1 numerical, 2 ordinal, 3 nominal


def rand_rule(rng, nout, pool):
    conds = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        op = rng.randrange(6)
        if op < 2:
            conds.append((rng.choice([0, 1]), op, rng.choice(pool)))
        elif op < 4:
            conds.append((2, op, rng.choice(INTS)))
        else:
            conds.append((3, op, rng.choice(INTS)))
    if rng.random() < 0.5:
        outs = None
        scores = [rng.choice([-1.5, -0.25, 0.1, 0.7, 2.0, 0.0]) for _ in range(nout)]
    else:
        outs = sorted(rng.sample(range(nout), rng.randint(1, nout)))
        scores = [rng.choice([-1.5, -0.25, 0.1, 0.7, 2.0]) for _ in outs]
    return Rule(conds, outs, scores)


def rand_x(rng, n, pool, missing):
    x = np.zeros((n, NF), dtype=np.float32)
    for i in range(n):
        for j in range(NF):
            if rng.random() < missing:
                x[i, j] = np.nan
            else:
                x[i, j] = rng.choice(pool) if j < 2 else rng.choice(INTS)
    return x


def observe(est, x, fmt, sv, rng, mx):
    kw = {}
    if mx:
        kw['max_rules'] = mx
    if fmt == 'dense':
        q = x
    elif fmt == 'F':
        q = np.asfortranarray(x)
    elif fmt == 'list':
        q = x.tolist()
    else:
        q = to_sparse(x, sv, fmt, rng, explicit=0.3)
        kw['sparse_feature_value'] = sv
    if isinstance(est, BoomerRegressor):
        return est.predict(q, **kw)
    return est.predict(q, predict_scores=True, **kw)


def case(kind, rules, used, x, nout, mx, cls, fmt, sv, rng, threads=None, default=True):
    model = build_model(rules, used, default_last=False)
    params = {'feature_format': fmt2policy(fmt, rng)}
    if threads:
        params['parallel_prediction'] = 'true{num_preferred_threads=%d}' % threads
    est = estimator(cls, model, nout, NF, **params)
    res = dense(observe(est, x, fmt, sv, rng, mx))
    if res.ndim == 1:
        res = res.reshape(-1, 1)
    total = used or len(rules)
    return {'kind': kind, 'nout': nout, 'rules': [r.enc(nout) for r in rules], 'used': used, 'max': mx, 'x': fbm(x),
            'hist': [{'step': 0, 'rem': 0, 'next': 0, 'res': fbm(res)}], 'fmt': fmt}


def fmt2policy(fmt, rng):
    return {'dense': 'auto', 'F': 'auto', 'list': 'dense'}.get(fmt) or rng.choice(['sparse', 'sparse', 'dense', 'auto'])


def jobs(seed, tier):
    # 1. exhaustive: every condition kind x threshold x value, single condition and pairs of conditions on one feature
    pool = [-1.5, -1.0, 0.0, 1.0, float(np.float32(0.1)), 2.0]
    xs = pool + [float('nan'), float(np.float32(0.1000001)), -0.0, 1e30, -1e30]
    for op in range(6):
        f = 0 if op < 2 else (2 if op < 4 else 3)
        for t in (pool if op < 2 else [-2, -1, 0, 1, 2]):
            vals = xs if op < 2 else [-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0, float('nan')]
            x = np.zeros((len(vals), NF), dtype=np.float32)
            x[:, f] = vals
            for fmt, sv in (('dense', 0.0), ('csr', 0.0), ('csr', 1.0), ('csc', -1.0)):
                def fn(op=op, f=f, t=t, x=x, fmt=fmt, sv=sv):
                    rng = random.Random(7)
                    return case('single', [Rule([(f, op, t)], None, [1.0])], 0, x, 1, 0, BoomerClassifier, fmt, sv, rng)
                yield 'single-%s-%s-%s-%s' % (OPS[op], t, fmt, sv), fn
    # 2. random models
    n = 500 if tier == 'quick' else 6000
    for i in range(n):
        def fn(i=i):
            rng = random.Random(seed * 1000003 + i)
            large = i % 10 == 0
            nout = rng.choice([1, 33, 40] if large else [1, 2, 3, 5])
            k = rng.choice([15, 40] if large else [0, 1, 2, 3, 5, 8])
            pool = rng.sample(VALUES + [float(np.float32(0.3)), float(np.float32(1e-3)), 1e6], rng.randint(2, 6))
            rules = [rand_rule(rng, nout, pool) for _ in range(k)]
            if rng.random() < 0.6 or not rules:
                rules.insert(0, Rule([], None, [rng.choice([-1.0, 0.25, 0.5]) for _ in range(nout)], default=True))
            used = rng.choice([0, 0, rng.randint(1, len(rules))])
            mx = rng.choice([0, 0, rng.randint(1, len(rules) + 1)])
            nx = rng.choice([9, 40] if large else [1, 4, 9])
            x = rand_x(rng, nx, pool, rng.choice([0, 0, 0.2, 0.5]))
            cls = rng.choice([BoomerClassifier, BoomerRegressor])
            fmt = rng.choice(['dense', 'F', 'list', 'csr', 'csr', 'csc', 'lil', 'coo', 'dok'])
            sv = rng.choice([0.0, 0.0, 1.0, -1.0, 2.0])
            if fmt in ('lil', 'coo', 'dok'):
                sv, src = 0.0, fmt
                return other_format(rules, used, x, nout, mx, cls, src, rng)
            return case('random', rules, used, x, nout, mx, cls, fmt, sv, rng, threads=rng.choice([None, 1, 3]))
        yield 'rand-%d' % i, fn


def other_format(rules, used, x, nout, mx, cls, fmt, rng):
    model = build_model(rules, used, default_last=False)
    est = estimator(cls, model, nout, NF, feature_format=rng.choice(['sparse', 'dense', 'auto']))
    q = to_sparse(x, 0.0, 'csr').asformat(fmt)
    kw = {'max_rules': mx} if mx else {}
    res = dense(est.predict(q, **kw) if cls is BoomerRegressor else est.predict(q, predict_scores=True, **kw))
    if res.ndim == 1:
        res = res.reshape(-1, 1)
    return {'kind': 'format-' + fmt, 'nout': nout, 'rules': [r.enc(nout) for r in rules], 'used': used, 'max': mx,
            'x': fbm(x), 'hist': [{'step': 0, 'rem': 0, 'next': 0, 'res': fbm(res)}], 'fmt': fmt}


if __name__ == '__main__':
    main(jobs)
