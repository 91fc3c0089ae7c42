"""C12: histories of serializing, deserializing, copying, modifying and observing estimators and their parts."""
import copy, io, pickle, random
import numpy as np
from hc import *
from lc import gen_data, fit, bins_of, vectors_of

F32 = [float(np.float32(v)) for v in (0.0, -0.0, 1.5, 0.1, 1e30, -1e30, 1e-40, np.finfo(np.float32).max, -2.25)]
I32 = [0, 1, -1, 2147483647, -2147483648, 5]
F64 = [0.1, -0.1, 1 / 3, 1e-300, 5e-324, -1e308, 0.0, 2.5]


def enc(rules, nout):
    """Rules as they are expected to be visited: conditions are grouped by their comparator."""
    res = []
    for r in rules:
        e = r.enc(nout)
        e['c'] = [[f, o, t] for op in OPS for f, o, t in e['c'] if o == op]
        res.append(e)
    return res


def constructed(rng):
    nout = rng.choice([1, 2, 3])
    rules = []
    for _ in range(rng.choice([0, 1, 2, 4, 9, 40])):
        conds = []
        for _ in range(rng.choice([1, 1, 2, 3, 8])):
            op = rng.randrange(6)
            conds.append((rng.choice([0, 1]) if op < 2 else (2 if op < 4 else 3), op, rng.choice(F32 if op < 2 else I32)))
        outs = None if rng.random() < 0.4 else sorted(rng.sample(range(nout), rng.randint(1, nout)))
        rules.append(Rule(conds, outs, [rng.choice(F64) for _ in (range(nout) if outs is None else outs)]))
    default = []
    cls = rng.choice([BoomerClassifier, BoomerClassifier, BoomerRegressor, SeCoClassifier])
    if rng.random() < 0.7 or not rules:
        outs = None if rng.random() < 0.6 or cls is SeCoClassifier else sorted(rng.sample(range(nout), rng.randint(1, nout)))
        default = [Rule([], outs, [rng.choice(F64) for _ in (range(nout) if outs is None else outs)], default=True)]
    last = rng.random() < 0.5
    total = len(rules) + len(default)
    used = rng.choice([0, 0, rng.randint(1, total)])
    if last and default:  # the default rule comes last
        used = max(used, 1) if used else 0
    model = build_model(default + rules if not last else rules + default, used, default_last=last)
    vecs = [[j for j in range(nout) if v >> j & 1] for v in rng.sample(range(2 ** nout), rng.randint(1, 2 ** nout))]
    info = label_vectors(vecs, [rng.choice([1, 2, 70000]) for _ in vecs]) if cls is BoomerClassifier and rng.random() < 0.7 else None
    marg = joint = None
    params = {}
    if cls is BoomerClassifier:
        if rng.random() < 0.5:
            marg = calibration(rng, nout, IsotonicMarginalProbabilityCalibrationModel)
        if rng.random() < 0.5 and info:
            joint = calibration(rng, len(vecs), IsotonicJointProbabilityCalibrationModel)
        params = {'loss': rng.choice(['logistic-decomposable', 'logistic-non-decomposable'])}
        preds = ['output-wise', 'output-wise{based_on_probabilities=true}'] + (['example-wise', 'gfm'] if info else [])
        params['binary_predictor'] = rng.choice(preds)
        params['probability_predictor'] = rng.choice(['output-wise'] + (['marginalized'] if info else []))
    x = np.zeros((6, 4), dtype=np.float32)
    for i in range(6):
        x[i] = [rng.choice(F32[:6]), rng.choice(F32[:6]), rng.choice([0, 1, -1, 5]), rng.choice([0, 1, 5])]
        if rng.random() < 0.3:
            x[i, rng.randrange(4)] = np.nan
    est = estimator(cls, model, nout, 4, info=info, marginal=marg, joint=joint, sparse=rng.random() < 0.3, **params)
    return est, x, nout, enc(rules, nout), enc(default, nout), int(not last), used


def calibration(rng, nlists, cls):
    m = cls()
    lists = []
    for _ in range(nlists):
        k = rng.choice([0, 1, 2, 5]) if rng.random() < 0.3 else rng.choice([1, 2, 5])
        lists.append(list(zip(sorted(rng.sample([0.1, 0.2, 1 / 3, 0.45, 0.5, 0.6, 0.75, 0.9], k)),
                              sorted(rng.sample([0.05, 0.15, 1 / 7, 0.4, 0.5, 0.55, 0.7, 0.95], k)))))
    if any(not l for l in lists):
        lists = [l or [(0.5, 0.5)] for l in lists]
    m.__setstate__((V_CAL, lists))
    return m


def learned(rng):
    nout = rng.choice([1, 2, 3])
    cls = rng.choice([BoomerClassifier, BoomerClassifier, BoomerRegressor, SeCoClassifier])
    d = gen_data(rng, rng.choice([12, 25]), 4, nout, regression=cls is BoomerRegressor, missing=rng.choice([0, 0.1]))
    params = {'max_rules': rng.choice([1, 5, 20]), 'random_state': rng.randint(1, 99)}
    if cls is BoomerClassifier:
        params.update(head_type=rng.choice(['single', 'complete', 'partial-fixed{output_ratio=0.7}'])
                      if nout > 1 else 'single',
                      default_rule=rng.choice(['true', 'false']),
                      loss=rng.choice(['logistic-decomposable', 'logistic-non-decomposable']),
                      marginal_probability_calibration=rng.choice(['isotonic', 'none']),
                      joint_probability_calibration=rng.choice(['isotonic', 'none']),
                      binary_predictor=rng.choice(['example-wise', 'gfm', 'output-wise']),
                      prediction_format=rng.choice(['dense', 'sparse']),
                      global_pruning=rng.choice(['none', 'post-pruning{use_holdout_set=false}']))
    est, _ = fit(cls, d, params)
    first = int(cls is not SeCoClassifier)
    rules = rules_of(est.model_, used=False)
    e = enc(rules, nout)
    r, df = [a for a in e if not a['d']], [a for a in e if a['d']]
    used = est.model_.get_num_used_rules()
    return est, d.x[:8], nout, r, df, first, used


class Handles:

    def __init__(self):
        self.n = 0

    def new(self):
        self.n += 1
        return 'o%d' % self.n


def copies(rng, obj):
    how = rng.choice(['p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'deep', 'reduce', 'file'])
    if how == 'deep':
        return how, copy.deepcopy(obj)
    if how == 'reduce' and hasattr(obj, '__reduce__') and not hasattr(obj, 'model_'):
        f, args, state = obj.__reduce__()
        new = f(*args)
        new.__setstate__(state)
        return how, new
    if how == 'file':
        f = io.BytesIO()
        p = pickle.Pickler(f)
        p.dump(obj)
        f.seek(0)
        return how, pickle.Unpickler(f).load()
    return how, pickle.loads(pickle.dumps(obj, protocol=int(how[1]) if how[0] == 'p' else 4))


PARTS = ['model_', 'output_space_info_', 'marginal_probability_calibration_model_',
         'joint_probability_calibration_model_']


def enc_res(p):
    p = dense(p)
    if p.ndim == 1:
        p = p.reshape(-1, 1)
    return [[fb(v) for v in row] for row in p.astype(np.float64)]


def observations(est, cls, x, nout, rng, mx):
    kw = {'max_rules': mx} if mx else {}
    obs = []
    obs.append(('predict-%d' % mx, lambda: enc_res(est.predict(x, **kw))))
    if cls is BoomerClassifier:
        obs.append(('scores-%d' % mx, lambda: enc_res(est.predict(x, predict_scores=True, **kw))))
        obs.append(('proba-%d' % mx, lambda: enc_res(est.predict_proba(x, **kw)) if nout > 1 else enc_res(
            np.asarray(est.predict_proba(x, **kw)).reshape(len(x), -1))))
    if cls is not SeCoClassifier:
        def inc():
            p = est.predict_incrementally(x, **kw)
            out = []
            while p.has_next():
                out.append(enc_res(p.apply_next(2)))
            return out
        obs.append(('incremental-%d' % mx, inc))
    return [rng.choice(obs)] + ([obs[0]] if rng.random() < 0.3 else [])


def case(rng, src):
    est, x, nout, r, d, first, used = src(rng)
    cls = type(est)
    hs = Handles()
    objs = {hs.new(): est}
    h0 = next(iter(objs))
    ops = [{'op': 'create', 'dst': h0, 'r': r, 'd': d, 'first': first, 'used': used}]
    total = len(r) + len(d)

    def look(h):
        m = objs[h].model_
        ops.append({'op': 'look', 'obj': h, 'n': m.get_num_rules(), 'nu': m.get_num_used_rules(),
                    'rules': [a.enc(nout) for a in rules_of(m, False)], 'usedrules': [a.enc(nout) for a in rules_of(m)]})

    def observe(h):
        for what, fn in observations(objs[h], cls, x, nout, rng, rng.choice([0, 0, 1, 2])):
            ops.append({'op': 'observe', 'obj': h, 'what': what, 'model': 1, 'res': fn()})

    def parts(h):
        e = objs[h]
        if isinstance(e.output_space_info_, LabelVectorSet):
            ops.append({'op': 'observe', 'obj': h, 'what': 'vectors', 'model': 0, 'res': list(vectors_of(e.output_space_info_))})
        for w, a in (('marginal', e.marginal_probability_calibration_model_),
                     ('joint', e.joint_probability_calibration_model_)):
            ops.append({'op': 'observe', 'obj': h, 'what': w, 'model': 0, 'res': bins_of(a)})

    look(h0)
    parts(h0)
    observe(h0)
    for _ in range(rng.choice([4, 8, 12])):
        h = rng.choice(list(objs))
        k = rng.random()
        if k < 0.45:
            new = hs.new()
            if rng.random() < 0.5:
                how, objs[new] = copies(rng, objs[h])
            else:  # replace individual parts by copies
                e = copy.copy(objs[h])
                how = 'parts'
                for p in PARTS:
                    if p == 'model_' or rng.random() < 0.6:
                        how2, part = copies(rng, getattr(e, p))
                        setattr(e, p, part)
                objs[new] = e
            ops.append({'op': 'copy', 'src': h, 'dst': new, 'how': how})
            if rng.random() < 0.3:
                ops.append({'op': 'drop', 'obj': h})
                del objs[h]
            h = new
            look(h)
            if rng.random() < 0.5:
                parts(h)
        elif k < 0.6 and total:
            lo = max(1, len(d) if not first else 1)
            n = rng.randint(lo, total)
            objs[h].model_.set_num_used_rules(n)
            ops.append({'op': 'use', 'obj': h, 'k': n})
            look(h)
        elif k < 0.85:
            observe(h)
        else:
            parts(h)
    for h in list(objs):
        look(h)
        observe(h)
    return {'kind': '%s-%s' % (src.__name__, cls.__name__), 'nout': nout, 'ops': ops}


def jobs(seed, tier):
    n = 400 if tier == 'quick' else 6000
    for i in range(n):
        def fn(i=i):
            rng = random.Random(seed * 1000033 + i)
            return case(rng, learned if i % 4 == 0 else constructed)
        yield 'ser-%d' % i, fn


if __name__ == '__main__':
    main(jobs)
