"""C06, C07, C09: how rules are learned by gradient boosting. VERIF_MODE=search (C07): exact searches for refinements with
different features; heads (C06): losses, heads and regularization; limits (C09): parameters that restrict rules and models;
relearn (C16): pruning and sequential post-optimization; known: designated cases of known findings."""
import os, random
import numpy as np
from hc import *
from lc import Data, fit, segments, enc_segments, OPS

MODE = os.environ.get('VERIF_MODE', 'search')
f32 = lambda v: fb(np.float32(v))


def columns(rng, n, nf, sampled, kind):
    """kind: dense, dup (each row occurs twice, arbitrary signs), sparse"""
    ts, cols = '', []
    m = n // 2 if kind == 'dup' else n
    for _ in range(nf):
        # The search on ordinal features is defective if examples have zero weights (see known-findings.jsonl)
        t = rng.choice(('nnnc' if sampled else 'nnnoc') if kind != 'sparse' else ('nnc' if sampled else 'nnoc'))
        if t == 'n':
            if kind == 'dup':
                pool = [rng.choice([-3.0, -1.5, -1.0, 0.0, 0.0, 0.5, 2.0, 4.0, rng.uniform(-3, 3)]) for _ in range(6)]
                col = [rng.choice(pool) for _ in range(m)]
            else:
                sign = -1 if kind == 'sparse' or rng.random() < 0.6 else 1
                if sampled:
                    col = [sign * (0.5 * (i + 1) + (0.25 if rng.random() < 0.5 else 0)) for i in rng.sample(range(2 * m), m)]
                else:
                    pool = [sign * rng.choice([0.5, 1.0, 2.0, 2.5, 4.0, 8.0, 9.5, rng.uniform(0.1, 5)]) for _ in range(rng.choice([2, 4, 8]))]
                    col = [rng.choice(pool) for _ in range(m)]
                if kind == 'sparse':
                    col = [v if rng.random() < 0.5 else 0.0 for v in col]
        else:
            vals = rng.sample([0, 1, 2, 3, 5], rng.choice([1, 2, 2, 3, 3, 4])) if rng.random() < 0.8 else [-1, 0, 1]
            if kind == 'sparse' and 0 not in vals:
                vals[0] = 0
            while True:
                col = [float(rng.choice(vals)) for _ in range(m)]
                counts = sorted([col.count(v) for v in set(col)], reverse=True)
                # the majority value must be unique
                if kind == 'sparse' or len(counts) < 2 or counts[0] > counts[1]:
                    break
        ts += t
        cols.append([float(np.float32(v)) for v in col])
    return ts, np.asarray(cols, dtype=np.float32).T.copy()


def outputs(rng, x, k, regression, unit=False):
    n, nf = x.shape
    y = np.zeros((n, k))
    for o in range(k):
        f = rng.randrange(nf)
        t = rng.choice(list(np.nan_to_num(x[:, f])))
        noise = rng.choice([0, 0.1, 0.3])
        for i in range(n):
            b = int(bool(np.nan_to_num(x[i, f]) <= t) != (rng.random() < noise))
            y[i, o] = b if not regression else round(2 * b - 0.5 + rng.choice([0, 0, 0.25, -1, rng.uniform(-1, 1)]), 3)
            if unit:
                y[i, o] = max(-1.0, min(1.0, y[i, o]))
    return y.astype(np.float32 if regression else np.uint8)


def sampling(rng, classification):
    r = rng.random()
    if r < 0.3:
        return 'with-replacement'
    if r < 0.6 or not classification:
        return 'without-replacement{sample_size=%s}' % rng.choice([0.5, 0.66, 0.8])
    return 'stratified-%s-wise' % rng.choice(['output', 'example'])


def config(rng, mode):
    c = dict(cls='BoomerClassifier', kind=rng.choice(['dense', 'dense', 'dup', 'sparse']), n=rng.choice([6, 8, 10, 12, 14]),
             nf=rng.choice([1, 2, 3, 4]), k=rng.choice([1, 1, 2, 3]), missing=rng.choice([0, 0, 0.1]))
    p = dict(loss='logistic', dec=1, head='single', ratio=0.0, min=2, max=0, threshold=0.02, exponent=2.0, l1=0.0, l2=1.0,
             shrink=0.3, mincov=1, minsupport=0.0, maxcond=0, maxref=1, recalc=1, irep=0, maxrules=4, outsamp='none',
             iterations=0, refine=0, resample=1)
    p['def'] = 1
    c.update(isamp='none', holdout='none', fsamp='none', sstat=False, p=p)
    if mode == 'search':
        p['maxcond'] = rng.choice([0, 0, 0, 1, 2, 3])
        p['maxref'] = rng.choice([1, 1, 0, 2])
        p['loss'] = rng.choice(['logistic', 'squared-error', 'squared-hinge'])
        p['shrink'] = rng.choice([0.3, 1.0])
        p['l2'] = rng.choice([0.0, 1.0, 1.0, 10.0]) if p['loss'] != 'logistic' else rng.choice([0.5, 1.0])
        p['def'] = rng.choice([0, 1, 1])
        p['head'] = rng.choice(['single', 'complete']) if c['k'] > 1 else 'single'
        p['mincov'] = rng.choice([1, 1, 1, 2])
        if rng.random() < 0.5:
            c['isamp'] = sampling(rng, True)
        if rng.random() < 0.3:
            c['fsamp'] = 'without-replacement{sample_size=0.5}'
    elif mode == 'heads':
        c['k'] = rng.choice([1, 2, 3, 3, 4])
        c['nf'] = rng.choice([1, 2, 2, 3])
        c['n'] = rng.choice([6, 8, 10])
        p['dec'] = rng.choice([1, 0])
        p['loss'] = rng.choice(['logistic', 'squared-error', 'squared-hinge'])
        p['def'] = rng.choice([0, 1])
        p['l1'] = rng.choice([0.0, 0.0, 0.05, 0.5, 1.0])
        p['l2'] = rng.choice([0.25, 1.0, 2.0])
        p['shrink'] = rng.choice([0.3, 1.0, 0.5])
        p['maxcond'] = rng.choice([0, 1, 2])
        p['maxref'] = rng.choice([1, 0, 2])
        if c['k'] > 1:
            p['head'] = rng.choice(['single', 'fixed', 'dynamic', 'complete'])
            p['outsamp'] = rng.choice(['none', 'none', 'none', 'round-robin', 'without-replacement{sample_size=0.67,max_samples=0}'])
        if p['head'] == 'fixed':
            p['ratio'] = rng.choice([0.0, 0.3, 0.5, 0.75])
            p['min'] = 2
            p['max'] = rng.choice([0, 0, 2, 3])
        if p['head'] == 'dynamic':
            p['threshold'] = rng.choice([0.02, 0.25, 0.5, 0.8])
            p['exponent'] = rng.choice([1.0, 2.0, 3.0])
        if rng.random() < 0.4:
            c['cls'] = 'BoomerRegressor'
            p['loss'] = 'squared-error'
        elif p['loss'] == 'squared-hinge' and p['dec'] == 1 and p['head'] != 'complete' and rng.random() < 0.5 and c['k'] > 1:
            p['def'] = 0
            c['sstat'] = True
        if rng.random() < 0.4:
            c['isamp'] = sampling(rng, c['cls'] == 'BoomerClassifier')
    else:
        c['n'] = rng.choice([8, 12, 16])
        c['nf'] = rng.choice([2, 3, 5])
        p['maxrules'] = rng.choice([1, 2, 3, 5, 8])
        p['maxcond'] = rng.choice([0, 1, 2, 4])
        p['mincov'] = rng.choice([1, 2, 3, 5, 20])
        p['minsupport'] = rng.choice([0.0, 0.0, 0.1, 0.25, 0.5])
        p['maxref'] = rng.choice([0, 1, 2, 3])
        p['recalc'] = rng.choice([0, 1])
        p['def'] = rng.choice([0, 1])
        p['loss'] = rng.choice(['logistic', 'squared-error', 'squared-hinge'])
        p['head'] = rng.choice(['single', 'complete', 'fixed', 'dynamic']) if c['k'] > 1 else 'single'
        p['outsamp'] = rng.choice(['none', 'round-robin', 'without-replacement{sample_size=0.5,max_samples=0}']) if c['k'] > 1 else 'none'
        c['isamp'] = sampling(rng, True) if rng.random() < 0.75 else 'none'
        c['holdout'] = rng.choice(['none', 'random', 'stratified-output-wise', 'stratified-example-wise'])
        p['irep'] = int(rng.random() < 0.6)
        if rng.random() < 0.3:
            c['fsamp'] = 'without-replacement{sample_size=0.6}'
    if mode == 'bounds':
        # Bounds on the number of outputs of heads, regardless of how statistics are stored
        c['k'] = rng.choice([3, 4, 5, 6])
        p['maxrules'] = rng.choice([2, 3, 4])
        p['head'] = rng.choice(['fixed', 'fixed', 'fixed', 'dynamic'])
        p['ratio'] = rng.choice([0.0, 0.2, 0.5, 0.75, 0.9])
        p['min'] = rng.choice([2, 2, 3, 4])
        p['max'] = rng.choice([0, 0, p['min'], p['min'] + 1])
        p['threshold'] = rng.choice([0.02, 0.25, 0.5, 0.8])
        p['exponent'] = rng.choice([1.0, 2.0, 3.0])
        p['mincov'] = rng.choice([1, 1, 2])
        p['minsupport'] = 0.0
        p['irep'] = 0
        p['outsamp'] = rng.choice(['none', 'none', 'round-robin', 'without-replacement{sample_size=0.5,max_samples=0}',
                                   'without-replacement{sample_size=0.2,min_samples=2,max_samples=3}',
                                   'without-replacement{sample_size=0.9,min_samples=1,max_samples=2}'])
        if rng.random() < 0.5:
            c['sstat'] = True
            p['loss'] = 'squared-hinge'
            p['def'] = 0
    if mode == 'relearn':
        p['dec'] = rng.choice([1, 1, 1, 0])
        if not p['dec'] and p['head'] in ('fixed', 'dynamic'):
            p['head'] = 'complete'
        p['maxrules'] = rng.choice([2, 3, 4])
        p['mincov'] = rng.choice([1, 2])
        p['shrink'] = rng.choice([0.3, 1.0])
        p['iterations'] = rng.choice([0, 1, 1, 2])
        p['refine'] = rng.choice([0, 1])
        p['resample'] = rng.choice([0, 1])
        p['maxcond'] = rng.choice([0, 2, 3])
        if rng.random() < 0.25:
            p['cut'], p['maxrules'] = 1, rng.choice([4, 6, 8])
        c['isamp'] = sampling(rng, True) if rng.random() < 0.85 else 'none'
        if rng.random() < 0.2:
            c['cls'] = 'BoomerRegressor'
            p['loss'] = 'squared-error'
            p['dec'] = 1
            c['isamp'] = sampling(rng, False)
            c['holdout'] = 'random'
            p['head'] = 'complete' if c['k'] > 1 else 'single'
            p['outsamp'] = 'none'
    if c['kind'] == 'sparse' and (p['irep'] or p['iterations']):
        c['kind'] = 'dense'
    if c['kind'] == 'dup' and (c['isamp'] != 'none' or c['holdout'] != 'none'):
        c['kind'] = 'dense'
    return c


def generate(rng, c):
    sampled = c['isamp'] != 'none' or c['holdout'] != 'none'
    ts, x = columns(rng, c['n'], c['nf'], sampled, c['kind'])
    if c['missing']:
        for i in range(x.shape[0]):
            for f in range(x.shape[1]):
                # the majority value must not change
                if ts[f] == 'n' and rng.random() < c['missing']:
                    x[i, f] = np.nan
    y = outputs(rng, x, c['k'], c['cls'] == 'BoomerRegressor', not c['p']['dec'])
    if c['kind'] == 'dup':
        x, y = np.repeat(x, 2, axis=0), np.repeat(y, 2, axis=0)
    return Data(x, y, ts)


def head_str(p):
    if p['head'] == 'fixed':
        return 'partial-fixed{output_ratio=%s,min_outputs=%d,max_outputs=%d}' % (p['ratio'], p['min'], p['max'])
    if p['head'] == 'dynamic':
        return 'partial-dynamic{threshold=%s,exponent=%s}' % (p['threshold'], p['exponent'])
    return p['head']


def run(rng, c, d, all_=0):
    p = c['p']
    params = {'random_state': rng.randint(1, 10000), 'max_rules': p['maxrules'], 'default_rule': 'true' if p['def'] else 'false',
              'loss': p['loss'] + ('-decomposable' if p['dec'] else '-non-decomposable'), 'head_type': head_str(p),
              'rule_induction': 'top-down-greedy{min_coverage=%d,min_support=%s,max_conditions=%d,max_head_refinements=%d,'
              'recalculate_predictions=%s}' % (p['mincov'], p['minsupport'], p['maxcond'], p['maxref'],
                                               'true' if p['recalc'] else 'false'),
              'l1_regularization_weight': p['l1'], 'l2_regularization_weight': p['l2'], 'shrinkage': p['shrink'],
              'instance_sampling': c['isamp'], 'feature_sampling': c['fsamp'], 'output_sampling': p['outsamp'],
              'holdout': c['holdout'], 'rule_pruning': 'irep' if p['irep'] else 'none',
              'feature_format': 'sparse' if c['kind'] == 'sparse' else 'dense', 'feature_binning': 'none',
              'statistic_format': 'sparse' if c['sstat'] else 'dense', 'parallel_rule_refinement': 'false',
              'parallel_statistic_update': 'false',
              'global_pruning': 'post-pruning{use_holdout_set=true,remove_unused_rules=true,min_rules=2}' if p.get('cut') else 'none'}
    if c['cls'] == 'BoomerClassifier':
        params['label_binning'] = 'none'
        params['binary_predictor'] = 'output-wise'
        params['marginal_probability_calibration'] = 'none'
        params['joint_probability_calibration'] = 'none'
    else:
        del params['statistic_format'], params['default_rule']
        params['default_rule'] = 'true' if p['def'] else 'false'
        if c['holdout'].startswith('strat'):
            params['holdout'] = 'random'
    if p['iterations']:
        params['sequential_post_optimization'] = 'true{num_iterations=%d,refine_heads=%s,resample_features=%s}' % (
            p['iterations'], 'true' if p['refine'] else 'false', 'true' if p['resample'] else 'false')
    x = to_sparse(d.x, 0.0, 'csc') if c['kind'] == 'sparse' else d.x
    if c['kind'] == 'sparse':
        nnz = np.isnan(d.x) | (d.x != 0)
    sparse_y = not all_ and params['random_state'] % 3 == 0
    est, ev = fit(globals()[c['cls']], d, params, x=x, sparse_y=sparse_y)
    segs, part = segments(ev)
    n, k = d.y.shape
    reg = c['cls'] == 'BoomerRegressor'
    y = d.y.astype(np.float64) if c['cls'] == 'BoomerRegressor' else np.where(d.y > 0, 1.0, -1.0)
    q = dict(loss=p['loss'], dec=p['dec'], head=p['head'], ratio=f32(p['ratio']), min=p['min'], max=p['max'],
             threshold=f32(p['threshold']), exponent=f32(p['exponent']), l1=fb(p['l1']), l2=fb(p['l2']),
             shrink=fb(p['shrink']), mincov=p['mincov'], minsupport=f32(p['minsupport']), maxcond=p['maxcond'],
             maxref=p['maxref'], recalc=p['recalc'], irep=p['irep'], maxrules=p['maxrules'],
             outsamp=int(p['outsamp'] != 'none'), iterations=p['iterations'], refine=p['refine'], resample=p['resample'],
             regular=sum(s['kind'] == 'weights' for s in segs), cut=p.get('cut', 0))
    q['def'] = p['def']
    if p['head'] == 'fixed' and p['ratio'] == 0:
        q['ratio'] = f32(np.float32(d.y.sum()) / np.float32(n) / np.float32(k)) if c['cls'] == 'BoomerClassifier' else f32(0.33)
    m = est.model_
    partial = k > 1 and p['head'] != 'complete' or p['outsamp'] != 'none'
    asis = p['irep'] or p['iterations'] or c['kind'] == 'sparse' or (reg and (partial or not p['dec'])) or (not p['dec'] and p['head'] in ('fixed', 'dynamic'))
    return {'variants': 2 if asis and not all_ else 0, 'reg': int(reg), 'ysparse': int(sparse_y), 'n': n, 'k': k, 'nf': d.x.shape[1], 'x': fbm(d.x), 'types': list(d.types), 'sparse': int(c['kind'] == 'sparse'),
            'all': int(all_ == 1), 'y': fbm(y), 'train': [i + 1 for i in (part[0] if part else range(n))], 'p': q,
            'segs': enc_segments(segs, n), 'rules': [r.enc(k) for r in rules_of(m, False)], 'used': m.get_num_used_rules(),
            'params': str(params)}


NUM = {'search': 1000, 'heads': 800, 'limits': 1000, 'bounds': 1000, 'relearn': 800}


def jobs(seed, tier):
    if MODE == 'known':
        yield from known()
        return
    if MODE == 'known-heads':
        yield from known_heads()
        return
    if MODE == 'known-relearn':
        # Scores of examples that satisfy all conditions but the last one of a pruned rule are updated
        yield 'known-boosting-irep', designated('limits', irep=1, seed=20, all_=2, k=1, l2=1.0)
        # The scores predicted by a rule remain missing if no other rule is found
        yield 'known-boosting-relearn', designated('relearn', isamp='with-replacement', seed=19, all_=2, iterations=3, refine=1,
                                                   resample=1, k=1, maxrules=6, mincov=4, l2=0.5, shrink=1.0)
        return
    for i in range(NUM[MODE] * (1 if tier == 'quick' else 10)):
        def fn(i=i):
            rng = random.Random(seed * 1000003 + i * 11 + len(MODE))
            c = config(rng, MODE)
            return run(rng, c, generate(rng, c))
        yield '%s-%d' % (MODE, i), fn


def designated(mode, kind='dense', cls='BoomerClassifier', seed=7, k=3, isamp='none', all_=1, **kw):
    """A random case with certain parameters that is only judged by the intended behaviour."""
    def fn():
        rng = random.Random(seed)
        c = config(rng, mode)
        c.update(cls=cls, kind=kind, k=k, nf=2, n=10, isamp=isamp, holdout='none', fsamp='none', sstat=False, missing=0)
        c['p'].update({'loss': 'squared-error', 'head': 'single', 'outsamp': 'none', 'dec': 1, 'irep': 0, 'maxrules': 4,
                       'l1': 0.0, 'maxcond': 0, 'maxref': 1, 'mincov': 1, 'minsupport': 0.0, 'def': 1, 'min': 2, 'max': 2})
        c['p'].update(kw)
        if c['p']['irep']:
            c['isamp'] = 'without-replacement{sample_size=0.5}'
        return run(rng, c, generate(rng, c), all_=all_)
    return fn


def known_heads():
    # Gradients of the wrong outputs are updated if rules that predict for individual outputs are learned
    yield 'known-regression-single', designated('heads', cls='BoomerRegressor')
    # Target values are mistaken for labels by the non-decomposable loss
    yield 'known-regression-joint', designated('heads', cls='BoomerRegressor', dec=0, head='complete')
    # Gradients and Hessians of the wrong outputs are used
    yield 'known-dynamic-joint', designated('heads', dec=0, head='dynamic', threshold=0.5, seed=9, k=4)
    yield 'known-fixed-joint', designated('heads', dec=0, head='fixed', ratio=0.5, seed=9, k=4)


SEEDS = [3, 3]


def known():
    """One case per known finding, all refinements must be considered."""
    base = dict(cls='BoomerClassifier', kind='dense', missing=0, isamp='none', holdout='none', fsamp='none', sstat=False)
    par = dict(loss='squared-error', dec=1, head='single', ratio=0.0, min=2, max=0, threshold=0.02, exponent=2.0, l1=0.0,
               l2=1.0, shrink=0.3, mincov=1, minsupport=0.0, maxcond=0, maxref=1, recalc=1, irep=0, maxrules=2, outsamp='none',
               iterations=0, refine=0, resample=1)
    par['def'] = 0

    def job(t, col, y, seed=1, **kw):
        def fn():
            d = Data(np.asarray([col], dtype=np.float32).T.copy(), np.asarray([y], dtype=np.uint8).T.copy(), t)
            return run(random.Random(seed), dict(base, p=par, **kw), d, all_=1)
        return fn
    # The smallest non-negative value is never separated from the following one
    yield 'known-smallest-value', job('n', [0, 1, 2, 3, 4], [1, 0, 0, 0, 0])
    # The smallest positive value is not taken into account when separating positive values from zeros of sparse features
    yield 'known-sparse-positive', job('n', [0, 0, 0, 1, 2, 3], [1, 1, 1, 0, 0, 0], kind='sparse')
    # A condition that covers all examples is used if there are no positive values
    yield 'known-sparse-no-positive', job('n', [0, 0, 0, -1, -2, -3], [1, 1, 1, 1, 1, 1], kind='sparse')
    # A feature is considered as constant if the i-th of its remaining values equals the first one after a > condition
    yield 'known-constant-after-greater', job('n', [-9, -9, -9, -5, -5, -5, -5, -5, -2, -2], [0, 0, 0, 1, 1, 1, 1, 1, 1, 0])
    # A feature is dropped after its majority value has been excluded
    yield 'known-nominal-majority', job('c', [0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3], [0, 1, 0, 1, 0, 1, 1, 1, 1, 1, 0, 1])
    # Values smaller than the majority are skipped if all examples with the smallest value have zero weights
    yield 'known-ordinal-zero-weights', job('o', [0, 1, 1, 2, 2, 2, 2, 3, 3], [0, 0, 0, 1, 1, 1, 1, 0, 0], seed=SEEDS[0],
                                            isamp='without-replacement{sample_size=0.66}')
    # An example with zero weight hides that the value changes if another example has the same value
    yield 'known-zero-weight-tie', job('n', [-5, -5, -4, -4, -3, -3, -2, -2], [1, 1, 1, 1, 0, 0, 0, 0], seed=SEEDS[1],
                                       isamp='without-replacement{sample_size=0.66}')


if __name__ == '__main__':
    main(jobs)
