"""C14: how many rules are learned, used and kept if models are pruned globally."""
import random
import numpy as np
from hc import *
from lc import fit, segments, enc_segments
import boost_fit
from boost_fit import config, generate, head_str

NUM = 3000


def pruning(rng):
    b = lambda v: 'true' if v else 'false'
    g = {'t': rng.choice(['post', 'pre', 'pre', 'pre', 'none']) if rng.random() < 0.97 else 'none', 'holdout': int(rng.random() < 0.6),
         'remove': int(rng.random() < 0.5), 'min': rng.choice([1, 1, 2, 3, 5, 8, 12]), 'update': rng.choice([1, 1, 1, 2, 3]), 'stop': 1,
         'past': rng.choice([1, 1, 2, 3, 5]), 'recent': rng.choice([1, 1, 2, 3, 5]), 'agg': rng.choice(['min', 'max', 'avg']),
         'improvement': rng.choice([0.0, 0.0, 0.005, 0.05, 0.2, 0.5])}
    g['stop'] = g['update'] * rng.choice([1, 1, 2, 3])
    if g['t'] == 'post':
        s = 'post-pruning{use_holdout_set=%s,remove_unused_rules=%s,min_rules=%d,interval=%d}' % (
            b(g['holdout']), b(g['remove']), g['min'], g['update'])
    elif g['t'] == 'pre':
        s = ('pre-pruning{aggregation=%s,use_holdout_set=%s,remove_unused_rules=%s,min_rules=%d,update_interval=%d,stop_interval=%d,'
             'num_past=%d,num_recent=%d,min_improvement=%s}' % (g['agg'], b(g['holdout']), b(g['remove']), g['min'], g['update'],
                                                                g['stop'], g['past'], g['recent'], g['improvement']))
    else:
        s = 'none'
    g['improvement'] = fb(g['improvement'])
    return g, s


def run(rng):
    c = config(rng, 'heads' if rng.random() < 0.5 else 'limits')
    p = c['p']
    regression = c['cls'] == 'BoomerRegressor'
    # Examples are mistaken for being covered by rules that have been pruned or test sparse features, non-decomposable losses
    # mistake target values for labels (see known-findings.jsonl)
    p['irep'] = 0
    if c['kind'] == 'sparse':
        c['kind'] = 'dense'
    p['dec'] = 1 if regression else rng.choice([1, 1, 0])
    if not regression and rng.random() < 0.15:
        p['loss'], p['dec'], c['sstat'], p['def'] = 'squared-hinge', 1, 1, 0
        p['head'] = rng.choice(['single', 'fixed', 'complete'])
    if not p['dec'] and p['head'] in ('fixed', 'dynamic'):
        p['head'] = 'complete'
    p['maxrules'] = rng.choice([3, 6, 10, 15, 20, 30])
    p['shrink'] = rng.choice([0.3, 1.0, 1.0])
    p['l2'] = rng.choice([0.0, 0.25, 1.0]) if p['loss'] == 'squared-error' and p['dec'] else p['l2']
    p['mincov'] = rng.choice([1, 1, 2])
    c['holdout'] = rng.choice(['none', 'random', 'random'] if regression else ['none', 'random', 'random', 'stratified-output-wise'])
    c['n'] = rng.choice([10, 14, 20])
    d = generate(rng, c)
    g, s = pruning(rng)
    params = {'random_state': rng.randint(1, 10000), 'max_rules': p['maxrules'], 'default_rule': 'true' if p['def'] else 'false',
              'loss': p['loss'] + ('-decomposable' if p['dec'] else '-non-decomposable'), 'head_type': head_str(p),
              'rule_induction': 'top-down-greedy{min_coverage=%d,max_conditions=%d}' % (p['mincov'], p['maxcond']),
              'l1_regularization_weight': p['l1'], 'l2_regularization_weight': p['l2'], 'shrinkage': p['shrink'],
              'instance_sampling': c['isamp'], 'feature_sampling': c['fsamp'], 'output_sampling': p['outsamp'],
              'holdout': c['holdout'], 'rule_pruning': 'none', 'feature_format': 'dense', 'feature_binning': 'none',
              'parallel_rule_refinement': 'false', 'parallel_statistic_update': 'false', 'global_pruning': s}
    if not regression:
        # Statistics may only be sparse in case of losses that are zero for irrelevant labels
        params.update(label_binning='none', binary_predictor='output-wise', marginal_probability_calibration='none',
                      joint_probability_calibration='none', statistic_format='sparse' if c['sstat'] and p['dec'] else 'dense')
    est, ev = fit(globals()[c['cls']], d, params, sparse_y=params['random_state'] % 3 == 0)
    segs, part = segments(ev)
    n, k = d.y.shape
    m = est.model_
    rules = [r.enc(k) for r in rules_of(m, False)]
    segs = enc_segments(segs, n)
    learned = [r for r in rules if r['d']] + [{'d': 0, 'c': s['c'], 'o': s['o'], 's': s['s']} for s in segs if s['found']]
    pred = est.predict(d.x, predict_scores=True) if not regression else est.predict(d.x)
    g.update(loss=p['loss'], dec=p['dec'], maxrules=p['maxrules'])
    g['def'] = p['def']
    y = d.y.astype(np.float64) if regression else np.where(d.y > 0, 1.0, -1.0)
    return {'n': n, 'k': k, 'x': fbm(d.x), 'y': fbm(y), 'train': [i + 1 for i in (part[0] if part else range(n))],
            'holdout': [i + 1 for i in part[1]] if part else [], 'p': g, 'learned': learned, 'rules': rules,
            'used': m.get_num_used_rules(), 'failed': int(bool(segs) and not segs[-1]['found']),
            'pred': fbm(np.asarray(pred, dtype=np.float64).reshape(n, k)), 'params': str(params)}


def jobs(seed, tier):
    for i in range(NUM * (1 if tier == 'quick' else 10)):
        yield 'pruning-%d' % i, lambda i=i: run(random.Random(seed * 1000003 + i * 17 + 3))


if __name__ == '__main__':
    main(jobs)
