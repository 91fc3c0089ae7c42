"""C13: the same data, represented in different ways. VERIF_MODE=known: designated cases of known findings."""
import os, random
import numpy as np
import scipy.sparse as sp
from hc import *
from lc import Data, fit, segments, enc_segments
from boost_fit import columns, outputs, sampling

MODE = os.environ.get('VERIF_MODE', 'all')
SPARSE_VALUES = [0.0, -1.0, 2.5]


def config(rng):
    cls = rng.choice(['BoomerClassifier', 'BoomerClassifier', 'BoomerRegressor', 'SeCoClassifier', 'SeCoClassifier'])
    k = rng.choice([1, 2, 3, 4, 6])
    c = dict(cls=cls, k=k, n=rng.choice([6, 10, 16, 24]), nf=rng.choice([1, 2, 3, 5]), kind=rng.choice(['dense', 'dup', 'sparse']),
             missing=rng.choice([0, 0, 0.1]), reg=cls == 'BoomerRegressor', sstat=False, density=rng.choice([None, 0.1, 0.3]))
    p = {'random_state': rng.randrange(1, 10000), 'max_rules': rng.choice([2, 4, 8]), 'holdout': 'none', 'rule_pruning': 'none',
         'instance_sampling': 'none', 'feature_sampling': rng.choice(['none', 'none', 'without-replacement{sample_size=0.6}']),
         'rule_induction': 'top-down-greedy{max_conditions=%d}' % rng.choice([0, 1, 2]), 'parallel_rule_refinement': 'false',
         'parallel_statistic_update': 'false', 'parallel_prediction': 'false'}
    if rng.random() < 0.4:
        p['instance_sampling'] = sampling(rng, cls != 'BoomerRegressor')
    if k > 1 and rng.random() < 0.3:
        p['output_sampling'] = rng.choice(['round-robin', 'without-replacement{sample_size=0.6,max_samples=0}'])
    else:
        p['output_sampling'] = 'none'
    if cls == 'SeCoClassifier':
        p['head_type'] = rng.choice(['single', 'partial']) if k > 1 else 'single'
        p['heuristic'] = rng.choice(['accuracy', 'precision', 'f-measure', 'laplace', 'weighted-relative-accuracy', 'm-estimate', 'recall'])
    else:
        p['feature_binning'] = rng.choice(['none'] * 4 + ['equal-width{bin_ratio=0.5}', 'equal-frequency{bin_ratio=0.5}'])
        p['head_type'] = 'single' if k == 1 else rng.choice(['single', 'complete', 'partial-fixed', 'partial-dynamic'])
        force = not c['reg'] and k > 1 and rng.random() < 0.3
        loss = 'squared-hinge' if force else rng.choice(['squared-error', 'logistic', 'squared-hinge'] if not c['reg'] else ['squared-error'])
        dec = force or rng.random() < 0.6
        p['loss'] = loss + ('-decomposable' if dec else '-non-decomposable')
        p['default_rule'] = rng.choice(['true', 'false'])
        p['l2_regularization_weight'] = rng.choice([0.25, 1.0])
        p['statistic_format'] = 'dense'
        if not c['reg']:
            p['label_binning'] = 'none'
            p['binary_predictor'] = rng.choice(['output-wise', 'example-wise'])
        if loss == 'squared-hinge' and dec and p['head_type'] != 'complete' and k > 1:
            p['default_rule'] = 'false'
            c['sstat'] = True
    c['p'] = p
    return c


def generate(rng, c):
    ts, x = columns(rng, c['n'], c['nf'], c['p']['instance_sampling'] != 'none', c['kind'])
    y = outputs(rng, x, c['k'], c['reg'])
    if c['missing']:
        for i in range(x.shape[0]):
            for f in range(x.shape[1]):
                if ts[f] == 'n' and rng.random() < c['missing']:
                    x[i, f] = np.nan
    if c['density']:
        y = np.where(np.asarray([[rng.random() < c['density'] for _ in r] for r in y]), y, 0).astype(y.dtype)
    if c['kind'] == 'dup':
        x, y = np.repeat(x, 2, axis=0), np.repeat(y, 2, axis=0)
    return Data(x, y, ts)


def layouts(x):
    """The same dense values"""
    wide = np.zeros((x.shape[0] * 2, x.shape[1] * 3), dtype=x.dtype)
    wide[::2, 1::3] = x
    yield 'fortran', np.asfortranarray(x)
    yield 'strided', wide[::2, 1::3]
    yield 'reversed', x[::-1].copy()[::-1]
    yield 'float64', x.astype(np.float64)
    yield 'list', x.tolist()
    if not np.isnan(x).any() and (x == np.round(x)).all():
        yield 'int64', x.astype(np.int64)


def sparse_layouts(rng, x, value=0.0, explicit=0.0, implicit=()):
    """The same values, stored in different sparse formats"""
    base = to_sparse(x, value, 'csr', rng, explicit=explicit, implicit=implicit)
    yield 'csr', base
    yield 'csc', base.tocsc()
    yield 'coo', base.tocoo()
    if explicit == 0 and value == 0:
        yield 'lil', base.tolil()
        yield 'dok', base.todok()
    uns = to_sparse(x, value, 'csr', rng, explicit=explicit, unsorted=True, implicit=implicit)
    yield 'unsorted csr', uns
    uns = to_sparse(x, value, 'csc', rng, explicit=explicit, unsorted=True, implicit=implicit)
    yield 'unsorted csc', uns
    yield 'matrix', sp.csr_matrix(base)


def pred_of(est, c, q, kw):
    res = {'labels': enc(est.predict(q, **kw))}
    if c['cls'] == 'BoomerClassifier':
        res['scores'] = enc(est.predict(q, predict_scores=True, **kw))
    if c['cls'] == 'BoomerClassifier' and c['p']['loss'].startswith('logistic'):
        res['proba'] = enc(est.predict_proba(q, **kw))
    return res


def enc(p):
    p = dense(p)
    return [[fb(v) for v in row] for row in p.reshape(p.shape[0], -1).astype(np.float64)]


def train(c, d, what, exact, x, y, params=None, kw=None):
    """One training, which is recorded"""
    est = globals()[c['cls']](**dict(c['p'], **(params or {})))
    for k, v in d.kwargs().items():
        setattr(est, k, v)
    run = {'what': what, 'exact': exact, 'items': [], 'preds': {}, 'scores': [], 'used': 0, 'fail': ''}
    try:
        with Trace(os.path.abspath('trace-%d.nd' % os.getpid())) as t:
            est.fit(x, y, **(kw or {}))
        for s in enc_segments(segments(t.events)[0], len(d.x)):
            run['items'].append({'k': 'sample', 'w': s['w'], 'o': s['outs']})
            run['items'] += [dict(g, k='grow') for g in s['grow']]
            run['items'].append({'k': 'rule', 'c': s['c'], 'o': s['o'], 's': s['s'], 'found': s['found']})
        est.feature_format = est.prediction_format = 'dense'
        run['used'] = est.model_.get_num_used_rules()
        run['preds'] = pred_of(est, c, d.x, {})
        run['scores'] = run['preds'].get('scores', run['preds']['labels'])
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        run['fail'] = type(e).__name__ + ': ' + str(e)[:100]
    return est, run


def case(rng, c=None):
    known = c is not None
    c = c or config(rng)
    mode = rng.choice(['dense', 'sparse', 'labels', 'labels'] + ['statistics'] * (8 if c['sstat'] else 0))
    if known:
        mode = 'labels'
    if mode in ('labels', 'statistics') and c['p']['instance_sampling'] == 'stratified-example-wise':
        # Label vectors are grouped in different orders
        c['p']['instance_sampling'] = 'with-replacement'
    d = generate(rng, c)
    x, y = np.ascontiguousarray(d.x), np.ascontiguousarray(d.y)
    implicit = [i for i, t in enumerate(d.types) if t != 'n']
    runs = []
    dn = {'feature_format': 'dense', 'output_format': 'dense'}
    if mode == 'dense':
        est, run = train(c, d, 'dense', 1, x, y, dn)
        runs.append(run)
        variants = [(w, v, {}) for w, v in layouts(x)]
        for value in (0.0, rng.choice(SPARSE_VALUES)):
            variants += [('%s (sparse value %s)' % (w, value), v, {'sparse_feature_value': value})
                         for w, v in sparse_layouts(rng, x, value, rng.choice([0.0, 0.2]))]
        for w, v, kw in rng.sample(variants, min(5, len(variants))):
            runs.append(train(c, d, w, 1, v, y, dn, kw)[1])
    elif mode == 'sparse':
        params = {'feature_format': 'sparse', 'output_format': 'dense'}
        value = rng.choice(SPARSE_VALUES) if c['kind'] != 'sparse' else 0.0
        kw = {'sparse_feature_value': value}
        est, run = train(c, d, 'csc', 1, to_sparse(x, value, 'csc'), y, params, kw)
        runs.append(run)
        variants = list(sparse_layouts(rng, x, value))
        if c['kind'] != 'sparse' or c['p']['instance_sampling'] != 'none':
            # The order of examples with the same value matters due to defects of the search (see known-findings.jsonl)
            variants = [v for v in variants if v[0] != 'unsorted csc']
        for w, v in rng.sample(variants, 4):
            runs.append(train(c, d, w, int('unsorted' not in w), v, y, params, kw)[1])
    elif mode == 'labels':
        est, run = train(c, d, 'dense', 1, x, y, dn)
        runs.append(run)
        variants = [(w, 1, v) for w, v in layouts(y)]
        if not c['reg']:
            variants += [('bool', 1, y.astype(bool)), ('int8', 1, y.astype(np.int8))]
        sparse = [sp.csr_array(y), sp.csc_array(y), sp.lil_array(y), sp.coo_array(y), sp.dok_array(y), sp.csr_matrix(y),
                  to_sparse(y, 0.0, 'csr', rng, unsorted=True)]
        # Statistics are updated incorrectly if target values are dense (see known-findings.jsonl)
        defect = not known and c['reg'] and 'non' not in c['p']['loss'] and (
            c['p']['head_type'] != 'complete' or c['p']['output_sampling'] != 'none')
        for v in rng.sample(sparse, 3):
            v = v.astype(y.dtype)
            variants += [(type(v).__name__ + ' ' + fmt, int(fmt == 'dense'), (v, fmt))
                         for fmt in (('dense',) if defect else ('dense', 'sparse', 'sparse', 'auto'))]
        if not defect:
            v = to_sparse(y, 0.0, 'csr', rng, explicit=0.3).astype(y.dtype)
            variants += [('explicit zeros ' + fmt, int(fmt == 'dense'), (v, fmt)) for fmt in ('dense', 'sparse', 'sparse', 'auto')]
        for w, exact, v in rng.sample(variants, 5) if not known else [('csr', 0, (sp.csr_array(y), 'sparse'))]:
            fmt = 'dense'
            if isinstance(v, tuple):
                v, fmt = v
            runs.append(train(c, d, w, exact, x, v, dict(dn, output_format=fmt))[1])
    else:
        est, run = train(c, d, 'dense', 1, x, y, dn)
        runs.append(run)
        for fmt in ('dense', 'sparse'):
            for sf in ('sparse', 'auto'):
                runs.append(train(c, d, 'statistics %s, labels %s' % (sf, fmt), 0, x, sp.csr_array(y) if fmt == 'sparse' else y,
                                  {'feature_format': 'dense', 'output_format': fmt, 'statistic_format': sf})[1])
    queries = []
    if not runs[0]['fail']:
        q = x[:8]
        variants = [('dense', q, {}, 'dense')] + [(w, v, {}, 'dense') for w, v in layouts(q)]
        value = rng.choice(SPARSE_VALUES)
        for fmt in ('dense', 'sparse'):
            variants += [('%s %s (sparse value %s)' % (w, fmt, value), v, {'sparse_feature_value': value}, fmt)
                         for w, v in sparse_layouts(rng, q, value, rng.choice([0.0, 0.2]))]
        for w, v, kw, fmt in variants[:1] + rng.sample(variants[1:], 5):
            est.feature_format = fmt
            # The predictions of decision lists depend on the format (see known-findings.jsonl)
            est.prediction_format = rng.choice(['dense', 'sparse']) if c['cls'] != 'SeCoClassifier' else 'dense'
            queries.append({'what': w + ' -> ' + est.prediction_format, 'res': pred_of(est, c, v, kw), 'ref': 1})
    return {'kind': mode, 'cls': c['cls'], 'runs': runs, 'queries': queries, 'types': list(d.types), 'x': fbm(d.x),
            'y': fbm(d.y.astype(np.float64)), 'params': str(c['p'])}


NUM = 1500


def designated(loss, head):
    rng = random.Random(5)
    c = config(rng)
    c.update(cls='BoomerRegressor', reg=True, sstat=False, n=10, k=3, nf=3, kind='dense', missing=0, density=None)
    p = {k: v for k, v in c['p'].items() if k.startswith('parallel')}
    p.update(random_state=3, max_rules=4, holdout='none', rule_pruning='none', instance_sampling='none', feature_sampling='none',
             output_sampling='none', feature_binning='none', default_rule='true', loss=loss, head_type=head, statistic_format='dense',
             l2_regularization_weight=1.0, rule_induction='top-down-greedy{max_conditions=1}')
    c['p'] = p
    return case(rng, c)


def jobs(seed, tier):
    if MODE == 'known':
        yield 'known-decomposable', lambda: designated('squared-error-decomposable', 'single')
        return
    for i in range(NUM * (1 if tier == 'quick' else 10)):
        yield 'rep-%d' % i, lambda i=i: case(random.Random(seed * 1000033 + i * 7 + 13))


if __name__ == '__main__':
    main(jobs)
