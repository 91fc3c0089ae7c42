"""C10: everything that is drawn at random while models are trained."""
import json, os, random
import numpy as np
from hc import *
from lc import gen_data, fit, feature_input, Data
import scipy.sparse as sp

GEN = None


def gen():
    global GEN
    if GEN is None:
        GEN = json.load(open(os.environ['GEN']))
    return GEN


NO = {'kind': 'none', 'size': fb(0.0), 'min': 1, 'max': 0, 'ret': 0}


def par(kind, size, mn=1, mx=0, ret=0):
    return {'kind': kind, 'size': fb(float(np.float32(size))), 'min': mn, 'max': mx, 'ret': ret}


def opts(kind, **kw):
    return kind + ('{' + ','.join('%s=%s' % i for i in kw.items()) + '}' if kw else '')


def draw_bounds(rng, n):
    mn = rng.choice([1, 1, 1, 2, 3, 5, max(1, n - 1), n + 2])
    mx = rng.choice([0, 0, 0, mn, mn + 1, max(mn, n - 1)])
    return mn, mx


def size(rng):
    return rng.choice([0.01, 0.03, 0.05, 0.1, 0.2, 0.25, 0.33, 0.5, 0.5, 0.6, 0.66, 0.75, 0.8, 0.9, 0.99, round(rng.uniform(0.01, 0.99), 3)])


def labels_input(rng, d):
    k = rng.choice(['dense', 'dense', 'lil', 'csr'])
    if k == 'dense':
        return d.y
    return sp.lil_array(d.y) if k == 'lil' else sp.csr_array(d.y)


def events(ev):
    out = []
    for e in ev:
        k = e['e']
        if k == 'partition':
            out.append({'e': 'part', 'train': [i + 1 for i in e['train']], 'hold': [i + 1 for i in e['holdout']]})
        elif k == 'weights':
            out.append({'e': 'w', 'w': e['w'], 'nz': e['nz']})
        elif k == 'postopt':
            break  # instances are sampled differently by post-optimization (see C16)
        elif k == 'outputs':
            out.append({'e': 'o', 'idx': [i + 1 for i in e['idx']]})
        elif k == 'features':
            out.append({'e': 'f', 'idx': [i + 1 for i in e['idx']]})
    return out


def case(rng, i, stratified=None):
    cls = rng.choice([BoomerClassifier, BoomerClassifier, SeCoClassifier, BoomerRegressor])
    if stratified:
        cls = rng.choice([BoomerClassifier, SeCoClassifier])
    big = rng.random() < 0.25
    n = rng.choice([1, 2, 3, 5, 8, 13]) if not big else rng.choice([20, 37, 70])
    nf = rng.choice([1, 2, 3, 6]) if not big else rng.choice([9, 20, 45])
    no = rng.choice([1, 2, 3, 5]) if rng.random() < 0.85 else rng.choice([18, 25, 40])
    strat = ['stratified-output-wise', 'stratified-example-wise'] if cls is not BoomerRegressor else []
    if no > 5:
        strat = strat[1:]
    elif n > 20 and strat:
        no = min(no, 3)
    p = {'random_state': rng.randint(1, 100000), 'max_rules': rng.choice([2, 4, 7]) if no <= 5 else rng.choice([4, 8])}
    d = gen_data(rng, n, nf, no, types='n', regression=cls is BoomerRegressor, continuous=0.5)
    c = {'kind': cls.__name__, 'n': n, 'nf': nf, 'no': no, 'hold': NO, 'inst': NO, 'out': NO, 'feat': NO, 'once': 0}
    # holdout
    k = rng.choice(['none', 'random'] + strat) if n >= 3 else 'none'
    p['holdout'] = 'none'
    if k != 'none':
        s = size(rng)
        if 1 <= int(s * n) < n:
            p['holdout'] = opts(k, holdout_set_size=s)
            c['hold'] = par(k, s)
    if stratified:
        # scenarios that have been enumerated by TLC: sizes of classes and the number of training examples
        sizes, first = stratified
        n = sum(sizes)
        c['n'] = n
        rows = [j for j, k in enumerate(sizes) for _ in range(k)]
        rng.shuffle(rows)
        no = c['no'] = rng.choice([len(sizes), max(1, len(sizes) - 1)]) if i % 2 else max(1, (len(sizes) - 1).bit_length())
        y = np.zeros((n, no), dtype=np.uint8)
        for r, k in enumerate(rows):
            if i % 2:  # one label per class, possibly a class without any labels
                if k < no:
                    y[r, k] = 1
            else:
                for b in range(no):
                    y[r, b] = (k >> b) & 1
        d = gen_data(rng, n, nf, no, types='n', continuous=0.5)
        d.y = y
        s = (n - first + 0.5) / n
        kind = strat[0] if i % 2 else 'stratified-example-wise'
        kind = rng.choice(['stratified-output-wise', 'stratified-example-wise'])
        if rng.random() < 0.6:
            s = round(s, 4) if s < 1 else (n - first + 0.25) / n
            p['holdout'] = opts(kind, holdout_set_size=s)
            c['hold'] = par(kind, s)
        else:
            p['holdout'] = 'none'
            c['hold'] = NO
            s = round(first / n, 4)
            p['instance_sampling'] = opts(kind, sample_size=s)
            c['inst'] = par(kind, s)
    # instances
    nt = n - int(np.float32(np.float32(float(p['holdout'].split('=')[1].rstrip('}'))) * np.float32(n))) if p['holdout'] != 'none' else n
    if 'instance_sampling' not in p:
        k = rng.choice(['none', 'with-replacement', 'without-replacement'] + strat)
        p['instance_sampling'] = k
        if k != 'none':
            s = size(rng)
            mn, mx = draw_bounds(rng, nt) if 'strat' not in k or rng.random() < 0.1 else (1, 0)
            kw = {'sample_size': s}
            if (mn, mx) != (1, 0):
                kw.update(min_samples=mn, max_samples=mx)
            p['instance_sampling'] = opts(k, **kw)
            c['inst'] = par(k, s, mn, mx)
    # features
    k = rng.choice(['none', 'without-replacement', 'without-replacement'])
    p['feature_sampling'] = k
    if k != 'none':
        s = rng.choice([0.0, size(rng)])
        mn, mx = draw_bounds(rng, nf) if s else (1, 0)
        ret = rng.choice([0, 0, 1, 2, nf, nf + 1])
        p['feature_sampling'] = opts(k, sample_size=s, min_samples=mn, max_samples=mx, num_retained=ret)
        c['feat'] = par(k, s, mn, mx, ret)
    # outputs
    k = rng.choice(['none', 'round-robin', 'without-replacement'])
    p['output_sampling'] = k
    c['out'] = dict(NO, kind=k)
    if k == 'without-replacement':
        s = size(rng)
        mn, mx = draw_bounds(rng, no)
        p['output_sampling'] = opts(k, sample_size=s, min_samples=mn, max_samples=mx)
        c['out'] = par(k, s, mn, mx)
    # search
    if rng.random() < 0.3:
        res = rng.random() < 0.5
        p['rule_induction'] = 'top-down-beam-search{beam_width=%d,max_conditions=3,resample_features=%s}' % (rng.choice([2, 3]), 'true' if res else 'false')
        c['once'] = 0 if res else 1
        p['feature_sampling'] = p['feature_sampling']
    else:
        p['rule_induction'] = 'top-down-greedy{max_conditions=%d}' % rng.choice([1, 2, 4])
    p['rule_pruning'] = 'none'
    if cls is SeCoClassifier:
        p['head_type'] = 'single' if no == 1 else rng.choice(['single', 'partial'])
        p['lift_function'] = 'none' if p['head_type'] == 'single' else 'peak'
    else:
        p['head_type'] = 'single'
        p['default_rule'] = rng.choice(['true', 'false'])
    if cls is BoomerClassifier:
        p['statistic_format'] = 'dense'
    x, _ = feature_input(rng, d, rng.choice(['dense', 'csr']))
    y = labels_input(rng, d) if cls is not BoomerRegressor else d.y
    if cls is not SeCoClassifier:
        p.pop('lift_function', None)
    if os.environ.get('VERIF_DEBUG'):
        import sys
        print(cls.__name__, p, file=sys.stderr)
    est, ev = fit(cls, d, p, x=x, y=y)
    c['labels'] = [[j + 1 for j in range(no) if d.y[e, j]] if cls is not BoomerRegressor else [] for e in range(n)]
    ev = events(ev)
    for e in ev:
        if e['e'] == 'w' and e['w'] is None:
            e['w'], e['nz'] = [1] * n, n
    c['ev'] = ev
    c['params'] = json.dumps(p)
    return c


def bounds_case(rng):
    """Stratified sampling does not consider the bounds (see known-findings.jsonl)"""
    kind = rng.choice(['stratified-output-wise', 'stratified-example-wise'])
    d = gen_data(rng, 20, 2, 2, types='n')
    est, ev = fit(BoomerClassifier, d, {'max_rules': 3, 'head_type': 'single', 'feature_sampling': 'none',
                                        'instance_sampling': kind + '{sample_size=0.5,max_samples=2}'})
    return {'kind': 'bounds', 'n': 20, 'nf': 2, 'no': 2, 'hold': NO, 'out': NO, 'feat': NO, 'once': 0,
            'inst': par(kind, 0.5, 1, 2), 'labels': [[j + 1 for j in range(2) if d.y[e, j]] for e in range(20)],
            'ev': events(ev)}


def jobs(seed, tier):
    q = 1 if tier == 'quick' else 20
    for i in range(700 * q):
        def fn(i=i):
            return case(random.Random(seed * 1000033 + i * 7 + 3), i)
        yield 'sample-%d' % i, fn
    n = len(gen())
    for i in range(n * (1 if tier == 'quick' else 8)):
        def fn(i=i):
            return case(random.Random(seed * 1000033 + i * 7 + 5), i, stratified=gen()[i % n])
        yield 'strata-%d' % i, fn
    yield 'bounds', lambda: bounds_case(random.Random(seed))


if __name__ == '__main__':
    main(jobs)
