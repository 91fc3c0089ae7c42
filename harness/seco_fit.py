"""C08, C16: how rules are learned by the separate-and-conquer algorithm. VERIF_MODE=heur (C08): heuristics, lift functions,
heads and stopping; prune (C16): pruning of rules and sequential post-optimization; known*: designated cases of known findings."""
import os, random
import numpy as np
from hc import *
from lc import Data, fit, segments, enc_segments
from boost_fit import columns, outputs, sampling, f32

MODE = os.environ.get('VERIF_MODE', 'heur')


def heuristic(rng, pruning=False):
    t = rng.choice(['accuracy', 'precision', 'recall', 'laplace', 'wra', 'f-measure', 'f-measure', 'm-estimate', 'm-estimate'])
    v = {'f-measure': [0.0, 0.25, 0.5, 1.0, 2.0, float('inf')], 'm-estimate': [0.0, 0.5, 1.0, 22.466, float('inf')]}.get(t, [0.0])
    return t, rng.choice(v)


def heur_str(h):
    t, v = h
    return {'wra': 'weighted-relative-accuracy', 'f-measure': 'f-measure{beta=%s}' % v, 'm-estimate': 'm-estimate{m=%s}' % v}.get(t, t)


def enc_heur(h):
    t, v = h
    return {'t': t, 'v': fb(0.0 if v == float('inf') else v), 'inf': int(v == float('inf'))}


def config(rng, mode):
    k = rng.choice([1, 2, 3, 3, 4])
    c = dict(kind=rng.choice(['dense', 'dense', 'dup', 'sparse']), n=rng.choice([6, 8, 10, 12]), nf=rng.choice([1, 2, 3]), k=k,
             missing=rng.choice([0, 0, 0.1]), isamp='none', holdout='none', fsamp='none', fmt=rng.choice(['dense', 'sparse']))
    p = dict(heur=heuristic(rng), pheur=heuristic(rng, True), head=rng.choice(['single', 'partial', 'partial']), mincov=rng.choice([1, 1, 2]),
             minsupport=0.0, maxcond=rng.choice([0, 0, 1, 2]), maxref=rng.choice([0, 1, 1, 2]), irep=0,
             maxrules=rng.choice([1, 3, 5, 8, 12]), outsamp='none', iterations=0, refine=0, resample=1)
    c['p'] = p
    p['lift'] = rng.choice([('none',), ('kln', rng.choice([0.08, 0.5, 1.0])),
                            ('peak', rng.choice([0, 1, 1, 2, 3, 4]), rng.choice([1.08, 1.5, 2.0]), rng.choice([1.0, 0.5, 2.0]))])
    p['def'] = 1
    if k > 1:
        p['outsamp'] = rng.choice(['none', 'none', 'none', 'round-robin', 'without-replacement{sample_size=%s,max_samples=0}' % rng.choice([0.67, 0.76])])
    if rng.random() < 0.4:
        c['isamp'] = sampling(rng, True)
    if rng.random() < 0.2:
        c['fsamp'] = 'without-replacement{sample_size=0.6}'
    if mode == 'prune':
        p['irep'] = int(rng.random() < 0.7)
        c['isamp'] = sampling(rng, True) if rng.random() < 0.85 else 'none'
        c['holdout'] = rng.choice(['none', 'none', 'random', 'stratified-output-wise', 'stratified-example-wise'])
        p['iterations'] = rng.choice([0, 1, 2])
        p['refine'] = rng.choice([0, 1])
        p['resample'] = rng.choice([0, 1])
        p['maxcond'] = rng.choice([0, 0, 2, 3])
        c['n'] = rng.choice([8, 12, 16])
    if mode == 'lifted':
        # Large heads of which some labels have been covered by earlier rules
        c.update(k=rng.choice([4, 5, 6, 8]), n=rng.choice([8, 10, 14]), nf=rng.choice([1, 2, 3]), kind='dense', isamp='none',
                 fmt=rng.choice(['dense', 'sparse', 'sparse']), many=1)
        p.update(head='partial', maxcond=rng.choice([0, 2, 3]), maxref=rng.choice([0, 1, 2]), maxrules=rng.choice([3, 5, 8]), mincov=1,
                 outsamp=rng.choice(['none', 'none', 'none', 'without-replacement{sample_size=0.76,max_samples=0}']))
        if rng.random() < 0.5:
            p['heur'] = rng.choice([('precision', 0.0), ('laplace', 0.0), ('m-estimate', 2.0), ('f-measure', 0.25)])
        p['lift'] = rng.choice([('kln', rng.choice([0.1, 0.2, 0.3, 0.4, 0.6, 1.0]))] * 2 +
                               [('peak', rng.choice([1, 2, 4, c['k']]), rng.choice([1.2, 1.5, 2.0]), rng.choice([1.0, 0.3, 3.0]))])
    if c['kind'] == 'sparse' and (p['irep'] or p['iterations']):
        c['kind'] = 'dense'
    if c['kind'] == 'dup' and (c['isamp'] != 'none' or c['holdout'] != 'none'):
        c['kind'] = 'dense'
    return c


def generate(rng, c):
    ts, x = columns(rng, c['n'], c['nf'], c['isamp'] != 'none' or c['holdout'] != 'none', c['kind'])
    if c['missing']:
        for i in range(x.shape[0]):
            for f in range(x.shape[1]):
                if ts[f] == 'n' and rng.random() < c['missing']:
                    x[i, f] = np.nan
    y = outputs(rng, x, c['k'], False)
    if c.get('many'):
        # Some labels are relevant to most examples
        for o in range(c['k']):
            if 2 * y[:, o].sum() < len(y) and rng.random() < 0.5:
                y[:, o] = 1 - y[:, o]
    if c['kind'] == 'dup':
        x, y = np.repeat(x, 2, axis=0), np.repeat(y, 2, axis=0)
    return Data(x, y, ts)


def run(rng, c, d, all_=0):
    p = c['p']
    n, k = d.y.shape
    card = float(np.count_nonzero(d.y)) / n
    lift = p['lift']
    if lift[0] == 'peak' and lift[1] == 0 and abs(card + 0.5 - round(card + 0.5)) < 0.001:
        # The number of labels is subject to rounding
        lift = ('peak', 1) + tuple(lift[2:])
    params = {'random_state': rng.randint(1, 10000), 'max_rules': p['maxrules'],
              'head_type': p['head'], 'heuristic': heur_str(p['heur']), 'pruning_heuristic': heur_str(p['pheur']),
              'lift_function': {'none': 'none', 'kln': 'kln{k=%s}', 'peak': 'peak{peak_label=%d,max_lift=%s,curvature=%s}'}[lift[0]]
              % tuple(lift[1:]),
              'rule_induction': 'top-down-greedy{min_coverage=%d,min_support=%s,max_conditions=%d,max_head_refinements=%d}'
              % (p['mincov'], p['minsupport'], p['maxcond'], p['maxref']),
              'instance_sampling': c['isamp'], 'feature_sampling': c['fsamp'], 'output_sampling': p['outsamp'],
              'holdout': c['holdout'], 'rule_pruning': 'irep' if p['irep'] else 'none',
              'feature_format': 'sparse' if c['kind'] == 'sparse' else 'dense', 'output_format': c['fmt'],
              'parallel_rule_refinement': 'false', 'parallel_statistic_update': 'false'}
    if p['iterations']:
        params['sequential_post_optimization'] = 'true{num_iterations=%d,refine_heads=%s,resample_features=%s}' % (
            p['iterations'], 'true' if p['refine'] else 'false', 'true' if p['resample'] else 'false')
    x = to_sparse(d.x, 0.0, 'csc') if c['kind'] == 'sparse' else d.x
    est, ev = fit(SeCoClassifier, d, params, x=x, sparse_y=c['fmt'] == 'sparse')
    segs, part = segments(ev)
    q = dict(heur=enc_heur(p['heur']), pheur=enc_heur(p['pheur']), head=p['head'], mincov=p['mincov'],
             minsupport=f32(p['minsupport']), maxcond=p['maxcond'], maxref=p['maxref'], irep=p['irep'], maxrules=p['maxrules'],
             outsamp=int(p['outsamp'] != 'none'), iterations=p['iterations'], refine=p['refine'], resample=p['resample'],
             regular=sum(s['kind'] == 'weights' for s in segs))
    q['def'] = p['def']
    q['lift'] = {'t': lift[0]}
    if lift[0] == 'kln':
        q['lift']['k'] = fb(lift[1])
    elif lift[0] == 'peak':
        q['lift'].update(peak=lift[1], max=fb(lift[2]), curv=fb(lift[3]), card=min(k, max(1, int(np.floor(card + 0.5)))))
    return {'variants': 0 if all_ else 2, 'n': n, 'k': k, 'nf': d.x.shape[1], 'x': fbm(d.x), 'types': list(d.types),
            'sparse': int(c['kind'] == 'sparse'), 'all': int(all_ == 1), 'y': [[int(v) for v in r] for r in d.y],
            'train': [i + 1 for i in (part[0] if part else range(n))], 'p': q, 'segs': enc_segments(segs, n),
            'rules': [r.enc(k) for r in rules_of(est.model_, False)], 'params': str(params)}


NUM = {'heur': 1000, 'prune': 1000, 'lifted': 500}


def jobs(seed, tier):
    if MODE.startswith('known'):
        yield from known()
        return
    for i in range(NUM[MODE] * (1 if tier == 'quick' else 10)):
        def fn(i=i):
            rng = random.Random(seed * 1000003 + i * 13 + len(MODE))
            c = config(rng, MODE)
            return run(rng, c, generate(rng, c))
        yield '%s-%d' % (MODE, i), fn


def known():
    """One case per known finding, judged by the intended behaviour only."""
    def job(x, y, **kw):
        def fn():
            rng = random.Random(kw.pop('seed', 1))
            c = dict(kind='dense', n=len(y), nf=1, k=len(y[0]), missing=0, isamp='none', holdout='none', fsamp='none', fmt='dense')
            c['p'] = dict(heur=('f-measure', 0.25), pheur=('accuracy', 0.0), head='single', mincov=1, minsupport=0.0, maxcond=0,
                          maxref=1, irep=0, maxrules=8, outsamp='none', iterations=0, refine=0, resample=1, lift=('none',))
            c['p']['def'] = 1
            for key, v in kw.items():
                (c if key in c else c['p'])[key] = v
            d = Data(np.asarray(x, dtype=np.float32).reshape(len(y), -1), np.asarray(y, dtype=np.uint8), 'n' * (np.asarray(x).size // len(y)))
            return run(rng, c, d, all_=2)
        return fn
    def noise(s, **kw):
        rng = random.Random(s)
        x = [[rng.randrange(9) - 10, rng.randrange(9) - 10, rng.randrange(9) - 10] for i in range(20)]
        return job(x, [[rng.randrange(2)] for i in range(20)], isamp='without-replacement{sample_size=0.5}', seed=s, **kw)
    if MODE == 'known-heur':
        # Labels that are predicted incorrectly by a rule, but correctly by default, are counted as being covered
        yield 'known-stopping', job([-5, -5, -3, -3, -1, -1], [[1], [0], [0], [0], [1], [0]], heur=('precision', 0.0))
    else:
        # Examples that satisfy all conditions but the last one of a pruned rule are considered as covered
        yield 'known-irep', noise(54, irep=1, maxrules=3)
        # Examples in the holdout set are taken into account when rules are pruned
        yield 'known-holdout', noise(145, irep=1, maxrules=2, holdout='random', pheur=('f-measure', 1.0))
        # The labels covered by a rule remain uncovered if no other rule is found
        yield 'known-relearn', noise(93, maxrules=4, iterations=3, refine=1)


if __name__ == '__main__':
    main(jobs)
