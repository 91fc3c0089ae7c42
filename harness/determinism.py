"""C11: fits and predictions with different numbers of threads, schedules and histories.
VERIF_MODE=schedules: parallel loops follow schedules generated from ParallelSearch.tla (needs the stand-in runtime);
VERIF_MODE=threads: real threads; models are also fitted in fresh processes."""
import ctypes, hashlib, json, os, random, subprocess, sys
import numpy as np
from hc import *
from lc import gen_data, fit, bins_of, vectors_of, feature_input

MODE = os.environ.get('VERIF_MODE', 'threads')
LIB = ctypes.CDLL(os.environ['LD_PRELOAD']) if MODE == 'schedules' else None
GEN = None


def schedules():
    global GEN
    if GEN is None:
        GEN = {}
        for n, t, s in json.load(open(os.environ['GEN'])):
            GEN.setdefault((n, t), []).append(s)
    return GEN


def set_schedule(rng, n, t):
    if LIB is None:
        return
    g = schedules().get((n, t))
    chosen = [rng.choice(g) for _ in range(60)] if g else []
    flat = [x for s in chosen for x in s]
    LIB.verif_schedule((ctypes.c_int * max(1, len(flat)))(*flat), (ctypes.c_int * max(1, len(chosen)))(*map(len, chosen)),
                       len(chosen), ctypes.c_ulonglong(rng.getrandbits(40)), 0)


def team():
    if LIB is None:
        return 0
    out = (ctypes.c_long * 3)()
    LIB.verif_stats(out)
    return out[2]


def config(rng, big):
    if big and rng.random() < 0.3:
        # the number of rules depends on how many examples and labels have not been covered yet
        return {'cls': 'SeCoClassifier', 'dseed': rng.getrandbits(40), 'nf': 20, 'n': 600, 'nout': 4, 'missing': 0,
                'fmt': 'fortran', 'params': {'random_state': 1, 'max_rules': 60, 'instance_sampling': 'none',
                                             'rule_pruning': 'none', 'head_type': rng.choice(['single', 'partial']),
                                             'holdout': 'none', 'heuristic': 'weighted-relative-accuracy'}}
    cls = rng.choice([BoomerClassifier, BoomerClassifier, BoomerClassifier, BoomerRegressor, SeCoClassifier])
    nf = rng.choice([10, 30]) if big else rng.choice([2, 3, 4, 4, 3])
    c = {'cls': cls.__name__, 'dseed': rng.getrandbits(40), 'nf': nf, 'n': rng.choice([100, 400]) if big else rng.choice([4, 10, 25]),
         'nout': rng.choice([1, 2, 4]), 'missing': rng.choice([0, 0, 0.1]), 'fmt': rng.choice(['dense', 'fortran', 'csr', 'csc'])}
    p = {'random_state': rng.randint(1, 10000), 'max_rules': rng.choice([3, 8, 15])}
    ho = rng.choice(['none', 'none', 'random', 'stratified-output-wise', 'stratified-example-wise']) if cls is not BoomerRegressor else 'none'
    p['instance_sampling'] = rng.choice(['none', 'with-replacement', 'without-replacement'] +
                                        (['stratified-output-wise', 'stratified-example-wise'] if cls is not BoomerRegressor else []))
    p['feature_sampling'] = rng.choice(['none', 'none', 'without-replacement{sample_size=0.7}'])
    p['rule_pruning'] = rng.choice(['none', 'none', 'irep'])
    p['rule_induction'] = rng.choice(['top-down-greedy', 'top-down-greedy{max_conditions=2}',
                                      'top-down-beam-search{beam_width=2}', 'top-down-beam-search{beam_width=4,max_conditions=3}'])
    if cls is SeCoClassifier:
        p['head_type'] = rng.choice(['single', 'partial']) if c['nout'] > 1 else 'single'
        p['heuristic'] = rng.choice(['accuracy', 'precision', 'f-measure', 'laplace', 'weighted-relative-accuracy', 'm-estimate'])
        p['holdout'] = ho
    else:
        p['head_type'] = 'single' if c['nout'] == 1 else rng.choice(['single', 'complete', 'partial-fixed', 'partial-dynamic'])
        p['output_sampling'] = 'none' if c['nout'] == 1 else rng.choice(['none', 'round-robin', 'without-replacement'])
        p['feature_binning'] = rng.choice(['none', 'none', 'equal-width', 'equal-frequency'])
        p['holdout'] = ho
        p['sequential_post_optimization'] = rng.choice(['false', 'false', 'true'])
        if cls is BoomerClassifier:
            p['loss'] = rng.choice(['logistic', 'squared-error', 'squared-hinge']) + rng.choice(['-decomposable', '-non-decomposable'])
            p['global_pruning'] = rng.choice(['none', 'none', 'post-pruning', 'pre-pruning{min_rules=4,update_interval=1,stop_interval=2,num_past=2,num_recent=2}'])
            p['statistic_format'] = 'auto'
            if p['loss'].startswith('logistic'):
                p['marginal_probability_calibration'] = rng.choice(['none', 'isotonic'])
                p['joint_probability_calibration'] = rng.choice(['none', 'isotonic'])
            p['binary_predictor'] = rng.choice(['output-wise', 'example-wise'] + (['gfm'] if p['loss'].startswith('logistic') else []))
        else:
            p['loss'] = 'squared-error-decomposable'
        if 'partial' in p['head_type'] and p['feature_binning'] != 'none':
            p['feature_binning'] = 'none'
    if p['feature_sampling'] != 'none' and 'beam' in p['rule_induction'] and rng.random() < 0.5:
        p['rule_induction'] = p['rule_induction'].replace('{', '{resample_features=true,')
    if 'beam' in p['rule_induction']:
        # known defect (see C14): conditions found by a beam search can not be replayed
        p['rule_pruning'] = 'none'
        if 'feature_binning' in p:
            p['feature_binning'] = 'none'
        if 'sequential_post_optimization' in p:
            p['sequential_post_optimization'] = 'false'
    c['params'] = p
    return c


def data(c):
    rng = random.Random(c['dseed'])
    d = gen_data(rng, c['n'], c['nf'], c['nout'], missing=c['missing'], regression=c['cls'] == 'BoomerRegressor')
    x, _ = feature_input(rng, d, c['fmt'])
    return d, x


def do_fit(c, threads):
    cls = globals()[c['cls']]
    d, x = data(c)
    p = dict(c['params'])
    for k in ('parallel_rule_refinement', 'parallel_statistic_update', 'parallel_prediction'):
        p[k] = 'true{num_preferred_threads=%d}' % threads if threads > 1 else 'false'
    est, _ = fit(cls, d, p, x=x)
    return est, d


def digest(est, c):
    m = est.model_
    r = {'used': m.get_num_used_rules(), 'rules': [a.enc(c['nout']) for a in rules_of(m, False)]}
    if isinstance(est.output_space_info_, LabelVectorSet):
        r['vectors'] = list(vectors_of(est.output_space_info_))
    r['marg'] = bins_of(est.marginal_probability_calibration_model_)
    r['joint'] = bins_of(est.joint_probability_calibration_model_)
    return r


def enc(p):
    p = dense(p)
    return [[fb(v) for v in row] for row in p.reshape(p.shape[0], -1).astype(np.float64)[:6]]


def predict(est, d, kind, threads, q):
    est.parallel_prediction = 'true{num_preferred_threads=%d}' % threads if threads > 1 else 'false'
    x = d.x[:q]
    if kind == 'proba':
        return enc(est.predict_proba(x))
    if kind == 'scores':
        return enc(est.predict(x, predict_scores=True))
    return enc(est.predict(x))


def kinds(c):
    if c['cls'] == 'BoomerClassifier':
        return ['labels', 'scores'] + (['proba'] if c['params']['loss'].startswith('logistic') else [])
    return ['labels']


def case(rng, i):
    big = MODE == 'threads' and i % 3 == 0
    cfgs = [config(rng, big) for _ in range(2)]
    ops = []
    fitted = []
    for step in range(rng.choice([5, 7])):
        k = rng.randrange(len(cfgs)) if step > 1 else 0
        c = cfgs[k]
        threads = rng.choice([1, 2, 2, 3]) if MODE == 'schedules' else rng.choice([1, 2, 4, 8])
        if step == 0:
            threads = 1
        try:
            if fitted and rng.random() < 0.35:
                k, est, d = rng.choice(fitted)
                c = cfgs[k]
                kind = rng.choice(kinds(c))
                q = rng.choice([2, 3, 4])
                set_schedule(rng, q, threads)
                res = predict(est, d, kind, threads, q)
                ops.append({'key': 'predict-%s-%d-%d' % (kind, k, q), 'what': kind, 'res': res, 'threads': threads, 'team': team()})
            else:
                set_schedule(rng, c['nf'], threads)
                est, d = do_fit(c, threads)
                fitted.append((k, est, d))
                ops.append({'key': 'fit-%d' % k, 'what': 'model', 'res': digest(est, c), 'threads': threads, 'team': team()})
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                print(c, file=sys.stderr)
                raise
            ops.append({'key': 'fit-%d' % k, 'what': 'error', 'res': {'err': repr(e)[:200]}, 'threads': threads, 'team': 0})
    if MODE == 'threads' and i % 10 == 0:
        k = fitted[0][0]
        out = subprocess.run([sys.executable, os.path.abspath(__file__), '--fit'], input=json.dumps(cfgs[k]).encode(),
                             stdout=subprocess.PIPE, check=True, timeout=300).stdout
        ops.append({'key': 'fit-%d' % k, 'what': 'model of a fresh process', 'res': json.loads(out), 'threads': 1, 'team': 0})
    return {'kind': 'big' if big else cfgs[0]['cls'], 'ops': ops, 'cfgs': [json.dumps(c) for c in cfgs]}


def race(rng, i):
    """Many examples: threads that are not independent of each other interfere sooner or later."""
    c = {'cls': 'BoomerClassifier', 'dseed': rng.getrandbits(40), 'nf': 3, 'n': 8000, 'nout': 8, 'missing': 0, 'fmt': 'fortran'}
    loss = ['logistic', 'squared-error', 'squared-hinge'][i % 3] + ('-decomposable' if i % 9 == 8 else '-non-decomposable')
    c['params'] = {'random_state': rng.randint(1, 10000), 'max_rules': 5, 'loss': loss, 'label_binning': 'none',
                   'head_type': 'complete' if i % 4 else 'single', 'statistic_format': 'auto' if i % 9 == 8 else 'dense',
                   'rule_induction': 'top-down-greedy{max_conditions=1}', 'instance_sampling': rng.choice(['none', 'with-replacement']),
                   'feature_binning': 'none', 'binary_predictor': ['output-wise', 'example-wise', 'gfm'][i % 3 if loss.startswith('l') else i % 2]}
    ops = []
    for threads in (1, 8, 8, 8):
        est, d = do_fit(c, threads)
        ops.append({'key': 'fit', 'what': 'model', 'res': digest(est, c), 'threads': threads, 'team': 0})
    for kind in kinds(c):
        for threads in (1, 8, 8):
            est.parallel_prediction = 'true{num_preferred_threads=%d}' % threads if threads > 1 else 'false'
            p = est.predict_proba(d.x) if kind == 'proba' else est.predict(d.x, predict_scores=kind == 'scores')
            res = hashlib.sha256(np.ascontiguousarray(dense(p)).astype(np.float64).tobytes()).hexdigest()
            ops.append({'key': 'predict-' + kind, 'what': kind, 'res': res, 'threads': threads, 'team': 0})
    for op in ops[:4]:
        op['res'] = hashlib.sha256(json.dumps(op['res']).encode()).hexdigest()
    return {'kind': 'race', 'ops': ops, 'cfgs': [json.dumps(c)]}


def jobs(seed, tier):
    if MODE == 'threads':
        for i in range(24 if tier == 'quick' else 200):
            yield 'race-%d' % i, lambda i=i: race(random.Random(seed * 1000033 + i * 13), i)
    n = {'schedules': 240, 'threads': 120}[MODE] * (1 if tier == 'quick' else 12)
    for i in range(n):
        def fn(i=i):
            return case(random.Random(seed * 1000033 + i * 7 + len(MODE)), i)
        yield '%s-%d' % (MODE, i), fn


if __name__ == '__main__':
    if sys.argv[1] == '--fit':
        c = json.load(sys.stdin)
        est, _ = do_fit(c, 1)
        print(json.dumps(digest(est, c)))
    else:
        main(jobs)
