"""C17, C18, C20: histories of experiments (as started from the command line) that share directories for models and
parameters, with files getting lost or damaged and runs being killed in between. Calls of the learner's methods and the
files that are written are recorded. VERIF_MODE=splits|stores|reports|histories (the latter replays TLC's behaviours)."""
import csv, io, json, logging, os, pickle, random, shutil, sys, tempfile, zlib
from argparse import ArgumentParser
import arff
import numpy as np
from hc import *
from mlrl.boosting.runnables import BoomerRunnable
from mlrl.common import info
from mlrl.seco.runnables import SeCoRunnable

MODE = os.environ.get('VERIF_MODE', 'splits')
# the installed packages need not be the ones that are examined, they may be missing
info.PythonPackageInfo.package_version = property(lambda self: '0')
EVENTS = []
ABORT = [None]
ACTIVE = [False]
LEARNERS = []  # that have been fitted
EXTRA = []  # arguments


class Killed(BaseException):
    """Stands for the process being killed."""


def arr(x):
    return np.asarray(x.todense()) if sp.issparse(x) else np.asarray(x)


def ids(x):
    return [int(round(float(v))) - 1000 for v in arr(x).max(axis=1)]


def digest(est):
    m = getattr(est, 'model_', None)
    if m is None:
        return -1
    return zlib.crc32(repr([r.key() for r in rules_of(m)]).encode()) & 0x3fffffff


def params_of(est):
    return {k: str(v) for k, v in est.get_params().items() if v is not None}


def mat(p):
    return fbm(arr(p).reshape(len(arr(p)), -1))


def instrument(cls):
    def wrap(name, make):
        orig = getattr(cls, name, None)
        if orig is not None:
            setattr(cls, name, make(orig))

    def mk_fit(orig):
        def fit(self, x, y, **kw):
            if ACTIVE[0] and ABORT[0] is not None:
                if ABORT[0] == 0:
                    raise Killed()
                ABORT[0] -= 1
            r = orig(self, x, y, **kw)
            if ACTIVE[0]:
                LEARNERS.append(self)
                EVENTS.append({'op': 'fit', 'ids': ids(x), 'x': mat(x), 'sparse': fb(float(kw.get('sparse_feature_value', 0))), 'y': arr(y).astype(int).tolist(), 'nom': sorted(self.nominal_feature_indices or []),
                               'ord': sorted(self.ordinal_feature_indices or []), 'params': params_of(self), 'model': digest(self)})
            return r
        return fit

    def mk_predict(kind):
        def make(orig):
            def predict(self, x, **kw):
                r = orig(self, x, **kw)
                if ACTIVE[0]:
                    k = 'scores' if kw.get('predict_scores') else kind
                    EVENTS.append({'op': 'predict', 'kind': k, 'ids': ids(x), 'x': mat(x), 'model': digest(self), 'params': params_of(self),
                                   'sparse': fb(float(kw.get('sparse_feature_value', 0))), 'res': mat(r)})
                return r
            return predict
        return make

    def mk_inc(kind):
        def make(orig):
            def predict(self, x, **kw):
                r = orig(self, x, **kw)
                if not ACTIVE[0]:
                    return r
                k = 'scores' if kw.get('predict_scores') else kind
                EVENTS.append({'op': 'inc', 'kind': k, 'ids': ids(x), 'x': mat(x), 'model': digest(self), 'params': params_of(self),
                               'sparse': fb(float(kw.get('sparse_feature_value', 0))), 'n': r.get_num_next()})
                orig_next = r.apply_next

                def apply_next(step_size):
                    p = orig_next(step_size)
                    EVENTS.append({'op': 'next', 'step': step_size, 'res': mat(p)})
                    return p
                r.apply_next = apply_next
                return r
            return predict
        return make

    wrap('fit', mk_fit)
    wrap('predict', mk_predict('binary' if cls is not BoomerRegressor else 'scores'))
    wrap('predict_proba', mk_predict('probabilities'))
    wrap('predict_incrementally', mk_inc('binary' if cls is not BoomerRegressor else 'scores'))
    wrap('predict_proba_incrementally', mk_inc('probabilities'))


for C in (BoomerClassifier, BoomerRegressor, SeCoClassifier):
    instrument(C)


# ---- data ----
class Data:

    def __init__(self, rng, n, nout, nominal):
        self.n, self.nout, self.nominal = n, nout, nominal
        base = np.array([[rng.choice([0, 1, 2, 5]) for _ in range(3)] for _ in range(n)])
        self.y = [[int(base[i][j % 3] > 1) ^ int(rng.random() < 0.2) for j in range(nout)] for i in range(n)]
        for j in range(nout):  # each label occurs
            self.y[j % n][j] = 1
            self.y[(j + 1) % n][j] = 0
        self.x = [[1000 + i + 1] + base[i].tolist() + [rng.choice('abc')] for i in range(n)]

    def save(self, directory, name, rows, sparse=False):
        out = ['@relation data', '', '@attribute id numeric'] + ['@attribute f%d numeric' % j for j in range(3)]
        out.append('@attribute g {a,b,c}' if self.nominal else '@attribute g numeric')
        out += ['@attribute l%d {0,1}' % j for j in range(self.nout)] + ['', '@data']
        for i in rows:
            g = self.x[i][4] if self.nominal else 'abc'.index(self.x[i][4])
            v = self.x[i][:4] + [g] + self.y[i]
            out.append('{' + ','.join('%d %s' % (j, w) for j, w in enumerate(v) if w not in (0, 'a')) + '}' if sparse
                       else ','.join(map(str, v)))
        with open(os.path.join(directory, name + '.arff'), 'w') as f:
            f.write('\n'.join(out) + '\n')

    def save_xml(self, directory, name):
        with open(os.path.join(directory, name + '.xml'), 'w') as f:
            f.write('<labels xmlns="http://mulan.sourceforge.net/labels">' +
                    ''.join('<label name="l%d"></label>' % j for j in range(self.nout)) + '</labels>')


# ---- files ----
def load_model(path):
    try:
        with open(path, 'rb') as f:
            m = pickle.load(f)
        return [type(m).__name__, digest(m)]
    except Exception:
        return ['broken', 0]


def read_csv(path):
    with open(path, newline='') as f:
        return [dict(r) for r in csv.DictReader(f)]


def number(s):
    return fb(float(s))


def read_arff(path, nout):
    with open(path) as f:
        d = arff.load(f, encode_nominal=False)
    rows = [[float(v) for v in (r if isinstance(r, list) else [r.get(j, 0) for j in range(2 * nout)])] for r in d['data']]
    return {'y': [fb_row(r[:nout]) for r in rows], 'p': [fb_row(r[nout:]) for r in rows]}


def fb_row(r):
    return [fb(v) for v in r]


MEASURES = {'Hamming Loss': 'hamming', 'Subset Accuracy': 'subset', 'Accuracy': 'subset', 'Mean Squared Error': 'mse',
            'Mean Absolute Error': 'mae'}


def report(rows):
    res = []
    for r in rows:
        e = {'size': int(float(r['Model size'])) if 'Model size' in r else 0, 'm': {}, 'sd': {}}
        for k, v in MEASURES.items():
            if k in r:
                e['m'][v] = number(r[k])
            if 'Std.-dev. ' + k in r:
                e['sd'][v] = number(r['Std.-dev. ' + k])
        res.append(e)
    return res


def listing(dirs, nout):
    files = {'models': [], 'params': [], 'reports': [], 'preds': []}
    for f in sorted(os.listdir(dirs['models'])) if os.path.isdir(dirs['models']) else []:
        t, d = load_model(os.path.join(dirs['models'], f))
        files['models'].append({'f': f, 't': t, 'd': d})
    for f in sorted(os.listdir(dirs['params'])):
        files['params'].append({'f': f, 'p': read_csv(os.path.join(dirs['params'], f))[0]})
    for f in sorted(os.listdir(dirs['out'])):
        p = os.path.join(dirs['out'], f)
        if f.startswith('evaluation'):
            files['reports'].append({'f': f, 'r': report(read_csv(p))})
        elif f.startswith('predictions'):
            files['preds'].append(dict(read_arff(p, nout), f=f))
    return files


# ---- runs ----
def arguments(cfg, dirs):
    a = ['testbed', '--log-level', 'error', '--data-dir', dirs['data'], '--dataset', 'data', '--random-state', str(cfg['seed']),
         '--print-evaluation', 'false', '--output-dir', dirs['out'], '--store-evaluation', 'true{percentage=false}',
         '--prediction-type', cfg['kind']]
    if cfg['split'] == 'none':
        a += ['--data-split', 'none']
    elif cfg['split'] == 'tt':
        a += ['--data-split', 'train-test{test_size=%s}' % cfg['size']]
    else:
        a += ['--data-split', 'cross-validation{num_folds=%d%s}' % (cfg['k'], ',current_fold=%d' % cfg['cur'] if cfg['cur'] else '')]
    if cfg['models']:
        a += ['--model-dir', dirs['models']]
    if cfg['pdir']:
        a += ['--parameter-dir', dirs['params']]
    if cfg['pstore']:
        a += ['--store-parameters', 'true']
    if cfg['sparse']:
        a += ['--sparse-feature-value', cfg['sparse']]
    if cfg['train']:
        a += ['--evaluate-training-data', 'true']
    if cfg['onehot']:
        a += ['--one-hot-encoding', 'true']
    if cfg['preds']:
        a += ['--store-predictions', 'true']
    if cfg['inc']:
        a += ['--incremental-evaluation', 'true{min_size=%d,max_size=%d,step_size=%d}' % tuple(cfg['inc'])]
    if cfg['regression']:
        a += ['--problem-type', 'regression']
    a += EXTRA
    for k, v in sorted(cfg['params'].items()):
        a += ['--' + k.replace('_', '-'), v]
    return a


def run(cfg, dirs, nout):
    EVENTS.clear()
    LEARNERS.clear()
    ABORT[0] = cfg['abort'] - 1 if cfg['abort'] else None
    argv = sys.argv
    status = 'ok'
    try:
        sys.argv = arguments(cfg, dirs)
        ACTIVE[0] = True
        runnable = {'boomer': BoomerRunnable, 'seco': SeCoRunnable}[cfg['learner']]()
        parser = ArgumentParser()
        runnable.configure_arguments(parser)
        runnable.run(parser.parse_args(sys.argv[1:]))
    except Killed:
        status = 'killed'
    except SystemExit as e:
        status = 'error: exit %s' % e.code
    except Exception as e:
        status = 'error: %s: %s' % (type(e).__name__, str(e)[:150])
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
    finally:
        sys.argv = argv
        ACTIVE[0] = False
        for h in list(logging.getLogger().handlers):
            logging.getLogger().removeHandler(h)
    logging.getLogger().setLevel(logging.CRITICAL)
    c = dict(cfg)
    c['size'] = fb(float(cfg['size']))
    c['sparse'] = fb(float(cfg['sparse'] or 0))
    c['params'] = dict(cfg['params'], random_state=str(cfg['seed']))
    return [dict(c, op='run')] + list(EVENTS) + [dict(listing(dirs, nout), op='end', status=status)]


def damage(rng, dirs, how, name, params=None):
    p = os.path.join(dirs['models'], name)
    if how == 'delete':
        if os.path.exists(p):
            os.remove(p)
    elif how == 'truncate':  # killed while writing
        if os.path.exists(p):
            with open(p, 'rb') as f:
                b = f.read()
            with open(p, 'wb') as f:
                f.write(b[:rng.choice([0, 1, 2, len(b) // 2, len(b) - 1])])
    elif how == 'garbage':
        with open(p, 'wb') as f:
            f.write(rng.choice([b'\x00' * 50, b'hello world\n', bytes(rng.randrange(256) for _ in range(80)), b'\x80\x04.', b'(i.']))
    elif how == 'foreign':  # something else
        with open(p, 'wb') as f:
            pickle.dump(rng.choice([None, {}, 42, BoomerClassifier() if name.startswith('seco') else SeCoClassifier()]), f)
    return {'op': 'damage', 'how': how, 'f': name, 'models': listing(dirs, 1)['models']}


def scratch():
    d = tempfile.mkdtemp(prefix='verif-exp-')
    dirs = {k: os.path.join(d, k) for k in ('data', 'models', 'params', 'out')}
    for v in dirs.values():
        os.mkdir(v)
    return d, dirs


PARAMS = [{}, {'shrinkage': '0.5'}, {'loss': 'logistic-non-decomposable'}, {'head_type': 'single', 'shrinkage': '1.0'},
          {'rule_induction': 'top-down-greedy{max_conditions=1,min_coverage=2}'}, {'feature_sampling': 'without-replacement{sample_size=0.5}'},
          {'instance_sampling': 'with-replacement', 'l2_regularization_weight': '2.5'}]


def config(rng, nominal, nout, mode):
    learner = rng.choice(['boomer', 'boomer', 'boomer', 'seco'])
    split = rng.choice(['none', 'tt', 'tt', 'cv', 'cv', 'cv'])
    regression = int(learner == 'boomer' and mode != 'stores' and rng.random() < 0.2)
    params = dict({'max_rules': rng.choice(['3', '5', '8'])})
    if learner == 'boomer':
        params.update(rng.choice(PARAMS if not regression else PARAMS[1:2] + PARAMS[4:]))
    k = rng.choice([2, 3, 4, 5])
    kinds = ['binary', 'binary', 'scores', 'probabilities'] if learner == 'boomer' and not regression else ['binary']
    if regression:
        kinds = ['scores']
    if nout == 1:
        kinds = [k for k in kinds if k != 'probabilities']
    inc = []
    if mode == 'reports' and rng.random() < 0.5 and learner == 'boomer':
        mn = rng.choice([0, 0, 2, 3])
        inc = [mn, rng.choice([0, 0, mn + 1, mn + 2, mn + 4]), rng.choice([1, 1, 2, 3])]
    return {'learner': learner, 'split': split, 'size': rng.choice(['0.33', '0.5', '0.25', '0.1', '0.7', '0.05']), 'k': k,
            'cur': rng.choice([0, 0, rng.randint(1, k)]), 'seed': rng.randint(1, 50), 'kind': rng.choice(kinds),
            'models': int(mode == 'stores'), 'pdir': 0, 'pstore': 0, 'train': int(rng.random() < 0.5),
            'onehot': int(nominal and rng.random() < 0.5), 'preds': int(mode == 'reports'), 'inc': inc, 'regression': regression,
            'params': params, 'abort': 0, 'sparse': rng.choice(['', '', '', '1.0', '-2.5'])}


def prepare(rng, mode, predefined=None):
    n = rng.choice([7, 10, 12, 20, 23])
    nout = rng.choice([1, 2, 3])
    data = Data(rng, n, nout, rng.random() < 0.4)
    root, dirs = scratch()
    sparse = rng.random() < 0.3
    data.save(dirs['data'], 'data', range(n), sparse)
    data.save_xml(dirs['data'], 'data')
    files = {'kind': 'whole'}
    order = list(range(n))
    rng.shuffle(order)
    if predefined == 'tt':
        m = rng.randint(2, n - 2)
        data.save(dirs['data'], 'data_training', order[:m], sparse)
        data.save(dirs['data'], 'data_test', order[m:], sparse)
        files = {'kind': 'tt', 'sets': [[i + 1 for i in order[:m]], [i + 1 for i in order[m:]]]}
    elif predefined == 'cv':
        k = rng.choice([2, 3, 4])
        cut = sorted(rng.sample(range(1, n), k - 1))
        sets = [order[a:b] for a, b in zip([0] + cut, cut + [n])]
        for f, s in enumerate(sets):
            data.save(dirs['data'], 'data_fold-%d' % (f + 1), s, sparse)
        files = {'kind': 'cv', 'sets': [[i + 1 for i in s] for s in sets]}
    return root, dirs, data, files


def finish(root, data, files, ops):
    shutil.rmtree(root)
    return {'n': data.n, 'nout': data.nout, 'nom': int(data.nominal), 'x': [[fb(v if v not in ('a', 'b', 'c') else 'abc'.index(v)) for v in r] for r in data.x], 'y': data.y, 'files': files, 'ops': ops}


def case(rng, mode):
    predefined = rng.choice([None, None, None, 'tt', 'cv']) if mode != 'stores' else None
    root, dirs, data, files = prepare(rng, mode, predefined)
    try:
        cfg = config(rng, data.nominal, data.nout, mode)
        if predefined:
            cfg['split'] = predefined
            if predefined == 'cv':
                cfg['k'] = len(files['sets'])
                cfg['cur'] = rng.choice([0, 0, rng.randint(1, cfg['k'])])
        ops = []
        for _ in range(rng.choice([2, 3, 4]) if mode != 'reports' else rng.choice([1, 1, 2])):
            c = dict(cfg)
            k = rng.random()
            if mode == 'splits':
                if k < 0.5 and c['split'] == 'cv':
                    c['cur'] = rng.randint(0, c['k'])
                elif k < 0.6 and not predefined:
                    c['seed'] = rng.randint(1, 50)
                elif k < 0.7:
                    c['train'] = 1 - c['train']
                elif k < 0.8 and not c['regression'] and c['learner'] == 'boomer':
                    c['params'] = dict(rng.choice(PARAMS), max_rules='4')
                elif k < 0.9 and not predefined:
                    c['split'] = rng.choice(['none', 'tt', 'cv'])
                    c['cur'] = 0
            elif mode == 'stores':
                if c['split'] == 'cv':
                    c['cur'] = rng.choice([0, 0, rng.randint(1, c['k'])])
                if rng.random() < 0.25:
                    c['abort'] = rng.randint(1, c['k'] if c['split'] == 'cv' and not c['cur'] else 1)
                if rng.random() < 0.3:
                    c['pdir'], c['pstore'] = 1, int(rng.random() < 0.6)
                if rng.random() < 0.15:
                    c['models'] = 0
                if rng.random() < 0.2 and c['learner'] == 'boomer' and 'loss' not in c['params']:
                    c['params'] = dict(rng.choice([p for p in PARAMS if 'loss' not in p]), max_rules=rng.choice(['3', '6']))
            ops += run(c, dirs, data.nout)
            if mode == 'stores' and rng.random() < 0.5:
                f = rng.randint(1, c['k'])
                name = '%s_%s.model' % (c['learner'], 'fold-%d' % f if c['split'] == 'cv' else 'overall')
                ops.append(damage(rng, dirs, rng.choice(['delete', 'truncate', 'truncate', 'garbage', 'foreign']), name))
    except BaseException:
        shutil.rmtree(root)
        raise
    return finish(root, data, files, ops)


def history(rng, steps):
    """Replays a behaviour of ExperimentDesign.tla."""
    n, nout = 8, 2
    data = Data(rng, n, nout, False)
    root, dirs = scratch()
    try:
        data.save(dirs['data'], 'data', range(n))
        data.save_xml(dirs['data'], 'data')
        base = {'learner': 'boomer', 'split': 'cv', 'size': '0.5', 'k': 2, 'cur': 0, 'seed': 3, 'kind': 'scores', 'models': 1,
                'pdir': 0, 'pstore': 0, 'train': 0, 'onehot': 0, 'preds': 0, 'inc': [], 'regression': 0,
                'params': {'max_rules': '3'}, 'abort': 0, 'sparse': ''}
        ops = []
        for a, f, how in steps:
            if a == 'run':
                ops += run(dict(base, cur=f), dirs, nout)
            elif a == 'kill':
                ops += run(dict(base, abort=f), dirs, nout)
            elif a == 'store':
                ops += run(dict(base, cur=f, pdir=1, pstore=1), dirs, nout)
            elif a == 'tuned':
                ops += run(dict(base, cur=f, pdir=1, params={'max_rules': '2'}), dirs, nout)
            else:
                ops.append(damage(rng, dirs, how, 'boomer_fold-%d.model' % f))
    except BaseException:
        shutil.rmtree(root)
        raise
    return finish(root, data, {'kind': 'whole'}, ops)


def jobs(seed, tier):
    if MODE == 'histories':
        gen = json.load(open(os.environ['GEN']))
        rng = random.Random(seed)
        if tier == 'quick':
            gen = [s for s in gen if len(s[0]) == 3]
            gen = rng.sample(gen, min(len(gen), 320))
        for i, s in enumerate(gen):
            yield 'history-%d' % i, (lambda i=i, s=s: history(random.Random(seed * 7919 + i), s[0]))
        return
    n = {'splits': 240, 'stores': 200, 'reports': 240}[MODE] * (1 if tier == 'quick' else 15)
    for i in range(n):
        yield '%s-%d' % (MODE, i), (lambda i=i: case(random.Random(seed * 1000003 + i), MODE))


if __name__ == '__main__':
    main(jobs)
