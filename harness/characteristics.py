"""C20: everything an experiment can write about models, data, and predictions, compared to the models that have been
learned, the data they have been learned from, and the predictions they make."""
import contextlib, csv, io, os, random, re, shutil
import numpy as np
import experiments as ex
from hc import *
from mlrl.common.cython.probability_calibration import IsotonicProbabilityCalibrationModelVisitor


class Bins(IsotonicProbabilityCalibrationModelVisitor):

    def __init__(self):
        self.lists = {}

    def visit_bin(self, list_index, threshold, probability):
        self.lists.setdefault(list_index, []).append([fb(threshold), fb(probability)])


def bins(model):
    v = Bins()
    if hasattr(model, 'visit'):
        model.visit(v)
    return [[k + 1, v.lists[k]] for k in sorted(v.lists)]


def distinct(y):
    res = {}
    for r in y:
        res[tuple(r)] = res.get(tuple(r), 0) + 1
    return res


class Features:
    """A data set with numerical, ordinal and nominal features."""

    def __init__(self, rng):
        self.n, self.nout = rng.choice([6, 10, 15, 24]), rng.choice([1, 2, 3, 4])
        self.attrs = []
        for j in range(rng.randint(1, 4)):
            t = rng.choice(['numeric', 'numeric', 'integer', 'nominal'])
            self.attrs.append({'name': 'f%d' % j, 'type': t, 'values': ['v%d' % k for k in range(rng.randint(2, 4))] if t == 'nominal' else []})
        self.attrs.insert(0, {'name': 'id', 'type': 'numeric', 'values': []})
        self.x, self.y = [], []
        dens = rng.choice([0.2, 0.5, 0.7])
        for i in range(self.n):
            r = [1000 + i + 1]
            for a in self.attrs[1:]:
                r.append(rng.randrange(len(a['values'])) if a['type'] == 'nominal' else rng.randint(-1, 3) if a['type'] == 'integer'
                         else rng.choice([0, 0, 1, 2.5, -1.25, 0.1]))
            self.x.append(r)
            self.y.append([int(rng.random() < dens) ^ int(r[-1] > 1) for _ in range(self.nout)])
        for j in range(self.nout):
            self.y[j % self.n][j] = 1
            self.y[(j + 1) % self.n][j] = 0
        self.names = ['label%d' % j for j in range(self.nout)]

    def save(self, directory, sparse):
        out = ['@relation data'] + ['@attribute %s %s' % (a['name'], '{%s}' % ','.join(a['values']) if a['values'] else a['type'])
                                    for a in self.attrs] + ['@attribute %s {0,1}' % n for n in self.names] + ['@data']
        for r, y in zip(self.x, self.y):
            cells = [a['values'][v] if a['values'] else str(v) for a, v in zip(self.attrs, r)] + [str(v) for v in y]
            vals = r + y
            out.append('{' + ','.join('%d %s' % (j, c) for j, c in enumerate(cells) if vals[j] != 0) + '}' if sparse else ','.join(cells))
        with open(os.path.join(directory, 'data.arff'), 'w') as f:
            f.write('\n'.join(out) + '\n')
        with open(os.path.join(directory, 'data.xml'), 'w') as f:
            f.write('<labels>' + ''.join('<label name="%s"/>' % n for n in self.names) + '</labels>')


CONDITION = re.compile(r'^(\S+) (<=|>|==|!=) (?:"([^"]*)"|(\S+))$')


def condition(text):
    name, op, s, num = CONDITION.match(text).groups()
    return {'f': name, 'op': op, 's': s if s is not None else '', 'v': fb(float(num)) if s is None else fb(0)}


def parse_rules(text, bodies, heads):
    rules = []
    for line in text.split('\n'):
        if not line.strip():
            continue
        body, head = line, ''
        if bodies and heads:
            body, head = line.split(' => ')
        elif heads:
            body, head = '', line
        r = {'c': [], 'h': []}
        if bodies:
            assert body[0] == '{' and body[-1] == '}', body
            r['c'] = [condition(c) for c in body[1:-1].split(' & ')] if body != '{}' else []
        if heads:
            assert head[0] == '(' and head[-1] == ')', head
            r['h'] = [{'o': p.split(' = ')[0], 'v': fb(float(p.split(' = ')[1]))} for p in head[1:-1].split(', ')]
        rules.append(r)
    return rules


def read_csv(path):
    with open(path, newline='') as f:
        return list(csv.DictReader(f))


def vector(s):
    return [int(v) for v in s.strip('[]').split()]


CHARS = {'Outputs': 'outputs', 'Output Density': 'density', 'Output Sparsity': 'sparsity', 'Label Imbalance Ratio': 'imbalance',
         'Label Cardinality': 'cardinality', 'Distinct Label Vectors': 'distinct', 'Examples': 'examples', 'Features': 'features',
         'Numerical Features': 'numerical', 'Ordinal Features': 'ordinal', 'Nominal Features': 'nominal',
         'Feature Density': 'fdensity', 'Feature Sparsity': 'fsparsity'}
MODEL = {'conditions': 'c', 'numerical conditions': 'num', 'numerical <= operator': '<=', 'numerical > operator': '>',
         'ordinal conditions': 'ord', 'ordinal <= operator': 'o<=', 'ordinal > operator': 'o>', 'nominal conditions': 'nom',
         'nominal == operator': '==', 'nominal != operator': '!=', 'predictions': 'p', 'pos. predictions': 'pos',
         'neg. predictions': 'neg'}


def calibration(path, title):
    rows = read_csv(path)
    lists = {}
    for r in rows:
        for k, v in r.items():
            m = re.match(title + r' (\d+) (thresholds|probabilities)$', k)
            e = lists.setdefault(int(m.group(1)), {'thresholds': [], 'probabilities': []})
            if v:
                e[m.group(2)].append(fb(float(v)))
    return [[k, [list(p) for p in zip(lists[k]['thresholds'], lists[k]['probabilities'])]] for k in sorted(lists)]


def parse(out, opts):
    files = []
    for f in sorted(os.listdir(out)):
        p = os.path.join(out, f)
        e = {'f': f, 'kind': '', 'rows': []}
        if f.startswith('rules'):
            with open(p) as g:
                e.update(kind='rules', rows=parse_rules(g.read(), opts['bodies'], opts['heads']))
        elif f.startswith('model_characteristics'):
            e.update(kind='model', rows=[dict({MODEL[k]: int(v) for k, v in r.items() if k in MODEL}, default=int('Default' in r['Rule']),
                                              index=int(r['Rule'].split()[1])) for r in read_csv(p)])
        elif f.startswith('data_characteristics') or f.startswith('prediction_characteristics'):
            e.update(kind='data' if f.startswith('data') else 'prediction',
                     rows=[{CHARS[k]: fb(float(v)) for k, v in r.items()} for r in read_csv(p)])
        elif f.startswith('label_vectors'):
            e.update(kind='vectors', rows=[{'index': int(r['Index']), 'v': vector(r['Label vector']), 'n': int(r['Frequency'])}
                                           for r in read_csv(p)])
        elif f.startswith('marginal') or f.startswith('joint'):
            e.update(kind=f.split('_')[0], rows=calibration(p, 'Label' if f.startswith('marginal') else 'Label vector'))
        else:
            continue
        files.append(e)
    return files


def case(rng):
    data = Features(rng)
    root, dirs = ex.scratch()
    try:
        data.save(dirs['data'], rng.random() < 0.4)
        learner = rng.choice(['boomer', 'boomer', 'seco'])
        params = {'max_rules': str(rng.choice([1, 3, 6]))}
        if learner == 'boomer':
            params.update(rng.choice([{}, {'head_type': 'single'}, {'head_type': 'partial-fixed'} if data.nout > 2 else {},
                                      {'loss': 'logistic-non-decomposable'}, {'default_rule': 'false'},
                                      {'marginal_probability_calibration': 'isotonic'},
                                      {'joint_probability_calibration': 'isotonic', 'loss': 'logistic-non-decomposable'}]))
            if 'calibration' in ''.join(params) and data.n < 15:
                params.pop('joint_probability_calibration', None)
        opts = {k: int(rng.random() < 0.8) for k in ('fnames', 'onames', 'values', 'bodies', 'heads')}
        if not opts['bodies']:
            opts['heads'] = 1
        cfg = {'learner': learner, 'split': rng.choice(['none', 'tt', 'cv']), 'size': '0.33', 'k': 2, 'cur': rng.choice([0, 0, 1, 2]), 'seed': 3,
               'kind': 'binary', 'models': 0, 'pdir': 0, 'pstore': 0, 'train': int(rng.random() < 0.5), 'onehot': int(rng.random() < 0.2),
               'preds': 0, 'inc': [], 'regression': 0, 'params': params, 'abort': 0, 'sparse': ''}
        both = rng.random() < 0.5
        b = lambda v: str(bool(v)).lower()
        percent = int(rng.random() < 0.5)
        o = 'true{print_feature_names=%s,print_output_names=%s,print_nominal_values=%s,print_bodies=%s,print_heads=%s,decimals_body=0,decimals_head=0}' \
            % tuple(b(opts[k]) for k in ('fnames', 'onames', 'values', 'bodies', 'heads'))
        args = ['--store-rules', o, '--store-model-characteristics', 'true', '--store-label-vectors', 'true',
                '--store-data-characteristics', 'true{percentage=%s}' % b(percent),
                '--store-prediction-characteristics', 'true{percentage=%s}' % b(percent)]
        calibrated = int(learner == 'boomer')
        if calibrated:
            args += ['--store-marginal-probability-calibration-model', 'true', '--store-joint-probability-calibration-model', 'true']
        if both:
            args += [a.replace('--store', '--print') for a in args]
        ex.EXTRA[:] = args
        del ex.LEARNERS[:]
        with contextlib.redirect_stdout(io.StringIO()):
            events = ex.run(cfg, dirs, data.nout)
        ex.EXTRA[:] = []
        if events[-1]['status'] != 'ok':
            raise RuntimeError(events[-1]['status'])
        folds, k = [], -1
        seq = [0] if cfg['split'] != 'cv' else [1, 2] if not cfg['cur'] else [cfg['cur']]
        for e in events:
            if e['op'] == 'fit':
                k += 1
                est = ex.LEARNERS[k]
                folds.append({'fold': seq[k], 'ids': e['ids'], 'preds': [],
                              'rules': [r.enc(data.nout) for r in rules_of(est.model_)],
                              'marg': bins(est.marginal_probability_calibration_model_),
                              'joint': bins(est.joint_probability_calibration_model_)})
            elif e['op'] == 'predict':
                sep = cfg['split'] != 'none'
                folds[-1]['preds'].append({'type': 'test' if sep and (not cfg['train'] or folds[-1]['preds']) else 'training',
                                           'res': [[int(unfb(v)) for v in r] for r in e['res']]})
        return {'attrs': data.attrs, 'outs': data.names, 'x': [[fb(v) for v in r] for r in data.x], 'y': data.y, 'onehot': int(cfg['onehot'] and any(a['values'] for a in data.attrs)),
                'opts': opts, 'percent': percent, 'folds': folds, 'calibrated': calibrated, 'files': parse(dirs['out'], opts)}
    finally:
        shutil.rmtree(root)


def jobs(seed, tier):
    for i in range(320 if tier == 'quick' else 5000):
        yield 'reports-%d' % i, (lambda i=i: case(random.Random(seed * 1000003 + i)))


if __name__ == '__main__':
    main(jobs)
