"""C19: data sets are written to ARFF files in all kinds of layouts, then loaded, encoded and saved by the real code."""
import os, random, shutil, tempfile
from xml.sax.saxutils import quoteattr
import numpy as np
import scipy.sparse as sp
from hc import fb, main
from mlrl.testbed.data_splitting import DataSet, DataSplitter, NoSplitter
from mlrl.testbed.data import (FeatureType, load_data_set, load_data_set_and_meta_data, one_hot_encode, save_arff_file,
                               save_data_set_and_meta_data)

TYPES = {FeatureType.NUMERICAL: 'numeric', FeatureType.ORDINAL: 'integer', FeatureType.NOMINAL: 'nominal'}
NAN = float('nan')
NUMBERS = [0.0, 0.0, 1.0, -1.0, 2.5, 0.1, -0.3, 1e-5, 123456.789, 3e7, -2.0, 7.0]


def dense(m):
    return np.asarray(m.todense()) if sp.issparse(m) else np.asarray(m)


def mat(m):
    return [[fb(v) for v in row] for row in dense(m)]


def features(meta):
    return [{'name': f.name, 'type': TYPES[f.feature_type],
             'values': list(f.nominal_values or [])} for f in meta.features]


def quote(rng, s):
    if any(ch in s for ch in ' ,{}%') or rng.random() < 0.2:
        return '"%s"' % s if rng.random() < 0.3 else "'%s'" % s
    return s


class Table:
    """Attributes and the way files are laid out."""

    def __init__(self, rng):
        self.nf, self.no = rng.randint(1, 5), rng.randint(1, 4)
        self.start = rng.random() < 0.4
        names = ['f%d', 'feature %d', 'F_%d-x', 'a%d.b'] if rng.random() < 0.5 else ['f%d']
        self.features = []
        for j in range(self.nf):
            t = rng.choice(['numeric', 'numeric', 'nominal', 'integer'])
            vals = rng.sample(['a', 'b', 'c c', 'd', '0', '1', '2', 'x-y', '10'], rng.randint(1, 5)) if t == 'nominal' else []
            self.features.append({'name': rng.choice(names) % j, 'type': t, 'values': vals})
        lnames = ['l%d', 'label %d', 'Class-%d'] if rng.random() < 0.5 else ['l%d']
        self.outputs = [{'name': rng.choice(lnames) % j, 'type': 'nominal', 'values': ['0', '1']} for j in range(self.no)]
        self.attrs = self.outputs + self.features if self.start else self.features + self.outputs
        self.missing = rng.choice([0, 0, 0.2])
        self.zeros = rng.choice([0.2, 0.5, 0.8, 0.95])

    def row(self, rng, exotic):
        r = []
        for a in self.attrs:
            if a in self.outputs:
                r.append(0 if rng.random() < self.zeros else rng.randint(0, 1))
            elif exotic and rng.random() < self.missing:
                r.append(NAN)
            elif rng.random() < self.zeros:
                r.append(0)
            elif a['type'] == 'nominal':
                r.append(rng.randrange(len(a['values'])))
            elif a['type'] == 'integer':
                r.append(rng.randint(-3, 9))
            else:
                r.append(rng.choice(NUMBERS))
        return r


def cell(rng, a, v):
    if v != v:
        return '?'
    if a['type'] == 'nominal':
        return quote(rng, a['values'][int(v)])
    if v == int(v) and rng.random() < 0.8:
        return str(int(v))
    return repr(float(v))


def write(rng, t, path, rows, relation, sparse):
    def kw(s):
        return rng.choice([s, s.upper(), s.capitalize()])
    out = ['% a comment', ''] if rng.random() < 0.3 else []
    out.append('@' + kw('relation') + ' ' + (relation if ' ' not in relation else "'%s'" % relation))
    for a in t.attrs:
        if a['type'] == 'nominal':
            ty = '{' + rng.choice([',', ', ']).join(quote(rng, v) for v in a['values']) + '}'
        else:
            ty = kw(rng.choice(['numeric', 'real']) if a['type'] == 'numeric' else 'integer')
        out.append('@%s %s %s' % (kw('attribute'), quote(rng, a['name']), ty))
    out += ['', '@' + kw('data')]
    for r in rows:
        if sparse:
            cells = ['%d %s' % (j, cell(rng, a, v)) for j, (a, v) in enumerate(zip(t.attrs, r)) if v != 0 or rng.random() < 0.1]
            out.append('{' + rng.choice([',', ', ']).join(cells) + '}')
        else:
            out.append(rng.choice([',', ', ']).join(cell(rng, a, v) for a, v in zip(t.attrs, r)))
    with open(path, 'w') as f:
        f.write('\n'.join(out) + '\n')


def write_xml(rng, t, path, order):
    if len(order) > 1 and rng.random() < 0.2:  # a hierarchy of labels
        body = '<label name=%s>' % quoteattr(order[0]) + ''.join('<label name=%s></label>' % quoteattr(n) for n in order[1:]) \
            + '</label>'
    else:
        body = ''.join('<label name=%s></label>\n' % quoteattr(n) for n in order)
    with open(path, 'w') as f:
        f.write('<?xml version="1.0" encoding="utf-8"?>\n<labels xmlns="http://mulan.sourceforge.net/labels">\n' + body +
                '</labels>\n')


def obs(op, x, y, **kw):
    return dict({'op': op, 'x': mat(x), 'y': mat(y)}, **kw)


def with_meta(meta):
    return {'features': features(meta), 'outputs': [o.name for o in meta.outputs]}


def case(rng):
    t = Table(rng)
    d = tempfile.mkdtemp(prefix='verif-data-')
    try:
        files = {}
        ops = []
        xml = rng.random() < 0.6
        order = [o['name'] for o in t.outputs]
        if rng.random() < 0.5:
            rng.shuffle(order)
        if xml:
            write_xml(rng, t, os.path.join(d, 'data.xml'), order)
        relation = rng.choice(['data', 'my data: 1']) if xml else 'my data: ' + rng.choice(['', '-t x ']) + '-C %d' % (
            t.no if t.start else -t.no) + rng.choice(['', ' -split 10'])

        def new(name, n, exotic):
            rows = [t.row(rng, exotic) for _ in range(n)]
            if exotic and rng.random() < 0.3:
                rows[-1] = [0 for _ in t.attrs]
            # Missing values in dense files are mistaken for zeros (see known-findings.jsonl)
            sparse = rng.random() < 0.5 or any(v != v for r in rows for v in r)
            write(rng, t, os.path.join(d, name + '.arff'), rows, relation, sparse)
            files[name] = {'attrs': t.attrs, 'rows': [[fb(v) for v in r] for r in rows], 'outs': order}

        new('train', rng.randint(1, 8), True)
        new('test', rng.randint(1, 5), True)
        x, y, meta = load_data_set_and_meta_data(d, 'train.arff', 'data.xml')
        ops.append(obs('load', x, y, file='train', **with_meta(meta)))
        encoder = None
        if rng.random() < 0.5:
            x, encoder, _ = one_hot_encode(x, y, meta)
            ops.append(obs('fit', x, y, encoded=int(encoder is not None)))
        if rng.random() < 0.5:
            x, y = save_and_load(rng, d, x, y, ops, None)
        x, y = load_data_set(d, 'test.arff', meta)
        ops.append(obs('other', x, y, file='test'))
        if encoder is not None:
            x, _, _ = one_hot_encode(x, y, meta, encoder=encoder)
            ops.append(obs('apply', x, y))
        elif all(f['type'] == 'numeric' for f in t.features) and rng.random() < 0.6:
            save_and_load(rng, d, x, y, ops, meta)
        return {'files': files, 'ops': ops}
    finally:
        shutil.rmtree(d)


def regression():
    """The data set of a regression problem as it is passed to a learner (known finding)."""
    rng = random.Random(1)
    t = Table(rng)
    t.features, t.start, t.nf, t.no = [{'name': 'f', 'type': 'numeric', 'values': []}], False, 1, 1
    t.outputs = [{'name': 'target', 'type': 'numeric', 'values': []}]
    t.attrs = t.features + t.outputs
    d = tempfile.mkdtemp(prefix='verif-data-')
    try:
        rows = [[1, 2.5], [2, -0.75], [0, 300]]
        write(rng, t, os.path.join(d, 'train.arff'), rows, 'data', False)
        write_xml(rng, t, os.path.join(d, 'train.xml'), ['target'])
        ops = []

        class Callback(DataSplitter.Callback):

            def train_and_evaluate(self, meta_data, data_split, train_x, train_y, test_x, test_y):
                ops.append(obs('load', train_x, train_y, file='train', **with_meta(meta_data)))

        NoSplitter(DataSet(d, 'train', False)).run(Callback())
        return {'files': {'train': {'attrs': t.attrs, 'rows': [[fb(v) for v in r] for r in rows], 'outs': ['target']}}, 'ops': ops}
    finally:
        shutil.rmtree(d)


def missing():
    """Missing values in a dense file (known finding)."""
    rng = random.Random(1)
    t = Table(rng)
    t.features, t.start, t.nf, t.no = [{'name': 'f%d' % j, 'type': 'numeric', 'values': []} for j in range(2)], False, 2, 1
    t.outputs = [{'name': 'label', 'type': 'nominal', 'values': ['0', '1']}]
    t.attrs = t.features + t.outputs
    d = tempfile.mkdtemp(prefix='verif-data-')
    try:
        rows = [[1, NAN, 1], [NAN, 2, 0], [3, 4, 1]]
        write(rng, t, os.path.join(d, 'train.arff'), rows, 'data', False)
        write_xml(rng, t, os.path.join(d, 'train.xml'), ['label'])
        x, y, meta = load_data_set_and_meta_data(d, 'train.arff', 'train.xml')
        return {'files': {'train': {'attrs': t.attrs, 'rows': [[fb(v) for v in r] for r in rows], 'outs': ['label']}},
                'ops': [obs('load', x, y, file='train', **with_meta(meta))]}
    finally:
        shutil.rmtree(d)


def save_and_load(rng, d, x, y, ops, meta):
    nan = np.isnan(dense(x).astype(float)).any()
    kind = rng.random() * (0.5 if nan else 1)
    a = sp.lil_array(dense(x)) if kind < 0.3 else sp.csr_matrix(dense(x)) if kind < 0.5 else dense(x)
    b = sp.lil_array(dense(y)) if sp.issparse(a) and (nan or rng.random() < 0.7) else dense(y)
    if meta is None:
        save_data_set_and_meta_data(d, 'saved.arff', 'saved.xml', a, b)
    else:
        save_arff_file(d, 'saved.arff', a, b, meta)
    xml = 'saved.xml' if meta is None and rng.random() < 0.5 else 'none.xml'
    x2, y2, m = load_data_set_and_meta_data(d, 'saved.arff', xml)
    ops.append(obs('save', x2, y2, keep=int(meta is not None), **with_meta(m)))
    return x2, y2


def jobs(seed, tier):
    yield 'known-regression-outputs', regression
    yield 'known-missing-dense', missing
    for i in range(1200 if tier == 'quick' else 20000):
        yield 'data-%d' % i, (lambda i=i: case(random.Random(seed * 1000003 + i)))


if __name__ == '__main__':
    main(jobs)
