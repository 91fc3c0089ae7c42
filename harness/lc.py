"""Helpers for recording how models are learned: data generation, fitting with traces, encoding."""
import os, random
import numpy as np
from hc import *

NUM_POOLS = [[-2.0, -1.0, 0.0, 1.0, 2.0], [0.0, 0.25, 0.5, 0.75, 1.0], [0.0, 1.0], [-1.5, 0.0, 3.0],
             [0.0, 0.0, 0.0, 1.0, 2.0, 5.5], [1.0, 2.0, 3.0, 4.0, 10.0, 20.0], [-3.0, -2.5, -1.0, 0.0]]
INT_POOLS = [[0, 1], [0, 1, 2], [1, 2, 3, 7], [-1, 0, 1], [0, 0, 0, 1, 2]]


class Data:
    """x: float32 matrix (NaN = missing), y: matrix of labels or targets, types: 'n'umerical, 'o'rdinal, 'c'ategorical."""

    def __init__(self, x, y, types):
        self.x, self.y, self.types = x, y, types

    def kwargs(self):
        kw = {}
        o = [i for i, t in enumerate(self.types) if t == 'o']
        c = [i for i, t in enumerate(self.types) if t == 'c']
        if o or c:
            kw['ordinal_feature_indices'] = o
            kw['nominal_feature_indices'] = c
        return kw


def column(rng, t, n, continuous):
    if t == 'n':
        if rng.random() < continuous:
            return [float(np.float32(rng.uniform(-2, 2))) for _ in range(n)]
        pool = rng.choice(NUM_POOLS)
    else:
        pool = rng.choice(INT_POOLS)
    if rng.random() < 0.05:
        pool = pool[:1]
    return [float(rng.choice(pool)) for _ in range(n)]


def gen_data(rng, n, nf, nout, types='noc', missing=0.0, regression=False, continuous=0.2, density=None):
    ts = ''.join(rng.choice(types) for _ in range(nf))
    x = np.asarray([column(rng, t, n, continuous) for t in ts], dtype=np.float32).T.copy()
    y = np.zeros((n, nout))
    dens = density if density is not None else rng.choice([0.2, 0.4, 0.5, 0.6, 0.9])
    for o in range(nout):
        if regression:
            base = rng.choice([0, 1, -2])
            y[:, o] = [base + rng.choice([0, 0.5, 1, -1, rng.uniform(-2, 2)]) for _ in range(n)]
        elif rng.random() < 0.6:  # depends on a feature, with noise
            f = rng.randrange(nf)
            v = rng.choice(list(x[:, f]))
            y[:, o] = [int((a <= v) != (rng.random() < 0.15)) for a in x[:, f]]
        else:
            y[:, o] = [int(rng.random() < dens) for _ in range(n)]
    if missing:
        for i in range(n):
            for f in range(nf):
                if rng.random() < missing:
                    x[i, f] = np.nan
    return Data(x, np.asarray(y, dtype=np.float32 if regression else np.uint8), ts)


def feature_input(rng, d, fmt):
    """fmt: dense, fortran, csr, csc"""
    if fmt == 'dense':
        return d.x, {}
    if fmt == 'fortran':
        return np.asfortranarray(d.x), {}
    # Explicitly stored zeros are mistaken for an additional value of categorical features (see known-findings.jsonl)
    return to_sparse(d.x, 0.0, fmt, rng, explicit=rng.choice([0.0, 0.0, 0.2]),
                     implicit=[i for i, t in enumerate(d.types) if t != 'n']), {}


def fit(cls, d, params, x=None, y=None, trace='trace-%d.nd' % os.getpid(), sparse_y=False):
    """Returns (estimator, events)"""
    if sparse_y:
        # Dense matrices are never converted into a sparse format
        params = dict(params, output_format='sparse')
        y = sp.csr_array(d.y if y is None else y)
    est = cls(**params)
    for k, v in d.kwargs().items():
        setattr(est, k, v)
    with Trace(os.path.abspath(trace)) as t:
        est.fit(d.x if x is None else x, d.y if y is None else y)
    return est, t.events


OPMAP = {}


def hexf(s):
    return float.fromhex(s)


def segments(events):
    """Groups events by the rule they belong to: [{kind, w, outs, steps, conds, idx, scores, found}], partition"""
    segs, part = [], None
    for e in events:
        k = e['e']
        if k in ('weights', 'postopt'):
            segs.append({'kind': k, 'w': e['w'], 'outs': None, 'steps': [], 'grow': [], 'rule': None})
        elif k == 'outputs':
            segs[-1]['outs'] = e['idx']
        elif k == 'features':
            segs[-1]['steps'].append(e['idx'])
        elif k == 'grow':
            segs[-1]['grow'].append(e)
        elif k == 'rule':
            segs[-1]['rule'] = e
        elif k == 'partition':
            part = (e['train'], e['holdout'])
    return segs, part


def enc_segments(segs, n):
    """Encodes segments, all indices 1-based. Weights default to 1 for every example."""
    out = []
    for s in segs:
        r = s['rule']
        out.append({'kind': s['kind'], 'w': s['w'] if s['w'] is not None else [], 'sampled': int(s['w'] is not None),
                    'outs': [o + 1 for o in s['outs']], 'steps': [[f + 1 for f in st] for st in s['steps']],
                    'grow': [{'c': [g['c'][0] + 1, OPS[g['c'][1]], fb(hexf(g['c'][2]))], 'n': g['n'],
                              'q': fb(hexf(g['q'])), 'o': [i + 1 for i in g['idx']]} for g in s['grow']],
                    'found': int(r is not None),
                    'c': [[f + 1, OPS[o], fb(hexf(t))] for f, o, t in r['conds']] if r else [],
                    'o': [i + 1 for i in r['idx']] if r else [],
                    's': [fb(hexf(v)) for v in r['scores']] if r else []})
    return out


def bins_of(model):
    red = model.__reduce__()
    state = red[2]
    if not state:
        return []
    return [[[fb(t), fb(p)] for t, p in l] for l in state[1]]


def vectors_of(info):
    red = info.__reduce__()
    state = red[2]
    if not state:
        return [], []
    return [[int(i) + 1 for i in v] for v, _ in state[1]], [int(f) for _, f in state[1]]
