"""Helpers for driving MLRL-Boomer and recording executions. Harnesses record, they never judge."""
import json, os, struct, sys, warnings
warnings.filterwarnings("ignore")
import numpy as np
import scipy.sparse as sp
from mlrl.boosting.boosting_learners import BoomerClassifier, BoomerRegressor
from mlrl.seco.seco_learners import SeCoClassifier
from mlrl.common.cython.rule_model import RuleList, RuleModelVisitor
from mlrl.common.cython.output_space_info import LabelVectorSet, NoOutputSpaceInfo
from mlrl.common.cython.probability_calibration import (IsotonicMarginalProbabilityCalibrationModel,
                                                        IsotonicJointProbabilityCalibrationModel,
                                                        NoMarginalProbabilityCalibrationModel,
                                                        NoJointProbabilityCalibrationModel)

import mlrl.common.cython.rule_model as _rm
import mlrl.common.cython.output_space_info as _osi
import mlrl.common.cython.probability_calibration as _pc
V_MODEL = getattr(_rm, 'SERIALIZATION_VERSION', 4)
V_INFO = getattr(_osi, 'SERIALIZATION_VERSION', 1)
V_CAL = getattr(_pc, 'SERIALIZATION_VERSION', 0)


def _new(cls, state=()):
    obj = cls()
    obj.__setstate__(state)
    return obj


NUM_LEQ, NUM_GR, ORD_LEQ, ORD_GR, NOM_EQ, NOM_NEQ = range(6)
OPS = ('<=', '>', 'o<=', 'o>', '==', '!=')


def fb(x):
    """A double as pair of signed 32-bit integers."""
    x = float(x)
    if x != x:
        return [2146959360, 0]
    if x == 0:
        return [0, 0]
    return list(struct.unpack('>ii', struct.pack('>d', x)))


def fbm(m):
    return [[fb(v) for v in row] for row in m]


def unfb(p):
    return struct.unpack('>d', struct.pack('>ii', *p))[0]


class Rule:
    """conds: list of (feature, op, threshold), outs: list of output indices or None for a complete head."""

    def __init__(self, conds, outs, scores, default=False):
        self.conds, self.outs, self.scores, self.default = list(conds or []), outs, [float(s) for s in scores], default

    def enc(self, nout):
        outs = self.outs if self.outs is not None else range(nout)
        return {'d': int(self.default), 'c': [[int(f) + 1, OPS[o], fb(t)] for f, o, t in self.conds],
                'o': [int(o) + 1 for o in outs], 's': [fb(s) for s in self.scores],
                'full': int(self.outs is None)}

    def key(self):
        return (tuple(sorted((int(f), int(o), float(t)) for f, o, t in self.conds)),
                None if self.outs is None else tuple(int(i) for i in self.outs), tuple(self.scores), self.default)


class Extractor(RuleModelVisitor):

    def __init__(self):
        self.rules = []
        self.cur = None

    def visit_empty_body(self, body):
        self.cur = None

    def visit_conjunctive_body(self, b):
        c = []
        for op, idx, thr in ((NUM_LEQ, b.numerical_leq_indices, b.numerical_leq_thresholds),
                             (NUM_GR, b.numerical_gr_indices, b.numerical_gr_thresholds),
                             (ORD_LEQ, b.ordinal_leq_indices, b.ordinal_leq_thresholds),
                             (ORD_GR, b.ordinal_gr_indices, b.ordinal_gr_thresholds),
                             (NOM_EQ, b.nominal_eq_indices, b.nominal_eq_thresholds),
                             (NOM_NEQ, b.nominal_neq_indices, b.nominal_neq_thresholds)):
            if idx is not None:
                c += [(int(f), op, float(t)) for f, t in zip(np.asarray(idx), np.asarray(thr))]
        self.cur = c

    def visit_complete_head(self, head):
        self.rules.append(Rule(self.cur, None, np.asarray(head.scores).tolist(), default=self.cur is None))

    def visit_partial_head(self, head):
        self.rules.append(Rule(self.cur, np.asarray(head.indices).tolist(), np.asarray(head.scores).tolist(),
                               default=self.cur is None))


def rules_of(model, used=True):
    v = Extractor()
    if used:
        model.visit_used(v)
    else:
        model.visit(v)
    return v.rules


def build_model(rules, used, default_last=False):
    """Constructs a rule list; `rules` in model order (default rule anywhere, it is moved by the flag)."""
    state = []
    for r in rules:
        if r.default:
            body = None
        else:
            body = []
            for op in range(6):
                sel = [(f, t) for f, o, t in r.conds if o == op]
                if sel:
                    body.append(np.asarray([t for _, t in sel], dtype=np.float32 if op < 2 else np.int32))
                    body.append(np.asarray([f for f, _ in sel], dtype=np.uint32))
                else:
                    body += [None, None]
            body = tuple(body)
        head = (np.asarray(r.scores, dtype=np.float64),)
        if r.outs is not None:
            head += (np.asarray(r.outs, dtype=np.uint32),)
        state.append([body, head])
    m = RuleList()
    m.__setstate__((V_MODEL, (state, not default_last, int(used))))
    return m


def estimator(cls, model, num_outputs, num_features, info=None, marginal=None, joint=None, sparse=False, **params):
    est = cls(**params)
    est.model_ = model
    est.num_outputs_ = num_outputs
    est.n_features_in_ = num_features
    est.output_space_info_ = info if info is not None else _new(NoOutputSpaceInfo)
    est.marginal_probability_calibration_model_ = marginal if marginal is not None \
        else _new(NoMarginalProbabilityCalibrationModel)
    est.joint_probability_calibration_model_ = joint if joint is not None else _new(NoJointProbabilityCalibrationModel)
    est.sparse_predictions_ = sparse
    return est


def label_vectors(vectors, freqs):
    s = LabelVectorSet()
    s.__setstate__((V_INFO, [(list(map(int, v)), int(f)) for v, f in zip(vectors, freqs)]))
    return s


def to_sparse(x, sparse_value, fmt, rng=None, explicit=0.0, unsorted=False, implicit=()):
    """Converts dense x into a sparse array with the given sparse value; `explicit`: share of sparse elements that are
    stored explicitly (except for the columns in `implicit`)."""
    x = np.asarray(x, dtype=np.float32)
    n, m = x.shape
    rows, cols, vals = [], [], []
    for i in range(n):
        for j in range(m):
            v = x[i, j]
            same = v == sparse_value
            if not same or (rng is not None and rng.random() < explicit and j not in implicit):
                rows.append(i)
                cols.append(j)
                vals.append(v)
    major, minor, nm = (rows, cols, n) if fmt == 'csr' else (cols, rows, m)
    order = sorted(range(len(vals)), key=lambda k: (major[k], minor[k]))
    if unsorted and rng is not None:
        order = sorted(range(len(vals)), key=lambda k: (major[k], rng.random()))
    indptr = np.zeros(nm + 1, dtype=np.int32)
    for k in order:
        indptr[major[k] + 1] += 1
    indptr = np.cumsum(indptr).astype(np.int32)
    data = np.asarray([vals[k] for k in order], dtype=np.float32)
    idx = np.asarray([minor[k] for k in order], dtype=np.int32)
    cls = sp.csr_array if fmt == 'csr' else sp.csc_array
    return cls((data, idx, indptr), shape=(n, m))


def dense(p):
    return np.asarray(p.todense()) if sp.issparse(p) else np.asarray(p)


def write(path, cases):
    with open(path, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')


class Trace:
    """Records the hook events that are emitted while fitting."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        if os.path.exists(self.path):
            os.remove(self.path)
        os.environ['MLRL_VERIF_TRACE_FILE'] = self.path
        self.events = []
        return self

    def __exit__(self, *a):
        os.environ['MLRL_VERIF_TRACE_FILE'] = ''
        if os.path.exists(self.path):
            with open(self.path) as f:
                self.events = [json.loads(l) for l in f if l.strip()]
            os.remove(self.path)
        return False


def main(jobs):
    """jobs(seed, tier) yields (id, function) pairs; a function performs an execution and returns the case(s) recorded.
    Usage: harness.py OUT PART NPARTS SEED TIER"""
    out, part, nparts, seed, tier = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    only = os.environ.get('VERIF_ONLY')
    with open(out, 'w') as f:
        for i, (jid, fn) in enumerate(jobs(seed, tier)):
            if i % nparts != part or (only and jid != only):
                continue
            with open(out + '.current', 'w') as g:
                g.write(jid)
            try:
                res = fn()
            except Exception as e:  # an exception for a valid input is itself an observation
                if os.environ.get('VERIF_DEBUG'):
                    raise
                res = {'id': jid, 'err': '%s: %s' % (type(e).__name__, str(e)[:300])}
            for c in res if isinstance(res, list) else [res]:
                if c is not None:
                    c.setdefault('id', jid)
                    f.write(json.dumps(c) + '\n')
            f.flush()
    os.remove(out + '.current')
