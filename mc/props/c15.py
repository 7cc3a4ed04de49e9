"""C15: cost methods of the proximity operators return the penalty value."""

import itertools

import numpy as np

from modopt.opt import linear, proximity

from .. import proxhist
from ..common import Linear, data, matrix, narrow, typed
from .c13 import ksup_value

GRID = [-3.0, -1.0, 0.0, 0.5, 2.0]


class Expand:
    """Linear operator to another shape, for the transform-domain penalties."""

    def __init__(self, shape, dtype):
        size = int(np.prod(shape))
        self.inner = Linear(matrix(2 * size, size, 3, dtype), shape, (2,) + tuple(shape))
        self.op, self.adj_op = self.inner.op, self.inner.adj_op


def penalty(kind, x, w, v, lin):
    if kind in ("identity", "positive"):
        return 0.0
    if kind == "soft":
        return np.sum(np.abs(np.broadcast_to(w, np.shape(lin(x))) * lin(x)))
    if kind == "ridge":
        return np.sum(np.broadcast_to(w, np.shape(lin(x))) * np.abs(lin(x)) ** 2)
    if kind == "elastic":
        return np.sum(np.broadcast_to(w, np.shape(lin(x))) * np.abs(lin(x)) ** 2
                      + np.broadcast_to(v, np.shape(lin(x))) * np.abs(lin(x)))
    if kind == "group":
        return np.sum(w * np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
    if kind == "nuclear":
        mat = np.asarray(x).reshape(x.shape[0], -1)
        return w * np.sum(np.linalg.svd(mat, compute_uv=False))
    raise KeyError(kind)


def build(kind, w, v, lin):
    return {
        "identity": lambda: proximity.IdentityProx(),
        "positive": lambda: proximity.Positivity(),
        "soft": lambda: proximity.SparseThreshold(lin, w),
        "ridge": lambda: proximity.Ridge(lin, w),
        "elastic": lambda: proximity.ElasticNet(lin, w, v),
        "group": lambda: proximity.GroupLASSO(w),
        "nuclear": lambda: proximity.LowRankMatrix(w),
    }[kind]()


def value(case, obs):
    kind = case["kind"]
    shape, dtype = tuple(case["shape"]), np.dtype(case["dtype"])
    x = np.array(case["x"], dtype=dtype).reshape(shape) if case["x"] is not None \
        else data(shape, case["seed"], dtype)
    scale = case.get("scale", 1)
    x = x * np.asarray(scale, dtype)
    lin = Expand(shape, dtype) if case["lin"] == "expand" else linear.Identity()
    out = (2,) + shape if case["lin"] == "expand" else shape
    if case["w"] == "array" and kind != "nuclear":
        w, v = np.abs(data(out, 6)) * 0.4, np.abs(data(out, 8)) * 0.3
        if kind == "group":
            w = w[0] if shape[1:] else 0.7
    else:
        w, v = 0.75, 0.25
    before = x.copy()
    inst = build(kind, w, v, lin)
    want = penalty(kind, x, w, v, lin.op)
    for k in range(2):
        for kwargs in ({}, {"verbose": False}, {"verbose": True}):
            got = inst.cost(x, **kwargs)
            obs.check(np.ndim(got) == 0, "cost is not a number: {}", got)
            obs.close(got, want, f"{kind} cost", rtol=1e-5 if dtype == np.float32 else 1e-9,
                      atol=1e-9 * min(scale, scale**2))
        if k == 0 and not (kind == "group" and np.ndim(w)):
            inst.op(x)  # the value does not depend on earlier operations
    obs.exact(x, before, "the argument was modified")
    obs.state(kind, x, want)
    obs.outcome(kind, want)


def owl(case, obs):
    scale = case.get("scale", 1.0)
    x, w = np.array(case["x"]) * scale, np.array(case["w"])
    inst = proximity.OrderedWeightedL1Norm(w)
    arg = x.reshape(case["shape"]) if case.get("shape") else x
    got = inst.cost(arg) if not case["verbose"] else inst.cost(arg, verbose=True)
    mag = np.sort(np.abs(x))
    want, deviation = np.sum(w * mag[::-1]), np.sum(w * mag)
    if abs(got - want) > 1e-9 * (scale + abs(want)):
        obs.close(got, deviation, "OWL cost", atol=1e-9 * scale)
        obs.known.add("owl-cost-order")
    obs.state(x, w, got)
    obs.step()
    obs.outcome(got)


def ksup(case, obs):
    scale = case.get("scale", 1.0)
    x, k, beta = np.array(case["x"]) * scale, case["k"], case["beta"]
    if case.get("im"):
        x = x * (1 + 0.5j)
    inst = proximity.KSupportNorm(beta, k)
    got = inst.cost(x.reshape(case["shape"]) if case.get("shape") else x)
    want = 0.5 * beta * ksup_value(x, k)
    if abs(got - want) > 1e-9 * (scale**2 + abs(want)):
        # known deviation: the second term is not halved (any valid split index)
        mag = np.sort(np.abs(x))[::-1]
        allowed = []
        for q in range(k):
            tail = mag[q:].sum() / (k - q)
            if tail >= mag[q] - 1e-12 * scale and (q == 0 or mag[q - 1] >= tail - 1e-12 * scale):
                allowed.append(beta * (0.5 * np.sum(mag[:q] ** 2) + mag[q:].sum() ** 2 / (k - q)))
        obs.check(any(abs(got - a) <= 1e-9 * (scale**2 + abs(a)) for a in allowed),
                  "k-support cost {} instead of {} (or the known {})", got, want, allowed)
        obs.known.add("ksupport-cost-half")
    obs.state(x, k, beta, got)
    obs.step()
    obs.outcome(got)


def composed(case, obs):
    """Composition and combination add up the values of their members."""
    xs = [data(tuple(s), i + 2) for i, s in enumerate(case["shapes"])]
    lin = linear.Identity()
    kinds = case["kinds"]
    ops = [build(k, 0.5, 0.2, lin) for k in kinds]
    combo = proximity.ProximityCombo(ops)
    packed = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        packed[i] = x
    want = sum(penalty(k, x, 0.5, 0.2, lin.op) for k, x in zip(kinds, xs))
    obs.close(combo.cost(packed), want, "combined cost")
    q = matrix(5, xs[0].size, 2)
    shape = xs[0].shape
    comp = proximity.LinearCompositionProx(Linear(q, shape, (5, 1)), ops[0])
    obs.close(comp.cost(xs[0]), penalty(kinds[0], (q @ xs[0].ravel()).reshape(5, 1), 0.5, 0.2, lin.op),
              "composed cost")
    obs.close(comp.cost(xs[0], verbose=True),
              penalty(kinds[0], (q @ xs[0].ravel()).reshape(5, 1), 0.5, 0.2, lin.op), "composed cost")
    obs.state(kinds, want)
    obs.outcome(kinds, want)


def _typed_prox(make, ravel=False):
    def fn(x, y):
        inst = make()
        for v in (x[0][0], y[0], x[1][1]):
            v = v.ravel()[:16] if ravel else v
            yield "cost", inst.cost(v)
    return fn


I = linear.Identity
TYPED = {
    "positivity": _typed_prox(lambda: proximity.Positivity()),
    "identity": _typed_prox(lambda: proximity.IdentityProx()),
    "soft": _typed_prox(lambda: proximity.SparseThreshold(I(), np.float64(3.5))),
    "hard": _typed_prox(lambda: proximity.SparseThreshold(I(), np.float64(70.0), thresh_type="hard")),
    "ridge": _typed_prox(lambda: proximity.Ridge(I(), np.float64(3.0))),
    "elastic net": _typed_prox(lambda: proximity.ElasticNet(I(), 1.5, 2.0)),
    "group lasso": _typed_prox(lambda: proximity.GroupLASSO(np.float64(3.0))),
    "transformed": _typed_prox(lambda: proximity.LinearCompositionProx(
        I(), proximity.SparseThreshold(I(), np.float64(3.5)))),
    "combination": _typed_prox(lambda: proximity.ProximityCombo(
        [proximity.Ridge(I(), np.float64(3.0)), proximity.Positivity()])),
    "low rank": lambda x, y: [("cost", proximity.LowRankMatrix(3.0).cost(v)) for v in (x[0], y[1])],
    "OWL": _typed_prox(lambda: proximity.OrderedWeightedL1Norm(np.arange(16, 0, -1.0)), True),
    "k-support": _typed_prox(lambda: proximity.KSupportNorm(1.5, 3), True),
}


def run(ctx):
    kinds = ["identity", "positive", "soft", "ridge", "elastic", "group", "nuclear"]
    cases = [
        dict(kind=k, x=list(x), shape=(2, 2), dtype="float64", lin=lin, w=w, seed=0)
        for k in kinds for x in itertools.product(GRID, repeat=4) for lin in ("identity", "expand")
        for w in ("scalar", "array")
        if not (lin == "expand" and k in ("identity", "positive", "group", "nuclear"))
    ]
    shapes = [(1,), (4,), (1, 1), (3, 1), (1, 4), (5, 3), (2, 3, 2), (4, 1, 3), (2, 1, 3, 2), (7, 33), (64, 17)]
    cases += [
        dict(kind=k, x=None, shape=s, dtype=d, lin=lin, w=w, seed=seed)
        for k in kinds for s in shapes for d in ("float64", "float32", "complex128", "int64")
        for lin in ("identity", "expand") for w in ("scalar", "array") for seed in (1, 2)
        if not (lin == "expand" and k in ("identity", "positive", "group", "nuclear"))
        and not (lin == "expand" and np.prod(s) > 300)
        and not (k == "positive" and d == "complex128") and not (k == "nuclear" and len(s) == 1)
    ]
    # int matrices as linear operators are outside the bounds
    cases = [c for c in cases if not (c["dtype"] == "int64" and c["lin"] == "expand")]
    ctx.explore("penalty values", cases, value)
    cases = [
        dict(kind=k, x=None, shape=s, dtype=d, lin="identity", w=w, seed=1, scale=scale)
        for k in kinds for s in [(5, 3), (2, 3, 2)] for d in ("float64", "complex128")
        for w in ("scalar", "array") for scale in (1e-9, 1e-4, 1e4, 1e9)
        if not (k == "positive" and d == "complex128")
    ]
    ctx.explore("penalty values of every magnitude", cases, value)
    cases = [
        dict(x=list(x), w=w, verbose=v) for n in (1, 2, 3) for x in itertools.product(GRID, repeat=n)
        for w in ([[0.5], [0.0]] if n == 1 else [[1.0, 1.0], [2.0, 0.5], [1.0, 0.0]] if n == 2 else [[1.0] * 3, [3.0, 1.0, 0.5]])
        for v in (False, True)
    ]
    cases += [dict(x=data((n,), s).tolist(), w=np.linspace(2, 0, n).tolist(), verbose=False)
              for n in (4, 9, 33, 130) for s in (1, 2, 3)]
    cases += [dict(x=data((n,), s).tolist(), w=np.linspace(2, 0, n).tolist(), verbose=False, shape=sh)
              for n, sh in ((1, (1, 1)), (4, (2, 2)), (6, (2, 3)), (6, (1, 6)), (6, (6, 1)), (12, (2, 3, 2))) for s in (1, 2, 3)]
    cases += [dict(c, scale=s) for c in cases[::5] for s in (1e-9, 1e-4, 1e4, 1e9)]
    ctx.explore("OWL norm", cases, owl)
    cases = [
        dict(x=list(x), k=k, beta=b, im=i) for n in (1, 2, 3, 4) for x in itertools.product(GRID, repeat=n)
        for k in range(1, n + 1) for b in (0.5, 3.0) for i in (False, True)
    ]
    cases += [dict(x=data((n,), s).tolist(), k=k, beta=1.5, shape=sh)
              for n, sh in ((4, (2, 2)), (9, (3, 3)), (33, None), (130, None)) for s in (1, 2, 3)
              for k in (1, 2, 3, n // 2, n - 1, n)]
    cases += [dict(c, scale=s) for c in cases[::11] for s in (1e-8, 1e-4, 1e4, 1e8)]
    ctx.explore("k-support norm", cases, ksup)
    members = ["identity", "positive", "soft", "ridge", "elastic", "group"]
    cases = [
        dict(kinds=list(ks), shapes=s)
        for n, s in ((1, [(3, 2)]), (2, [(3, 2), (2, 2)]), (3, [(2, 2), (2, 3), (1, 4)]))
        for ks in itertools.product(members, repeat=n)
    ]
    ctx.explore("compositions and combinations", cases, composed)
    names = ["soft-array", "soft-scalar", "ridge-array", "elastic", "group", "owl", "ksup", "lowrank-soft"]
    cases = proxhist.cases(names, "oc", 5, ("float64",) + ctx.pick((), ("complex128",)))
    ctx.explore("all histories of one operator", cases, proxhist.history)
    ctx.explore("narrow types", narrow(TYPED), typed(TYPED))
