"""C12: separable proximity operators return the minimiser they stand for."""

import itertools

import numpy as np

from modopt.opt import linear, proximity

from .. import proxhist
from ..common import Linear, call_words, calls, data, layout_cases, laid_out, narrow, tol, typed

GRID = [-3.0, -2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0, 3.5]
CGRID = [0j, 1 + 0j, -2j, 3 - 4j, -0.5 + 0.5j, -3 + 0j, 1e-3 + 2j]
WEIGHTS = [0.0, 0.5, 1.0, 2.0]


def soft(x, t):
    mag = np.abs(x)
    scale = np.where(mag > t, 1 - t / np.where(mag > 0, mag, 1), 0)
    return x * scale


def oracle(kind, x, w, f, v=None):
    """Closed form of the minimiser of 0.5 |u - x|^2 + f R(u)."""
    if kind == "identity":
        return x
    if kind == "positive":
        return np.where(x > 0, x, 0)
    if kind == "soft":
        return soft(x, w * f)
    if kind == "hard":
        return np.where(np.abs(x) >= w * f, x, 0)
    if kind == "ridge":
        return x / (1 + 2 * w * f)
    if kind == "elastic":
        return soft(x, v * f) / (1 + 2 * w * f)
    if kind == "group":
        norm = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
        t = np.broadcast_to(w * f, x.shape)
        ratio = np.where(norm > 0, t / np.where(norm > 0, norm, 1), np.inf)
        return x * np.maximum(1 - ratio, 0)
    raise KeyError(kind)


def operator(kind, w, v=None):
    lin = linear.Identity()
    if kind == "identity":
        return proximity.IdentityProx()
    if kind == "positive":
        return proximity.Positivity()
    if kind in ("soft", "hard"):
        return proximity.SparseThreshold(lin, w, thresh_type=kind)
    if kind == "ridge":
        return proximity.Ridge(lin, w)
    if kind == "elastic":
        return proximity.ElasticNet(lin, w, v)
    return proximity.GroupLASSO(w)


def penalty(kind, u, w, v):
    """R(u), element by element."""
    if kind == "identity":
        return 0.0 * np.abs(u)
    if kind == "positive":
        return np.where(u.real < 0, np.inf, 0.0)
    if kind == "soft":
        return w * np.abs(u)
    if kind == "ridge":
        return w * np.abs(u) ** 2
    return w * np.abs(u) ** 2 + v * np.abs(u)


KINDS = ["identity", "positive", "soft", "hard", "ridge", "elastic"]


def values(spec):
    return np.array(spec) if isinstance(spec, (list, tuple)) else spec


def _unpack(x):
    arr = np.array(x[0]).astype(np.dtype(x[1]))
    return arr + 1j * np.array(x[2]) if len(x) > 2 and x[2] is not None else arr


def apply(inst, case, x, f):
    if case["style"] == "default" and np.ndim(f) == 0 and f == 1.0:
        return inst.op(x)
    return inst.op(x, extra_factor=f)


def pointwise(case, obs):
    """Every small vector; equality with the closed form and global optimality."""
    kind = case["kind"]
    x = _unpack(case["x"])
    w, v, f = values(case["w"]), values(case["v"]), values(case["f"])
    before = x.copy()
    inst = operator(kind, w, v)
    got = np.asarray(apply(inst, case, x, f))
    obs.exact(x, before, "the argument was modified")
    want = oracle(kind, x, w, f, v)
    obs.close(got, want, f"{kind} operator", **tol(x.dtype if x.dtype.kind in "fc" else "float64"))
    if kind not in ("hard",):
        # no competitor does better (coordinate by coordinate)
        comp = np.concatenate([np.linspace(-4, 4, 65), [x.ravel()[0].real]]) + 0j
        if x.dtype.kind == "c":
            comp = np.concatenate([comp, np.array(CGRID), 1j * comp[:65].real])
        w_b, v_b, f_b = (np.broadcast_to(t, x.shape).ravel() for t in (w, v if v is not None else 0, f))
        for k, (xi, gi) in enumerate(zip(x.ravel(), np.broadcast_to(got, x.shape).ravel())):
            def cost(u):
                rest = penalty(kind, u, w_b[k], v_b[k])
                if kind == "positive":
                    return 0.5 * np.abs(u - xi) ** 2 + rest
                return 0.5 * np.abs(u - xi) ** 2 + f_b[k] * rest
            obs.check(cost(np.asarray(gi + 0j)) <= np.min(cost(comp)) + 1e-6,
                      "not the minimiser at {}: {}", xi, gi)
    obs.state(kind, x, want)
    obs.outcome(kind, want)


def larger(case, obs):
    """Shapes, memory layouts, data types and sizes; repeated use of one instance."""
    kind, shape, dtype = case["kind"], tuple(case["shape"]), np.dtype(case["dtype"])
    scale = case.get("scale", 1)
    x = data(shape, 3, dtype) * np.asarray(scale, dtype)
    if case["layout"] == "reverse":
        x = x[..., ::-1]
    elif case["layout"] == "fortran":
        x = np.asfortranarray(x)
    elif case["layout"] == "readonly":
        x.flags.writeable = False
    w = np.abs(data(shape, 6, float)) * 0.4 if case["w"] == "array" else 0.7
    v = np.abs(data(shape, 8, float)) * 0.3 if case["w"] == "array" else 0.3
    if kind in ("soft", "hard"):
        w = w * scale
    v = v * scale
    before, w_before = x.copy(), np.array(w)
    inst = operator(kind, w, v)
    tols = tol(dtype if dtype.kind in "fc" else "float64", scale)
    tols["atol"] = max(tols["atol"], 2e-15)  # thresh rounds to fifteen decimals
    for f in case["fs"]:
        f = np.abs(data(shape, 4, float)) * 0.5 if f == "array" else f
        got = inst.op(x, extra_factor=f)
        want = oracle(kind, x, w, f, v)
        obs.close(got, want, f"{kind} operator with factor {np.shape(f)}", **tols)
        obs.state(kind, shape, want)
    obs.exact(x, before, "the argument was modified")
    obs.exact(w, w_before, "the weights were modified")
    obs.outcome(kind, shape, str(dtype))


def group(case, obs):
    scale = case.get("scale", 1.0)
    x = _unpack(case["x"]) * scale
    w, f = np.array(case["w"]) * scale, case["f"]
    w = w if w.ndim else float(w)
    got = apply(proximity.GroupLASSO(w), case, x, f)
    want = oracle("group", x, w, f)
    obs.close(got, want, "group operator", rtol=1e-6, atol=1e-9 * scale)
    obs.state(x, want)
    obs.outcome(want)


def composed(case, obs):
    """prox of R(Q .) for orthogonal Q."""
    angle = case["angle"]
    q = {"identity": np.eye(2), "rotation": np.array([[np.cos(angle), -np.sin(angle)],
                                                      [np.sin(angle), np.cos(angle)]]),
         "flip": np.array([[0.0, 1.0], [1.0, 0.0]]),
         "unitary": np.array([[1, 1j], [1j, 1]]) / np.sqrt(2)}[case["q"]]
    x = np.array(case["x"]) if case["q"] != "unitary" else np.array(case["x"]) * (1 + 0.5j)
    w, f = case["w"], case["f"]
    inner = operator(case["kind"], w, 0.3)
    inst = proximity.LinearCompositionProx(Linear(q), inner)
    got = inst.op(x, extra_factor=f) if f != 1.0 else inst.op(x)
    want = q.conj().T @ oracle(case["kind"], q @ x, w, f, 0.3)
    obs.close(got, want, "composed operator")

    def cost(u):
        return 0.5 * np.sum(np.abs(u - x) ** 2) + f * np.sum(penalty(case["kind"], q @ u, w, 0.3))

    best = cost(np.asarray(got))
    for du in itertools.product([-0.3, -0.05, 0.0, 0.05, 0.3], repeat=2):
        obs.check(best <= cost(np.asarray(got) + np.array(du)) + 1e-9, "not the minimiser of the "
                  "composed function")
    obs.state(case["kind"], want)
    obs.outcome(want)


def combo(case, obs):
    """A combination applies its members one to one, with the factor."""
    ops = [operator(k, 0.5, 0.2) for k in case["kinds"]]
    xs = [data(tuple(s), 3 + i) for i, s in enumerate(case["shapes"])]
    inst = proximity.ProximityCombo(ops if case["wrap"] == "list" else tuple(ops))
    if case.get("ints"):
        xs = [np.round(2 * x).astype(int) for x in xs]
    pack = case.get("pack", "object")
    packed = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        packed[i] = x
    packed = {"object": packed, "list": list(xs), "tuple": tuple(xs)}[pack] if pack != "stack" else np.array(xs)
    before = [x.copy() for x in xs]
    got = inst.op(packed, extra_factor=case["f"]) if case["f"] != 1.0 else inst.op(packed)
    for x, part, was in zip(xs, packed, before):
        obs.exact(x, was, "the argument was modified")
        obs.exact(np.asarray(part), was, "the argument was modified")
    obs.check(len(got) == len(xs), "{} results for {} operators", len(got), len(xs))
    for i, (k, x) in enumerate(zip(case["kinds"], xs)):
        obs.close(got[i], oracle(k, x, 0.5, case["f"], 0.2), f"member {i} ({k})")
    obs.state(case["kinds"], case["f"])
    obs.outcome(case["kinds"], case["shapes"])


def _typed_prox(make, ravel=False):
    def fn(x, y):
        inst = make()
        for v in (x[0][0], y[0], x[1][1]):
            v = v.ravel()[:16] if ravel else v
            got = inst.op(v), inst.op(v, extra_factor=0.5)
            for one in got:
                if isinstance(one, np.ndarray) and one.dtype == object:
                    yield from (("member", part) for part in one)
                else:
                    yield "op", one
    return fn


I = linear.Identity
TYPED = {
    "positivity": _typed_prox(lambda: proximity.Positivity()),
    "identity": _typed_prox(lambda: proximity.IdentityProx()),
    "soft": _typed_prox(lambda: proximity.SparseThreshold(I(), np.float64(3.5))),
    "hard": _typed_prox(lambda: proximity.SparseThreshold(I(), np.float64(70.0), thresh_type="hard")),
    "ridge": _typed_prox(lambda: proximity.Ridge(I(), np.float64(3.0))),
    "elastic net": _typed_prox(lambda: proximity.ElasticNet(I(), 1.5, 2.0)),
    "group lasso": _typed_prox(lambda: proximity.GroupLASSO(np.float64(3.0))),
    "transformed": _typed_prox(lambda: proximity.LinearCompositionProx(
        I(), proximity.SparseThreshold(I(), np.float64(3.5)))),
    "combination": _typed_prox(lambda: proximity.ProximityCombo(
        [proximity.Ridge(I(), np.float64(3.0)), proximity.Positivity()])),
}


def _steps(make, shape=(2, 3)):
    def build():
        inst = make()
        return lambda x: [inst.op(x), inst.op(x, extra_factor=0.5), inst.cost(x)]
    return build, [shape]


def _w(seed, shape=(2, 3)):
    return np.abs(data(shape, seed)) * 0.4 + 0.05


CALLS = {
    "positivity": _steps(lambda: proximity.Positivity()),
    "identity": _steps(lambda: proximity.IdentityProx()),
    "soft": _steps(lambda: proximity.SparseThreshold(I(), _w(6))),
    "hard": _steps(lambda: proximity.SparseThreshold(I(), _w(6), thresh_type="hard")),
    "ridge": _steps(lambda: proximity.Ridge(I(), _w(6))),
    "elastic net": _steps(lambda: proximity.ElasticNet(I(), _w(6), _w(7))),
    "group lasso": _steps(lambda: proximity.GroupLASSO(_w(6, (3,)))),
    "transformed": _steps(lambda: proximity.LinearCompositionProx(
        linear.MatrixOperator(np.eye(2)[::-1]), proximity.SparseThreshold(I(), _w(6)))),
    "combination": (lambda: (lambda i: lambda x: [i.op(x), i.cost(x)])(proximity.ProximityCombo(
        [proximity.Ridge(I(), _w(6)), proximity.SparseThreshold(I(), _w(7))])), [(2, 3)]),
}


def _weighted(make, shape=(2, 3), wshape=(2, 3)):
    """The weights are arrays of the caller as well; they come in any layout too."""
    def build():
        def run(x, w):
            inst = make(w)
            return [inst.op(x), inst.op(x, extra_factor=0.5), inst.cost(x)]
        return run
    return (build, [shape, wshape], lambda x: x, lambda w: np.abs(w) * 0.4 + 0.05)


LAID = {
    **CALLS,
    "three axes": _steps(lambda: proximity.SparseThreshold(I(), _w(6, (2, 3, 2))), (2, 3, 2)),
    "positivity of three axes": _steps(lambda: proximity.Positivity(), (2, 3, 2)),
    "group lasso of three axes": _steps(lambda: proximity.GroupLASSO(_w(6, (3, 2))), (2, 3, 2)),
    "soft, weights": _weighted(lambda w: proximity.SparseThreshold(I(), w)),
    "hard, weights": _weighted(lambda w: proximity.SparseThreshold(I(), w, thresh_type="hard")),
    "ridge, weights": _weighted(lambda w: proximity.Ridge(I(), w)),
    "elastic net, weights": _weighted(lambda w: proximity.ElasticNet(I(), w, w)),
    "group lasso, weights": _weighted(lambda w: proximity.GroupLASSO(w), (2, 3, 2), (3, 2)),
}


def run(ctx):
    cases = []
    pairs = list(itertools.product(GRID, repeat=2))
    for kind in KINDS:
        for x in pairs:
            for w in WEIGHTS + [[0.5, 2.0], [1.0, 0.0]]:
                for f in (1.0, 0.5, 3.0, [0.5, 2.0]):
                    vs = [None] if kind != "elastic" else [0.0, 1.0, [1.5, 0.25]]
                    for v in vs:
                        for dt in ("float64",) if ctx.tier == "quick" else ("float64", "float32", "int64"):
                            cases.append(dict(kind=kind, x=[list(x), dt], w=w, v=v, f=f,
                                              style="default"))
                    if kind in ("identity", "positive") and w:
                        break
    for kind in ("identity", "soft", "hard", "ridge", "elastic"):
        for x in itertools.product(CGRID, repeat=2):
            for w in (0.5, [2.0, 5.0]):
                for f in (1.0, 0.5):
                    cases.append(dict(kind=kind, x=[[c.real for c in x], "float64", [c.imag for c in x]],
                                      w=w, v=0.75, f=f, style="explicit"))
    ctx.explore("all small vectors", cases, pointwise)
    shapes = [(1,), (5,), (1, 1), (2, 3), (4, 4), (2, 3, 2), (2, 1, 2, 3), (64,), (257,), (33, 31), (1025,)]
    cases = [
        dict(kind=k, shape=s, dtype=d, layout=lay, w=w, fs=[1.0, 0.3, "array", 2.0, 1.0])
        for k in KINDS for s in shapes for d in ("float64", "float32", "complex128", "int64")
        for lay in ("plain", "reverse", "fortran", "readonly") for w in ("scalar", "array")
        if not (k == "positive" and d == "complex128")
    ]
    ctx.explore("shapes, layouts, data types", cases, larger)
    cases = [
        dict(kind=k, shape=s, dtype=d, layout="plain", w=w, fs=[1.0, 0.3, "array", 2.0], scale=scale)
        for k in KINDS for s in [(5,), (2, 3), (2, 3, 2), (64,)] for d in ("float64", "complex128")
        for w in ("scalar", "array") for scale in (1e-60, 1e-25, 1e-17, 1e-12, 1e-7, 1e-3, 1e3, 1e7, 1e12, 1e25, 1e60)
        if not (k == "positive" and d == "complex128")
    ]
    ctx.explore("data of every magnitude", cases, larger)
    cols = list(itertools.product([0.0, 1.0, -2.0, 3.0], repeat=2))
    cases = [
        dict(x=[np.array(c).T.tolist(), "float64"], w=w, f=f, style="default")
        for c in itertools.product(cols, repeat=2) for w in (0.0, 0.5, 2.0, [1.0, 3.0])
        for f in (1.0, 0.5)
    ]
    cases += [
        dict(x=[data(s, 3).tolist(), "float64", data(s, 4).tolist() if cplx else None], w=w, f=f,
             style="explicit")
        for s in ((3,), (1, 1), (3, 1), (1, 4), (3, 5), (2, 3, 4), (2, 1, 2, 3), (2, 2, 2, 2), (3, 2, 1, 2, 2),
                  (4, 33), (7, 129)) for cplx in (False, True)
        for w in (0.3, 1.5, 4.0) for f in (1.0, 0.2, 3.0)
    ]
    ctx.explore("groups", cases, group)
    few = [c for c in cases if c["style"] == "explicit"] + cases[:1000:7]
    ctx.explore("groups of every magnitude",
                [dict(c, scale=s) for c in few for s in (1e-60, 1e-25, 1e-17, 1e-12, 1e-7, 1e-3, 1e3, 1e7, 1e12, 1e25, 1e60)], group)
    cases = [
        dict(kind=k, q=q, angle=a, x=list(x), w=w, f=f)
        for k in ("soft", "ridge", "elastic", "identity") for q in ("identity", "rotation", "flip", "unitary")
        for a in (0.3, 1.1) for x in itertools.product(GRID[::2], repeat=2) for w in (0.5, 1.0)
        for f in (1.0, 0.5, 2.0)
    ]
    ctx.explore("orthogonal composition", cases, composed)
    cases = [
        dict(kinds=list(ks), shapes=s, f=f, wrap=wr)
        for n, shapes in ((1, [[(3,)]]), (2, [[(3,), (2, 2)], [(2,), (2,)]]),
                          (3, [[(3,), (2, 2), (1,)]]))
        for ks in itertools.product(KINDS, repeat=n) for s in shapes for f in (1.0, 0.5)
        for wr in ("list", "tuple")
    ]
    cases += [
        dict(kinds=list(ks), shapes=s, f=f, wrap="list", pack=pk, ints=it)
        for n, shapes in ((1, [[(3,)]]), (2, [[(3,), (2, 2)], [(2, 3), (2, 3)]]), (3, [[(2,), (2,), (2,)], [(3,), (3,), (2,)]]))
        for ks in itertools.product(KINDS if n < 3 else KINDS[1:4], repeat=n) for s in shapes for f in (1.0, 0.5)
        for pk in ("object", "list", "tuple", "stack") for it in (False, True)
        if pk != "stack" or len(set(map(tuple, s))) == 1
    ]
    ctx.explore("combinations", cases, combo)
    names = ["soft-array", "soft-scalar", "hard-array", "hard-scalar", "ridge-array", "ridge-scalar", "elastic", "group"]
    cases = proxhist.cases(names, "of", 5, ("float64",) + ctx.pick((), ("complex128",)))
    ctx.explore("all histories of one operator", cases, proxhist.history)
    ctx.explore("narrow types", narrow(TYPED), typed(TYPED))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(LAID, ("float64", "complex128")), laid_out(LAID))
