"""C38: computations stay on the device of the data.

CuPy is not installed.  ``mc/device.py`` supplies arrays with its rules: NumPy's
functions dispatch to the device, results are arrays of the device, and every
implicit way to the host or mixture with arrays of the host is an error.
"""

import itertools

import numpy as np

from modopt.math.matrix import PowerMethod
from modopt.opt import algorithms as alg
from modopt.opt import linear, proximity
from modopt.opt.cost import costObj
from modopt.signal.noise import thresh

from .. import device
from ..common import LAYOUTS, data, laid, matrix
from ..core import product_dicts
from .c01 import CONFIGS as FB, EDGES as FB_EDGES, build
from .c02 import CONFIGS as GFB
from .c03 import CONFIGS as POGM
from .c04 import CONFIGS as CONDAT, SCALE

I = linear.Identity


class Side:
    """One of the two places; notes everything the operators are given."""

    def __init__(self, on_device, case):
        self.on_device, self.case, self.asked = on_device, case, []

    def up(self, value):
        return device.upload(value) if self.on_device else np.array(value)

    def note(self, what, *values):
        self.asked.append((what, values))

    @property
    def name(self):
        return "cupy" if self.on_device else "numpy"


def place(side, obs, value, what):
    """The number itself; on the device side it has to be there."""
    if side.on_device:
        obs.check(not isinstance(value, np.ndarray) or value.ndim == 0, "{} has left the device", what)
        if isinstance(value, device.Array):
            return value._v
    return np.asarray(value)


class Gradient:
    def __init__(self, side, shape, dtype):
        self.side, self.shape = side, shape
        size = int(np.prod(shape))
        self.mat, self.y = side.up(matrix(size, size, 3, dtype, 1.0)), side.up(data((size,), 5, dtype))

    def get_grad(self, x):
        self.side.note("gradient", x)
        self.grad = (self.mat.conj().T @ (self.mat @ x.ravel() - self.y)).reshape(self.shape)

    def cost(self, *args, **kwargs):
        return float(0.5 * (abs(self.mat @ args[0].ravel() - self.y) ** 2).sum())


class Step:
    """A proximity operator that answers by a word: shrink, turn back, stay, vanish."""

    def __init__(self, side, word, name):
        self.side, self.word, self.name, self.calls = side, word, name, 0

    def op(self, x, extra_factor=1.0):
        self.side.note(self.name, x, extra_factor)
        letter = self.word[self.calls % len(self.word)]
        self.calls += 1
        return {"s": lambda: x / (1 + 0.2 * extra_factor), "n": lambda: -0.75 * x, "i": lambda: x, "0": lambda: 0 * x}[letter]()

    def cost(self, *args, **kwargs):
        return float(abs(args[0]).sum())


class Matrix:
    def __init__(self, side, mat):
        self.side, self.mat = side, side.up(mat)

    def op(self, x):
        self.side.note("linear operator", x)
        return self.mat @ x

    def adj_op(self, x):
        self.side.note("adjoint", x)
        return self.mat.conj().T @ x


def solver(side, case):
    shape, dtype, kind, config = tuple(case["shape"]), np.dtype(case["dtype"]), case["kind"], case["config"]
    start = [side.up(data(shape, k, dtype)) for k in (2, 3, 4, 6)]
    grad = Gradient(side, shape, dtype)
    prox, dual = Step(side, case["word"], "prox"), Step(side, case["word"][::-1], "second prox")
    common = dict(compute_backend=side.name, progress=False, metric_call_period=1,
                  metrics={"note": {"metric": lambda x, idx: side.note("metric", x, idx) or 0.0,
                                    "mapping": {"x_new": "x", "idx": "idx"}, "cst_kwargs": {}, "early_stopping": False}})
    if kind.startswith("admm"):
        mats = [Matrix(side, matrix(shape[0], shape[0], k, dtype, 1.0)) for k in (1, 4)]

        def sub(name, a, b):
            def run(init, obs):
                side.note(name, init, obs)
                return a * init + b * obs
            return run

        cost = (lambda u: float((u * u).real.sum()), lambda v: float(abs(v).sum())) if case["cost"] else None
        return (alg.ADMM if kind == "admm" else alg.FastADMM)(
            *start[:3], *mats, start[3], (sub("first problem", 0.5, -0.3), sub("second problem", 0.6, 0.2)),
            cost_funcs=cost, **config, **common)
    cost = costObj([grad, prox], verbose=False) if case["cost"] else None
    steps = {k: SCALE.get(v, v) if isinstance(v, str) and k.endswith("update") else v for k, v in config.items()}
    common = dict(common, cost=cost, auto_iterate=False)
    if kind == "fb":
        if isinstance(case["name"], str):
            steps = build(case["name"], 0.5)[0]
        return alg.ForwardBackward(start[0], grad, prox, linear=I(), **steps, **common)
    if kind == "genfb":
        return alg.GenForwardBackward(start[0], grad, [prox, dual], linear=I(), **steps, **common)
    if kind == "pogm":
        return alg.POGM(*start, grad, prox, linear=I(), **steps, **common)
    lin = Matrix(side, matrix(shape[0], shape[0], 2, dtype, 1.0)) if case.get("linear") else I()
    return alg.Condat(*start[:2], grad, prox, dual, linear=lin, **steps, **common)


FINALS = ("x_final", "y_final", "u_final", "v_final")


def solve(case, obs):
    """The same solver in both places."""
    told, sides = [], []
    for on_device in (False, True):
        side = Side(on_device, case)
        sides.append(side)
        del device.moved[:]
        algo = solver(side, case)
        rows = []
        for count in case["plan"]:
            algo.iterate(max_iter=count)
            rows.append({n: getattr(algo, n) for n in FINALS if hasattr(algo, n)})
        obs.check(not device.moved, "arrays of shape {} were copied to the host", device.moved[:3])
        told.append((side.asked, rows))
    (asked, rows), (asked_d, rows_d) = told
    obs.check([a[0] for a in asked] == [a[0] for a in asked_d], "calls {} instead of {}",
              [a[0] for a in asked_d][:12], [a[0] for a in asked][:12])
    for (what, want), (_, got) in zip(asked, asked_d):
        for w, g in zip(want, got):
            obs.close(place(sides[1], obs, g, f"the argument of the {what}"), np.asarray(w), f"argument of the {what}",
                      rtol=1e-9, atol=1e-11)
    for want, got in zip(rows, rows_d):
        for name in want:
            obs.close(place(sides[1], obs, got[name], name), want[name], name, rtol=1e-9, atol=1e-11)
            obs.check(isinstance(got[name], device.Array), "{} is no array of the device", name)
    obs.state(case["kind"], str(case["name"]), case["word"], rows[-1]["x_final"])
    obs.outcome(case["kind"], rows[-1]["x_final"])


def w6(v):
    return np.abs(v) * 0.4 + 0.05


def _prox(make):
    def run(x, w):
        inst = make(w)
        return [inst.op(x), inst.op(x, extra_factor=0.5), inst.cost(x)]
    return run, [(2, 3), (2, 3)]


def _fixed(make):
    def run(x):
        inst = make()
        return [inst.op(x), inst.op(x, extra_factor=0.5), inst.cost(x)]
    return run, [(2, 3)]


def _matrix(a, b):
    lin = linear.MatrixOperator(a)
    return [lin.op(b), lin.adj_op(b)]


PARTS = {
    **{f"{k} threshold, {n}": ((lambda x, k=k: thresh(x, 0.5, k), [(2, 3)]) if n == "number"
                               else (lambda x, t, k=k: thresh(x, t, k), [(2, 3), s]))
       for k in ("hard", "soft") for n, s in (("number", None), ("array", (2, 3)), ("row", (3,)))},
    "soft": _prox(lambda w: proximity.SparseThreshold(I(), w)),
    "hard": _prox(lambda w: proximity.SparseThreshold(I(), w, thresh_type="hard")),
    "soft, number": _fixed(lambda: proximity.SparseThreshold(I(), 0.3)),
    "ridge": _prox(lambda w: proximity.Ridge(I(), w)),
    "ridge, number": _fixed(lambda: proximity.Ridge(I(), 0.3)),
    "elastic net": _prox(lambda w: proximity.ElasticNet(I(), w, w)),
    "elastic net, numbers": _fixed(lambda: proximity.ElasticNet(I(), 0.3, 0.1)),
    "identity": _fixed(proximity.IdentityProx),
    "composition": _fixed(lambda: proximity.LinearCompositionProx(I(), proximity.SparseThreshold(I(), 0.3))),
    "linear identity": (lambda x: [I().op(x), I().adj_op(x)], [(2, 3)]),
    "matrix operator": (_matrix, [(3, 3), (3, 2)]),
}


def part(case, obs):
    """One operator in both places."""
    fn, shapes = PARTS[case["what"]]
    args = [data(s, k + 1, case["dtype"]) for k, s in enumerate(shapes)]
    if len(args) > 1 and case["what"] != "matrix operator":
        args[1] = w6(args[1])
    want = fn(*[laid(a, case["layout"]) for a in args])
    on = [device.upload(laid(a, case["layout"])) for a in args]
    del device.moved[:]
    got = fn(*on)
    obs.check(not device.moved, "arrays of shape {} were copied to the host", device.moved[:3])
    want, got = (list(v) if isinstance(v, (list, tuple)) else [v] for v in (want, got))
    obs.check(len(want) == len(got), "{} results instead of {}", len(got), len(want))
    side = Side(True, case)
    for k, (w, g) in enumerate(zip(want, got)):
        obs.close(place(side, obs, g, f"result {k}"), np.asarray(w), f"result {k}", rtol=1e-10, atol=1e-12)
        if np.ndim(w):
            obs.check(isinstance(g, device.Array), "result {} is no array of the device but {}", k, type(g).__name__)
    for a, b in zip(args, on):
        obs.exact(b._v, a, "an argument was modified")
    obs.state(case["what"], case["dtype"])
    obs.outcome(case["what"], *[np.asarray(w) for w in want])


def power(case, obs):
    """The power method asks the operator about arrays of the device only."""
    shape = tuple(case["shape"])
    size = int(np.prod(shape))
    mat = matrix(size, size, 3, np.dtype(case["dtype"]), 1.0)
    mat = mat.conj().T @ mat
    told = []
    for on_device in (False, True):
        side = Side(on_device, case)
        here = side.up(mat)

        def op(x, side=side, here=here):
            side.note("operator", x)
            return (here @ x.ravel()).reshape(shape)

        del device.moved[:]
        method = PowerMethod(op, shape, data_type=np.dtype(case["dtype"]), auto_run=False, compute_backend=side.name,
                             rng=case["seed"])
        method.get_spec_rad(tolerance=case["tol"], max_iter=case["budget"], extra_factor=case["factor"])
        obs.check(not device.moved, "arrays of shape {} were copied to the host", device.moved[:3])
        told.append((side, method))
    (host, a), (dev, b) = told
    obs.check(len(host.asked) == len(dev.asked), "{} calls instead of {}", len(dev.asked), len(host.asked))
    for (_, w), (_, g) in zip(host.asked, dev.asked):
        obs.close(place(dev, obs, g[0], "the argument"), w[0], "argument of the operator", rtol=1e-9)
        obs.check(isinstance(g[0], device.Array), "the operator got no array of the device")
    obs.close(place(dev, obs, b.spec_rad, "spec_rad"), np.asarray(a.spec_rad), "spec_rad", rtol=1e-9)
    obs.close(place(dev, obs, b.inv_spec_rad, "inv_spec_rad"), np.asarray(a.inv_spec_rad), "inv_spec_rad", rtol=1e-9)
    obs.state(case["shape"], case["seed"], a.spec_rad)
    obs.outcome(len(host.asked))


def run(ctx):
    cases = []
    table = [("fb", n, {}) for n in (*FB, *FB_EDGES)] + [("genfb", n, c) for n, c in GFB.items()]
    table += [("pogm", n, c) for n, c in POGM.items()] + [("condat", n, c) for n, c in CONDAT.items()]
    table += [("admm", "plain", {}), ("admm-fast", "default", {}), ("admm-fast", "restart", dict(tau=0.5, eta=0.8))]
    words = ["".join(w) for n in (2, 3) for w in itertools.product("sni0", repeat=n)]
    for kind, name, config in table:
        for word in words if not kind.startswith("admm") else ["s"]:
            for shape, dtype in (((3,), "float64"), ((2, 3), "float64"), ((3,), "complex128")):
                if kind.startswith("admm") and len(shape) > 1:
                    continue
                for plan in ([4], [1, 3]) if ctx.thorough or len(word) < 3 else ([4],):
                    for cost in (False, True):
                        cases.append(dict(kind=kind, name=name, config=config, word=word, shape=shape, dtype=dtype, plan=plan, cost=cost,
                                          linear=kind == "condat" and len(word) == 3))
    if ctx.thorough:
        cases += [dict(c, plan=[30, 20]) for c in cases if c["plan"] == [1, 3]]
    ctx.explore("solvers", cases, solve)
    cases = [dict(what=w, dtype=d, layout=lay) for w in PARTS for d in ("float64", "complex128", "float32")
             for lay in ("plain", *LAYOUTS) if lay not in ("swapped", "subclass")]
    ctx.explore("operators", cases, part)
    cases = list(product_dicts(shape=[(1,), (3,), (2, 3), (4, 4)], dtype=["float64", "complex128"], seed=[0, 1, 2],
                               tol=[1e-6, 1e-2, 0.0], budget=[1, 2, 7, 40], factor=[1.0, 1.1]))
    ctx.explore("power method", cases, power)
    ctx.assumptions += ["CuPy is not installed: arrays with its rules take its place (mc/device.py)"]
