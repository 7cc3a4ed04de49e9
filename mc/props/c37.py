"""C37: problems assembled from the library's own parts are solved."""

import itertools

import numpy as np
import pywt

from modopt.opt import algorithms as alg
from modopt.opt import proximity
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity, LinearCombo, LinearParent, MatrixOperator, WaveletConvolve, WaveletTransform

from .. import refs
from ..common import LAYOUTS, Recorder, data, laid, matrix, steady, tol
from ..core import product_dicts
from ..solvers import DESCENT
from .c12 import oracle
from .c13 import ksup, ksup_value, owl, owl_value
from .c15 import penalty

SEPARABLE = ["identity", "positive", "soft", "ridge", "elastic"]
CONVEX = SEPARABLE + ["group", "nuclear", "owl", "ksup"]
FB = {
    "fista": {},
    "cd": {"a_cd": 3.0},
    "lazy": {"p_lazy": 0.5, "q_lazy": 0.3, "r_lazy": 3.5},
    "adaptive": {"restart_strategy": "adaptive-i", "xi_restart": 0.9},
    "adaptive-2": {"restart_strategy": "adaptive-2", "xi_restart": 0.75},
    "greedy": {"restart_strategy": "greedy", "xi_restart": 0.9, "s_greedy": 1.1},
    "plain": {"lambda_update": None},
}
DESCENTS = {
    "vanilla": {}, "ada": {}, "rmsprop": {"gamma": 0.5}, "momentum": {"beta": 0.4},
    "adam": {"gamma": 0.9, "beta": 0.9}, "saga": {"epoch_size": 2, "epsilon": 1.0},
}
# the objective above its minimum after k iterations, in units of L |x0 - x_min|^2
RATES = {
    "plain": lambda k: 0.5 / k,
    "fista": lambda k: 2.0 / (k + 1) ** 2,
    "pogm": lambda k: 2.0 / (k + 1) ** 2,
    "pogm-damped": lambda k: 2.0 / (k + 1) ** 2,
}


# --- proximity operators: the library's, the formula and the penalty -----------


class Part:
    """One proximity operator of the library beside its formula."""

    def __init__(self, kind, w, size, lin=None, k=2):
        self.kind, self.w, self.k = kind, w, min(k, size)
        # the operators for other penalties know nothing of the transform
        self.lin = lin if lin and kind in ("soft", "hard", "elastic") else Identity()
        self.weights = w * np.linspace(1.5, 0.5, size)

    def library(self):
        return {
            "identity": lambda: proximity.IdentityProx(),
            "positive": lambda: proximity.Positivity(),
            "soft": lambda: proximity.SparseThreshold(self.lin, np.array(self.w)),
            "hard": lambda: proximity.SparseThreshold(self.lin, np.array(self.w), thresh_type="hard"),
            "ridge": lambda: proximity.Ridge(Identity(), self.w),
            "elastic": lambda: proximity.ElasticNet(self.lin, self.w, 0.5 * self.w),
            "group": lambda: proximity.GroupLASSO(self.w),
            "nuclear": lambda: proximity.LowRankMatrix(self.w),
            "owl": lambda: proximity.OrderedWeightedL1Norm(self.weights),
            "ksup": lambda: proximity.KSupportNorm(self.w, self.k),
        }[self.kind]()

    def prox(self, x, f=1.0):
        if self.kind == "nuclear":
            flat = x.reshape(x.shape[0], -1)
            u, s, v = np.linalg.svd(flat, full_matrices=False)
            return ((u * np.maximum(s - self.w * f, 0)) @ v).reshape(x.shape)
        if self.kind == "owl":
            return owl(x.ravel(), self.weights * f).reshape(x.shape)
        if self.kind == "ksup":
            return ksup(x.ravel(), self.w * f, self.k).reshape(x.shape)
        return oracle(self.kind, x, self.w, f, 0.5 * self.w)

    @property
    def counted(self):
        """Does the cost method return the penalty?  (C15 lists two that do not.)"""
        return self.kind not in ("owl", "ksup", "hard")

    def value(self, x):
        if self.kind == "owl":
            return owl_value(x.ravel(), self.weights)
        if self.kind == "ksup":
            return 0.5 * self.w * ksup_value(x.ravel(), self.k)
        return penalty(self.kind, x, self.w, 0.5 * self.w, lambda v: np.asarray(self.lin.op(v)))


class Problem:
    """0.5 |H x - y|^2 over arrays of one shape, in the library's terms and in formulas."""

    how = "plain"  # layout of the starting point and of the observed data in memory

    def __init__(self, shape, h, y, dtype=float):
        self.shape, self.h, self.y = tuple(shape), h, y
        self.dtype = np.dtype(dtype)
        self.lipschitz = np.linalg.norm(h, 2) ** 2

    def library(self):
        ops = MatrixOperator(self.h)
        if len(self.shape) == 1:
            return GradBasic(laid(self.y, self.how), ops.op, ops.adj_op, verbose=False)
        return GradBasic(laid(self.y, self.how), lambda x: ops.op(x.ravel()),
                         lambda z: ops.adj_op(z).reshape(self.shape), verbose=False)

    def grad(self, x):
        return (self.h.conj().T @ (self.h @ x.ravel() - self.y)).reshape(self.shape).astype(self.dtype)

    def value(self, x):
        return 0.5 * np.sum(np.abs(self.h @ x.ravel() - self.y) ** 2)


# --- linear operators ------------------------------------------------------------


def transforms(name, shape):
    """The library's operator, its formula, the adjoint's formula, and its squared norm."""
    size = int(np.prod(shape))
    if name == "none":
        return Identity(), (lambda x: x), (lambda z: z), 1.0
    if name == "matrix":
        k = matrix(size + 1, size, 9, float, 1.0)
        return MatrixOperator(k), (lambda x: k @ x), (lambda z: k.T @ z), 1.0
    if name == "filters":
        bank = data((2, 3, 3), 4) / 9
        norm = sum(np.sum(np.abs(f)) ** 2 for f in bank)
        return (WaveletConvolve(bank), lambda x: np.array([[refs.conv_same(im, f) for f in bank] for im in x]),
                lambda z: np.array([sum(refs.conv_same(p, f[::-1, ::-1]) for p, f in zip(ps, bank)) for ps in z]), 9 * norm)
    if name == "haar":
        _, slices, shapes = pywt.ravel_coeffs(pywt.wavedecn(np.zeros(shape), "haar", "periodization", 1))
        return (WaveletTransform("haar", shape, level=1, mode="periodization"),
                lambda x: pywt.ravel_coeffs(pywt.wavedecn(x, "haar", "periodization", 1))[0],
                lambda z: pywt.waverecn(pywt.unravel_coeffs(z, slices, shapes, "wavedecn"), "haar",
                                        "periodization"), 1.0)
    raise KeyError(name)


# --- assembly ----------------------------------------------------------------------


def assemble(solver, problem, part, other, linear, x0, box=None, **kwargs):
    """(solver of the library, reference iterates, parts in the objective); cost object into the box."""
    kwargs = dict(progress=False, metric_call_period=1, **kwargs)
    grad, step = problem.library(), 1.0 / problem.lipschitz
    lin, op, adj, norm = transforms(linear, problem.shape)
    if solver in FB:
        config = dict(FB[solver])
        if solver == "greedy":
            config["min_beta"] = 0.5 * step
        cost = [grad, part.library()]
        algo = alg.ForwardBackward(laid(x0, problem.how), grad, cost[1], cost=_cost(cost, box), beta_param=step,
                                   auto_iterate=False, linear=lin, **config, **kwargs)
        ref = refs.forward_backward(x0, problem.grad, part.prox, beta=step, **config)
        return algo, ref, [part]
    if solver == "genfb":
        proxes = [part.library(), other.library()]
        algo = alg.GenForwardBackward(laid(x0, problem.how), grad, proxes, weights=[0.25, 0.75], gamma_param=step,
                                      cost=_cost([grad, *proxes], box), auto_iterate=False, linear=lin, **kwargs)
        ref = refs.gen_forward_backward(x0, problem.grad, [part.prox, other.prox], [0.25, 0.75], gamma=step)
        return algo, ref, [part, other]
    if solver in ("pogm", "pogm-damped"):
        sigma_bar = 0.6 if solver == "pogm-damped" else 1.0
        cost = [grad, part.library()]
        algo = alg.POGM(laid(x0, problem.how), laid(x0, problem.how), laid(x0, problem.how), laid(x0, problem.how), grad, cost[1], linear=lin,
                        cost=_cost(cost, box), beta_param=step, sigma_bar=sigma_bar, auto_iterate=False, **kwargs)
        ref = refs.pogm(x0, x0, x0, x0, problem.grad, part.prox, beta=step, sigma_bar=sigma_bar)
        return algo, ref, [part]
    if solver in ("condat", "condat-primal"):
        first, second = (other, part) if solver == "condat" else (part, other)
        sigma, tau, rho = 0.5, 1.0 / (problem.lipschitz / 2 + 0.5 * norm + 0.1), 0.9
        y0 = np.zeros_like(op(x0))
        proxes = [first.library(), second.library()]
        algo = alg.Condat(laid(x0, problem.how), y0, grad, *proxes, linear=lin, cost=_cost([grad, *proxes], box), rho=rho,
                          sigma=sigma, tau=tau, auto_iterate=False, **kwargs)
        ref = refs.condat(x0, y0, problem.grad, lambda x: first.prox(x), second.prox, op, adj, rho=rho,
                          sigma=sigma, tau=tau)
        return algo, ref, [first, second]
    config = DESCENTS[solver]
    cost = [grad, part.library()]
    eta = step if solver in ("vanilla", "momentum", "saga") else 0.3
    algo = DESCENT[solver](laid(x0, problem.how), grad, cost[1], _cost(cost, box), eta=eta, **config, **kwargs)
    return algo, refs.descent(solver, x0, problem.grad, part.prox, eta=eta, **config), [part]


def _cost(parts, box):
    """A cost object that never stops a run, if its value is wanted."""
    if box is None or any(isinstance(p, (proximity.OrderedWeightedL1Norm, proximity.KSupportNorm)) for p in parts):
        return None
    box.append(costObj(parts, verbose=False, tolerance=-1.0))
    return box[0]


def _linear_of(name, shape):
    _, op, _, _ = transforms(name, shape)
    return LinearParent(op, op)


def runs(case, obs):
    """Iterates and cost, iteration by iteration."""
    dtype, shape = np.dtype(case["dtype"]), tuple(case["shape"])
    size = int(np.prod(shape))
    problem = Problem(shape, matrix(size + 1, size, size, dtype, 1.3), data((size + 1,), 5, dtype), dtype)
    problem.how = case.get("layout", "plain")
    lin = _linear_of(case["linear"], shape) if case["solver"] == "condat" else None
    part = Part(case["prox"], 0.1, int(np.prod(np.shape(lin.op(np.zeros(shape))))) if lin else size, lin)
    other = Part(case["other"], 0.05, size)
    rec = Recorder("x_new", "idx")
    x0, box = data(shape, 2, dtype), []
    algo, ref, terms = assemble(case["solver"], problem, part, other, case["linear"], x0, box, metrics=rec.metrics())
    tols = tol(dtype)
    total = sum(case["plan"])
    wants, costs = [], []
    momentum = case["solver"] in DESCENTS
    for count in case["plan"]:
        for k in range(count):
            wants.append(ref.send("restart") if momentum and k == 0 and wants else next(ref))
        algo.iterate(max_iter=count)
        costs += [(len(wants) - 1, box[0].cost)] if box else []
        obs.close(algo.x_final, wants[-1]["z_new" if case["solver"] in FB else "x_new"], "x_final", **tols)
    obs.check(len(rec.rows) == total, "{} iterations instead of {}", len(rec.rows), total)
    for k, (row, want) in enumerate(zip(rec.rows, wants)):
        obs.close(row["x_new"], want["x_new"], f"x_new of iteration {k}", **tols)
        obs.state(case["solver"], case["prox"], k, want["x_new"])
    if all(p.counted for p in terms):
        for at, cost in costs:
            x = wants[at]["x_new"]
            obs.close(cost, problem.value(x) + sum(p.value(x) for p in terms), "cost", **tols)
    obs.outcome(case["solver"], case["prox"], want["x_new"])


def stacked(case, obs):
    """Condat's method with combined linear and proximity operators."""
    size = 3
    problem = Problem((size,), matrix(size + 1, size, size, float, 1.3), data((size + 1,), 5))
    mats = [np.eye(size), matrix(4, size, 9, float, 1.0), 0.5 * matrix(size, size, 7, float, 1.0)]
    mats = [mats[i] for i in case["blocks"]]
    weights = case["weights"] and [[1.0, 1.0, 1.0], [0.5, 2.0, 1.0]][case["weights"] - 1][:len(mats)]
    scales = weights or [1.0 / len(mats)] * len(mats)
    parts = [Part(k, 0.1 * (n + 1), m.shape[0]) for n, (k, m) in enumerate(zip(case["kinds"], mats))]
    lin = LinearCombo([Identity() if b == 0 else MatrixOperator(m) for b, m in zip(case["blocks"], mats)],
                      weights=weights or None)
    dual = proximity.ProximityCombo([p.library() for p in parts])
    other = Part(case["other"], 0.05, size)
    cuts = np.cumsum([m.shape[0] for m in mats])[:-1]

    def prox_dual(z, f):
        return np.concatenate([p.prox(v, f) for p, v in zip(parts, np.split(z, cuts))])

    def adj(z):
        return sum(c * (m.T @ v) for c, m, v in zip(scales, mats, np.split(z, cuts)))

    x0, grad = data((size,), 2), problem.library()
    y0 = lin.op(x0)
    settings = dict(rho=0.9, sigma=0.5, tau=0.3)
    algo = alg.Condat(x0.copy(), y0, grad, other.library(), dual, linear=lin, cost=None, auto_iterate=False,
                      progress=False, **settings)
    ref = refs.condat(x0, np.concatenate(list(y0)), problem.grad, lambda x: other.prox(x), prox_dual,
                      lambda x: np.concatenate([m @ x for m in mats]), adj, **settings)
    for count in case["plan"]:
        algo.iterate(max_iter=count)
        for _ in range(count):
            want = next(ref)
        obs.close(algo.x_final, want["x_new"], "x_final")
        obs.check(np.shape(algo.y_final)[0] == len(mats), "{} dual parts", np.shape(algo.y_final))
        for got, part in zip(algo.y_final, np.split(want["y_new"], cuts)):
            obs.close(got, part, "part of y_final")
        obs.state(case["kinds"], want["x_new"])
    obs.outcome(case["kinds"], want["x_new"])


def minimum(case, obs):
    """The limit satisfies the optimality conditions; forward-backward descends all the way."""
    shape = tuple(case["shape"])
    size = int(np.prod(shape))
    h = np.array({
        "plain": np.eye(size),
        "mixed": np.eye(size) + 0.3 * np.eye(size, k=1) - 0.2 * np.eye(size, k=-1),
        "tall": np.vstack([np.eye(size), 0.5 * np.ones((1, size))]),
    }[case["matrix"]])
    y = np.resize(np.array(case["y"], float), h.shape[0])
    problem = Problem(shape, h, y)
    lin = _linear_of(case["linear"], shape) if case["solver"] == "condat" else None
    part = Part(case["prox"], case["w"], int(np.prod(np.shape(lin.op(np.zeros(shape))))) if lin else size, lin)
    other = Part("positive" if case["positive"] else "identity", 0.0, size)
    rec = Recorder("x_new")
    algo, _, terms = assemble(case["solver"], problem, part, other, case["linear"], data(shape, 2), metrics=rec.metrics())
    algo.iterate(max_iter=case["n"])
    x = np.array(algo.x_final)
    _, op, adj, _ = transforms(case["linear"], shape)
    bound = dict(rtol=1e-4, atol=1e-4)
    slope = problem.grad(x)
    if case["solver"] in ("condat", "condat-primal"):
        first, second = terms
        dual = np.array(algo.y_final)
        obs.close(first.prox(x - slope - adj(dual)), x, "minimiser (primal condition)", **bound)
        obs.close(second.prox(op(x) + dual), op(x), "minimiser (dual condition)", **bound)
    elif case["solver"] == "genfb":
        # a sum of penalties: compare with the same problem solved by its two-variable splitting
        ref = refs.condat(x * 0, x * 0, problem.grad, lambda v: other.prox(v), part.prox, lambda v: v, lambda v: v,
                          rho=1.0, sigma=0.5, tau=1.0 / (problem.lipschitz / 2 + 0.6))
        for _ in range(case["n"]):
            want = next(ref)
        obs.close(x, want["x_new"], "minimiser", **bound)
    else:
        x_min = np.zeros(shape)
        for _ in range(400):
            x_min = part.prox(x_min - problem.grad(x_min) / problem.lipschitz, 1 / problem.lipschitz)
        if case["solver"] not in RATES:
            obs.close(part.prox(x - slope), x, "minimiser", **bound)
    if case["solver"] in RATES:
        # the published rates, from the start to the end of the run
        best, far = problem.value(x_min) + part.value(x_min), np.sum((data(shape, 2) - x_min) ** 2)
        last = np.inf
        for k, row in enumerate(rec.rows, 1):
            gap = problem.value(row["x_new"]) + part.value(row["x_new"]) - best
            obs.check(gap <= RATES[case["solver"]](k) * problem.lipschitz * far + 1e-7 * (1 + abs(best)),
                      "objective {} above its minimum after {} iterations", gap, k)
            obs.check(case["solver"] != "plain" or gap <= last + 1e-9 * (1 + abs(best)),
                      "objective {} above its minimum, then {}", last, gap)
            last = gap
    obs.state(case["solver"], case["prox"], x)
    obs.outcome(case["solver"], case["prox"], np.round(x, 3))


def run(ctx):
    cases = [
        dict(solver=s, prox=p, other="identity" if d == "complex128" else o, shape=sh, dtype=d, linear="none", plan=plan)
        for s in [*FB, "genfb", "pogm", "pogm-damped", "condat", "condat-primal", *DESCENTS]
        for p in [*CONVEX, "hard"] for sh in [(3,), (2, 3), (4, 4)] for d in ("float64", "complex128")
        for o in ("positive", "ridge") for plan in ([12], [3, 1, 4])
        if not (p == "positive" and d == "complex128") and not (p == "nuclear" and len(sh) == 1)
        and not (s in DESCENTS and p not in [*SEPARABLE, "hard"])
        and not (o == "ridge" and s not in ("genfb", "condat", "condat-primal"))
    ]
    ctx.explore("every solver with every proximity operator", cases, steady(runs))
    cases = [
        dict(solver=s, prox=p, other="identity", shape=sh, dtype=d, linear="none", plan=[2, 3], layout=how)
        for s in [*FB, "genfb", "pogm", "pogm-damped", "condat", "condat-primal", *DESCENTS]
        for p in ("soft", "group", "nuclear", "owl", "ksup") for sh in [(3,), (2, 3), (4, 4)] for d in ("float64", "complex128")
        for how in LAYOUTS
        if not (p == "nuclear" and len(sh) == 1) and not (s in DESCENTS and p not in SEPARABLE)
    ]
    ctx.explore("data in every memory layout", cases, steady(runs))
    cases = [
        dict(solver="condat", prox=p, other=o, shape=sh, dtype="float64", linear=lin, plan=plan)
        for lin, shapes in (("matrix", [(3,), (5,)]), ("filters", [(1, 4, 4), (2, 3, 5)]), ("haar", [(4, 4), (2, 6), (4, 2, 4)]))
        for sh in shapes for p in ("identity", "soft", "hard", "ridge", "elastic", "owl", "ksup")
        for o in ("identity", "positive", "ridge") for plan in ([12], [3, 1, 4])
        if not (lin == "filters" and p == "ksup")
    ]
    ctx.explore("penalties of transforms", cases, steady(runs))
    cases = [
        dict(blocks=list(b), kinds=list(k), weights=w, other=o, plan=plan)
        for n in (1, 2, 3) for b in itertools.product(range(3), repeat=n)
        for k in itertools.product(ctx.pick(("soft", "ridge", "positive"), tuple(SEPARABLE)), repeat=n) for w in (0, 1, 2)
        for o in ("identity", "positive") for plan in ([8], [2, 3])
        if n < 3 or (len(set(b)) == 3 and len(set(k)) == 3) or ctx.tier == "thorough"
    ]
    ctx.explore("combined operators", cases, stacked)
    cases = [
        dict(solver=s, prox=p, shape=sh, matrix=m, y=list(y), w=w, linear=lin, positive=pos, n=n)
        for s, n in (("fista", 300), ("cd", 300), ("lazy", 300), ("adaptive", 300), ("adaptive-2", 300), ("greedy", 300),
                     ("plain", 200), ("genfb", 400), ("pogm", 300), ("pogm-damped", 300), ("vanilla", 200),
                     ("condat", 400), ("condat-primal", 400))
        for sh, p, lin in [*(((2,), p, "none") for p in CONVEX), *(((2, 2), p, "none") for p in ("group", "nuclear")),
                           *(((2,), p, "matrix") for p in ("soft", "ridge"))]
        for m in ("plain", "mixed", "tall") for y in itertools.product(ctx.pick((-1.0, 0.0, 2.0), (-1.0, 0.0, 1.3, 2.0)), repeat=2)
        for w in ctx.pick((0.4,), (0.1, 0.4)) for pos in (False, True)
        if not (lin != "none" and s != "condat") and not (pos and s not in ("genfb", "condat", "condat-primal"))
        and not (p == "nuclear" and sh == (2,)) and not (s == "condat-primal" and p not in ("identity", "positive")) and not (s == "vanilla" and p not in SEPARABLE)
    ]
    ctx.explore("minimisers of all small problems", cases, minimum)
