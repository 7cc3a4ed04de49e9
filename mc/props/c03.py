"""C03: POGM iterates follow Kim and Fessler, algorithm 3."""

import itertools

import numpy as np

from modopt.opt.algorithms import POGM

from ..common import LAYOUTS, Adversary, Grad, Linear, Prox, Recorder, data, environment, laid, matrix, steady, tol, with_ties, words
from ..core import product_dicts
from ..refs import pogm
from .c01 import PROX, _soft, compositions

NAMES = ("u_new", "x_new", "y_new", "z_new", "xi", "sigma", "t", "idx")
CONFIGS = {
    "default": {},
    "shrink": {"sigma_bar": 0.5},
    "shrink-all": {"sigma_bar": 0.0, "beta_param": 0.7},
    "beta": {"beta_param": 0.3, "sigma_bar": 0.9},
    "step": {"beta_param": 0.9, "step_size": 0.4, "sigma_bar": 0.8},
}
EDGES = {
    "tiny": {"beta_param": 1e-6},
    "small": {"beta_param": 1e-3, "sigma_bar": 0.5},
    "huge": {"beta_param": 1e4},
    "step-tiny": {"step_size": 1e-5, "sigma_bar": 0.0},
    "step-int": {"step_size": 2},
    "sigma-almost": {"sigma_bar": 0.999999, "beta_param": 2.5},
    "sigma-small": {"sigma_bar": 1e-6},
}
STARTS = {
    "same": lambda s, d: [data(s, 2, d)] * 4,
    "zero": lambda s, d: [np.zeros(s, d)] * 4,
    "apart": lambda s, d: [data(s, k, d) for k in (2, 3, 4, 6)],
}


def lockstep(obs, case, start, grad_a, prox_a, grad_r, prox_r, plan, tols=None, linear=None):
    tols = tols or {}
    cfg = {**CONFIGS, **EDGES}[case["config"]]
    rec = Recorder(*NAMES)
    shape = start[0].shape
    algo = POGM(*[s.copy() for s in start], grad=Grad(grad_a), prox=Prox(prox_a), cost=None,
                linear=linear, auto_iterate=False, metric_call_period=1, metrics=rec.metrics(),
                progress=False, **cfg)

    def reference(shake):
        return pogm(*start, shake(grad_r), shake(prox_r), beta=cfg.get("step_size", cfg.get("beta_param", 1.0)),
                    sigma_bar=cfg.get("sigma_bar", 1.0))

    ref = reference(lambda fn: fn)
    obs.twin = (lambda shake, n: list(itertools.islice(reference(shake), n)), sum(plan), tols)
    done, pattern = 0, ""
    for count in plan:
        algo.iterate(max_iter=count)
        for k in range(count):
            want = next(ref)
            obs.check(len(rec.rows) > done, "iteration {} did not take place", done)
            row = rec.rows[done]
            for name in NAMES[:-1]:
                value = want[name]
                if name == "x_new" and linear is not None:
                    value = linear.adj_op(value)
                obs.close(row[name], value, f"{name} of iteration {done}", **tols)
            obs.check(row["idx"] == k, "iteration index {} instead of {}", row["idx"], k)
            pattern += want["event"][0]
            obs.state(case["config"], done, want["x_new"], want["z_new"], want["t"], want["sigma"])
            done += 1
        obs.check(len(rec.rows) == done, "{} iterations instead of {}", len(rec.rows), done)
        obs.close(algo.x_final, want["x_new"], "x_final", **tols)
    obs.outcome(case["config"], pattern)
    del shape


def adversarial(case, obs):
    start = STARTS[case["start"]]((2,), float)
    grads = [Adversary(case["grad"]) for _ in range(2)]
    proxes = [Adversary(case["prox"]) for _ in range(2)]
    lockstep(obs, case, start, grads[0], proxes[0], grads[1], proxes[1], case["plan"])
    got, want = proxes[0].calls, proxes[1].calls
    obs.check(len(got) == len(want), "{} distinct proximal steps instead of {}", len(got),
              len(want))
    for (x, f), (y, g) in zip(got, want):
        obs.close(x, y, "argument of the proximity operator")
        obs.close(f, g, "factor given to the proximity operator")


def concrete(case, obs):
    dtype = np.dtype(case["dtype"])
    shape = tuple(case["shape"])
    size = int(np.prod(shape))
    mat = matrix(size, size, seed=size, dtype=dtype, norm=case.get("curve", 1.0))
    scale = case.get("scale", 1.0)
    y = data(shape, 5, dtype).ravel() * scale

    def grad(x):
        return (mat.conj().T @ (mat @ x.ravel() - y)).reshape(shape).astype(dtype)

    linear = None
    if case["linear"]:
        linear = Linear(matrix(size, 2 * size, seed=1, dtype=dtype), (2 * size,), shape)
    prox = PROX[case["prox"]]
    if case["prox"] == "soft":
        prox = lambda x, f: _soft(x, 0.1 * f * scale)  # noqa: E731
    start = [s * scale for s in STARTS[case["start"]](shape, dtype)]
    start = [laid(s, case.get("memory", "plain")) for s in start]
    lockstep(obs, case, start, *environment(case, grad, prox), grad, prox, case["plan"], tol(dtype, scale), linear)


def run(ctx):
    depth = ctx.pick(4, 5)
    cases = [
        {"config": c, "start": s, "grad": g, "prox": p, "plan": [depth]}
        for p in words("i0ab", depth) for g in words("ian", depth)[:: ctx.pick(3, 1)]
        for c in ("default", "shrink", "step") for s in ("same", "apart")[: ctx.pick(1, 2)]
    ]
    cases += [
        {"config": c, "start": s, "grad": g, "prox": p, "plan": [3]}
        for p in words("i0ab", 3) for g in words("ia0n", ctx.pick(3, 4)) for c in ("shrink", "shrink-all")
        for s in ("apart", "zero")
    ]
    ctx.explore("all operators answering within the alphabet", cases, with_ties(steady(adversarial)))
    cases = [
        {"config": c, "start": s, "grad": g, "prox": p, "plan": plan}
        for p in words("i0a", 4) for g in words("ian", 3) for c in EDGES for s in ("same", "apart")
        for plan in ([4], [1, 3])
    ]
    ctx.explore("parameters at the edges", cases, with_ties(steady(adversarial)))
    cases = [
        {"config": c, "start": s, "grad": g, "prox": p, "plan": plan}
        for c in CONFIGS for s in STARTS for n in (3, 4, 5) for plan in compositions(n)
        for p in ("iabia", "bainh") for g in ("ianiah", "naahia")
    ]
    ctx.explore("all splits of a run into iterate calls", cases, with_ties(steady(adversarial)))
    shapes = [(1,), (3,), (2, 3), (4, 4), (2, 1, 3), (17,)]
    cases = list(product_dicts(
        config=list(CONFIGS), start=list(STARTS), shape=shapes, dtype=["float64", "complex128"],
        prox=["soft", "shrink", "id"], plan=[ctx.pick([60], [300]), [20, 15]], linear=[False]))
    cases += list(product_dicts(
        config=list(CONFIGS), start=["apart"], shape=shapes, dtype=["float64", "complex128"],
        prox=["soft"], plan=[[25]], linear=[True]))
    cases += list(product_dicts(
        config=["default", "step"], start=["same"], shape=shapes, dtype=["float32"],
        prox=["shrink"], plan=[[6]], linear=[False]))
    ctx.explore("long runs on quadratic problems", cases, with_ties(steady(concrete)))
    cases = list(product_dicts(
        config=list(CONFIGS), start=["same", "apart"], shape=[(3,), (2, 3)],
        dtype=["float64", "complex128"], prox=["soft", "shrink"], plan=[[30], [7, 9]],
        linear=[False], scale=[1e-9, 1e-4, 1e4, 1e9]))
    ctx.explore("data of every magnitude", cases, with_ties(steady(concrete)))
    cases = list(product_dicts(
        config=list(CONFIGS), start=["same"], shape=[(3,)], dtype=["float64"], prox=["id", "shrink"],
        plan=[[ctx.pick(1000, 5000)]], linear=[False]))
    cases += list(product_dicts(
        config=["default", "step", "shrink"], start=["same", "apart"], shape=[(3,)], dtype=["float64"],
        prox=["id"], plan=[[ctx.pick(1000, 5000)], [300, 300]], linear=[False], curve=[1e-3, 1e-5]))
    ctx.explore("very long runs", cases, with_ties(steady(concrete)))
    cases = list(product_dicts(
        config=list(CONFIGS), start=list(STARTS), shape=[(3,), (2, 3), (2, 1, 3)], dtype=["float64", "complex128"],
        prox=["soft", "id"], plan=[[12], [1, 4]], linear=[False], memory=list(LAYOUTS), reuse=[False, True]))
    ctx.explore("memory layouts, operators with one array each", cases, with_ties(steady(concrete)))
    ctx.assumptions += ["where a restart test is a tie up to rounding, both outcomes are accepted"]
