"""C04: Condat primal-dual iterates follow algorithm 3.1."""

import itertools

import numpy as np

from modopt.opt.algorithms import Condat

from ..common import LAYOUTS, Adversary, Grad, Linear, Prox, Recorder, data, environment, laid, matrix, steady, tol, words
from ..core import product_dicts
from ..refs import condat
from .c01 import PROX, SCALE as UPDATES, _soft, compositions

SCALE = {**UPDATES, "x1.05": lambda v: v * 1.05, "sign": lambda v: -0.5 * v if v > 0 else -2.0 * v}
EDGES = {
    "rho-turn": {"rho_update": "turn"},
    "tau-turn": {"tau": 0.4, "tau_update": "turn"},
    "sigma-sign": {"sigma": 0.7, "sigma_update": "sign"},
    "all-turn": {"rho_update": "turn", "tau_update": "turn", "sigma_update": "sign"},
    "grow": {"rho": 0.1, "sigma": 0.1, "tau": 0.1, "rho_update": "grow", "sigma_update": "grow", "tau_update": "grow"},
    "rho-zero": {"rho": 0.0},
    "rho-negative": {"rho": -0.5, "tau": 0.3},
    "rho-two": {"rho": 2.0, "tau": 0.2},
    "sigma-tiny": {"sigma": 1e-6},
    "sigma-huge": {"sigma": 1e5},
    "tau-zero": {"tau": 0.0},
    "tau-tiny": {"tau": 1e-5, "rho": 1.0},
    "tau-huge": {"tau": 1e4},
    "step-int": {"step_size": 2},
    "step-seq": {"step_size": 0.4, "tau_update": "x0.8"},
    "step-all": {"step_size": 0.4, "rho": 0.8, "rho_update": "x0.9", "sigma_update": "x0.8",
                 "tau_update": "x1.05"},
}
CONFIGS = {
    "default": {},
    "plain": {"rho": 1.0, "sigma": 0.5, "tau": 0.4},
    "over": {"rho": 1.5, "sigma": 0.5, "tau": 0.4},
    "step": {"rho": 0.8, "sigma": 0.7, "tau": 0.9, "step_size": 0.3},
    "rho-seq": {"rho": 0.8, "sigma": 0.5, "tau": 0.4, "rho_update": "x0.9"},
    "sigma-seq": {"rho": 0.8, "sigma": 0.5, "tau": 0.4, "sigma_update": "x0.8"},
    "tau-seq": {"rho": 0.8, "sigma": 0.5, "tau": 0.4, "tau_update": "x0.9"},
    "all-seq": {"rho": 0.8, "sigma": 0.5, "tau": 0.4, "rho_update": "x0.9",
                "sigma_update": "x0.8", "tau_update": "x1.05"},
}


def lockstep(obs, case, x0, y0, env_a, env_r, linear, plan, tols=None):
    tols = tols or {}
    cfg = {k: SCALE[v] if isinstance(v, str) else v
           for k, v in {**CONFIGS, **EDGES}[case["config"]].items()}
    rec = Recorder("x_new", "y_new", "idx")
    grad_a, prox_a, dual_a = env_a
    algo = Condat(x0.copy(), y0.copy(), grad=Grad(grad_a),
                  prox=Prox(lambda x, f: prox_a(x)), prox_dual=Prox(dual_a), linear=linear,
                  cost=None, auto_iterate=False, metric_call_period=1, metrics=rec.metrics(),
                  progress=False, **cfg)
    ref_cfg = {k: v for k, v in cfg.items() if k != "step_size"}
    if "step_size" in cfg:
        ref_cfg["tau"] = cfg["step_size"]
    op = linear.op if linear is not None else (lambda v: v)
    adj = linear.adj_op if linear is not None else (lambda v: v)
    ref = condat(x0, y0, *env_r, op, adj, **ref_cfg)
    obs.twin = (lambda shake, n: list(itertools.islice(condat(x0, y0, *map(shake, env_r), op, adj, **ref_cfg), n)),
                sum(plan), tols)
    done = 0
    for count in plan:
        algo.iterate(max_iter=count)
        for k in range(count):
            want = next(ref)
            obs.check(len(rec.rows) > done, "iteration {} did not take place", done)
            row = rec.rows[done]
            obs.close(row["x_new"], want["x_new"], f"x_new of iteration {done}", **tols)
            obs.close(row["y_new"], want["y_new"], f"y_new of iteration {done}", **tols)
            obs.check(row["idx"] == k, "iteration index {} instead of {}", row["idx"], k)
            obs.state(case["config"], done, want["x_new"], want["y_new"])
            done += 1
        obs.check(len(rec.rows) == done, "{} iterations instead of {}", len(rec.rows), done)
        obs.close(algo.x_final, want["x_new"], "x_final", **tols)
        obs.close(algo.y_final, want["y_new"], "y_final", **tols)
    obs.outcome(case["config"], want["x_new"], want["y_new"])


def adversarial(case, obs):
    x0 = np.array([1.0, 2.0])
    linear = None if case["square"] else Linear(np.array([[1.0, 0.5], [-1.0, 2.0], [0.25, 1.0]]))
    y0 = np.array([0.5, -1.0]) if case["square"] else np.array([0.5, -1.0, 2.0])
    env = [[Adversary(case[k]) for k in ("grad", "prox", "dual")] for _ in range(2)]
    lockstep(obs, case, x0, y0, env[0], env[1], linear, case["plan"])
    for got, want, what in zip(env[0], env[1], ("gradient", "primal prox", "dual prox")):
        obs.check(len(got.calls) == len(want.calls), "{} distinct calls of the {} instead of {}",
                  len(got.calls), what, len(want.calls))
        for (x, f), (y, g) in zip(got.calls, want.calls):
            obs.close(x, y, f"argument of the {what}")
            if what == "dual prox":
                obs.close(f, g, f"factor given to the {what}")


def concrete(case, obs):
    dtype = np.dtype(case["dtype"])
    shape = tuple(case["shape"])
    size = int(np.prod(shape))
    mat = matrix(size, size, seed=size, dtype=dtype, norm=0.8)
    scale = case.get("scale", 1.0)
    y = data(shape, 5, dtype).ravel() * scale

    def grad(x):
        return (mat.conj().T @ (mat @ x.ravel() - y)).reshape(shape).astype(dtype)

    dual_shape = shape if case["linear"] is None else (case["linear"], size)
    linear = None
    if case["linear"] is not None:
        linear = Linear(matrix(case["linear"] * size, size, seed=2, dtype=dtype, norm=1.0),
                        shape, dual_shape)
    primal = {"id": lambda x: x, "positive": lambda x: x * (x.real > 0)}[case["primal"]]
    dual = PROX[case["dual"]]
    if case["dual"] == "soft":
        dual = lambda x, f: _soft(x, 0.1 * f * scale)  # noqa: E731
    env = (grad, primal, dual)
    x0, y0 = (laid(scale * data(s, k, dtype), case.get("memory", "plain")) for k, s in ((2, shape), (3, dual_shape)))
    lockstep(obs, case, x0, y0, environment(case, *env), env,
             linear, case["plan"], tol(dtype, scale))


def run(ctx):
    depth = 3
    cases = [
        {"config": c, "grad": g, "prox": p, "dual": d, "square": s, "plan": [depth]}
        for p in words("i0a", depth) for d in words("i0b", depth)
        for g in words(ctx.pick("i", "ia"), depth)
        for c in CONFIGS for s in (False, True)
    ]
    ctx.explore("all operators answering within the alphabet", cases, steady(adversarial))
    cases = [
        {"config": c, "grad": g, "prox": p, "dual": d, "square": s, "plan": plan}
        for p in words("ia", 3) for d in words("i0b", 3) for g in ("iii", "ian")
        for c in EDGES for s in (False, True) for plan in ([4], [1, 2])
    ]
    ctx.explore("parameters at the edges", cases, steady(adversarial))
    cases = [
        {"config": c, "grad": "iaian", "prox": p, "dual": d, "square": s, "plan": plan}
        for c in CONFIGS for n in (3, 4, 5) for plan in compositions(n)
        for p in ("iabia", "hinab") for d in ("0aibb", "ihhan") for s in (False, True)
    ]
    ctx.explore("all splits of a run into iterate calls", cases, steady(adversarial))
    cases = list(product_dicts(
        config=list(CONFIGS), shape=[(1,), (3,), (2, 3), (4, 4), (2, 1, 3), (17,)],
        dtype=["float64", "complex128", "float32"], primal=["id", "positive"],
        dual=["soft", "shrink", "id"], linear=[None, 1, 2], plan=[ctx.pick([60], [300]), [20, 15]]))
    cases = [c for c in cases if not (c["primal"] == "positive" and c["dtype"] != "float64")]
    ctx.explore("long runs on quadratic problems", cases, steady(concrete))
    cases = list(product_dicts(
        config=list(CONFIGS), shape=[(3,), (2, 3)], dtype=["float64", "complex128"], primal=["id"],
        dual=["soft", "shrink"], linear=[None, 1, 2], plan=[[30], [7, 9]],
        scale=[1e-9, 1e-4, 1e4, 1e9]))
    ctx.explore("data of every magnitude", cases, steady(concrete))
    cases = list(product_dicts(
        config=[c for c in CONFIGS if c != "all-seq"], shape=[(3,)], dtype=["float64"], primal=["id", "positive"], dual=["soft"],
        linear=[1], plan=[[ctx.pick(1000, 5000)]]))
    ctx.explore("very long runs", cases, steady(concrete))
    cases = list(product_dicts(
        config=list(CONFIGS), shape=[(3,), (2, 3), (2, 1, 3)], dtype=["float64", "complex128"], primal=["id"],
        dual=["soft", "id"], linear=[None, 1, 2], plan=[[12], [1, 4]], memory=list(LAYOUTS), reuse=[False, True]))
    ctx.explore("memory layouts, operators with one array each", cases, steady(concrete))
