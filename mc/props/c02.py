"""C02: generalised forward-backward iterates follow Raguet et al."""

import itertools

import numpy as np

from modopt.opt.algorithms import GenForwardBackward

from ..common import LAYOUTS, Adversary, Grad, Linear, Prox, Recorder, data, environment, laid, matrix, steady, tol, words
from ..core import product_dicts
from ..refs import gen_forward_backward
from .c01 import PROX, SCALE, _soft, compositions

CONFIGS = {
    "default": {},
    "gamma": {"gamma_param": 0.5},
    "relaxed": {"gamma_param": 0.5, "lambda_param": 0.7},
    "updates": {"gamma_param": 0.8, "gamma_update": "x0.9", "lambda_param": 1.4,
                "lambda_update": "x0.8"},
    "gamma-seq": {"gamma_param": 0.8, "gamma_update": "x0.8"},
    "lambda-seq": {"gamma_param": 0.3, "lambda_update": "x0.9"},
    "step": {"gamma_param": 0.9, "step_size": 0.25},
}
EDGES = {
    "lambda-turn": {"gamma_param": 0.5, "lambda_update": "turn"},
    "gamma-turn": {"gamma_param": 0.5, "gamma_update": "turn"},
    "both-turn": {"gamma_param": 0.5, "gamma_update": "turn", "lambda_update": "turn"},
    "grow": {"gamma_param": 0.1, "gamma_update": "grow", "lambda_update": "grow"},
    "lambda-zero": {"lambda_param": 0.0},
    "lambda-negative": {"lambda_param": -0.4, "gamma_param": 0.3},
    "gamma-tiny": {"gamma_param": 1e-5},
    "gamma-huge": {"gamma_param": 1e4},
    "step-int": {"step_size": 2},
    "step-negative": {"step_size": -0.5, "gamma_param": 0.3},
    "step-seq": {"step_size": 0.4, "gamma_update": "x0.8"},
    "step-both": {"step_size": 0.4, "gamma_param": 0.9, "gamma_update": "x0.8",
                  "lambda_update": "x0.9", "lambda_param": 1.3},
}
WEIGHTS = {
    1: [None, [1.0]],
    2: [None, [0.5, 0.5], [0.25, 0.75], (0.9, 0.1)],
    3: [None, [0.2, 0.3, 0.5], [0.7, 0.2, 0.1]],
    4: [None, [0.1, 0.2, 0.3, 0.4]],
    6: [None],
    7: [None],
}


def lockstep(obs, case, x0, grad_a, prox_a, grad_r, prox_r, plan, tols=None, linear=None):
    tols = tols or {}
    rec = Recorder("x_new", "z_new", "idx")
    cfg = {k: SCALE[v] if isinstance(v, str) else v
           for k, v in {**CONFIGS, **EDGES}[case["config"]].items()}
    number = len(prox_a)
    weights = case["weights"]
    # operators that are the same function may be one and the same object, or equal objects
    made = {}
    operators = [made.setdefault(p, Prox(p)) if case.get("shared") else Prox(p) for p in prox_a]
    algo = GenForwardBackward(
        x0.copy(), grad=Grad(grad_a), prox_list=operators, cost=None,
        weights=weights, auto_iterate=False, metric_call_period=1, metrics=rec.metrics(),
        progress=False, linear=linear or Linear(np.eye(x0.size), x0.shape, x0.shape), **cfg)

    def reference(shake):
        return gen_forward_backward(
            x0, shake(grad_r), [shake(p) for p in prox_r], weights or [1.0 / number] * number,
            gamma=cfg.get("step_size", cfg.get("gamma_param", 1.0)), lam=cfg.get("lambda_param", 1.0),
            gamma_update=cfg.get("gamma_update"), lambda_update=cfg.get("lambda_update"))

    ref = reference(lambda fn: fn)
    obs.twin = (lambda shake, n: list(itertools.islice(reference(shake), n)), sum(plan), tols)
    done, inputs = 0, []
    for count in plan:
        algo.iterate(max_iter=count)
        for k in range(count):
            want = next(ref)
            obs.check(len(rec.rows) > done, "iteration {} did not take place", done)
            row = rec.rows[done]
            x_want = linear.adj_op(want["x_new"]) if linear else want["x_new"]
            obs.close(row["x_new"], x_want, f"x_new of iteration {done}", **tols)
            obs.close(row["z_new"], want["z_new"], f"z_new of iteration {done}", **tols)
            obs.check(row["idx"] == k, "iteration index {} instead of {}", row["idx"], k)
            inputs.append(want["prox_in"])
            obs.state(case["config"], number, case["weights"], done, want["x_new"], want["z_new"])
            done += 1
        obs.check(len(rec.rows) == done, "{} iterations instead of {}", len(rec.rows), done)
        obs.close(algo.x_final, want["x_new"], "x_final", **tols)
    obs.outcome(case["config"], want["x_new"])
    return inputs


def adversarial(case, obs):
    x0 = np.array(case["x0"])
    grad_a, grad_r = Adversary(case["grad"]), Adversary(case["grad"])
    prox_a = [Adversary(w) for w in case["prox"]]
    prox_r = [Adversary(w) for w in case["prox"]]
    lockstep(obs, case, x0, grad_a, prox_a, grad_r, prox_r, case["plan"])
    for got, want in zip(prox_a, prox_r):
        obs.check(len(got.calls) == len(want.calls), "{} distinct proximal steps instead of {}",
                  len(got.calls), len(want.calls))
        for (x, f), (y, g) in zip(got.calls, want.calls):
            obs.close(x, y, "argument of a proximity operator")
            obs.close(f, g, "factor given to a proximity operator")


def concrete(case, obs):
    dtype = np.dtype(case["dtype"])
    shape = tuple(case["shape"])
    size = int(np.prod(shape))
    mat = matrix(size, size, seed=size, dtype=dtype, norm=1.0)
    scale = case.get("scale", 1.0)
    y = data(shape, 5, dtype).ravel() * scale

    def grad(x):
        return (mat.conj().T @ (mat @ x.ravel() - y)).reshape(shape).astype(dtype)

    names = (["soft", "shrink", "id", "soft", "shrink", "soft", "id"] * 2)[: case["number"]]

    def soft(x, f):
        return _soft(x, 0.1 * f * scale)

    prox = [PROX[n] if n != "soft" else soft for n in names]
    linear = None
    if case["linear"]:
        linear = Linear(matrix(size, 2 * size, seed=1, dtype=dtype), (2 * size,), shape)
    grad_a, *prox_a = environment(case, grad, *prox)
    x0 = laid(data(shape, 2, dtype) * scale, case.get("memory", "plain"))
    lockstep(obs, case, x0, grad_a, prox_a, grad, prox, case["plan"],
             tol(dtype, scale), linear)


def run(ctx):
    depth = 3
    cases = [
        {"config": c, "weights": w, "x0": [1.0, 2.0], "grad": g, "prox": [p, q], "plan": [depth]}
        for p in words("i0a", depth) for q in words("iab", depth)
        for g in words(ctx.pick("i", "ia"), depth)
        for c, w in (("default", None), ("updates", [0.25, 0.75]), ("relaxed", (0.9, 0.1)),
                     ("step", None), ("gamma-seq", [0.25, 0.75]), ("lambda-seq", None))
    ]
    cases += [
        {"config": c, "weights": [1.0], "x0": [1.0, 2.0, -3.0], "grad": g, "prox": [p],
         "plan": [4]}
        for p in words("i0ab", 4) for g in words("ia", 4) for c in CONFIGS
    ]
    cases += [
        {"config": c, "weights": w, "x0": [1.0, 2.0], "grad": "ia", "prox": [p, q], "plan": plan}
        for p in words("i0a", 3) for q in words("ib", 3) for c in EDGES
        for w in (None, [1e-6, 1 - 1e-6], [1.5, -0.5], [0.999, 0.001]) for plan in ([4], [1, 2])
    ]
    if ctx.thorough:
        cases += [
            {"config": c, "weights": [0.2, 0.3, 0.5], "x0": [1.0, 2.0], "grad": "ian",
             "prox": [p, q, r], "plan": [3]}
            for p in words("i0a", 3) for q in words("iab", 3) for r in words("nhb", 3)
            for c in ("default", "updates", "relaxed")
        ]
    ctx.explore("all operators answering within the alphabet", cases, steady(adversarial))
    cases = [
        {"config": c, "weights": w, "x0": [0.5, -1.0, 3.0], "grad": "iaian",
         "prox": ["iabia", "0aibb"], "plan": plan}
        for c in CONFIGS for n in (3, 4, 5) for plan in compositions(n)
        for w in WEIGHTS[2]
    ]
    ctx.explore("all splits of a run into iterate calls", cases, steady(adversarial))
    cases = []
    for number, weight_list in WEIGHTS.items():
        for weights in weight_list:
            cases += list(product_dicts(
                config=list(CONFIGS), shape=[(1,), (3,), (2, 3), (4, 4), (2, 1, 3), (17,)],
                dtype=["float64", "complex128", "float32"], number=[number], weights=[weights],
                plan=[ctx.pick([60], [300]), [20, 15]], linear=[False]))
            cases += list(product_dicts(
                config=["default", "updates"], shape=[(3,), (2, 3)],
                dtype=["float64", "complex128"], number=[number], weights=[weights],
                plan=[[20]], linear=[True]))
    ctx.explore("long runs on quadratic problems", cases, steady(concrete))
    cases = [dict(config=c, shape=(3,), dtype=d, number=n, weights=w, plan=p, linear=False,
                  shared=True)
             for c in CONFIGS for d in ("float64", "complex128") for n in WEIGHTS
             for w in WEIGHTS[n] for p in ([20], [5, 6])]
    ctx.explore("one operator several times in the list", cases, steady(concrete))
    cases = list(product_dicts(
        config=list(CONFIGS), shape=[(3,), (2, 3)], dtype=["float64", "complex128"],
        number=[2, 3], weights=[None], plan=[[30], [7, 9]], linear=[False],
        scale=[1e-9, 1e-4, 1e4, 1e9]))
    cases += list(product_dicts(
        config=list(CONFIGS), shape=[(3,)], dtype=["float64"], number=[9, 12],
        weights=[None], plan=[[12]], linear=[False]))
    ctx.explore("data of every magnitude", cases, steady(concrete))
    cases = list(product_dicts(
        config=list(CONFIGS), shape=[(3,)], dtype=["float64"], number=[2], weights=[None],
        plan=[[ctx.pick(1000, 5000)]], linear=[False]))
    ctx.explore("very long runs", cases, steady(concrete))
    cases = list(product_dicts(
        config=list(CONFIGS), shape=[(3,), (2, 3), (2, 1, 3)], dtype=["float64", "complex128"], number=[1, 2, 3],
        weights=[None], plan=[[12], [1, 4]], linear=[False], memory=list(LAYOUTS), reuse=[False, True]))
    ctx.explore("memory layouts, operators with one array each", cases, steady(concrete))
