"""C01: forward-backward / FISTA iterates follow the published recurrence."""

import itertools

import numpy as np

from modopt.opt.algorithms import ForwardBackward

from ..common import LAYOUTS, Adversary, Grad, Linear, Prox, Recorder, data, environment, laid, matrix, steady, tol, with_ties, words
from ..core import product_dicts
from ..refs import forward_backward

RESTART = {"xi_restart": 0.5}
CONFIGS = {
    "fista": {},
    "cd": {"a_cd": 3.0},
    "cd-large": {"a_cd": 20.0},
    "lazy": {"p_lazy": 0.5, "q_lazy": 0.3, "r_lazy": 3.5},
    "lazy-q": {"p_lazy": 0.25, "q_lazy": 2.0, "r_lazy": 4},
    "adaptive": {"restart_strategy": "adaptive", **RESTART},
    "adaptive-i": {"restart_strategy": "adaptive-i", **RESTART},
    "adaptive-1": {"restart_strategy": "adaptive-1", "xi_restart": 0.9, "p_lazy": 0.5},
    "adaptive-ii": {"restart_strategy": "adaptive-ii", **RESTART},
    "adaptive-2": {"restart_strategy": "adaptive-2", "xi_restart": 0.75, "q_lazy": 0.5},
    "greedy": {"restart_strategy": "greedy", "xi_restart": 0.5, "min_beta": 0.2, "s_greedy": 1.1},
    "greedy-floor": {"restart_strategy": "greedy", "xi_restart": 0.9, "min_beta": 0.45,
                     "s_greedy": 1.5},
    "plain": {"lambda_update": None},
    "relaxed": {"lambda_update": None, "lambda_param": 0.7},
    "lambda-seq": {"lambda_update": "x0.9", "lambda_param": 1.5},
    "beta-seq": {"lambda_update": None, "beta_update": "x0.8", "lambda_param": 1.2},
    "both-seq": {"lambda_update": "x0.9", "beta_update": "x0.8", "lambda_param": 1.3},
    "init-lambda": {"lambda_param": 0.5},
    "step-size": {"step_size": 0.3},
}
SCALE = {
    "x0.9": lambda v: v * 0.9,
    "x0.8": lambda v: v * 0.8,
    # through zero and negative values, and back
    "turn": lambda v: 0.0 if v > 0.25 else -0.75 if v == 0 else 1.25,
    "grow": lambda v: v * 40.0,
}
# values at the edges of what is allowed
EDGES = {
    "floor-above": {"restart_strategy": "greedy", "xi_restart": 0.5, "min_beta": 0.8, "s_greedy": 1.1},
    "floor-far": {"restart_strategy": "greedy", "xi_restart": 0.25, "min_beta": 20.0, "s_greedy": 1.0001},
    "floor-zero": {"restart_strategy": "greedy", "xi_restart": 0.5, "min_beta": 0.0, "s_greedy": 100.0},
    "greedy-xi": {"restart_strategy": "greedy", "xi_restart": 0.0, "min_beta": 0.01, "s_greedy": 2},
    "adaptive-xi": {"restart_strategy": "adaptive", "xi_restart": 0.0},
    "adaptive-far": {"restart_strategy": "adaptive-ii", "xi_restart": 1e-3, "p_lazy": 0.1, "q_lazy": 5.0},
    "adaptive-one": {"restart_strategy": "adaptive-i", "xi_restart": 0.999999},
    "cd-two": {"a_cd": 2.0001},
    "cd-int": {"a_cd": 3},
    "cd-huge": {"a_cd": 1000.0},
    "lazy-none": {"p_lazy": 1, "q_lazy": 0, "r_lazy": 0},
    "lazy-huge": {"p_lazy": 30.0, "q_lazy": 50.0, "r_lazy": 4.0},
    "lambda-turn": {"lambda_update": "turn", "lambda_param": 0.5},
    "beta-turn": {"lambda_update": None, "beta_update": "turn", "lambda_param": 1.2},
    "both-turn": {"lambda_update": "turn", "beta_update": "turn"},
    "beta-grow": {"lambda_update": None, "beta_update": "grow"},
    "lambda-grow": {"lambda_update": "grow"},
    "lambda-zero": {"lambda_update": None, "lambda_param": 0.0},
    "lambda-negative": {"lambda_update": "x0.9", "lambda_param": -0.5},
    "step-tiny": {"step_size": 1e-5},
    "step-huge": {"step_size": 1e4},
    "step-negative": {"step_size": -0.5},
    "step-int": {"step_size": 1},
    "step-seq": {"step_size": 0.3, "lambda_update": None, "beta_update": "x0.8"},
    "step-both": {"step_size": 0.7, "lambda_update": "x0.9", "beta_update": "x0.8",
                  "lambda_param": 1.3},
    "step-greedy": {"step_size": 0.3, "restart_strategy": "greedy", "xi_restart": 0.5,
                    "min_beta": 0.2, "s_greedy": 1.1},
    "step-fista": {"step_size": 0.3, "beta_update": "x0.8", "p_lazy": 0.5},
}


def build(config, beta):
    """Keyword arguments of the solver and of the reference."""
    cfg = dict(CONFIGS.get(config) or EDGES.get(config) or {})
    ours = {k: SCALE.get(v, v) if isinstance(v, str) and k.endswith("update") else v
            for k, v in cfg.items()}
    ref = dict(ours)
    ref["beta"] = ref.pop("step_size", beta)
    ref["lam"] = ref.pop("lambda_param", 1.0)
    return {"beta_param": beta, **ours}, ref


def lockstep(obs, case, x0, grad_a, prox_a, grad_r, prox_r, plan, beta=0.5, linear=None,
             tols=None, prox_calls=None):
    """Run ModOpt for ``plan`` (iterations per iterate call); compare each iteration."""
    tols = tols or {}
    rec = Recorder("x_new", "z_new", "idx")
    kwargs, ref_kwargs = build(case["config"], beta)
    algo = ForwardBackward(
        x0.copy(), grad=Grad(grad_a), prox=Prox(prox_a), cost=None, auto_iterate=False,
        metric_call_period=1, metrics=rec.metrics(), progress=False,
        linear=linear or Linear(np.eye(x0.size), x0.shape, x0.shape), **kwargs)
    ref = forward_backward(x0, grad_r, prox_r, **ref_kwargs)
    obs.twin = (lambda shake, n: list(itertools.islice(forward_backward(x0, shake(grad_r), shake(prox_r), **ref_kwargs), n)),
                sum(plan), tols)
    done, idx, pattern, inputs, start = 0, [], "", [], len(rec.rows)
    for count in plan:
        algo.iterate(max_iter=count)
        for k in range(count):
            want = next(ref)
            obs.check(len(rec.rows) > done, "iteration {} did not take place", done)
            row = rec.rows[done]
            x_want = linear.adj_op(want["x_new"]) if linear else want["x_new"]
            obs.close(row["x_new"], x_want, f"x_new of iteration {done}", **tols)
            obs.close(row["z_new"], want["z_new"], f"z_new of iteration {done}", **tols)
            obs.check(row["idx"] == k, "iteration index {} instead of {}", row["idx"], k)
            inputs.append((want["prox_in"], want["factor"]))
            pattern += "R" if want["restarted"] else "-"
            obs.state(case["config"], done, want["x_new"], want["z_new"])
            done += 1
        obs.check(len(rec.rows) == done, "{} iterations instead of {}", len(rec.rows), done)
        obs.close(algo.x_final, want["z_new"], "x_final", **tols)
    obs.outcome(case["config"], pattern)
    return inputs


def adversarial(case, obs):
    x0 = np.array(case["x0"])
    grad_a, prox_a = Adversary(case["grad"]), Adversary(case["prox"])
    grad_r, prox_r = Adversary(case["grad"]), Adversary(case["prox"])
    inputs = lockstep(obs, case, x0, grad_a, prox_a, grad_r, prox_r, case["plan"])
    # what the proximity operator was asked, and with which factor
    distinct = []
    for x, f in inputs:
        if not any(np.allclose(x, y, rtol=1e-7, atol=1e-9) and np.isclose(f, g, rtol=1e-7, atol=0)
                   for y, g in distinct):
            distinct.append((x, f))
    got = [(x, f) for x, f in prox_a.calls]
    obs.check(len(got) == len(distinct), "{} distinct proximal steps instead of {}", len(got),
              len(distinct))
    for (x, f), (y, g) in zip(got, distinct):
        obs.close(x, y, "argument of the proximity operator")
        obs.close(f, g, "factor given to the proximity operator")


PROX = {
    "soft": lambda x, f: _soft(x, 0.1 * f),
    "id": lambda x, f: x,
    "box": lambda x, f: np.clip(x.real, -0.6, 0.8) + 0 * x,
    "shrink": lambda x, f: x / (1 + 0.3 * f),
    "positive": lambda x, f: x * (x.real > 0),
}


def _soft(x, t):
    mag = np.abs(x)
    return np.where(mag > t, x * (1 - t / np.where(mag == 0, 1, mag)), 0 * x).astype(x.dtype)


def concrete(case, obs):
    dtype = np.dtype(case["dtype"])
    shape = tuple(case["shape"])
    size = int(np.prod(shape))
    mat = matrix(size, size, seed=size, dtype=dtype, norm=case.get("curve", 1.0))
    scale = case.get("scale", 1.0)
    y = data(shape, 5, dtype).ravel() * scale
    x0 = data(shape, 2, dtype) * scale

    def grad(x):
        return (mat.conj().T @ (mat @ x.ravel() - y)).reshape(shape).astype(dtype)

    prox = PROX[case["prox"]]
    if case["prox"] == "soft":
        prox = lambda x, f: _soft(x, 0.1 * f * scale)  # noqa: E731
    linear = None
    if case["linear"]:
        linear = Linear(matrix(size, 2 * size, seed=1, dtype=dtype), (2 * size,), shape)
    x0 = laid(x0, case.get("memory", "plain"))
    lockstep(obs, case, x0, *environment(case, grad, prox), grad, prox, case["plan"], beta=case["beta"],
             linear=linear, tols=tol(dtype, scale))


def run(ctx):
    depth = ctx.pick(4, 5)
    alphabet_p = "i0ab"
    alphabet_g = ctx.pick("ia", "ian")
    cases = [
        {"config": c, "x0": [1.0, 2.0], "grad": g, "prox": p, "plan": [depth]}
        for p in words(alphabet_p, depth)
        for g in words(alphabet_g, depth)
        for c in CONFIGS
    ]
    ctx.explore("all operators answering within the alphabet", cases, with_ties(steady(adversarial)))
    cases = [
        {"config": c, "x0": [1.0, 2.0], "grad": g, "prox": p, "plan": plan}
        for p in words(alphabet_p, 4) for g in words("ia", 3) for c in EDGES for plan in ([4], [1, 3])
    ]
    ctx.explore("parameters at the edges", cases, with_ties(steady(adversarial)))
    plans = [p for n in (3, 4, 5) for p in compositions(n)]
    cases = [
        {"config": c, "x0": [0.5, -1.0, 3.0], "grad": g, "prox": p, "plan": plan}
        for c in CONFIGS for plan in plans for p in ("iabia", "0aibb", "hnhan")
        for g in ("iaian", "nahia")
    ]
    ctx.explore("all splits of a run into iterate calls", cases, with_ties(steady(adversarial)))
    long = ctx.pick([70], [400])
    shapes = [(1,), (3,), (2, 3), (4, 4), (2, 1, 3), (17,)]
    cases = list(product_dicts(
        config=list(CONFIGS), shape=shapes, dtype=["float64", "complex128"],
        prox=["soft", "id", "shrink"] + ctx.pick([], ["box", "positive"]), beta=[0.5, 1.0],
        linear=[False], plan=[long, [30, 25]]))
    cases = [c for c in cases if not (c["dtype"] == "complex128" and c["prox"] in ("box", "positive"))]
    cases += list(product_dicts(
        config=["fista", "cd", "lazy", "plain", "relaxed", "lambda-seq", "beta-seq", "step-size"],
        shape=shapes, dtype=["float32"], prox=["soft", "shrink", "id"], beta=[0.5],
        linear=[False, True], plan=[[40]]))
    cases += list(product_dicts(
        config=["fista", "cd", "adaptive", "greedy", "relaxed"], shape=shapes, dtype=["float64", "complex128"],
        prox=["soft"], beta=[0.5], linear=[True], plan=[[40]]))
    ctx.explore("long runs on quadratic problems", cases, with_ties(steady(concrete)))
    cases = list(product_dicts(
        config=list(CONFIGS), shape=[(3,), (2, 3)], dtype=["float64", "complex128"],
        prox=["soft", "shrink"], beta=[0.5], linear=[False], plan=[[40], [7, 9]],
        scale=[1e-9, 1e-4, 1e4, 1e9]))
    ctx.explore("data of every magnitude", cases, with_ties(steady(concrete)))
    cases = list(product_dicts(
        config=list(CONFIGS), shape=[(3,)], dtype=["float64"], prox=["id", "shrink"], beta=[0.9],
        linear=[False], plan=[[ctx.pick(1000, 5000)]]))
    cases += [dict(c, curve=w) for c in cases for w in (1e-3, 1e-5)]
    ctx.explore("very long runs", cases, with_ties(steady(concrete)))
    cases = list(product_dicts(
        config=list(CONFIGS), shape=[(3,), (2, 3), (2, 1, 3)], dtype=["float64", "complex128"], prox=["soft", "id"],
        beta=[0.5], linear=[False], plan=[[12], [1, 4]], memory=list(LAYOUTS), reuse=[False, True]))
    ctx.explore("memory layouts, operators with one array each", cases, with_ties(steady(concrete)))
    ctx.assumptions += ["where a restart test is a tie up to rounding, both outcomes are accepted"]


def compositions(n):
    out = []
    for cuts in itertools.product([0, 1], repeat=n - 1):
        parts, cur = [], 1
        for c in cuts:
            if c:
                parts.append(cur)
                cur = 1
            else:
                cur += 1
        out.append(parts + [cur])
    return out
