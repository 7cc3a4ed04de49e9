"""C05: the gradient descent family follows its documented updates."""

import itertools

import numpy as np

from modopt.opt.algorithms import (
    ADAMGradOpt, AdaGenericGradOpt, MomentumGradOpt, RMSpropGradOpt, SAGAOptGradOpt,
    VanillaGenericGradOpt)

from ..common import LAYOUTS, Adversary, Grad, Prox, Recorder, data, environment, laid, matrix, steady, tol, words
from ..refs import descent
from .c01 import _soft, compositions

CLASSES = {
    "vanilla": VanillaGenericGradOpt,
    "ada": AdaGenericGradOpt,
    "rmsprop": RMSpropGradOpt,
    "momentum": MomentumGradOpt,
    "adam": ADAMGradOpt,
    "saga": SAGAOptGradOpt,
}
UPDATES = {
    None: None,
    "decay": lambda eta, idx: eta / (1.0 + 0.5 * idx),
    "geom": lambda eta, idx: eta * 0.9,
    "zero": lambda eta, idx: 0.0 if idx % 3 == 1 else 0.5,
    "negative": lambda eta, idx: -0.75 * eta,
    "freeze": lambda eta, idx: 0.0,
}
PARAMS = {
    "vanilla": [{}],
    "ada": [{}],
    "rmsprop": [{"gamma": 0.5}, {"gamma": 0.9}, {"gamma": 1.0}, {"gamma": 0.0}],
    "momentum": [{"beta": 0.9}, {"beta": 0.4}],
    "adam": [{"gamma": 0.9, "beta": 0.9}, {"gamma": 0.5, "beta": 0.25}, {"gamma": 0.0, "beta": 0.8}],
    "saga": [{}],
}
EDGES = {
    "rmsprop": [{"gamma": 0.0}, {"gamma": 1.0}, {"gamma": 1e-6}, {"gamma": 0.999999}],
    "momentum": [{"beta": 0.0}, {"beta": -0.5}, {"beta": 1.0}, {"beta": 1.5}],
    "adam": [{"gamma": 0.0, "beta": 0.0}, {"gamma": 0.999, "beta": 0.999}, {"gamma": 1e-6, "beta": 0.5},
             {"gamma": 0.5, "beta": 1e-6}],
}
DEFAULTS = {"rmsprop": {"gamma": 0.5}, "momentum": {"beta": 0.9},
            "adam": {"gamma": 0.9, "beta": 0.9}}


def lockstep(obs, case, x0, grad_a, prox_a, grad_r, prox_r, plan, tols=None):
    tols = tols or {"rtol": 1e-7, "atol": 1e-9}
    kind = case["kind"]
    rec = Recorder("x_new", "dir_grad", "speed_grad", "idx")
    params = dict(case["params"])
    kwargs = dict(eta=case["eta"], eta_update=UPDATES[case["update"]], epoch_size=case["epoch"])
    if case["eps"] is not None:
        kwargs["epsilon"] = case["eps"]
    algo = CLASSES[kind](x0.copy(), Grad(grad_a), Prox(prox_a), None, metric_call_period=1,
                         metrics=rec.metrics(), progress=False, **kwargs, **params)

    def reference(shake):
        return descent(kind, x0, shake(grad_r), shake(prox_r), **kwargs, **{**DEFAULTS.get(kind, {}), **params})

    def rows(shake, _):
        again, out = reference(shake), []
        for count in plan:
            out += [next(again) if not out else again.send("restart" if k == 0 else None) for k in range(count)]
        return out

    ref = reference(lambda fn: fn)
    obs.twin = (rows, sum(plan), tols)
    done, pattern, fresh = 0, "", True
    for count in plan:
        algo.iterate(max_iter=count)
        for k in range(count):
            want = next(ref) if fresh else ref.send("restart" if k == 0 else None)
            fresh = False
            obs.check(len(rec.rows) > done, "iteration {} did not take place", done)
            row = rec.rows[done]
            obs.close(row["x_new"], want["x_new"], f"x_new of iteration {done}", **tols)
            if kind != "momentum":
                obs.close(row["dir_grad"], want["dir_grad"], f"direction of iteration {done}", **tols)
            obs.close(np.broadcast_to(row["speed_grad"], x0.shape), want["speed_grad"],
                      f"speed of iteration {done}", **tols)
            obs.check(row["idx"] == k, "iteration index {} instead of {}", row["idx"], k)
            pattern += "P" if want["prox_in"] is not None else "-"
            obs.state(kind, case["epoch"], done, want["x_new"], want["dir_grad"])
            done += 1
        obs.check(len(rec.rows) == done, "{} iterations instead of {}", len(rec.rows), done)
        obs.close(algo.x_final, want["x_new"], "x_final", **tols)
    obs.outcome(kind, pattern)


class Asked:
    """The step may be given as a scalar or as an array."""

    def __init__(self, adv):
        self.adv = adv

    def __call__(self, x, f):
        return self.adv(x, np.broadcast_to(f, x.shape).copy())

    def again(self):
        return Asked(self.adv.again())


def adversarial(case, obs):
    x0 = np.array([1.0, -2.0])
    grads = [Adversary(case["grad"]) for _ in range(2)]
    proxes = [Adversary(case["prox"]) for _ in range(2)]

    lockstep(obs, case, x0, grads[0], Asked(proxes[0]), grads[1], Asked(proxes[1]), case["plan"])
    for what, (got, want) in {"gradient": grads, "proximity": proxes}.items():
        obs.check(len(got.calls) == len(want.calls), "{} distinct calls of the {} operator "
                  "instead of {}", len(got.calls), what, len(want.calls))
        for (x, f), (y, g) in zip(got.calls, want.calls):
            obs.close(x, y, f"argument of the {what} operator")
            if g is not None:
                obs.close(f, g, f"factor given to the {what} operator")


PROX = {
    "id": lambda x, f: x,
    "soft": lambda x, f: _soft(x, 0.05 * f),
    "shrink": lambda x, f: x / (1 + 0.3 * f),
}


def concrete(case, obs):
    dtype = np.dtype(case["dtype"])
    shape = tuple(case["shape"])
    size = int(np.prod(shape))
    mat = matrix(size, size, seed=size, dtype=dtype, norm=1.0)
    scale = case.get("scale", 1.0)
    y = data(shape, 5, dtype).ravel() * scale
    x0 = (data(shape, 2, dtype) * scale).real if case.get("start") else data(shape, 2, dtype) * scale
    if case.get("start"):
        x0 = np.round(4 * x0).astype(case["start"])

    def grad(x):
        return (mat.conj().T @ (mat @ x.ravel() - y)).reshape(shape).astype(dtype)

    prox = PROX[case["prox"]]
    if case["prox"] == "soft":
        prox = lambda x, f: _soft(x, 0.05 * f * scale)  # noqa: E731
    x0 = laid(x0, case.get("memory", "plain"))
    lockstep(obs, case, x0, *environment(case, grad, prox), grad, prox, case["plan"], tol(dtype, scale))


def run(ctx):
    depth = ctx.pick(4, 5)
    cases = [
        dict(kind=k, params=p, eta=1.0, update=u, epoch=e, eps=eps, grad=g, prox=x, plan=[depth])
        for k in CLASSES for p in PARAMS[k] for e in (1, 2, 3) for u in ("decay",)
        for eps in (0.5,) for g in words("ia0n" if ctx.thorough else "ia0", depth)
        for x in words("ib0" if ctx.thorough else "ib", 3)
    ]
    ctx.explore("all operators answering within the alphabet", cases, steady(adversarial))
    cases = [
        dict(kind=k, params={}, eta=0.5, update=u, epoch=e, eps=eps, grad=g, prox=x, plan=plan)
        for k in CLASSES for e in (1, 2, 3, 4) for u in UPDATES for eps in (None, 0.25)
        for n in (2, 3, 4, 5) for plan in compositions(n) for g in ("ianah", "baian")
        for x in ("hibab",)
    ]
    ctx.explore("all splits of a run into iterate calls", cases, steady(adversarial))
    cases = [
        dict(kind=k, params=p, eta=eta, update=u, epoch=e, eps=eps, grad=g, prox=x, plan=plan)
        for k in CLASSES for p in EDGES.get(k, [{}]) for eta in (0.0, -0.5, 1e-5, 1e5) for u in (None, "zero", "negative")
        for eps in (1e-9, 0.5, 1e6) for e in (1, 2, 1000) for g in words("ia", 3) for x in ("ib0",) for plan in ([4], [1, 2])
    ]
    cases += [
        dict(kind=k, params=p, eta=0.5, update="geom", epoch=e, eps=0.5, grad=g, prox="ib0", plan=plan)
        for k in CLASSES for p in EDGES.get(k, [{}]) for e in (9, 10, 17, 33) for g in words("ia0", 3)
        for plan in ([40], [12, 20, 7])
    ]
    ctx.explore("parameters at the edges", cases, steady(adversarial))
    shapes = [(1,), (3,), (2, 3), (2, 1, 3), (9,)]
    cases = [
        dict(kind=k, params=p, eta=eta, update=u, epoch=e, eps=eps, shape=s, dtype=d, prox=x,
             plan=plan)
        for k in CLASSES for p in PARAMS[k] for eta in (0.5,) for u in (None, "decay", "geom")
        for e in (1, 2, 5, 7) for eps in (None, 1.0)
        for s in shapes for d in ("float64", "complex128") for x in ("id", "soft", "shrink")
        for plan in ([ctx.pick(40, 200)], [13, 9]) if not (k in ("vanilla", "momentum") and eps)
        and not (k == "saga" and eps is None)
    ]
    ctx.explore("long runs on quadratic problems", cases, steady(concrete))
    cases = [
        dict(kind=k, params=PARAMS[k][0], eta=0.5, update=None, epoch=e, eps=1.0, shape=s,
             dtype="float32", prox="shrink", plan=[12])
        for k in CLASSES for e in (1, 3) for s in shapes
    ]
    ctx.explore("single precision", cases, steady(concrete))
    cases = [
        dict(kind=k, params=PARAMS[k][0], eta=0.5, update=u, epoch=e, eps=eps, shape=s, dtype=d,
             prox=x, plan=plan, scale=scale)
        for k in CLASSES for u in (None, "decay", "geom") for e in (1, 3) for eps in (None, 1.0, 1e-12) for s in [(3,), (2, 3)]
        for d in ("float64", "complex128") for x in ("soft", "shrink") for plan in ([25], [5, 8])
        for scale in (1e-6, 1e-3, 1e3, 1e6)
        if not (k in ("vanilla", "momentum") and eps) and not (k == "saga" and eps is None)
    ]
    ctx.explore("data of every magnitude", cases, steady(concrete))
    cases = [
        dict(kind=k, params=p, eta=0.5, update=None, epoch=e, eps=1.0, shape=(3,), dtype="float64",
             prox="shrink", plan=[ctx.pick(1000, 5000)])
        for k in CLASSES for p in PARAMS[k] for e in (1, 4, 40)
    ]
    ctx.explore("very long runs", cases, steady(concrete))
    cases = [
        dict(kind=k, params=p, eta=0.5, update=u, epoch=e, eps=1.0, shape=s, dtype=d, start=st, prox=x, plan=plan)
        for k in CLASSES for p in PARAMS[k] for u in (None, "decay") for e in (1, 2, 5) for s in ((3,), (2, 3))
        for d in ("float64", "complex128") for st in ("int64", "int32", "float32", "float64") for x in ("id", "shrink")
        for plan in ([12], [3, 4]) if d != st
    ]
    ctx.explore("starting arrays of another type than the gradient", cases, steady(concrete))
    cases = [
        dict(kind=k, params=p, eta=0.5, update=None, epoch=e, eps=1.0, shape=s, dtype=d, prox=x, plan=plan, memory=m, reuse=r)
        for k in CLASSES for p in PARAMS[k] for e in (1, 3) for s in ((3,), (2, 3), (2, 1, 3))
        for d in ("float64", "complex128") for x in ("id", "soft") for plan in ([12], [1, 4])
        for m in LAYOUTS for r in (False, True)
    ]
    ctx.explore("memory layouts, operators with one array each", cases, steady(concrete))
