"""C30: reweighting: the weights follow the published rule and take effect."""

import itertools

import numpy as np

from modopt.opt.algorithms import Condat
from modopt.opt.linear import Identity
from modopt.opt.proximity import IdentityProx, Positivity, SparseThreshold
from modopt.opt.reweight import cwbReweight

from .. import refs
from ..common import MAGNITUDES, Grad, Linear, data, matrix, narrow, scaled, typed
from ..core import Pruned


def rule(w, w0, x, n):
    return w / (1.0 + np.abs(x) / (n * w0))


def history(case, obs):
    """Sequences of inputs, refused ones included, against the rule."""
    shape = tuple(case["shape"])
    w0 = np.array(case["w"], dtype=case["dtype"]).reshape(shape)
    given = w0.copy()
    kw = {} if case["n"] is None else {"thresh_factor": np.array(case["n"]) if case.get("wrap") else case["n"]}
    rw = cwbReweight(given, **kw, **({"verbose": True} if case["verbose"] else {}))
    n = 1.0 if case["n"] is None else np.asarray(case["n"], float)
    want = w0.astype(float)
    start = want.copy()
    rt = 1e-5 if case["dtype"] == "float32" else 1e-9
    obs.close(rw.weights, want, "initial weights", rtol=rt)
    view = rw.weights
    for num, item in enumerate(case["inputs"]):
        if isinstance(item, str):
            wrong = [s + 1 for s in shape] if num % 2 else [*shape, 1]
            obs.raises(ValueError, lambda: rw.reweight(np.ones(wrong)), "input of another shape")
        else:
            x = np.array(item, dtype=case["xtype"]).reshape(shape)
            if case["layout"] == "fortran":
                x = np.asfortranarray(x)
            elif case["layout"] == "readonly":
                x.flags.writeable = False
            keep = x.copy()
            out = rw.reweight(x)
            obs.check(out is None or np.shape(out) == shape, "returned {}", out)
            obs.exact(x, keep, "input data")
            want = rule(want, start, x.astype(want.dtype) if case["xtype"] != "complex128" else x, n)
        obs.close(rw.weights, want, f"weights after {num + 1} inputs", rtol=rt, atol=1e-7)
        obs.check(np.shape(rw.weights) == shape, "weights of shape {}", np.shape(rw.weights))
        obs.state(want)
    # whoever was given the weights sees the new ones
    obs.close(view, want, "weights seen through an earlier reference", rtol=rt, atol=1e-7)
    obs.outcome(want)


def refused(case, obs):
    """Data of every other shape are refused and leave no trace."""
    shape, other = tuple(case["shape"]), tuple(case["other"])
    w0 = np.abs(data(shape, 3)) + 0.5
    rw = cwbReweight(w0.copy(), thresh_factor=1.5, verbose=case["verbose"])
    want = w0
    for k in range(case["before"]):
        x = data(shape, k)
        rw.reweight(x)
        want = rule(want, w0, x, 1.5)
    obs.raises(ValueError, lambda: rw.reweight(data(other, 4)), f"input of shape {other}")
    obs.close(rw.weights, want, "weights after refused input")
    x = data(shape, 7)
    rw.reweight(x)
    obs.close(rw.weights, rule(want, w0, x, 1.5), "weights after another input")
    obs.state(shape, other, rw.weights)


def pair(case, obs):
    """Two reweighters do not influence each other."""
    shape = (2,)
    ws = [np.array([1.0, 2.0]), np.array([0.5, 3.0])]
    want = [w.copy() for w in ws]
    rws = [cwbReweight(w.copy(), thresh_factor=f) for w, f in zip(ws, (1.0, 2.0))]
    for who, x in case["word"]:
        x = np.array(x, float)
        rws[who].reweight(x)
        want[who] = rule(want[who], ws[who], x, (1.0, 2.0)[who])
        for k in (0, 1):
            obs.close(rws[k].weights, want[k], f"weights of number {k} after {case['word']}")
        obs.state(want)


def condat(case, obs):
    """A reweighted run is a chain of runs with the weights of the rule."""
    shape, dtype = tuple(case["shape"]), case["dtype"]
    size = int(np.prod(shape))
    mat = matrix(size, size, seed=1, dtype=dtype, norm=1.0)
    target = data(shape, 5, dtype).ravel()
    lin = Identity() if case["linear"] == "identity" else Linear(matrix(size, size, seed=7, dtype=dtype, norm=1.0), shape, shape)
    grad = Grad(lambda x: (mat.conj().T @ (mat @ np.ravel(x) - target)).reshape(shape))
    w0 = np.abs(data(shape, 3)) * 0.3 + 0.05
    rw = cwbReweight(w0.copy(), thresh_factor=case["n"])
    dual = SparseThreshold(Identity(), rw.weights, thresh_type=case["type"])
    prox = Positivity() if case["prox"] == "positive" else IdentityProx()
    x0, y0 = data(shape, 2, dtype), 0 * data(shape, 2, dtype)
    alg = Condat(x0, y0, grad, prox, dual, linear=lin, cost=None, reweight=rw, rho=0.8, sigma=0.5, tau=0.4,
                 auto_iterate=False, progress=False)
    rounds = case["rounds"]
    if rounds is None:
        alg.iterate(max_iter=case["budget"])
    else:
        alg.iterate(max_iter=case["budget"], n_rewightings=rounds)
    w = [w0.copy()]

    def soft(z, f):
        t = w[0] * f
        mag = np.abs(z)
        if np.any(np.abs(mag - t) < 1e-9):
            raise Pruned()
        if case["type"] == "hard":
            return z * (mag >= t)
        return z * np.where(mag > 0, np.maximum(1 - t / np.where(mag > 0, mag, 1), 0), 0)

    primal = (lambda z: np.maximum(z.real, 0)) if case["prox"] == "positive" else (lambda z: z)
    ref = refs.condat(x0, y0, grad.grad_fn if hasattr(grad, "grad_fn") else (
        lambda x: (mat.conj().T @ (mat @ np.ravel(x) - target)).reshape(shape)), primal, soft, lin.op, lin.adj_op,
        rho=0.8, sigma=0.5, tau=0.4)
    for k in range((1 if rounds is None else rounds) + 1):
        if k:
            w[0] = rule(w[0], w0, lin.op(state["x_new"]), case["n"])
        for _ in range(case["budget"]):
            state = next(ref)
            obs.state(state["x_new"])
            obs.step()
    obs.close(rw.weights, w[0], "weights after the run", rtol=1e-6, atol=1e-9)
    obs.close(alg.x_final, state["x_new"], "primal variable after the run", rtol=1e-6, atol=1e-8)
    obs.close(alg.y_final, state["y_new"], "dual variable after the run", rtol=1e-6, atol=1e-8)
    obs.outcome(case["type"], rounds, case["budget"])


def _weights(where, verbose):
    def make(s):
        w, x, n = np.abs(data((2, 3), 1)) + 0.5, [data((2, 3), 3 + k) for k in range(3)], 1.5
        if where == "both":
            w, x = w * s, [v * s for v in x]
        elif where == "input":
            x, n = [v * s for v in x], n * s
        else:
            w, n = w * s, n / s
        rw = cwbReweight(w, thresh_factor=n, verbose=verbose)
        for v in x:
            rw.reweight(v)
            yield "weights", rw.weights.copy(), 0 if where == "input" else 1
    return make


SCALED = {f"{w} {v}": _weights(w, v) for w in ("both", "input", "weights") for v in (False, True)}


def _typed_weights(x, y):
    rw = cwbReweight(np.abs(y.astype(float)) + 1)
    for v in (x, y, x):
        rw.reweight(v)
        yield "weights", rw.weights.copy()
    rw = cwbReweight((y != 0) + 1)
    rw.reweight(x)
    yield "weights", rw.weights.copy()


TYPED = {"weights": _typed_weights}


def run(ctx):
    vals = [0.0, -1.0, 3.0]
    base = dict(verbose=False, layout="plain", dtype="float64", xtype="float64")
    one = [[v] for v in vals] + ["bad"]
    two = [list(p) for p in itertools.product(vals, repeat=2)] + ["bad"]
    cases = [dict(base, shape=(1,), w=[w], n=n, inputs=list(i)) for w in (1.0, 0.25) for n in (None, 2.0, 0.5)
             for k in range(1, ctx.pick(5, 7)) for i in itertools.product(one, repeat=k)]
    cases += [dict(base, shape=(2,), w=w, n=n, inputs=list(i)) for w in ([1.0, 2.0], [0.5, 0.5]) for n in (None, 3.0)
              for k in range(1, ctx.pick(4, 5)) for i in itertools.product(two, repeat=k)]
    # one factor for each weight, and factors that are whole numbers
    cases += [dict(base, shape=(2,), w=w, n=n, inputs=list(i), wrap=wrap) for w in ([1.0, 2.0], [0.5, 0.5])
              for n, wraps in (([1.0, 3.0], (False, True)), ([2, 5], (False, True)), ([0.25], (False, True)), (2, (False,)))
              for wrap in wraps for k in range(1, 4) for i in itertools.product(two[::2] + ["bad"], repeat=k)]
    ctx.explore("all histories of inputs", cases, history)
    cases = []
    for s in ((1,), (3,), (2, 3), (2, 1, 3), (1, 1), (40,), (1025,)):
        size = int(np.prod(s))
        for d in ("float64", "float32", "int64"):
            for xt in ("float64", "float32", "int64", "complex128"):
                for lay in ("plain", "fortran", "readonly"):
                    for v in (False, True):
                        ins = [data((size,), k, xt) for k in range(5)] + [np.zeros(size)] * 2
                        cases.append(dict(base, shape=s, w=[1 + k % 4 for k in range(size)], n=1.5, dtype=d, xtype=xt, layout=lay,
                                          verbose=v, inputs=ins))
    ctx.explore("shapes and types", cases, history)
    every = [(1,), (4,), (6,), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (1, 6), (1, 1), (1, 2, 3),
             (2, 3, 1), (2, 1, 2), (1, 1, 1), (5,), (0,)]
    cases = [dict(shape=a, other=b, verbose=v, before=k) for a in every for b in every
             if a != b and 0 not in a for v in (False, True) for k in (0, 1, 2)]
    ctx.explore("data of another shape", cases, refused)
    letters = [(k, list(x)) for k in (0, 1) for x in itertools.product([0.0, 2.0], repeat=2)]
    cases = [dict(word=list(w)) for n in (1, 2, 3) for w in itertools.product(letters, repeat=n)]
    ctx.explore("two reweighters", cases, pair)
    cases = [dict(shape=s, dtype=d, linear=li, prox=p, type=t, rounds=r, budget=b, n=n)
             for s in ((1,), (3,), (2, 2)) for d in ("float64", "complex128") for li in ("identity", "matrix")
             for p in ("positive", "none") for t in ("soft", "hard") for r in (None, 0, 1, 2, 4)
             for b in (1, 2, 5, ctx.pick(15, 40)) for n in (1.0, 2.0) if not (d == "complex128" and p == "positive")]
    ctx.explore("reweighted primal-dual runs", cases, condat)
    ctx.assumptions += ["executions in which a value meets its threshold up to rounding are left out"]
    ctx.explore("every magnitude", [dict(what=w, scale=s) for w in SCALED for s in MAGNITUDES], scaled(SCALED))
    ctx.explore("narrow types", narrow(TYPED), typed(TYPED))
