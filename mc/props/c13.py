"""C13: OWL and k-support proximity operators are exact."""

import itertools

import numpy as np

from modopt.opt.proximity import KSupportNorm, OrderedWeightedL1Norm

from .. import proxhist
from ..common import call_words, calls, data, layout_cases, laid_out, narrow, typed


def owl(x, w):
    """Minimiser of 0.5|u-x|^2 + sum_i w_i |u|_(i) (min-max form of the isotonic fit)."""
    mag = np.abs(x)
    order = np.argsort(-mag, kind="stable")
    y = mag[order] - w
    n = len(y)
    total = np.concatenate([[0.0], np.cumsum(y)])
    lo, hi = np.arange(n)[:, None], np.arange(n)[None, :]
    means = np.where(hi >= lo, (total[1:][None, :] - total[:-1][:, None])
                     / np.maximum(hi - lo + 1, 1), np.inf)
    low = np.minimum.accumulate(means, axis=0)
    fit = np.max(np.where(hi >= lo, low, -np.inf), axis=1)
    out = np.empty(n)
    out[order] = np.maximum(fit, 0)
    return np.where(mag > 0, x / np.where(mag > 0, mag, 1), 0) * out


def owl_value(u, w):
    return np.sum(np.sort(np.abs(u))[::-1] * w)


def ksup(x, lam, k):
    """Minimiser of 0.5|u-x|^2 + lam/2 |u|_k^2."""
    mag = np.abs(x)
    if np.count_nonzero(mag) <= k:
        return x / (1 + lam)
    mag = mag / np.max(mag)  # theta does not depend on the scale

    def theta(a):
        return np.clip(a * mag - lam, 0, 1)

    lo, hi = 0.0, (lam + 1) / np.min(mag[mag > 0])
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if theta(mid).sum() < k:
            lo = mid
        else:
            hi = mid
    t = theta(hi)
    return x * t / (t + lam)


def ksup_value(u, k):
    """Squared k-support norm."""
    w = np.sort(np.abs(u))[::-1]
    best = None
    for q in range(k):
        tail = w[q:].sum() / (k - q)
        if tail >= w[q] - 1e-12 and (q == 0 or w[q - 1] >= tail - 1e-12):
            best = np.sum(w[:q] ** 2) + w[q:].sum() ** 2 / (k - q)
    return best


def compete(obs, x, got, value, what):
    """No neighbour (along any sign pattern) and no scaled point does better."""
    best = 0.5 * np.sum(np.abs(got - x) ** 2) + value(got)
    n = len(x)
    for h in (0.3, 0.02):
        for sign in itertools.product([-1, 0, 1], repeat=min(n, 4)):
            step = np.zeros(n)
            step[: len(sign)] = sign
            u = got + h * step
            cost = 0.5 * np.sum(np.abs(u - x) ** 2) + value(u)
            obs.check(best <= cost + 1e-9, "{}: {} is not the minimiser ({} does better)", what,
                      got.tolist(), u.tolist())
    for u in (0 * x, x, 0.5 * x):
        cost = 0.5 * np.sum(np.abs(u - x) ** 2) + value(u)
        obs.check(best <= cost + 1e-9, "{}: {} is not the minimiser", what, got.tolist())


def _x(case):
    x = np.array(case["x"], dtype=float) * case.get("scale", 1.0)
    if case.get("im"):
        x = x + 1j * np.array(case["im"]) * case.get("scale", 1.0)
    if case.get("int"):
        x = x.astype(int)
    return x


def owl_case(case, obs):
    scale = case.get("scale", 1.0)
    x, w = _x(case), np.array(case["w"]) * scale
    if case.get("wshape"):
        w = w.reshape(case["shape"])
    inst = OrderedWeightedL1Norm(w)
    w = w.ravel()
    before, w_before = x.copy(), w.copy()
    for f in case["fs"]:
        arg = x.reshape(case["shape"]) if case.get("shape") else x
        got = inst.op(arg, extra_factor=f) if f != 1.0 else inst.op(arg)
        obs.check(np.shape(got) == arg.shape, "shape {} instead of {}", np.shape(got), arg.shape)
        got = np.ravel(got)
        want = owl(x, w * f)
        tol = dict(rtol=1e-10, atol=1e-9 * scale) if case.get("long") else dict(rtol=1e-6, atol=1e-8 * scale)
        obs.close(got, want, f"OWL operator, factor {f}", **tol)
        if case.get("compete"):
            compete(obs, x, got, lambda u, f=f: f * owl_value(u, w), "OWL")
        obs.state(x, w, f, want)
    obs.exact(x, before, "the argument was modified")
    obs.exact(inst.weights, w_before, "the weights were modified")
    obs.outcome(want)


def ksup_case(case, obs):
    x, k, beta = _x(case), case["k"], case["beta"]
    inst = KSupportNorm(beta=beta, k_value=k)
    before = x.copy()
    for f in case["fs"]:
        arg = x.reshape(case["shape"]) if case.get("shape") else x
        got = inst.op(arg, extra_factor=f) if f != 1.0 else inst.op(arg)
        obs.check(np.shape(got) == arg.shape, "shape {} instead of {}", np.shape(got), arg.shape)
        got = np.ravel(got)
        want = ksup(x, beta * f, k)
        obs.close(got, want, f"k-support operator, factor {f}", rtol=1e-6, atol=1e-6 * case.get("scale", 1.0))
        if case.get("compete"):
            compete(obs, x, want, lambda u, f=f: 0.5 * beta * f * ksup_value(u, k), "k-support")
        obs.state(x, k, beta, f, want)
    obs.check(inst.k_value == k, "k changed to {}", inst.k_value)
    obs.exact(x, before, "the argument was modified")
    obs.outcome(want)


def _typed_norm(make):
    def fn(x, y):
        inst = make()
        for v in (x[0][0].ravel(), y[1][0].ravel(), x[0][0].ravel()):
            for f in (1.0, 0.5, 20.0):
                yield f"op, factor {f}", inst.op(v, extra_factor=f)
    return fn


TYPED = {f"OWL {s}": _typed_norm(lambda s=s: OrderedWeightedL1Norm(s * np.arange(16, 0, -1.0))) for s in (0.1, 3.0)}
TYPED.update({f"k-support {k}": _typed_norm(lambda k=k: KSupportNorm(0.7, k)) for k in (1, 3, 15)})


def _steps(make):
    def build():
        inst = make()
        return lambda x: [inst.op(x), inst.op(x, extra_factor=0.5)]
    return build, [(5,)]


CALLS = {
    "OWL": _steps(lambda: OrderedWeightedL1Norm(np.array([1.5, 1.0, 1.0, 0.25, 0.0]))),
    "k-support": _steps(lambda: KSupportNorm(0.7, 2)),
}

def _penalised(make, shape):
    def build():
        def run(x, w):
            inst = make(w)
            return [inst.op(x), inst.op(x, extra_factor=0.5)]
        return run
    return (build, [shape, (int(np.prod(shape)),)], lambda x: x, lambda w: np.sort(np.abs(w))[::-1])


LAID = {
    **CALLS,
    **{f"OWL {len(s)} axes": _penalised(OrderedWeightedL1Norm, s) for s in ((5,), (2, 3), (2, 3, 2))},
    **{f"k-support {len(s)} axes": (lambda: lambda x: KSupportNorm(0.7, 2).op(x), [s]) for s in ((2, 3), (2, 3, 2))},
}


def run(ctx):
    grid = [-3.0, -1.0, 0.0, 0.5, 1.0, 2.5]
    weights = {1: [[0.5], [2.0], [0.0]],
               2: [[1.0, 1.0], [2.0, 0.5], [3.0, 0.0], [0.0, 0.0]],
               3: [[1.0, 1.0, 1.0], [2.0, 1.0, 0.25], [3.0, 0.0, 0.0]],
               4: [[2.0, 1.5, 0.5, 0.0], [1.0, 1.0, 0.5, 0.5]]}
    cases = [
        dict(x=list(x), w=w, fs=[1.0, 0.5, 2.0], compete=n < 4)
        for n in (1, 2, 3, 4) for x in itertools.product(grid if n < 4 else grid[1:], repeat=n)
        for w in weights[n]
    ]
    cases += [
        dict(x=[c.real for c in x], im=[c.imag for c in x], w=w, fs=[1.0, 0.5])
        for x in itertools.product([0j, 1 + 1j, -2j, 3 - 4j, -1 + 0j], repeat=3) for w in weights[3]
    ]
    cases += [
        dict(x=data((n,), s).tolist(), w=np.linspace(hi, lo, n).tolist(), fs=[1.0, 0.3, 4.0], shape=sh,
             int=i, wshape=ws)
        for n, sh in ((1, (1, 1)), (2, None), (6, (6, 1)), (6, (1, 6)), (6, (1, 1, 6)), (6, (2, 3)), (4, (2, 2)),
                      (8, (2, 2, 2)), (20, None), (65, None),
                      (ctx.pick(129, 300), None))
        for s in (1, 2, 3, 4) for hi, lo in ((1.0, 0.1), (3.0, 0.0), (0.5, 0.5)) for i in (False, True)
        for ws in ((False, True) if sh else (False,))
    ]
    ctx.explore("OWL", cases, owl_case)
    ctx.explore("OWL on long data", [dict(x=data((n,), s).tolist(), w=np.linspace(hi, lo, n).tolist(), fs=[1.0, 0.3], long=True)
                                     for n in ctx.pick((600, 1100), (600, 1100, 2100)) for s in (1, 2)
                                     for hi, lo in ((1.0, 0.1), (3.0, 0.0), (0.5, 0.5))], owl_case)
    few = [{**c, "compete": False} for c in cases if not c.get("int")]
    few = few[:2200:9] + few[2200:]
    ctx.explore("OWL on data of every magnitude",
                [dict(c, scale=s) for c in few for s in (1e-310, 1e-60, 1e-25, 1e-12, 1e-6, 1e6, 1e12, 1e25, 1e60, 1e300)
                 if s != 1e-310 or "im" not in c], owl_case)
    cases = [
        dict(x=list(x), k=k, beta=b, fs=[1.0, 0.5, 3.0], compete=True)
        for n in (1, 2, 3) for x in itertools.product(grid, repeat=n)
        for k in range(1, n + 1) for b in (0.5, 1.0, 3)
    ]
    cases += [
        dict(x=list(x), k=k, beta=b, fs=[1.0, 2.0])
        for n in ctx.pick((4,), (4, 5)) for x in itertools.product([-2.0, 0.0, 0.75, 1.0, 4.0], repeat=n)
        for k in range(1, n + 1) for b in (0.25, 2.0)
    ]
    cases += [
        dict(x=[c.real for c in x], im=[c.imag for c in x], k=k, beta=1.5, fs=[1.0, 0.5])
        for x in itertools.product([0j, 1 + 1j, -2j, 3 - 4j, -1 + 0j], repeat=3) for k in (1, 2, 3)
    ]
    cases += [
        dict(x=data((n,), s).tolist(), k=k, beta=b, fs=[1.0, 0.3, 4.0], shape=sh)
        for n, sh in ((6, (2, 3)), (8, (2, 2, 2)), (20, None), (65, None), (ctx.pick(129, 400), None), (ctx.pick(1100, 2100), None))
        for s in ((1, 2, 3) if n < 1000 else (1,)) for k in (1, 2, n // 3, n // 2, n - 1, n) for b in (0.1, 1.0, 5.0)
    ]
    ctx.explore("k-support", cases, ksup_case)
    few = [{**c, "compete": False} for c in cases[::13]]
    ctx.explore("k-support on data of every magnitude",
                [dict(c, scale=s) for c in few for s in (1e-310, 1e-60, 1e-25, 1e-9, 1e-5, 1e5, 1e9, 1e25, 1e60, 1e300)
                 if s != 1e-310 or "im" not in c], ksup_case)
    names = ["owl", "ksup"]
    cases = proxhist.cases(names, "of", 5, ("float64",) + ctx.pick((), ("complex128",)))
    ctx.explore("all histories of one operator", cases, proxhist.history)
    ctx.explore("narrow types", narrow(TYPED, ["bool"]), typed(TYPED))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(LAID, ("float64", "complex128")), laid_out(LAID))
