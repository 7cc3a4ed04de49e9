"""C20: singular value thresholding utilities."""

import functools
import itertools

import numpy as np

from modopt.signal.svd import (
    calculate_svd, find_n_pc, svd_thresh, svd_thresh_coef, svd_thresh_coef_fast)

from ..common import MODERATE, call_words, calls, data, layout_cases, laid_out, narrow, scaled, typed
from ..core import Pruned
from ..refs import conv_same
from .c19 import soft


def spectrum(m, n, values, seed=0, dtype=float):
    """A matrix with the given singular values."""
    k = min(m, n)
    q1, _ = np.linalg.qr(data((m, k), 2 + seed, dtype))
    q2, _ = np.linalg.qr(data((n, k), 5 + seed, dtype))
    vals = np.zeros(k)
    vals[:len(values)] = values[:k]
    return ((q1 * vals) @ q2.conj().T).astype(dtype), vals


def shrink(a, t, kind):
    u, s, v = np.linalg.svd(a, full_matrices=False)
    t = np.asarray(t)
    if kind != "soft" and np.any(np.abs(s - t) < 1e-6 * (1 + np.max(s))):
        raise Pruned("tie")
    if t.ndim and np.any(np.abs(np.diff(s)) < 1e-3):
        raise Pruned("equal singular values: one threshold each is ambiguous")
    new = soft(s, t) if kind == "soft" else np.where(s >= t, s, 0)
    return (u * new) @ v, int(np.count_nonzero(new > 1e-9))


def tols(dtype):
    return dict(rtol=1e-4, atol=5e-3) if np.dtype(dtype) in (np.dtype("float32"), np.dtype("complex64")) \
        else dict(rtol=1e-7, atol=1e-7)


def layout(a, how):
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "readonly":
        a.flags.writeable = False
    if how == "strided":
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 2), a.dtype)
        big[::2, ::2] = a
        return big[::2, ::2]
    return a


def decompose(case, obs):
    a, vals = spectrum(case["m"], case["n"], case["values"], 0, case["dtype"])
    a = layout(a, case["layout"])
    a0 = a.copy()
    u, s, v = calculate_svd(a)
    k = min(a.shape)
    t = tols(case["dtype"])
    obs.check(u.shape == (a.shape[0], k) and s.shape == (k,) and v.shape == (k, a.shape[1]),
              "shapes {} {} {}", u.shape, s.shape, v.shape)
    obs.close((u * s) @ v, a0, "the factors do not give the data back", **t)
    obs.close(u.conj().T @ u, np.eye(k), "left vectors", **t)
    obs.close(v @ v.conj().T, np.eye(k), "right vectors", **t)
    obs.check(np.all(np.diff(s) <= 1e-6) and np.all(s >= 0), "singular values {} not sorted", s)
    obs.exact(a, a0, "data modified")
    obs.state(a0)
    obs.outcome(case["m"], case["n"], case["dtype"])


def threshold(case, obs):
    """Explicit threshold (number or one per singular value)."""
    a, vals = spectrum(case["m"], case["n"], case["values"], 0, case["dtype"])
    a = layout(a, case["layout"])
    a0 = a.copy()
    k = min(a.shape)
    t = case["t"]
    if t == "array":
        t = np.linspace(4.3, 0.2, k)
    elif t == "tiny":
        t = np.full(k, 0.07)
    kind = case["kind"]
    want, _ = shrink(a0, t, kind)
    t0 = np.array(t)
    got = svd_thresh(a, threshold=t) if kind == "default" else svd_thresh(a, threshold=t, thresh_type=kind)
    obs.close(got, want, f"svd_thresh {kind} {case['t']}", **tols(case["dtype"]))
    if case["n_pc"] is not None:
        got = svd_thresh(a, threshold=t, n_pc=case["n_pc"], thresh_type="hard" if kind == "default" else kind)
        obs.close(got, want, "an explicit threshold comes before a number of components",
                  **tols(case["dtype"]))
    obs.exact(a, a0, "data modified")
    obs.exact(t, t0, "threshold modified")
    obs.state(a0, t0, kind)
    obs.outcome(want)


def components(case, obs):
    """Given number of components."""
    a, vals = spectrum(case["m"], case["n"], case["values"], 1, case["dtype"])
    a0 = a.copy()
    k = min(a.shape)
    n_pc = case["n_pc"]
    keep = k if n_pc == "all" else min(n_pc, k)
    u, s, v = np.linalg.svd(a0, full_matrices=False)
    if keep < k and s[keep - 1] - s[keep] < 1e-3:
        raise Pruned("tie")
    if case["kind"] == "soft":
        new = soft(s, s[keep - 1])
    else:
        new = np.where(np.arange(k) < keep, s, 0)
    got = (svd_thresh(a, n_pc=n_pc) if case["kind"] == "default"
           else svd_thresh(a, n_pc=n_pc, thresh_type=case["kind"]))
    obs.close(got, (u * new) @ v, f"svd_thresh with {n_pc} components", **tols(case["dtype"]))
    obs.exact(a, a0, "data modified")
    obs.state(a0, keep, case["kind"])
    obs.outcome(new)


def refuse(case, obs):
    a = data((4, 3), 2)
    obs.raises(ValueError, lambda: svd_thresh(a, n_pc=case["n_pc"]), f"n_pc={case['n_pc']!r}")
    obs.raises(TypeError, lambda: calculate_svd(a.tolist()), "data that is no array")
    obs.raises(TypeError, lambda: calculate_svd(a.ravel()), "1-D data")
    obs.raises(TypeError, lambda: calculate_svd(a.reshape(2, 2, 3)), "3-D data")
    obs.raises(TypeError, lambda: svd_thresh_coef(data((9, 2), 2), 3, 1.0), "operator that can not be called")
    obs.raises(ValueError, lambda: find_n_pc(np.eye(8)), "vector that is no square image")
    obs.raises(ValueError, lambda: svd_thresh(a, threshold=1.0, thresh_type="x"), "threshold type")
    obs.state(repr(case["n_pc"]))
    obs.outcome("refused")


def fast(case, obs):
    """The rank hint must not change the answer."""
    a, vals = spectrum(case["m"], case["n"], case["values"], 2, case["dtype"])
    a0 = a.copy()
    want, rank = shrink(a0, case["t"], case["kind"])
    if case["kind"] == "soft" and np.any(np.abs(np.linalg.svd(a0, compute_uv=False) - case["t"]) < 1e-4):
        raise Pruned("tie")
    kw = {}
    if case["n_vals"] != "default":
        kw["n_vals"] = case["n_vals"]
    if case["extra"] is not None:
        kw["extra_vals"] = case["extra"]
    if case["kind"] != "default":
        kw["thresh_type"] = case["kind"]
    got, found = svd_thresh_coef_fast(a, case["t"], **kw)
    obs.close(got, want, f"svd_thresh_coef_fast {kw}", rtol=1e-3 if case["dtype"] == "float32" else 1e-6,
              atol=2e-2 if case["dtype"] == "float32" else 1e-5)
    obs.check(found == rank, "estimated rank {} instead of {}", found, rank)
    obs.exact(a, a0, "data modified")
    obs.state(a0, case["t"], case["kind"], case["n_vals"])
    obs.outcome(want, rank)


OPERATORS = {
    "identity": lambda c: c,
    "double": lambda c: 2 * c,
    "ramp": lambda c: np.array([(k + 1) * e for k, e in enumerate(c)]),
    "stack": lambda c: np.array([[e, -0.5 * e] for e in c]),
}


def coef(case, obs):
    """Ngole: coefficients thresholded with the norm of the transformed vectors."""
    side, n = case["side"], case["n"]
    a = data((side * side, n), 3 + case["seed"], case["dtype"])
    a0 = a.copy()
    t = case["t"]
    if t == "array":
        t = 0.1 + 0.2 * np.abs(data((min(side * side, n), n), 5))
    t0 = np.array(t)
    calls = []

    def operator(cube):
        calls.append(np.array(cube))
        return OPERATORS[case["op"]](cube)

    kind = case["kind"]
    got = (svd_thresh_coef(a, operator, t) if kind == "default"
           else svd_thresh_coef(a, operator, t, thresh_type=kind))
    u, s, v = np.linalg.svd(a0, full_matrices=False)
    coefs = s[:, None] * v
    k = len(s)
    cube = u.T.reshape(k, side, side)
    ti = np.array([np.linalg.norm(e) for e in OPERATORS[case["op"]](cube)])
    level = np.broadcast_to(t, coefs.shape) * ti[:, None]
    if kind != "soft" and np.any(np.abs(np.abs(coefs) - level) < 1e-6):
        raise Pruned("tie")
    new = soft(coefs, level) if kind == "soft" else np.where(np.abs(coefs) >= level, coefs, 0)
    obs.close(got, u @ new, f"svd_thresh_coef {kind}", rtol=1e-6, atol=1e-6)
    obs.check(len(calls) >= 1 and all(c.shape == (k, side, side) for c in calls),
              "the operator was given {}", [c.shape for c in calls])
    obs.exact(a, a0, "data modified")
    obs.exact(t, t0, "threshold modified")
    again = (svd_thresh_coef(a, operator, t) if kind == "default"
             else svd_thresh_coef(a, operator, t, thresh_type=kind))
    obs.close(again, u @ new, "second call", rtol=1e-6, atol=1e-6)
    obs.state(a0, kind, case["t"], case["op"])
    obs.outcome(new)


def pcs(case, obs):
    side = case["side"]
    a = data((side * side, case["n"]), case["seed"])
    u = np.linalg.svd(a, full_matrices=case["full"])[0]
    count = 0
    for vec in u.T:
        img = vec.reshape(side, side)
        auto = conv_same(img, img[::-1, ::-1])
        lhs, rhs = auto[side // 2, side // 2] ** 2, case["factor"] * np.sum(auto ** 2)
        if abs(lhs - rhs) < 1e-9 * (1 + abs(rhs)):
            raise Pruned("tie")
        count += lhs <= rhs
    got = find_n_pc(u) if case["factor"] == 0.5 else find_n_pc(u, factor=case["factor"])
    obs.check(got == count, "{} components instead of {}", got, count)
    if got and not case["full"]:
        obs.close(svd_thresh(a, n_pc=got), svd_thresh(a, n_pc=int(count)), "thresholding with the number found")
    obs.state(u)
    obs.outcome(count)


@functools.lru_cache(None)
def mode(side, name):
    """An image of unit norm, smooth or not."""
    k = np.arange(side)
    one = np.ones(side)
    wave = [one, np.cos(np.pi * (k + 0.5) / side), np.cos(2 * np.pi * (k + 0.5) / side)]
    if name in "012":
        img = np.outer(wave[0], wave[int(name)])
    elif name in "34":
        img = np.outer(wave[int(name) - 2], wave[0])
    else:  # an impulse made orthogonal to the waves
        img = np.zeros((side, side))
        img["ab".index(name) + 1, 2] = 1.0
        for other in "01234":
            img = img - np.sum(img * mode(side, other)) * mode(side, other)
        if name == "b":
            img = img - np.sum(img * mode(side, "a")) * mode(side, "a")
    return img / np.linalg.norm(img)


@functools.lru_cache(None)
def correlation(side, name):
    img = mode(side, name)
    auto = conv_same(img, img[::-1, ::-1])
    return auto[side // 2, side // 2] ** 2, 0.1 * np.sum(auto ** 2)


def automatic(case, obs):
    """Without threshold and number the smooth components are counted."""
    side, word = case["side"], case["word"]
    u = np.array([mode(side, c).ravel() for c in word]).T
    vals = np.array([9.0, 5.0, 3.0, 1.5, 0.5])[: len(word)]
    q, _ = np.linalg.qr(data((len(word) + case["more"], len(word)), 3))
    a = (u * vals) @ q.T
    count = 0
    for name in word:
        lhs, rhs = correlation(side, name)
        if abs(lhs - rhs) < 1e-6 * rhs:
            raise Pruned("tie")
        count += lhs <= rhs
    obs.check(find_n_pc(u, factor=0.1) == count, "{} components instead of {}", find_n_pc(u, factor=0.1), count)
    if not count:
        raise Pruned("no smooth component: which threshold applies is not specified")
    a0 = a.copy()
    for kind in ("default", "hard", "soft"):
        got = svd_thresh(a) if kind == "default" else svd_thresh(a, thresh_type=kind)
        new = soft(vals, vals[count - 1]) if kind == "soft" else np.where(np.arange(len(vals)) < count, vals, 0)
        obs.close(got, (u * new) @ q.T, f"{kind} thresholding with the number found", rtol=1e-7, atol=1e-7)
    obs.exact(a, a0, "data modified")
    obs.state(side, word, count)
    obs.outcome(count, len(word))


def _values(what, kind, dtype):
    def make(s):
        a, _ = spectrum(5, 4, [5.0, 3.0, 1.0, 0.25], 1, dtype)
        if what == "coef":
            a = data((9, 4), 3, dtype)
        elif what == "automatic":
            a, _ = spectrum(9, 4, [5.0, 3.0, 1.0, 0.25], 1, dtype)
        a = a * s
        if what == "decompose":
            u, v, w = calculate_svd(a)
            yield "product", (u * v) @ w, 1
            yield "values", v, 1
        elif what == "number":
            yield what, svd_thresh(a, threshold=2.0 * s, thresh_type=kind), 1
        elif what == "array":
            yield what, svd_thresh(a, threshold=s * np.array([5.5, 0.1, 0.1, 2.0]), thresh_type=kind), 1
        elif what == "components":
            for n in (1, 2, 4):
                yield what, svd_thresh(a, n_pc=n, thresh_type=kind), 1
        elif what == "automatic":
            yield what, svd_thresh(a, thresh_type=kind), 1
        elif what == "fast":
            for hint in (-1, 1, 2, 4):
                got, rank = svd_thresh_coef_fast(a, 2.0 * s, n_vals=hint, extra_vals=1, thresh_type=kind)
                yield f"fast, hint {hint}", got, 1
                yield f"rank, hint {hint}", rank, None
        else:
            for op in OPERATORS.values():
                yield "coef", svd_thresh_coef(a, op, 0.3 * s, thresh_type=kind), 1
    return make


SCALED = {f"{w} {k} {d}": _values(w, k, d)
          for w in ("decompose", "number", "array", "components", "automatic", "fast", "coef")
          for k in ("hard", "soft") for d in ("float64", "complex128") if w != "coef" or d == "float64"}


TYPED = {
    "number": lambda x, y: [("svd_thresh", svd_thresh(x[0][0], threshold=t, thresh_type=k)) for t in (0.5, 100.0)
                            for k in ("hard", "soft")],
    "components": lambda x, y: [("svd_thresh", svd_thresh(y[0].reshape(8, 4), n_pc=n)) for n in (1, 3, "all")],
    "fast": lambda x, y: [("fast", svd_thresh_coef_fast(x[0].reshape(8, 4), t, n_vals=n, thresh_type="soft")[0])
                          for t in (0.5, 100.0) for n in (-1, 1, 2)],
    "coef": lambda x, y: [("coef", svd_thresh_coef(y[0].reshape(16, 2), lambda c: c, 3.0, thresh_type="soft"))],
}


CALLS = {
    "decompose": (lambda: lambda x: (lambda u, s, v: [(u * s) @ v, s])(*calculate_svd(x)), [(4, 3)]),
    "factors": (lambda: calculate_svd, [(4, 3)]),
    "number": (lambda: lambda x: svd_thresh(x, threshold=2.0), [(4, 3)]),
    "components": (lambda: lambda x: svd_thresh(x, n_pc=2), [(4, 3)]),
    "fast": (lambda: lambda x: list(svd_thresh_coef_fast(x, 2.0, n_vals=1, extra_vals=1)), [(5, 6)]),
    "coef": (lambda: lambda x: svd_thresh_coef(x, OPERATORS["ramp"], 0.3), [(9, 3)]),
    "pcs": (lambda: find_n_pc, [(9, 3)]),
}


def run(ctx):
    dtypes = ("float64", "float32", "complex128")
    spectra = [[5.0, 3.0, 2.0, 1.0, 0.5], [4.0], [0.0], [6.0, 5.9, 0.1], [2.0, 2.0, 2.0, 2.0],
               [1000.0, 1.0, 0.001]]
    shapes = [(1, 1), (1, 4), (4, 1), (3, 3), (5, 2), (2, 5), (6, 7), (9, 4), (33, 20)]
    cases = [dict(m=m, n=n, values=v, dtype=d, layout=lay) for m, n in shapes for v in spectra
             for d in dtypes for lay in ("plain", "fortran", "readonly", "strided")]
    ctx.explore("decompositions", cases, decompose)
    cases = [dict(m=m, n=n, values=v, dtype=d, layout=lay, t=t, kind=k, n_pc=p)
             for m, n in shapes for v in spectra for d in dtypes for lay in ("plain", "readonly")
             for t in (0.0, 0.3, 1.7, 4.5, 2000.0, "array", "tiny") for k in ("default", "hard", "soft")
             for p in (None, 1)]
    ctx.explore("thresholds", cases, threshold)
    cases = [dict(m=m, n=n, values=v, dtype=d, n_pc=p, kind=k)
             for m, n in shapes for v in spectra for d in dtypes for p in (1, 2, 3, 4, 6, 50, "all")
             for k in ("default", "hard", "soft")]
    ctx.explore("numbers of components", cases, components)
    cases = [dict(n_pc=p) for p in (0, -1, -5, 1.5, 2.0, "some", "", [1], (1,))]
    ctx.explore("invalid arguments", cases, refuse)
    shapes = [(1, 1), (2, 2), (1, 5), (3, 2), (4, 4), (6, 5), (5, 8)] + ([(12, 9), (20, 21)] if ctx.thorough
                                                                        else [(12, 9)])
    cases = [dict(m=m, n=n, values=v, dtype=d, t=t, kind=k, n_vals=nv, extra=e)
             for m, n in shapes for v in spectra[:5] for d in ("float64", "complex128", "float32")
             for t in (0.3, 1.7, 3.4, 10.0)
             for k in ("default", "soft") for nv in ("default", None, -1, 1, 2, 3, 5, 50)
             for e in (None, 1, 3)]
    cases += [dict(m=m, n=n, values=[6.0] * j + [low] * (min(m, n) - j), dtype=d, t=2.0, kind=k, n_vals=nv, extra=e)
              for m, n in ((12, 9), (16, 14), (25, 30)) for j in (0, 1, 2, 4, 8) for low in (2.001, 1.999, 0.5, 0.0)
              for d in ("float64", "complex128") for k in ("default", "soft") for nv in (1, 2, 3, 6) for e in (None, 1)]
    ctx.explore("all rank hints", cases, fast)
    cases = [dict(side=s, n=n, seed=seed, dtype=d, t=t, kind=k, op=o)
             for s in (1, 2, 3, 4) for n in (1, 2, 3, 5) for seed in (0, 1) for d in ("float64",)
             for t in (0.0, 0.2, 1.0, "array") for k in ("default", "hard", "soft") for o in OPERATORS
             if s * s >= n]
    ctx.explore("coefficient thresholds", cases, coef)
    cases = [dict(side=s, n=n, seed=seed, full=f, factor=fa)
             for s in (1, 2, 3, 4, 5, 7) for n in (1, 2, 4) for seed in range(4) for f in (False, True)
             for fa in (0.5, 0.1, 0.25, 0.9) if s * s >= n]
    ctx.explore("number of principal components", cases, pcs)
    ctx.explore("every magnitude", [dict(what=w, scale=s) for w in SCALED for s in MODERATE], scaled(SCALED))
    cases = [dict(side=s, word="".join(w), more=m) for s in (7, 9, 12) for k in range(1, ctx.pick(4, 6))
             for w in itertools.permutations("01234ab", k) for m in (0,)]
    ctx.explore("automatic number of components", cases, automatic)
    ctx.explore("narrow types", narrow(TYPED, [("fast", "bool")]), typed(TYPED, loose=True))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(CALLS, ("float64", "complex128")), laid_out(CALLS))
