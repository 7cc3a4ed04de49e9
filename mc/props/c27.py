"""C27: statistics and image quality metrics are what their formulas say."""

import itertools
import math

import numpy as np

from modopt.math import metrics, stats

from ..common import MAGNITUDES, call_words, calls, data, layout_cases, laid_out, narrow, scaled, typed
from ..core import Pruned

RT = {"float64": 1e-9, "float32": 2e-4, "int64": 1e-9, "complex128": 1e-9, "int32": 1e-9}


def arranged(x, layout):
    if layout == "fortran":
        return np.asfortranarray(x)
    if layout == "reverse":
        return np.ascontiguousarray(x[::-1])[::-1]
    if layout == "strided":
        wide = np.repeat(x, 2, axis=-1)
        return wide[..., ::2]
    x = x.copy()
    if layout == "readonly":
        x.flags.writeable = False
    return x


def kernel(case, obs):
    (h, w), sigma = case["shape"], case["sigma"]
    yy, xx = np.mgrid[:h, :w].astype(float)
    want = np.exp(-((yy - (h - 1) / 2) ** 2 + (xx - (w - 1) / 2) ** 2) / (2 * sigma**2))
    peak = stats.gaussian_kernel((h, w), sigma)
    obs.close(peak, want / want.max(), "kernel of unit peak", rtol=1e-7, atol=1e-12)
    obs.close(stats.gaussian_kernel([h, w], sigma, "max"), want / want.max(), "kernel of unit peak", rtol=1e-7, atol=1e-12)
    obs.close(stats.gaussian_kernel((h, w), sigma, norm="sum"), want / want.sum(), "kernel of unit sum", rtol=1e-7, atol=1e-12)
    obs.state(peak)
    obs.outcome(h, w)
    if (h, w) == (3, 3):
        for bad in ("none", "", None, "Max"):
            obs.raises(ValueError, lambda: stats.gaussian_kernel((3, 3), sigma, norm=bad), f"norm {bad!r}")


def median(values):
    s = sorted(values)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def simple(case, obs):
    x, y = pair(case)
    rt = RT[case["dtype"]]
    keep = x.copy(), y.copy()
    flat = [float(v) for v in x.ravel()]
    mid = median(flat)
    want = median([abs(v - mid) for v in flat])
    obs.close(stats.mad(x), want, "median absolute deviation", rtol=rt, atol=1e-6)
    obs.close(stats.sigma_mad(x), 1.4826 * want, "standard deviation from the median", rtol=max(rt, 1e-4), atol=1e-6)
    err = [(float(a) - float(b)) ** 2 for a, b in zip(x.ravel(), y.ravel())]
    obs.close(stats.mse(x, y), sum(err) / len(err), "mean squared error", rtol=rt, atol=1e-6)
    obs.close(stats.mse(y, x), sum(err) / len(err), "mean squared error, swapped", rtol=rt, atol=1e-6)
    if sum(err) > 0:
        for peak in (255, 1, 17.5):
            want = 20 * math.log10(peak) - 10 * math.log10(sum(err) / len(err))
            got = stats.psnr(x, y, method="wiki", max_pix=peak)
            obs.close(got, want, "peak signal to noise ratio, wiki", rtol=rt, atol=1e-4)
        obs.close(stats.psnr(x, y, method="wiki"), 20 * math.log10(255) - 10 * math.log10(sum(err) / len(err)),
                  "peak signal to noise ratio, wiki", rtol=rt, atol=1e-4)
        if x.ndim == 2 and x.shape[0] == x.shape[1] and max(flat) > min(flat):
            want = 20 * math.log10(x.shape[0] * (max(flat) - min(flat)) / math.sqrt(sum(err)))
            obs.close(stats.psnr(x, y), want, "peak signal to noise ratio", rtol=rt, atol=1e-4)
            obs.close(stats.psnr(x, y, "starck"), want, "peak signal to noise ratio", rtol=rt, atol=1e-4)
    obs.exact(x, keep[0], "first argument")
    obs.exact(y, keep[1], "second argument")
    obs.state(case["dtype"], flat, err)
    obs.outcome(want)


def extreme(case, obs):
    """Entries that are infinite or not numbers count like any other."""
    x = np.array(case["x"]).reshape(case["shape"])
    with np.errstate(all="ignore"):
        mid = np.median(x)
        want = np.median(np.abs(x - mid))
        obs.exact(np.float64(stats.mad(x)), np.float64(want), "median absolute deviation")
        obs.exact(np.float64(stats.sigma_mad(x)), np.float64(1.4826 * want), "standard deviation from the median")
        err = np.mean((x - 1.0) ** 2)
        obs.exact(np.float64(stats.mse(x, np.ones(x.shape))), np.float64(err), "mean squared error")
    obs.state(x)
    obs.outcome(str(want))


def stacks(case, obs):
    n, side = case["n"], case["side"]
    x = data((n, side, side), case["seed"]) * case["scale"]
    y = x + data((n, side, side), case["seed"] + 1)[..., ::-1] * case["scale"]
    one = [20 * math.log10(side * (a.max() - a.min()) / math.sqrt(np.sum((a - b) ** 2))) for a, b in zip(x, y)]
    wiki = [20 * math.log10(255) - 10 * math.log10(np.mean((a - b) ** 2)) for a, b in zip(x, y)]
    obs.close(stats.psnr_stack(x, y), np.mean(one), "mean ratio of the stack")
    obs.close(stats.psnr_stack(x, y, method="wiki"), np.mean(wiki), "mean ratio of the stack, wiki")
    for fun in (np.median, np.max, np.min, np.sum, len, np.array):
        obs.close(stats.psnr_stack(x, y, metric=fun), fun(one), f"{fun.__name__} over the stack")
        obs.close(stats.psnr_stack(x, y, fun, "wiki"), fun(wiki), f"{fun.__name__} over the stack, wiki")
    obs.raises(ValueError, lambda: stats.psnr_stack(x[0], y[0]), "2-D data")
    obs.raises(ValueError, lambda: stats.psnr_stack(x, y[0]), "2-D second data")
    obs.raises(ValueError, lambda: stats.psnr_stack(x[0], y), "2-D first data")
    obs.raises(ValueError, lambda: stats.psnr_stack(x[None], y[None]), "4-D data")
    for bad in ("", "Wiki", None, "other"):
        obs.raises(ValueError, lambda: stats.psnr(x[0], y[0], method=bad), f"method {bad!r}")
        obs.raises(ValueError, lambda: stats.psnr_stack(x, y, method=bad), f"method {bad!r}")
    obs.state(one)


def pair(case):
    if "x" in case:
        x = np.array(case["x"], dtype=case["dtype"]).reshape(case["shape"])
        y = np.array(case["y"], dtype=case["dtype"]).reshape(case["shape"])
    else:
        x = data(case["shape"], case["seed"], case["dtype"])
        y = data(case["shape"], case["seed"] + 1, case["dtype"])
    lay = case.get("layout", "plain")
    return arranged(x, lay), arranged(y, lay)


def quality(case, obs):
    test, ref = pair(case)
    keep = test.copy(), ref.copy()
    mask = None
    if case["mask"] is not None:
        mask = np.array(case["mask"], dtype=case.get("mtype", "float64")).reshape(test.shape)
    a, b = np.abs(test).astype(float), np.abs(ref).astype(float)
    if a.max() == a.min() or b.max() == b.min():
        raise Pruned()
    a, b = (a - a.min()) / (a.max() - a.min()), (b - b.min()) / (b.max() - b.min())
    weight = np.ones(a.shape) if mask is None else np.asarray(mask, float)
    a, b = a * weight, b * weight
    mse = np.mean((a - b) ** 2)
    power = np.mean(a**2)
    rt = max(1e-6, RT[case["dtype"]])
    obs.close(metrics.mse(test, ref, mask), mse, "mean squared error", rtol=rt, atol=1e-7)
    if power > 0:
        obs.close(metrics.nrmse(test, ref, mask=mask), math.sqrt(mse / power), "normalised error", rtol=rt, atol=1e-5)
    if power > 0 and mse > 1e-12:
        obs.close(metrics.snr(test, ref, mask=mask), 10 * math.log10(power / mse), "signal to noise", rtol=rt, atol=1e-4)
        obs.close(metrics.psnr(test, ref, mask), 10 * math.log10(np.abs(a).max() / mse), "peak signal to noise", rtol=rt, atol=1e-4)
    if min(test.shape) >= 7:
        from skimage.metrics import structural_similarity

        na, nb = np.abs(test).astype(float), np.abs(ref).astype(float)
        na, nb = (na - na.min()) / np.ptp(na), (nb - nb.min()) / np.ptp(nb)
        mean, full = structural_similarity(na, nb, data_range=1.0, full=True)
        want = mean if mask is None else (full * weight).sum() / weight.sum()
        obs.close(metrics.ssim(test, ref, mask), want, "structural similarity", rtol=rt, atol=1e-6)
        if mask is None:
            obs.close(metrics.ssim(test, test), 1.0, "similarity of an image with itself")
    if mask is None and case["dtype"] != "float32":
        for fun in (metrics.mse, metrics.nrmse):
            obs.close(fun(test * 4, ref), fun(test, ref), "metric of a brighter image", rtol=rt, atol=1e-6)
    obs.exact(test, keep[0], "tested image")
    obs.exact(ref, keep[1], "reference image")
    obs.state(case["dtype"], a, b)
    obs.outcome(round(float(mse), 5))


def bad_mask(case, obs):
    x = data((8, 8), 2)
    for fun in (metrics.ssim, metrics.snr, metrics.psnr, metrics.mse, metrics.nrmse):
        obs.raises(ValueError, lambda: fun(x, x + 1, mask={"list": [1], "number": 1, "string": "m", "false": False,
                                                        "nested": x.tolist()}[case["mask"]]), fun.__name__)
    obs.state(case["mask"])


def _deviations(s):
    x = data((3, 5), 1) * s
    yield "median deviation", stats.mad(x), 1
    yield "standard deviation", stats.sigma_mad(x), 1


def _errors(s):
    x, y = data((4, 4), 1) * s, data((4, 4), 2) * s
    yield "mean squared error", stats.mse(x, y), 2
    yield "ratio of Starck et al.", stats.psnr(x, y), 0
    yield "ratio", 10 ** (-stats.psnr(x, y, "wiki") / 10), 2
    yield "ratio of a stack", stats.psnr_stack(np.array([x, y]), np.array([y, x])), 0
    yield "sum kernel", stats.gaussian_kernel((3, 4), 2.0, "sum"), 0


def _quality(which):
    def make(s):
        a, b = (s, s) if which == "both" else (s, 1.0) if which == "test" else (1.0, s)
        for dtype in ("float64", "complex128"):
            x, y = data((8, 8), 1, dtype) * a, data((8, 8), 2, dtype) * b
            for mask in (None, np.tri(8)):
                for f in (metrics.mse, metrics.snr, metrics.psnr, metrics.nrmse, metrics.ssim):
                    yield f"{f.__name__} {dtype}", f(x, y, mask=mask), 0
    return make


SCALED = {"deviations": _deviations, "errors": _errors, **{f"quality, {w}": _quality(w) for w in ("both", "test", "reference")}}


TYPED = {
    "deviations": lambda x, y: [("mad", stats.mad(x)), ("mad", stats.mad(y[0][1])), ("sigma_mad", stats.sigma_mad(x))],
    "errors": lambda x, y: [("mse", stats.mse(x, y)), ("mse", stats.mse(y[0][0], x[1][0]))],
    "ratios": lambda x, y: [("psnr", stats.psnr(x[0][0], y[0][0])), ("psnr", stats.psnr(y[1][0], x[0][1])),
                            ("wiki", stats.psnr(x, y, "wiki")), ("stack", stats.psnr_stack(x[0], y[0])),
                            ("stack, wiki", stats.psnr_stack(x[0], y[1], method="wiki"))],
    "quality": lambda x, y: [(f.__name__, f(x[0][k], y[k][0], mask=m)) for f in
                             (metrics.mse, metrics.snr, metrics.psnr, metrics.nrmse) for k in (0, 1)
                             for m in (None, np.array(x[1][1] > 0), np.tril(np.ones((4, 4), "uint8")))],
    "similarity": lambda x, y: [("ssim", metrics.ssim(x[0].reshape(8, 4).repeat(2, 1), y[0].reshape(8, 4).repeat(2, 1)))],
}


CALLS = {
    "kernel": (lambda: lambda x: [stats.gaussian_kernel((3, 4), 2.0), stats.gaussian_kernel((3, 4), 2.0, "sum")], [(1,)]),
    "deviations": (lambda: lambda x: [stats.mad(x), stats.sigma_mad(x)], [(3, 3)]),
    "errors": (lambda: lambda x, y: [stats.mse(x, y), stats.psnr(x, y), stats.psnr(x, y, "wiki")], [(3, 3), (3, 3)]),
    "stack": (lambda: stats.psnr_stack, [(2, 3, 3), (2, 3, 3)]),
    "quality": (lambda: lambda x, y: [f(x, y) for f in (metrics.mse, metrics.snr, metrics.psnr, metrics.nrmse)], [(3, 3), (3, 3)]),
    "quality, mask": (lambda: lambda x, y, m: [f(x, y, mask=m) for f in (metrics.mse, metrics.snr, metrics.psnr, metrics.nrmse)],
                      [(3, 3), (3, 3), (3, 3)]),
    "similarity": (lambda: lambda x, y: [metrics.ssim(x, y), metrics.ssim(x, y, np.tri(7))], [(7, 7), (7, 7)]),
}


def run(ctx):
    cases = [dict(shape=(h, w), sigma=s) for h in range(1, ctx.pick(8, 14)) for w in range(1, ctx.pick(8, 14))
             for s in (0.5, 1, 1.7, 6.0)]
    ctx.explore("Gaussian kernels", cases, kernel)
    vals = [-3.0, 0.0, 1.0, 4.0]
    cases = [dict(x=list(x), y=list(y), shape=s, dtype=d)
             for s in ((1,), (2,), (1, 2)) for x in itertools.product(vals, repeat=int(np.prod(s)))
             for y in itertools.product(vals, repeat=int(np.prod(s))) for d in ("float64", "int64")]
    cases += [dict(x=list(x), y=y, shape=s, dtype=d)
              for s in ((2, 2), (3,), (5,)) for x in itertools.product(vals, repeat=int(np.prod(s)))
              for y in ([0.0, 1.0, 2.0, -1.0, 5.0][: int(np.prod(s))], [2.0] * int(np.prod(s))) for d in ("float64", "int64", "float32")]
    cases += [dict(shape=s, seed=seed, dtype=d, layout=lay)
              for s in ((3, 3), (4, 4), (8, 8), (33, 33), (2, 5), (5, 2, 3), (100,), (1025,)) for seed in range(3)
              for d in ("float64", "float32", "int64") for lay in ("plain", "fortran", "reverse", "strided", "readonly")]
    ctx.explore("statistics", cases, simple)
    top = float("inf")
    cases = [dict(x=list(x), shape=s) for s in ((1,), (2,), (3,), (4,), (2, 2), (5,))
             for x in itertools.product([top, -top, float("nan"), 2.0, -1.0, 0.0][: 6 if np.prod(s) < 4 else 4 if np.prod(s) < 5 else 3],
                                        repeat=int(np.prod(s)))]
    cases += [dict(x=list(range(n)) + [top] * k + [-top] * j, shape=(n + k + j,)) for n in (3, 6, 11) for k in (0, 1, 2) for j in (0, 1, 2)]
    ctx.explore("infinite entries", cases, extreme)
    cases = [dict(n=n, side=s, seed=seed, scale=sc) for sc in (1.0, 1e-4, 300.0) for n in (1, 2, 3, 5) for s in (2, 3, 6) for seed in range(3)]
    ctx.explore("stacks", cases, stacks)
    vals = [-2.0, 0.0, 1.0, 3.0]
    cases = [dict(x=list(x), y=y, shape=(2, 2), dtype=d, mask=m)
             for x in itertools.product(vals, repeat=4) for y in ([0.0, 1.0, 2.0, 5.0], [3.0, -1.0, 0.5, 0.0])
             for d in ("float64", "complex128") for m in [None] + [list(b) for b in itertools.product([0, 1], repeat=4)]
             if d == "float64" or m in (None, [1, 1, 1, 1], [1, 0, 1, 0])]
    # weights of either sign
    cases += [dict(x=list(x), y=y, shape=(2, 2), dtype=d, mask=m)
              for x in itertools.product(vals, repeat=4) for y in ([0.0, 1.0, 2.0, 5.0], [3.0, -1.0, 0.5, 0.0])
              for d in ("float64", "complex128") for m in ([-1, -1, -1, -1], [-2, 0.5, 1, 0], [0.25, 0.5, -0.75, 4])]
    ctx.explore("metrics of small images, all masks", cases, quality)
    cases = []
    for s in ((7, 7), (8, 9), (16, 16), (12, 7), (33, 40)):
        size = s[0] * s[1]
        edge = np.zeros(s)
        edge[s[0] // 4: -2, 1: s[1] // 2 + 2] = 1
        for d in ("float64", "float32", "int64", "complex128"):
            for seed in range(2):
                for lay in ("plain", "fortran", "reverse", "strided", "readonly"):
                    for m, mt in ((None, "float64"), ([1] * size, "float64"), ([1] * size, "int64"), (edge.ravel().tolist(), "float64"),
                                  (edge.ravel().tolist(), "bool"), ((-edge).ravel().tolist(), "float64"),
                                  ([-1 - k % 2 for k in range(size)], "int64"), ([(k % 5 - 1.5) / 3 for k in range(size)], "float64"), ([k % 3 for k in range(size)], "int64")):
                        cases.append(dict(shape=s, seed=seed, dtype=d, layout=lay, mask=m, mtype=mt))
    ctx.explore("metrics of images", cases, quality)
    cases = [dict(mask=m) for m in ("list", "number", "string", "false", "nested")]
    ctx.explore("invalid masks", cases, bad_mask)
    ctx.assumptions += ["images that are not constant", "square images for the ratio of Starck et al."]
    ctx.explore("every magnitude", [dict(what=w, scale=s) for w in SCALED for s in MAGNITUDES if 1e-100 < s < 1e100], scaled(SCALED))
    ctx.explore("narrow types", narrow(TYPED), typed(TYPED))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(3, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(CALLS), laid_out(CALLS))
