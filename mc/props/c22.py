"""C22: convolution and filters are what their definitions say."""

import itertools

import numpy as np

from modopt.math.convolve import convolve, convolve_stack
from modopt.signal.filter import gaussian_filter, mex_hat, mex_hat_dir
from modopt.signal.wavelet import filter_convolve, filter_convolve_stack, trim_filter

from ..common import MODERATE, call_words, calls, data, layout_cases, laid_out, narrow, scaled, typed
from ..core import Pruned
from ..refs import conv_same, conv_wrap

T = dict(rtol=1e-6, atol=1e-6)


def layout(a, how):
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "reverse":
        return a[..., ::-1]
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


def ref(x, k, method):
    return conv_wrap(x, k) if method == "astropy" else conv_same(x, k)


def single(case, obs):
    method = case["method"]
    x = layout(data(tuple(case["x"]), 2, case["dtype"]), case["layout"])
    k = layout(data(tuple(case["k"]), 5, case["ktype"]), case["layout"])
    x0, k0 = x.copy(), k.copy()
    got = convolve(x, k) if method == "default" else convolve(x, k, method=method)
    t = dict(rtol=1e-4, atol=1e-3) if case["dtype"] == "float32" else T
    obs.close(got, ref(x0, k0, method), f"convolution ({method})", **t)
    obs.exact(x, x0, "data modified")
    obs.exact(k, k0, "kernel modified")
    obs.state(x0, k0)
    obs.outcome(case["x"], case["k"], method)


def impulses(case, obs):
    """Every pair of impulses: the convolution is bilinear, so these decide it."""
    sx, sk, method = tuple(case["x"]), tuple(case["k"]), case["method"]
    for i in np.ndindex(*sx):
        x = np.zeros(sx)
        x[i] = 1.0
        for j in np.ndindex(*sk):
            k = np.zeros(sk)
            k[j] = 1.0
            got = convolve(x, k, method=method)
            obs.close(got, ref(x, k, method), f"impulses {i} {j}", atol=1e-9)
            obs.state(sx, sk, i, j)
    obs.outcome(sx, sk, method)


def stack(case, obs):
    n, method = case["n"], case["method"]
    x = data((n,) + tuple(case["x"]), 2)
    k = data((n,) + tuple(case["k"]), 6)
    x0, k0 = x.copy(), k.copy()
    for rot in (False, True):
        kw = {"rot_kernel": rot} if rot or case["explicit"] else {}
        got = convolve_stack(x, k, method=method, **kw)
        want = np.array([ref(a, b[::-1, ::-1] if rot else b, method) for a, b in zip(x0, k0)])
        obs.close(got, want, f"stack (rotated {rot})", **T)
        obs.state(want, rot)
    obs.exact(x, x0, "data modified")
    obs.exact(k, k0, "kernels modified")
    obs.outcome(case["x"], case["k"], n, method)


def filters(case, obs):
    num, method, items = case["num"], case["method"], case["items"]
    f = data((num,) + tuple(case["k"]), 6)
    x = data((items,) + tuple(case["x"]), 2)
    f0, x0 = f.copy(), x.copy()
    for img in x:
        want = np.array([ref(img, g, method) for g in f0])
        obs.close(filter_convolve(img, f, method=method), want, "every filter", **T)
        coeffs = data((num,) + tuple(case["x"]), 4)
        c0 = coeffs.copy()
        want = sum(ref(c, g[::-1, ::-1], method) for c, g in zip(coeffs, f0))
        obs.close(filter_convolve(coeffs, f, filter_rot=True, method=method), want,
                  "sum over rotated filters", **T)
        obs.exact(coeffs, c0, "coefficients modified")
    want = np.array([[ref(img, g, method) for g in f0] for img in x0])
    obs.close(filter_convolve_stack(x, f, method=method), want, "stack", **T)
    coeffs = data((items, num) + tuple(case["x"]), 7)
    want = np.array([sum(ref(c, g[::-1, ::-1], method) for c, g in zip(cs, f0)) for cs in coeffs])
    obs.close(filter_convolve_stack(coeffs, f, filter_rot=True, method=method), want,
              "stack, rotated", **T)
    obs.exact(f, f0, "filters modified")
    obs.exact(x, x0, "data modified")
    obs.state(want)
    obs.outcome(case["x"], case["k"], num, items, method)


def trim(case, obs):
    f = np.array(case["f"], dtype=float)
    if not np.any(f):
        raise Pruned("empty filter")
    f0 = f.copy()
    got = trim_filter(f)
    rows, cols = np.where(f0.any(axis=1))[0], np.where(f0.any(axis=0))[0]
    obs.exact(got, f0[rows[0]:rows[-1] + 1, cols[0]:cols[-1] + 1], "trimmed filter")
    obs.exact(f, f0, "argument modified")
    obs.state(f0)
    obs.outcome(got)


def kernels(case, obs):
    x, s = case["x"], case["s"]
    # one width, or one for each point
    given = {"array": np.array, "list": list, "number": lambda v: v}[case.get("wrap", "number")](s)
    s = np.asarray(s, dtype=float)
    arr = np.array(x) if isinstance(x, list) else x
    xa = np.asarray(arr, dtype=float)
    g = np.exp(-xa ** 2 / (2.0 * s * s))
    obs.close(gaussian_filter(arr, given), g / (s * np.sqrt(2 * np.pi)), "Gaussian, normalised")
    obs.close(gaussian_filter(arr, given, norm=True), g / (s * np.sqrt(2 * np.pi)), "Gaussian, normalised")
    obs.close(gaussian_filter(arr, given, norm=False), g, "Gaussian, not normalised")
    hat = 2 / (np.sqrt(3.0 * s) * np.pi ** 0.25) * (1 - (xa / s) ** 2) * g
    obs.close(mex_hat(arr, given), hat, "Mexican hat")
    for y in case["ys"]:
        want = -0.5 * (xa / s) ** 2 * mex_hat(y, given)
        obs.close(mex_hat_dir(arr, y, given), want, "directional Mexican hat")
        hat_y = 2 / (np.sqrt(3.0 * s) * np.pi ** 0.25) * (1 - (y / s) ** 2) * np.exp(-0.5 * (y / s) ** 2)
        obs.close(mex_hat(y, given), hat_y, "Mexican hat")
    obs.state(x, s, given)
    obs.outcome(x, s)


def refuse(case, obs):
    x = data((3, 3), 2)
    obs.raises(ValueError, lambda: convolve(x, x, method=case["method"]), "method")
    obs.raises(ValueError, lambda: convolve(x[0], x), "1-D data with a 2-D kernel")
    obs.raises(ValueError, lambda: convolve(x, x[None]), "3-D kernel with 2-D data")
    obs.raises(ValueError, lambda: convolve(x, x[0], method="astropy"), "1-D kernel with 2-D data")
    obs.state(case["method"])
    obs.outcome("refused")


def fits(x, k):
    return all(a >= b and b % 2 for a, b in zip(x, k))


def _conv(method, where):
    def make(s):
        k, x = data((2, 3, 3), 6), data((2, 5, 4), 2)
        if where == "kernel":
            k = k * s
        else:
            x = x * s
        yield "convolve", convolve(x[0], k[0], method=method), 1
        for rot in (False, True):
            yield "convolve_stack", convolve_stack(x, k, rot_kernel=rot, method=method), 1
            yield "filter_convolve", filter_convolve(x if rot else x[0], k, filter_rot=rot, method=method), 1
        yield "filter_convolve_stack", filter_convolve_stack(x, k, method=method), 1
    return make


def _filters(s):
    f = np.zeros((5, 6))
    f[1:4, 2:4] = data((3, 2), 4) + 10
    yield "trim_filter", trim_filter(f * s), 1
    x = np.array([0.0, 0.5, -1.5, 3.0])
    yield "gaussian_filter", gaussian_filter(x * s, 2.0 * s), -1
    yield "gaussian_filter", gaussian_filter(x * s, 2.0 * s, norm=False), 0
    yield "mex_hat", mex_hat(x * s, 2.0 * s), -0.5
    yield "mex_hat_dir", mex_hat_dir(x * s, 0.7 * s, 2.0 * s), -0.5


SCALED = {f"{m} {w}": _conv(m, w) for m in ("scipy", "astropy") for w in ("kernel", "data")}
SCALED["filters"] = _filters


TYPED = {
    m: lambda x, y, m=m: [
        ("convolve", convolve(x[0][0], y[0][0][:3, :3], method=m)),
        ("convolve", convolve(x[0][0], y[0][0][:3, :3].astype(float), method=m)),
        ("stack", convolve_stack(x[0], y[0][:, :3, :1], rot_kernel=True, method=m)),
        ("filters", filter_convolve(x[0][0], y[0][:, :1, :3], method=m)),
        ("filters, rotated", filter_convolve(x[1], y[0][:, :3, :3], filter_rot=True, method=m)),
        ("filter stack", filter_convolve_stack(x[0], y[0][:, :3, :3], method=m)),
    ] for m in ("scipy", "astropy")
}
TYPED["trim"] = lambda x, y: [("trim_filter", trim_filter(np.pad(x[0][0], 2)))]
TYPED["filters"] = lambda x, y: [(f.__name__, f(x[0][0], 5e3)) for f in (gaussian_filter, mex_hat)]


CALLS = {
    **{f"{m} {n}": (lambda f=f, m=m: lambda x, k: f(x, k, method=m), s) for m in ("scipy", "astropy")
       for n, f, s in (("convolve", convolve, [(4, 5), (3, 3)]), ("convolve_stack", convolve_stack, [(2, 4, 5), (2, 3, 3)]),
                       ("filter_convolve", filter_convolve, [(4, 5), (2, 3, 3)]),
                       ("filter_convolve_stack", filter_convolve_stack, [(2, 4, 5), (2, 3, 3)]))},
    "convolve_stack, rotated": (lambda: lambda x, k: convolve_stack(x, k, rot_kernel=True), [(2, 4, 5), (2, 3, 3)]),
    "filter_convolve, rotated": (lambda: lambda x, k: filter_convolve(x, k, filter_rot=True), [(2, 4, 5), (2, 3, 3)]),
    "trim": (lambda: trim_filter, [(3, 4)]),
    "gaussian": (lambda: lambda x: gaussian_filter(x, 2.0), [(4,)]),
    "mex_hat": (lambda: lambda x: [mex_hat(x, 2.0), mex_hat_dir(x, x, 1.5)], [(4,)]),
}


def run(ctx):
    images = [(1, 1), (1, 5), (4, 1), (3, 3), (4, 4), (5, 3), (4, 7), (8, 8)]
    kerns = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 3), (2, 3), (4, 4), (5, 5), (3, 5)]
    cases = [dict(x=x, k=k, method=m, dtype=d, ktype=kt, layout=lay)
             for x, k in itertools.product(images, kerns)
             for m in ("default", "scipy", "astropy")
             for d, kt in (("float64", "float64"), ("int64", "float64"), ("float32", "float32"))
             for lay in ("plain", "fortran", "reverse", "readonly")
             if m != "astropy" or fits(x, k)]
    cases += [dict(x=x, k=k, method=m, dtype=d, ktype=kt, layout="plain")
              for x, k in (((5,), (3,)), ((9,), (1,)), ((4, 3, 5), (3, 3, 3)), ((3, 3, 3), (1, 3, 1)))
              for m in ("scipy", "astropy") for d, kt in (("float64", "float64"), ("int64", "int64"))]
    cases += [dict(x=x, k=k, method="scipy", dtype=d, ktype=kt, layout="plain")
              for x in ((3, 4), (6, 5)) for k in ((3, 3), (2, 3))
              for d, kt in (("complex128", "float64"), ("float64", "complex128"), ("complex128", "complex128"))]
    cases += [dict(x=x, k=k, method=m, dtype="float64", ktype="float64", layout="plain")
              for x, k in (((33, 30), (5, 7)), ((40, 40), (9, 9))) for m in ("scipy", "astropy")]
    ctx.explore("shapes, types and layouts", cases, single)
    cases = [dict(x=x, k=k, method=m)
             for x in ((1, 1), (2, 3), (3, 3), (4, 4), (3, 5)) for k in ((1, 1), (3, 3), (1, 3), (2, 2), (3, 5), (4, 3))
             for m in ("scipy", "astropy") if m == "scipy" or fits(x, k)]
    if ctx.thorough:
        cases += [dict(x=x, k=k, method=m) for x in ((6, 6), (5, 7)) for k in ((3, 3), (5, 5), (5, 3))
                  for m in ("scipy", "astropy")]
    ctx.explore("all pairs of impulses", cases, impulses)
    cases = [dict(x=x, k=k, n=n, method=m, explicit=e)
             for x in ((3, 3), (4, 5), (6, 6)) for k in ((1, 1), (3, 3), (1, 3), (3, 1), (5, 3), (2, 2)) for n in (1, 2, 3, 5)
             for m in ("scipy", "astropy") for e in (False, True) if m == "scipy" or fits(x, k)]
    ctx.explore("stacks", cases, stack)
    cases = [dict(x=x, k=k, num=n, items=i, method=m)
             for x in ((3, 3), (4, 5), (6, 5)) for k in ((1, 1), (3, 3), (3, 1), (5, 3), (2, 2)) for n in (1, 2, 4)
             for i in (1, 2, 3) for m in ("scipy", "astropy") if m == "scipy" or fits(x, k)]
    ctx.explore("filters", cases, filters)
    cases = [dict(f=[list(v[i * c:(i + 1) * c]) for i in range(r)])
             for r, c in ((1, 1), (2, 2), (2, 3), (3, 3)) for v in itertools.product([0.0, 1.0], repeat=r * c)]
    cases += [dict(f=[[0, 0, 0, 0], [0, -1e-9, 2, 0], [0, 0, 0, 0]]), dict(f=[[0, -3.0], [0, 0]])]
    ctx.explore("trimming", cases, trim)
    cases = [dict(x=x, s=s, ys=[-2.0, 0.0, 0.5, 3.0]) for x in (0, 1, -2, 0.5, -1.5, 7.0, 3, [0.0, 1.0, -2.5], [[1.0, 2.0], [3.0, 4.0]],
                                                               [1, 2, -3])
             for s in (1, 0.5, 2.0, 3, 10.0)]
    cases += [dict(x=x, s=s, ys=[-2.0, 0.5], wrap=w)
              for x in (0.5, -2, [0.0, 1.0, -2.5], [1, 2, -3], [[1.0, 2.0, 0.5], [3.0, 4.0, -1.0]])
              for s in ([1.0, 2.0, 0.5], [0.25, 10.0, 3.0], [1, 1, 3], [5.0]) for w in ("array", "list")]
    ctx.explore("filter functions", cases, kernels)
    ctx.explore("invalid arguments", [dict(method=m) for m in ("", "fft", "Scipy", None, 1)], refuse)
    ctx.explore("every magnitude", [dict(what=w, scale=s) for w in SCALED for s in MODERATE], scaled(SCALED))
    ctx.explore("narrow types", narrow(TYPED), typed(TYPED))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(CALLS), laid_out(CALLS))
