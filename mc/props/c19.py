"""C19: thresholding and positivity act entry by entry as documented."""

import itertools

import numpy as np

from modopt.signal.noise import thresh
from modopt.signal.positivity import positive

from ..common import call_words, calls, data, layout_cases, laid_out, narrow, typed
from ..core import Pruned

GRID = [-4.0, -1.0, -0.25, 0.0, 0.5, 1.0, 3.0]
LEVELS = [0.0, 0.25, 1.0, 2.0, 5.0]
CGRID = [0j, 3 + 4j, -2j, -1 + 0j, 0.6 - 0.8j, 1e-3 + 0j]


def hard(x, t):
    return np.where(np.abs(x) >= t, x, 0)


def soft(x, t):
    mag = np.abs(x)
    return np.where(mag > t, x * (1 - t / np.where(mag > 0, mag, 1)), 0)


def call(x, t, kind):
    return thresh(x, t) if kind == "default" else thresh(x, t, threshold_type=kind)


def vectors(case, obs):
    x = np.array(case["x"]) if case.get("im") is None else np.array(case["x"]) + 1j * np.array(case["im"])
    t = np.array(case["t"]) if isinstance(case["t"], list) else case["t"]
    kind = case["kind"]
    arg = {"array": lambda: x.copy(), "list": x.tolist, "tuple": lambda: tuple(x.tolist())}[case["wrap"]]()
    got = call(arg, t, kind)
    want = soft(x, t) if kind == "soft" else hard(x, t)
    if case.get("im") is not None and kind != "soft":
        # moduli computed two ways may fall on two sides of the threshold
        close = np.abs(np.abs(x) - t) < 1e-9
        whole = (np.real(x) == np.round(np.real(x))) & (np.imag(x) == np.round(np.imag(x)))
        if np.any(close & ~whole):
            raise Pruned("tie")
    obs.close(got, want, f"{kind} threshold", rtol=1e-9, atol=1e-12)
    if case["wrap"] == "array":
        obs.exact(arg, x, "argument modified")
    obs.state(kind, x, want)
    obs.outcome(want)


def scales(case, obs):
    """Very small and very large data and thresholds."""
    x, t = np.array(case["x"]) * case["scale"], case["t"] * case["scale"]
    if case["complex"]:
        x = x * (0.6 + 0.8j)
    if case["kind"] != "soft" and np.any(np.abs(np.abs(x) - t) < 1e-9 * case["scale"]):
        raise Pruned("tie")
    got = call(x, t, case["kind"])
    want = soft(x, t) if case["kind"] == "soft" else hard(x, t)
    obs.close(np.asarray(got) / case["scale"], want / case["scale"], f"{case['kind']} threshold", rtol=1e-9, atol=1e-12)
    obs.state(want)
    obs.outcome(case["scale"], case["kind"])


def single(case, obs):
    """Single precision data of every magnitude."""
    x = (np.array(case["x"]) * case["scale"]).astype("complex64" if case["complex"] else "float32")
    if case["complex"]:
        x = x * np.complex64(0.6 + 0.8j)
    t = case["t"] * case["scale"]
    wide = x.astype(complex if case["complex"] else float)
    if case["kind"] != "soft" and np.any(np.abs(np.abs(wide) - t) < 1e-5 * case["scale"]):
        raise Pruned("tie")
    want = soft(wide, t) if case["kind"] == "soft" else hard(wide, t)
    got = np.asarray(call(x, t, case["kind"])).astype(wide.dtype)
    obs.close(got / case["scale"], want / case["scale"], f"{case['kind']} threshold", rtol=1e-4, atol=1e-5)
    obs.state(want)
    obs.outcome(case["scale"], case["kind"])


def infinite(case, obs):
    """Infinities: kept, shrunk to themselves, cut when negative."""
    x = np.array(case["x"]).reshape(case["shape"])
    arg = x.copy()
    with np.errstate(all="ignore"):
        obs.exact(positive(arg), np.where(x > 0, x, 0.0), "positive part")
        obs.exact(np.array(positive([x, x[:1]], ragged=True)[0], float), np.where(x > 0, x, 0.0), "positive part of nested data")
        for t in (0.0, 0.5, 1.0, 2.0):
            obs.exact(thresh(arg, t), np.where(np.abs(x) >= t, x, 0.0), "hard threshold")
            obs.exact(thresh(arg, t, "soft"), np.sign(x) * np.maximum(np.abs(x) - t, 0), "soft threshold")
        top = float("inf")
        cut = [(t, np.where(np.abs(x) >= t, x, 0.0)) for t in (top, np.full(x.shape, top))]
        cut += [(np.where(np.arange(x.size).reshape(x.shape) % 2, top, 1.0),
                 np.where(np.abs(x) >= np.where(np.arange(x.size).reshape(x.shape) % 2, top, 1.0), x, 0.0))]
        for t, want in cut:
            got = thresh(arg, t)
            obs.exact(np.where(np.isnan(got), 0.0, got), want, "hard threshold, infinite")
            kept = np.isfinite(x)
            obs.exact(np.asarray(thresh(arg, t, "soft"))[kept], (np.sign(x) * np.maximum(np.abs(x) - t, 0))[kept],
                      "soft threshold, infinite")
        for v in x.ravel():
            obs.check(positive(float(v)) == max(v, 0.0), "positive part of {}", v)
    obs.exact(arg, x, "argument modified")
    obs.state(x)


def larger(case, obs):
    shape, dtype = tuple(case["shape"]), np.dtype(case["dtype"])
    x = data(shape, 3, dtype)
    if case["layout"] == "reverse":
        x = x[..., ::-1]
    elif case["layout"] == "fortran":
        x = np.asfortranarray(x)
    elif case["layout"] == "readonly":
        x.flags.writeable = False
    t = {"scalar": 0.7, "zero": 0.0, "array": np.abs(data(shape, 5)) * 0.5 + 0.01,
         "row": np.abs(data(shape[-1:], 6)) * 0.5 + 0.01, "int": 1}[case["t"]]
    t0 = np.array(t)
    x0 = x.copy()
    got = call(x, t, case["kind"])
    want = soft(x0, t) if case["kind"] == "soft" else hard(x0, t)
    single = dtype in (np.dtype("float32"), np.dtype("complex64"))
    obs.close(got, want, f"{case['kind']} threshold", rtol=1e-5 if single else 1e-9,
              atol=1e-5 if single else 1e-12)
    obs.exact(x, x0, "argument modified")
    obs.exact(t, t0, "threshold modified")
    if dtype.kind in "fc":
        obs.check(np.asarray(got).dtype.kind == dtype.kind, "type changed to {}", np.asarray(got).dtype)
    obs.state(case["kind"], want[..., :4])
    obs.outcome(shape, str(dtype), case["kind"])


def pos(case, obs):
    x = np.array(case["x"]).astype(case["dtype"])
    want = np.where(x > 0, x, 0)
    arg = {"array": lambda: x.copy(), "list": x.tolist, "tuple": lambda: tuple(x.tolist())}[case["wrap"]]()
    got = positive(arg)
    obs.exact(got, want, "positive part")
    if case["wrap"] == "array":
        obs.exact(arg, x, "argument modified")
    for v in x.ravel():
        g = positive(v.item())
        obs.check(g == max(v.item(), 0), "positive part of the number {} is {}", v, g)
    obs.state(x)
    obs.outcome(want)


def pos_large(case, obs):
    x = data(tuple(case["shape"]), 4, case["dtype"])
    if case["layout"] == "fortran":
        x = np.asfortranarray(x)
    elif case["layout"] == "reverse":
        x = x[::-1]
    elif case["layout"] == "readonly":
        x.flags.writeable = False
    x0 = x.copy()
    got = positive(x)
    obs.exact(got, np.where(x0 > 0, x0, 0), "positive part")
    obs.check(got.dtype == x.dtype, "type changed to {}", got.dtype)
    obs.exact(x, x0, "argument modified")
    obs.state(x0[..., :3])
    obs.outcome(case["shape"], case["dtype"])


def build(spec):
    """Nested lists of arrays from a nested list of sizes."""
    counter = itertools.count(1)

    def rec(item):
        if isinstance(item, (list, tuple)):
            return [rec(i) for i in item]
        k = next(counter)
        if item == 0:
            # a plain number among the lists
            return np.array((-1.5) ** k)
        return data((item,), k)

    return rec(spec)


def same(got, src, obs, label):
    if isinstance(src, list):
        obs.check(len(got) == len(src), "{} items instead of {}", len(got), len(src))
        for g, s in zip(got, src):
            same(g, s, obs, label)
    else:
        obs.close(np.asarray(got).astype(float), np.where(src > 0, src, 0), label)


def ragged(case, obs):
    src = build(case["spec"])
    keep = build(case["spec"])

    def pack(item):
        if isinstance(item, list):
            out = np.empty(len(item), dtype=object)
            for k, v in enumerate(item):
                out[k] = pack(v)
            return out
        return item.copy()

    def plain(item):
        return [plain(v) for v in item] if isinstance(item, list) else item.tolist()

    def tuples(item):
        if isinstance(item, list):
            return tuple(tuples(v) for v in item)
        return tuple(item.tolist()) if item.ndim else item.item()

    def mixed(item, level=0):
        if isinstance(item, list):
            made = [mixed(v, level + k) for k, v in enumerate(item)]
            return tuple(made) if level % 2 else made
        if not item.ndim:
            return item.item()
        return (item.tolist, lambda: tuple(item.tolist()), item.copy)[level % 3]()

    arg = {"object": pack, "list": lambda v: v, "plain": plain, "tuple": lambda v: tuple(plain(v)),
           "tuples": tuples, "inner": lambda v: [tuples(i) for i in v], "mixed": mixed}[
        case["wrap"]](src)
    got = positive(arg, ragged=True)
    same(got, keep, obs, "positive part of nested data")

    def intact(a, b):
        if isinstance(b, list):
            for p, q in zip(a, b):
                intact(p, q)
        else:
            obs.exact(np.asarray(a).astype(float), b, "argument modified")

    intact(arg, keep)
    obs.state(case["spec"])
    obs.outcome(case["spec"])


TYPED = {
    "hard": lambda x, y: [("hard", thresh(x, t)) for t in (0, 1, 50, 60.5, 1e4)],
    "soft": lambda x, y: [("soft", thresh(x, t, "soft")) for t in (0, 1, 50, 60.5, 1e4)],
    "array": lambda x, y: [(k, thresh(x, np.abs(y.astype(float)), k)) for k in ("hard", "soft")],
    "positive": lambda x, y: [("positive", positive(x)), ("positive", positive(y[0]))],
}


CALLS = {
    **{f"{k} {n}": (lambda k=k, t=t: lambda x: thresh(x, t, k), [(2, 3)])
       for k in ("hard", "soft") for n, t in (("number", 0.5), ("array", np.array([0.5, 1.0, 2.0])))},
    **{f"{k}, two arrays": (lambda k=k: lambda x, y: thresh(x, np.abs(y), k), [(2, 3), (2, 3)]) for k in ("hard", "soft")},
    "positive": (lambda: positive, [(2, 3)]),
}


def run(ctx):
    n = ctx.pick(2, 3)
    cases = []
    for x in itertools.product(GRID, repeat=n):
        for t in LEVELS + [list(p) for p in itertools.product([0.0, 1.0, 3.5], repeat=n)]:
            for kind in ("default", "hard", "soft"):
                for wrap in ("array", "list", "tuple"):
                    cases.append(dict(x=list(x), t=t, kind=kind, wrap=wrap))
    for x in itertools.product(CGRID, repeat=2):
        for t in (0.0, 0.5, 1.0, 2.0, 3.0, 5.0, [0.3, 6.0]):
            for kind in ("hard", "soft"):
                cases.append(dict(x=[c.real for c in x], im=[c.imag for c in x], t=t, kind=kind, wrap="array"))
    ctx.explore("all small vectors", cases, vectors)
    cases = [dict(x=list(x), t=t, scale=s, kind=k, complex=c)
             for x in itertools.product([-4.0, -1.0, 0.0, 0.25, 3.0], repeat=2) for t in (0.0, 0.2, 1.5, 3.5, 9.0)
             for s in (1e-300, 1e-120, 1e-60, 1e-30, 1e-20, 1e-17, 2e-16, 1e-15, 1e-13, 1e-10, 4e-8, 1e-5, 1e-2, 1e3, 1e7, 1e12,
                       1e30, 1e120, 1e295, 1e300) for k in ("hard", "soft") for c in (False, True)]
    ctx.explore("scales", cases, scales)
    cases = [dict(x=list(x), t=t, scale=s, kind=k, complex=c)
             for x in itertools.product([-4.0, -1.0, 0.0, 0.25, 3.0], repeat=2) for t in (0.0, 0.2, 1.5, 3.5, 9.0)
             for s in (1e-30, 1e-20, 1e-15, 1e-10, 1e-5, 1.0, 1e5, 1e10, 1e20, 1e24, 1e30) for k in ("hard", "soft") for c in (False, True)]
    ctx.explore("scales, single precision", cases, single)
    big = float("inf")
    cases = [dict(x=list(x), shape=s) for s in ((1,), (2,), (3,), (1, 2), (2, 2)) for x in
             itertools.product([big, -big, 2.0, -0.5, 0.0][: 5 if np.prod(s) < 4 else 4], repeat=int(np.prod(s)))]
    ctx.explore("infinities", cases, infinite)
    shapes = [(1,), (9,), (2, 3), (1, 1), (3, 4, 5), (2, 1, 3, 2), (1025,), (65, 33)]
    cases = [dict(shape=s, dtype=d, layout=lay, t=t, kind=k)
             for s in shapes for d in ("float64", "float32", "complex128", "complex64", "int64")
             for lay in ("plain", "reverse", "fortran", "readonly")
             for t in ("scalar", "zero", "array", "row", "int") for k in ("hard", "soft")]
    ctx.explore("shapes, layouts, types, thresholds", cases, larger)
    cases = [dict(x=list(x), dtype=d, wrap=w)
             for m in (1, 2, 3) for x in itertools.product([-3.0, -1.0, 0.0, 2.0, 5.0], repeat=m)
             for d in ("float64", "int64") for w in ("array", "list", "tuple")]
    cases += [dict(x=[list(p), list(q)], dtype="float64", wrap=w)
              for p in itertools.product([-3.0, 0.0, 2.0], repeat=2)
              for q in itertools.product([-3.0, 0.0, 2.0], repeat=2) for w in ("array", "list", "tuple")]
    ctx.explore("positivity of all small vectors", cases, pos)
    cases = [dict(shape=s, dtype=d, layout=lay) for s in shapes
             for d in ("float64", "float32", "int64", "int32") for lay in ("plain", "fortran", "reverse", "readonly")]
    ctx.explore("positivity of larger arrays", cases, pos_large)
    leaf = [1, 2, 4]
    specs = [list(p) for m in (2, 3) for p in itertools.product(leaf, repeat=m)]
    nested = [[a, b] for a in ([1, 3], [2, 5, 1], 4) for b in ([2, 1], 3, [1, 2, 4])]
    nested = [s for s in nested if any(isinstance(v, list) for v in s)]
    deep = [[[1, [2, 3]], 4], [[[3, 1], 2], [1, 5]], [2, [1, [4, [2, 1]]]]]
    cases = [dict(spec=s, wrap="object") for s in specs + nested + deep]
    cases += [dict(spec=s, wrap="list") for s in specs]
    cases += [dict(spec=s, wrap=w) for s in specs + nested + deep for w in ("plain", "tuple", "tuples", "inner", "mixed")]
    numbers = [[0, 2], [2, 0], [0, 3, 0], [[0, 2], 0], [[2, 1, 0], [0, 3]], [0, [1, [0, 2]], 4]]
    cases += [dict(spec=s, wrap=w) for s in numbers for w in ("plain", "tuple", "tuples", "inner", "mixed")]
    ctx.explore("positivity of nested data", cases, ragged)
    ctx.explore("narrow types", narrow(TYPED), typed(TYPED))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(CALLS, ("float64", "complex128")), laid_out(CALLS))
