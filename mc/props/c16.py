"""C16: linear operators are linear and their adjoints are adjoint."""

import itertools

import numpy as np

from modopt.opt.linear import (
    Identity, LinearCombo, LinearParent, MatrixOperator, WaveletConvolve)

from ..common import MAGNITUDES, MODERATE, call_words, calls, data, layout_cases, laid_out, matrix, narrow, scaled, typed
from ..refs import conv_same, conv_wrap


def basis(shape, cplx=False):
    size = int(np.prod(shape))
    for k in range(size):
        e = np.zeros(size, dtype=complex if cplx else float)
        e[k] = 1
        yield e.reshape(shape)


def columns(fn, shape, cplx=False):
    """Matrix of a linear map, column by column."""
    return np.array([np.ravel(fn(e)) for e in basis(shape, cplx)]).T


def entries(spec):
    return np.array([[complex(*v) if isinstance(v, (list, tuple)) else v for v in row]
                     for row in spec])


def mat_case(case, obs):
    a = entries(case["a"]).astype(np.dtype(case["dtype"]))
    before = a.copy()
    inst = MatrixOperator(a)
    m, n = a.shape
    for tail in [(), (1,), (3,)]:
        x = data((n,) + tail, 2, case["xtype"])
        y = data((m,) + tail, 5, case["xtype"])
        x0, y0 = x.copy(), y.copy()
        obs.close(inst.op(x), np.tensordot(before, x0, 1), "op")
        obs.close(inst.adj_op(y), np.tensordot(before.conj().T, y0, 1), "adj_op")
        lhs = np.vdot(inst.op(x), y)
        rhs = np.vdot(x, inst.adj_op(y))
        obs.close(lhs, rhs, "<Ax, y> = <x, A*y>")
        obs.exact(x, x0, "argument modified")
        obs.exact(y, y0, "argument modified")
    for tail in ((2, n), (1, n), (2, 2, n)):
        # stacks of columns: each one is transformed
        x, y = data(tail + (2,), 2, case["xtype"]), data(tail[:-1] + (m, 2), 5, case["xtype"])
        obs.close(inst.op(x), np.einsum("ij,...jk->...ik", before, x), "op on a stack")
        obs.close(inst.adj_op(y), np.einsum("ji,...jk->...ik", before.conj(), y), "adj_op on a stack")
    obs.exact(a, before, "matrix modified")
    obs.state(a)
    obs.outcome(a)


def mat_large(case, obs):
    a = matrix(case["m"], case["n"], 4, case["dtype"])
    if case["layout"] == "transposed":
        a = np.ascontiguousarray(a.T).T
    inst = MatrixOperator(a)
    t = dict(rtol=1e-4, atol=1e-3) if case["dtype"] in ("float32", "complex64") else {}
    for seed in range(2):
        x = data((case["n"],), 2 + seed, case["dtype"])
        y = data((case["m"],), 6 + seed, case["dtype"])
        obs.close(inst.op(x), a @ x, "op", **t)
        obs.close(inst.adj_op(y), a.conj().T @ y, "adj_op", **t)
        obs.state(a[:2, :2], x[:3])
    obs.outcome(case["m"], case["n"], case["dtype"])


def ident(case, obs):
    x = data(tuple(case["shape"]), 3, case["dtype"])
    inst = Identity()
    before = x.copy()
    obs.exact(inst.op(x), before, "op")
    obs.exact(inst.adj_op(x), before, "adj_op")
    obs.check(inst.cost(x) == 0, "cost of the identity")
    obs.state(x)
    obs.outcome(case["shape"])


MEMBERS = {
    "I": lambda: (Identity(), np.eye(3)),
    "A": lambda: (MatrixOperator(matrix(2, 3, 1)), matrix(2, 3, 1)),
    "B": lambda: (MatrixOperator(matrix(4, 3, 2, complex)), matrix(4, 3, 2, complex)),
    "C": lambda: (LinearParent(lambda x: -0.5 * x, lambda y: -0.5 * y), -0.5 * np.eye(3)),
}


def combo(case, obs):
    made = {c: MEMBERS[c]() for c in case["ops"]}
    pairs = [made[c] if case["same"] else MEMBERS[c]() for c in case["ops"]]
    ops, mats = [p[0] for p in pairs], [p[1] for p in pairs]
    w = case["w"]
    if w is not None:
        w = {"list": list, "tuple": tuple, "array": np.array}[case["wrap"]](w)
    ops = {"list": list, "tuple": tuple, "array": np.array}[case["wrap"]](ops)
    inst = LinearCombo(ops) if w is None else LinearCombo(ops, weights=w)
    num = len(mats)
    scale = np.ones(num) / num if w is None else np.asarray(w)
    for seed in range(2):
        x = data((3,), 2 + seed, case["dtype"])
        got = inst.op(x)
        obs.check(len(got) == num, "{} results for {} operators", len(got), num)
        for g, m in zip(got, mats):
            obs.close(g, m @ x, "member of op")
        ys = [data((m.shape[0],), 4 + k + seed, case["dtype"]) for k, m in enumerate(mats)]
        packed = np.empty(num, dtype=object)
        for k, y in enumerate(ys):
            packed[k] = y
        want = sum(s * (m.conj().T @ y) for s, m, y in zip(scale, mats, ys))
        obs.close(inst.adj_op(packed), want, "adj_op of an array")
        obs.close(inst.adj_op(ys), want, "adj_op of a list")
        # adjoint in the weighted inner product
        lhs = sum(s * np.vdot(g, y) for s, g, y in zip(scale, inst.op(x), ys))
        obs.close(lhs, np.vdot(x, inst.adj_op(packed)), "adjoint identity")
        obs.state(case["ops"], x)
    obs.outcome(case["ops"], case["w"])


def combo_grid(case, obs):
    """Combination over images."""
    shape = tuple(case["shape"])
    scales = case["scales"]
    ops = [LinearParent(lambda x, s=s: s * x, lambda y, s=s: s * y) for s in scales]
    w = case["w"]
    inst = LinearCombo(ops, w)
    x = data(shape, 2, case["dtype"])
    got = inst.op(x)
    for g, s in zip(got, scales):
        obs.close(g, s * x, "member of op")
    use = np.ones(len(scales)) / len(scales) if w is None else np.array(w)
    ys = [data(shape, 5 + k, case["dtype"]) for k in range(len(scales))]
    obs.close(inst.adj_op(ys), sum(u * s * y for u, s, y in zip(use, scales, ys)), "adj_op")
    obs.state(shape, scales)
    obs.outcome(shape, w)


def wave(case, obs):
    ishape, fshape, num, stack = (tuple(case["image"]), tuple(case["filter"]), case["filters"],
                                  case["stack"])
    filters = data((num,) + fshape, 3, case["ftype"])
    before = filters.copy()
    inst = (WaveletConvolve(filters) if case["method"] == "default"
            else WaveletConvolve(filters, method=case["method"]))
    conv = conv_wrap if case["method"] == "astropy" else conv_same
    t = dict(rtol=1e-6, atol=1e-7)
    mat = columns(inst.op, (stack,) + ishape)
    adj = columns(inst.adj_op, (stack, num) + ishape)
    allowed = [mat.T]
    if any(n % 2 == 0 for n in fshape):
        # known deviation, pinned by the repository's tests: the centre of a filter of even
        # size moves when it is rotated; exactly that sum of convolutions, nothing else
        allowed.append(columns(lambda c: np.array([sum(conv(b, f[::-1, ::-1]) for b, f in zip(d, filters))
                                                   for d in c]), (stack, num) + ishape))
    hits = [np.allclose(adj, a, **t) for a in allowed]
    obs.check(any(hits), "the adjoint is not the transpose: {} instead of {}", adj, mat.T)
    if not hits[0]:
        obs.known.add("wavelet-adjoint-even")
    obs.step(mat.shape[0] + mat.shape[1])
    x = data((stack,) + ishape, 7)
    x0 = x.copy()
    want = np.array([[conv(img, f) for f in filters] for img in x0])
    obs.close(inst.op(x), want, "op", **t)
    obs.close(inst.op(x).ravel(), mat @ x.ravel(), "op is linear", **t)
    y = data((stack, num) + ishape, 8)
    obs.close(inst.adj_op(y).ravel(), adj @ y.ravel(), "adj_op is linear", **t)
    obs.exact(x, x0, "argument modified")
    obs.exact(filters, before, "filters modified")
    # again on the same instance
    obs.close(inst.op(x), want, "op, second time", **t)
    obs.state(want)
    obs.outcome(ishape, fshape, num, stack, case["method"])


def _matrix(dtype, where):
    def make(s):
        a, x, y = matrix(3, 4, 1, dtype), data((4, 2), 2, dtype), data((3, 2), 3, dtype)
        if where == "matrix":
            a = a * s
        else:
            x, y = x * s, y * s
        inst = MatrixOperator(a)
        yield "op", inst.op(x), 1
        yield "adj_op", inst.adj_op(y), 1
    return make


def _combo(dtype, where):
    def make(s):
        x, y, w = data((3,), 2, dtype), [data((3,), 4, dtype), data((2,), 5, dtype)], [0.25, 1.5]
        ops = [Identity(), MatrixOperator(matrix(2, 3, 1))]
        if where == "weights":
            inst = LinearCombo(ops, [s * v for v in w])
        else:
            x, y = x * s, [s * v for v in y]
            inst = LinearCombo(ops, w) if where == "data" else LinearCombo(ops)
        for k, part in enumerate(inst.op(x)):
            yield f"op {k}", part, 0 if where == "weights" else 1
        yield "adj_op", inst.adj_op(y), 1
    return make


def _wave(method, where):
    def make(s):
        f, x, y = data((2, 3, 3), 3), data((2, 5, 4), 7), data((2, 2, 5, 4), 8)
        if where == "filters":
            f = f * s
        else:
            x, y = x * s, y * s
        inst = WaveletConvolve(f, method=method)
        yield "op", inst.op(x), 1
        yield "adj_op", inst.adj_op(y), 1
    return make


SCALED = {
    **{f"matrix {d} {w}": _matrix(d, w) for d in ("float64", "complex128") for w in ("matrix", "data")},
    **{f"combination {d} {w}": _combo(d, w) for d in ("float64", "complex128") for w in ("weights", "data", "mean")},
    **{f"convolution {m} {w}": _wave(m, w) for m in ("scipy", "astropy") for w in ("filters", "data")},
}


def _typed_matrix(x, y):
    inst = MatrixOperator(x[0][0])
    yield "op", inst.op(y[0][0].astype(float))
    yield "adj_op", inst.adj_op(y[0][0].astype(complex) * 1j)
    inst = MatrixOperator(data((3, 4), 1))
    yield "op", inst.op(x[0][0])
    yield "adj_op", inst.adj_op(y[0][0][:3])


def _typed_combo(x, y):
    for w in (None, [0.5, 2.0]):
        inst = LinearCombo([Identity(), MatrixOperator(data((4, 4), 1))], w)
        for k, part in enumerate(inst.op(x[0][0])):
            yield f"op {k}", part
        yield "adj_op", inst.adj_op(y[0])


def _typed_wave(x, y):
    for method in ("scipy", "astropy"):
        inst = WaveletConvolve(data((2, 3, 3), 3), method=method)
        yield "op", inst.op(x[0])
        yield "adj_op", inst.adj_op(y)
        inst = WaveletConvolve(y[0][:, :3, :3], method=method)
        yield "op", inst.op(x[0])


TYPED = {"matrix": _typed_matrix, "combination": _typed_combo, "convolution": _typed_wave}


CALLS = {
    "matrix": (lambda: MatrixOperator(matrix(4, 3, 1)).op, [(3,)]),
    "matrix, adjoint": (lambda: MatrixOperator(matrix(4, 3, 1, complex)).adj_op, [(4, 2)]),
    "combination": (lambda: LinearCombo([Identity(), MatrixOperator(matrix(2, 3, 1))], [0.5, 2.0]).op, [(3,)]),
    "combination, adjoint": (lambda: (lambda i: lambda x, y: i.adj_op([x, y]))(
        LinearCombo([Identity(), MatrixOperator(matrix(2, 3, 1))], [0.5, 2.0])), [(3,), (2,)]),
    "mean, adjoint": (lambda: (lambda i: lambda x, y: i.adj_op([x, y]))(
        LinearCombo([Identity(), MatrixOperator(matrix(2, 3, 1))])), [(3,), (2,)]),
    "convolution": (lambda: WaveletConvolve(data((2, 3, 3), 3)).op, [(1, 4, 4)]),
    "convolution, adjoint": (lambda: WaveletConvolve(data((2, 3, 3), 3)).adj_op, [(1, 2, 4, 4)]),
    "convolution, both": (lambda: (lambda i: lambda x: [i.op(x), i.adj_op(i.op(x))])(
        WaveletConvolve(data((2, 3, 3), 3))), [(1, 4, 4)]),
}


def run(ctx):
    vals = [0, 1, -2, [0, 1.0]] if not ctx.thorough else [0, 1, -2, 0.5, [0, 1.0], [1.0, -1.0]]
    cases = []
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)) + (((1, 3), (3, 1)) if not ctx.thorough else ((2, 3), (3, 2))):
        for ent in itertools.product(vals if m * n <= 4 else vals[1:5], repeat=m * n):
            a = [list(ent[i * n:(i + 1) * n]) for i in range(m)]
            cplx = any(isinstance(v, list) for v in ent)
            for xt in ("float64", "complex128"):
                cases.append(dict(a=a, dtype="complex128" if cplx else "float64", xtype=xt))
                if not cplx and m * n <= 4:
                    cases.append(dict(a=a, dtype="complex128", xtype=xt))
                    if all(v == int(v) for v in ent):
                        cases.append(dict(a=a, dtype="int64", xtype=xt))
    ctx.explore("all small matrices", cases, mat_case)
    cases = [dict(m=m, n=n, dtype=d, layout=lay)
             for m in (1, 2, 7, 16, 65, 130) for n in (1, 3, 8, 33, 129)
             for d in ("float64", "float32", "complex128", "complex64") for lay in ("plain", "transposed")]
    ctx.explore("larger matrices", cases, mat_large)
    cases = [dict(shape=s, dtype=d) for s in ((1,), (5,), (2, 3), (2, 3, 4), (0,), (513,))
             for d in ("float64", "complex128", "int64", "float32")]
    ctx.explore("identity", cases, ident)
    cases = []
    for num in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for ops in itertools.product("IABC", repeat=num):
            for w in (None, [0.5, 2.0, -1.0, 0.25][:num], [0.0, 1.0, 0.0, 3.0][:num]):
                for wrap in ("list", "tuple", "array"):
                    for d in ("float64", "complex128"):
                        for same in (False, True)[: 2 if len(set(ops)) < num else 1]:
                            cases.append(dict(ops="".join(ops), w=w, wrap=wrap, dtype=d, same=same))
    ctx.explore("all combinations of operators", cases, combo)
    cases = [dict(shape=s, scales=sc, w=w, dtype=d)
             for s in ((1,), (4,), (2, 3), (3, 3), (2, 2, 3), (17, 16))
             for sc, w in (([2.0], None), ([2.0], [0.5]), ([1.0, -3.0], None), ([1.0, -3.0], [0.2, 0.7]),
                           ([1.0, 2.0, 3.0], None), ([1.0, 2.0, 3.0], [1.0, -1.0, 0.5]),
                           ([1.0, 2.0, 3.0, 4.0, 5.0], None))
             for d in ("float64", "complex128")]
    ctx.explore("combinations over images", cases, combo_grid)
    cases = []
    for image in ((3, 3), (4, 4), (3, 5), (5, 4), (7, 3)) + (((8, 6), (9, 9)) if ctx.thorough else ()):
        for filt in ((1, 1), (3, 3), (1, 3), (3, 1), (5, 3), (5, 5), (2, 2), (4, 3), (1, 2), (2, 4)):
            for num in (1, 2, 4):
                for stack in (1, 3):
                    for method in ("default", "scipy", "astropy"):
                        if method == "astropy" and (filt[0] > image[0] or filt[1] > image[1]):
                            continue
                        if method == "astropy" and ctx.tier == "quick" and (stack > 1 and num > 2):
                            continue
                        for ft in ("float64", "int64") if num == 2 else ("float64",):
                            cases.append(dict(image=image, filter=filt, filters=num, stack=stack,
                                              method=method, ftype=ft))
    ctx.explore("wavelet convolution", cases, wave)

    ctx.explore("every magnitude", [dict(what=w, scale=s) for w in SCALED for s in MAGNITUDES
                                    if not w.startswith("convolution") or s in MODERATE], scaled(SCALED))
    ctx.explore("narrow types", narrow(TYPED), typed(TYPED))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(CALLS, ("float64", "complex128")), laid_out(CALLS))
