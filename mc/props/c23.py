"""C23: cube, map and matrix layouts are exact, mutually inverse rearrangements."""

import itertools

import numpy as np

from modopt.base import np_adjust
from modopt.base.transform import (
    cube2map, cube2matrix, map2cube, map2matrix, matrix2cube, matrix2map)

from ..common import call_words, calls, data, layout_cases, laid_out

DTYPES = ("float64", "float32", "int64", "complex128", "uint8", "bool")


def numbered(shape, dtype):
    if dtype == "bool":
        return data(shape, 3) > 0
    x = np.arange(1, int(np.prod(shape)) + 1).reshape(shape)
    if dtype == "complex128":
        return x * (1 + 0.5j)
    if dtype.startswith("float"):
        return (x * 0.5 - 3).astype(dtype)
    return x.astype(dtype)


def layouted(a, how):
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "reverse":
        return a[..., ::-1]
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


def ref_map(cube, layout):
    n, h, w = cube.shape
    out = np.zeros((layout[0] * h, layout[1] * w), cube.dtype)
    for k in range(n):
        r, c = divmod(k, layout[1])
        for i in range(h):
            for j in range(w):
                out[r * h + i, c * w + j] = cube[k, i, j]
    return out


def ref_matrix(cube):
    n = cube.shape[0]
    out = np.zeros((int(np.prod(cube.shape[1:])), n), cube.dtype)
    for k in range(n):
        for pos, idx in enumerate(np.ndindex(*cube.shape[1:])):
            out[pos, k] = cube[(k,) + idx]
    return out


def wrapped(layout, how):
    return {"tuple": tuple, "list": list, "array": np.array}[how](layout)


def same(obs, got, want, label):
    obs.exact(got, want, label)
    obs.check(got.dtype == want.dtype, "{}: type {} instead of {}", label, got.dtype, want.dtype)


def cubes(case, obs):
    layout = tuple(case["layout"])
    h, w = case["image"]
    cube = layouted(numbered((layout[0] * layout[1], h, w), case["dtype"]), case["memory"])
    cube0 = cube.copy()
    lay = wrapped(layout, case["wrap"])
    the_map = ref_map(cube0, layout)
    matrix = ref_matrix(cube0)
    same(obs, cube2map(cube, lay), the_map, "cube2map")
    arg = layouted(the_map, case["memory"]) if case["memory"] != "reverse" else the_map
    same(obs, map2cube(arg, lay), cube0, "map2cube")
    same(obs, cube2matrix(cube), matrix, "cube2matrix")
    marg = layouted(matrix, case["memory"]) if case["memory"] != "reverse" else matrix
    same(obs, matrix2cube(marg, wrapped((h, w), case["wrap"])), cube0, "matrix2cube")
    same(obs, map2cube(cube2map(cube, lay), lay), cube0, "map2cube after cube2map")
    same(obs, cube2map(map2cube(arg, lay), lay), the_map, "cube2map after map2cube")
    same(obs, matrix2cube(cube2matrix(cube), (h, w)), cube0, "matrix2cube after cube2matrix")
    same(obs, map2matrix(arg, lay), matrix, "map2matrix")
    same(obs, cube2matrix(map2cube(arg, lay)), map2matrix(arg, lay), "the two ways from map to matrix")
    if h == w:
        same(obs, matrix2map(marg, wrapped(the_map.shape, case["wrap"])), the_map, "matrix2map")
        same(obs, matrix2map(map2matrix(arg, lay), the_map.shape), the_map, "matrix2map after map2matrix")
        same(obs, matrix2map(cube2matrix(cube), the_map.shape), cube2map(cube, lay),
             "the two ways from cube to map")
    obs.exact(cube, cube0, "argument modified")
    obs.state(layout, h, w, case["dtype"])
    obs.outcome(layout, h, w)


def refuse(case, obs):
    layout = tuple(case["layout"])
    n = layout[0] * layout[1]
    for wrong in {n - 1, n + 1, 2 * n} - {0}:
        obs.raises(ValueError, lambda: cube2map(np.zeros((wrong, 2, 2)), layout), f"{wrong} images")
    obs.raises(ValueError, lambda: cube2map(np.zeros((n, 4)), layout), "2-D cube")
    obs.raises(ValueError, lambda: cube2map(np.zeros((n, 2, 2, 1)), layout), "4-D cube")
    for dr, dc in ((1, 0), (0, 1), (1, 1)):
        shape = (layout[0] * 2 + dr, layout[1] * 2 + dc)
        if shape[0] % layout[0] or shape[1] % layout[1]:
            obs.raises(ValueError, lambda: map2cube(np.zeros(shape), layout), f"map of shape {shape}")
            obs.raises(ValueError, lambda: map2matrix(np.zeros(shape), layout), f"map of shape {shape}")
    shape = (layout[0] * 2, layout[1] * 2)
    for rows, cols, to in ((4, n + 1, shape), (4, n, (shape[0] + 1, shape[1])), (4, n, (shape[0], shape[1] + 1)),
                           (6, n, shape), (3, n, shape), (5, n, shape),
                           (6, n, (layout[0] * 2, layout[1] * 3))):
        if cols:
            obs.raises(ValueError, lambda: matrix2map(np.ones((rows, cols)), to), f"{cols} images of {rows} pixels in a map {to}")
    obs.state(layout)
    obs.outcome(layout)


def adjust(case, obs):
    shape = tuple(case["shape"])
    x = layouted(numbered(shape, case["dtype"]), case["memory"])
    x0 = x.copy()
    if x.ndim >= 2:
        same(obs, np_adjust.rotate(x), x0[::-1, ::-1], "rotate")
        obs.exact(np_adjust.rotate(np_adjust.rotate(x)), x0, "rotating twice")
    if x.ndim >= 3:
        same(obs, np_adjust.rotate_stack(x), x0[:, ::-1, ::-1], "rotate_stack")
    for roll in range(-x.ndim - 1, x.ndim + 2):
        order = tuple((k - roll) % x.ndim for k in range(x.ndim))
        want = np.transpose(x0, order)
        same(obs, np_adjust.fancy_transpose(x, roll), want, f"fancy_transpose by {roll}")
        obs.exact(np_adjust.fancy_transpose(want, -roll), x0, "rolled back")
    same(obs, np_adjust.fancy_transpose(x), np.moveaxis(x0, -1, 0), "fancy_transpose")
    same(obs, np_adjust.ftr(x), np.moveaxis(x0, -1, 0), "ftr")
    same(obs, np_adjust.ftl(x), np.moveaxis(x0, 0, -1), "ftl")
    obs.exact(np_adjust.ftl(np_adjust.ftr(x)), x0, "ftl after ftr")
    obs.exact(np_adjust.ftr(np_adjust.ftl(x)), x0, "ftr after ftl")
    obs.exact(x, x0, "argument modified")
    obs.state(shape, case["dtype"])
    obs.outcome(shape)


def pad(case, obs):
    h, w = case["shape"]
    x = numbered((h, w), case["dtype"])
    x0 = x.copy()
    p = case["p"]
    arg = p if isinstance(p, int) else wrapped(p, case["wrap"])
    a, b = (p, p) if isinstance(p, int) else (p[0], p[-1])
    want = np.zeros((h + 2 * a, w + 2 * b), x.dtype)
    want[a:a + h, b:b + w] = x0
    for src in (x, x.tolist()):
        got = np_adjust.pad2d(src, arg)
        obs.exact(got, want, f"padding by {p}")
    obs.exact(x, x0, "argument modified")
    for wrong in ("1", 1.5, None):
        obs.raises(ValueError, lambda: np_adjust.pad2d(x, wrong), f"padding {wrong!r}")
    obs.state((h, w), p)
    obs.outcome((h, w), p)


CALLS = {
    "cube2map": (lambda: lambda x: cube2map(x, (3, 2)), [(6, 2, 3)]),
    "map2cube": (lambda: lambda x: map2cube(x, (3, 2)), [(6, 4)]),
    "map2matrix": (lambda: lambda x: map2matrix(x, (3, 2)), [(6, 4)]),
    "matrix2map": (lambda: lambda x: matrix2map(x, (6, 4)), [(4, 6)]),
    "cube2matrix": (lambda: cube2matrix, [(3, 2, 2)]),
    "matrix2cube": (lambda: lambda x: matrix2cube(x, (2, 2)), [(4, 3)]),
    "pad2d": (lambda: lambda x: [np_adjust.pad2d(x, 1), np_adjust.pad2d(x, (0, 2))], [(2, 3)]),
    "rotate": (lambda: lambda x: [np_adjust.rotate(x[0]), np_adjust.rotate_stack(x)], [(2, 3, 3)]),
    "transpose": (lambda: lambda x: [np_adjust.ftr(x), np_adjust.ftl(x), np_adjust.fancy_transpose(x, 2)], [(2, 3, 4)]),
}


def run(ctx):
    top = ctx.pick(4, 6)
    cases = [dict(layout=(r, c), image=(h, w), dtype=d, memory=m, wrap=wr)
             for r in range(1, top) for c in range(1, top) for h in range(1, 5) for w in range(1, 5)
             for d in DTYPES for m in ("plain", "fortran", "reverse", "readonly") for wr in ("tuple", "list")
             if wr == "tuple" or (m == "plain" and d == "float64")]
    cases += [dict(layout=(r, c), image=(h, w), dtype=d, memory="plain", wrap=wr)
              for r, c in ((7, 2), (1, 11), (9, 1), (5, 8)) for h, w in ((11, 11), (9, 4), (1, 13), (16, 16))
              for d in ("float64", "int64") for wr in ("tuple", "list", "array")]
    ctx.explore("all layouts and image sizes", cases, cubes)
    cases = [dict(layout=(r, c)) for r in range(1, 6) for c in range(1, 6)]
    ctx.explore("layouts that do not fit", cases, refuse)
    shapes = [s for n in (1, 2, 3) for s in itertools.product((1, 2, 3, 4), repeat=n)]
    shapes += [(2, 3, 4, 5), (1, 2, 1, 3), (3, 3, 3, 3), (2, 2, 3, 1, 2)]
    cases = [dict(shape=s, dtype=d, memory=m) for s in shapes for d in ("float64", "int64", "complex128")
             for m in ("plain", "fortran", "reverse", "readonly")]
    ctx.explore("rotations and transpositions", cases, adjust)
    cases = [dict(shape=(h, w), dtype=d, p=p, wrap=wr)
             for h in range(1, 5) for w in range(1, 5) for d in ("float64", "int64")
             for p in [0, 1, 2, 3] + [list(q) for q in itertools.product(range(4), repeat=2)] + [[2]]
             for wr in ("tuple", "list", "array")]
    ctx.explore("padding", cases, pad)
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(CALLS, ("float64", "complex128")), laid_out(CALLS))
