"""C14: low-rank proximity operator: exact, whatever the rank hints and the history."""

import itertools

import numpy as np

from modopt.opt.proximity import LowRankMatrix

from .. import proxhist
from ..common import call_words, calls, data, layout_cases, laid_out, matrix, narrow, typed
from .c12 import soft


def cube(shape, rank, seed, dtype=float, scale=1.0, close=False):
    """Data whose matrix form has the given singular values, well separated or close."""
    n, size = shape[0], int(np.prod(shape[1:]))
    full = min(n, size)
    left, _ = np.linalg.qr(matrix(size, full, seed, dtype))
    right, _ = np.linalg.qr(matrix(n, full, seed + 1, dtype))
    s = np.array([scale * 3.0 * 0.6**k if k < rank else 0.0 for k in range(full)])
    if close:
        s = np.where(np.arange(full) < rank, scale * np.linspace(2.0, 1.0, full), 0.0)
    if isinstance(close, str):
        # just above and just below one
        step = float(close[1:])
        s = scale * np.array([5.0 if k < rank else 1 + step if k % 2 or close[0] == "+" else 1 - step
                              for k in range(full)])
    mat = (left * s) @ right.conj().T
    return mat.T.reshape(shape).astype(dtype)


def threshold(x, level, kind):
    """Reference: full SVD of the matrix form."""
    mat = x.reshape(x.shape[0], -1).T
    u, s, v = np.linalg.svd(mat, full_matrices=False)
    s = np.maximum(s - level, 0) if kind == "soft" else np.where(s >= level, s, 0)
    return ((u * s) @ v).T.reshape(x.shape), int(np.count_nonzero(s))


def prox(inst, x, f, rank):
    kwargs = {}
    if f != 1.0:
        kwargs["extra_factor"] = f
    if rank is not None:
        kwargs["rank"] = rank
    return inst.op(x, **kwargs)


def history(case, obs):
    """One instance, a sequence of data, factors and rank hints."""
    scale = case.get("scale", 1.0)
    thresh = case["thresh"] * scale
    inst = LowRankMatrix(thresh, thresh_type=case["type"], initial_rank=case["initial"])
    for k, (what, rank, f) in enumerate(case["steps"]):
        x = cube(tuple(case["shape"]), what, 3 * k + 1, case.get("dtype", "float64"), scale,
                 case.get("close", False))
        before = x.copy()
        got = prox(inst, x, f, rank)
        want, left = threshold(x, thresh * f, case["type"])
        obs.close(got, want, f"step {k} (rank {what}, hint {rank}, factor {f})",
                  **({"rtol": 5e-3, "atol": 5e-3} if case.get("dtype") == "float32"
                     else {"rtol": 1e-5, "atol": 1e-6 * scale}))
        obs.exact(x, before, "the argument was modified")
        obs.state(case["shape"], case["type"], case["initial"], k, what, rank, f, left)
    obs.outcome([s[0] for s in case["steps"]], left)


def ngole(case, obs):
    """lowr_type='ngole': coefficient thresholding."""
    shape = tuple(case["shape"])
    x = cube(shape, min(shape[0], shape[1] * shape[2]), case["seed"])
    op = {"double": lambda c: 2.0 * c, "id": lambda c: c,
          "mask": lambda c: c * np.linspace(0.5, 1.5, c.shape[1])[None, :, None]}[case["op"]]
    inst = LowRankMatrix(case["thresh"], thresh_type=case["type"], lowr_type="ngole", operator=op)
    for f in (1.0, 0.5, 1.0):
        got = prox(inst, x, f, None)
        mat = x.reshape(shape[0], -1).T
        u, s, v = np.linalg.svd(mat, full_matrices=False)
        coef = s[:, None] * v
        imgs = op(u.T.reshape(u.shape[1], shape[1], shape[2]))
        level = case["thresh"] * f * np.array([np.linalg.norm(i) for i in imgs])[:, None]
        coef = soft(coef, level) if case["type"] == "soft" else np.where(np.abs(coef) >= level, coef, 0)
        want = (u @ coef).T.reshape(shape)
        obs.close(got, want, "ngole operator", rtol=1e-6, atol=1e-8)
        obs.state(shape, case["op"], want)
    obs.outcome(case["type"], want)


def _typed_rank(kind, start):
    def fn(x, y):
        inst = LowRankMatrix(20.0, thresh_type=kind, initial_rank=start)
        for v in (x[0], y[0], x.reshape(4, 4, 4), x[0]):
            for f in (1.0, 0.2):
                yield f"op, factor {f}", inst.op(v, extra_factor=f)
    return fn


TYPED = {f"{k} {r}": _typed_rank(k, r) for k in ("soft", "hard") for r in (None, 1)}


def _steps(make):
    def build():
        inst = make()
        return lambda x: [inst.op(x), inst.op(x, extra_factor=0.5), inst.cost(x)]
    return build, [(4, 2, 3)]


CALLS = {f"{k} {r}": _steps(lambda k=k, r=r: LowRankMatrix(1.0, thresh_type=k, initial_rank=r))
         for k in ("soft", "hard") for r in (None, 1)}


def run(ctx):
    # all histories over (rank of the data, hint, factor)
    letters = [(r, h, f) for r in (1, 2, 4, 7) for h in (None, 1, 3) for f in (1.0, 0.25)]
    letters += [(0, None, 1.0), (7, None, 0.0)]
    cases = [
        dict(shape=(9, 2, 5), steps=list(seq), thresh=0.5, type=t, initial=i)
        for seq in itertools.product(letters, repeat=ctx.pick(2, 3)) for t in ("soft", "hard")
        for i in (None, 1, 2, 9)
    ]
    few = [(1, None, 1.0), (4, None, 1.0), (7, 1, 0.25), (0, None, 1.0)]
    cases += [
        dict(shape=s, steps=list(seq), thresh=0.4, type=t, initial=i, dtype=d)
        for s in ((3, 2, 2), (8, 3, 3), (12, 3, 2)) for seq in itertools.product(few, repeat=3)
        for t in ("soft", "hard") for i in (None, 1, 5, 20) for d in ("float64", "complex128")
    ]
    ctx.explore("all histories of rank hints", cases, history)
    cases = [
        dict(shape=s, steps=[(r, None, 1.0), (r, 2, 0.5), (7, None, 1.0)], thresh=0.4, type=t, initial=i,
             dtype=d, scale=scale)
        for s in ((3, 2, 2), (9, 2, 5), (12, 3, 2)) for r in (1, 3) for t in ("soft", "hard")
        for i in (None, 1, 5) for d in ("float64", "complex128") for scale in (1e-10, 1e-5, 1e5, 1e10)
    ]
    ctx.explore("data of every magnitude", cases, history)
    cases = [
        dict(shape=s, steps=[(r, None, f), (r, 2, f)], thresh=th, type=t, initial=i, dtype=d)
        for s in ((1, 3, 3), (2, 1, 2), (4, 2, 2), (6, 5), (5, 6), (3, 3), (20, 4, 4), (16, 5, 5),
                  (4, 7, 7), (33, 6, 6), (3, 2, 2, 2))
        for r in (1, 2, 3, 16) for f in (1.0, 0.5, 2.0) for th in (0.0, 0.3, 0.7, 2.0, 10.0)
        for t in ("soft", "hard") for i in (None, 2) for d in ("float64", "float32", "complex128")
        # (2, 1, 2)-like matrices are too small for hints below the full rank
    ]
    ctx.explore("shapes and types", cases, history)
    cases = [
        dict(shape=s, steps=[(100, None, 1.0), (100, hint, 1.0), (5, 1, 0.9), (100, None, 0.9)], thresh=th,
             type=t, initial=i, close=True)
        for s in ((9, 2, 5), (12, 3, 4), (20, 5, 5), (30, 6, 6), (40, 7, 7)) for th in (1.93, 1.71, 1.501, 1.007)
        for t in ("soft", "hard") for i in (None, 1, 2, 6) for hint in (2, 3, 8)
    ]
    cases += [
        dict(shape=s, steps=[(w, None, 1.0), (w, 2, 1.0), (w, 1, 1.0), (1, None, 1.0)], thresh=1.0,
             type=t, initial=i, close=c)
        for s in ((16, 3, 4), (9, 2, 5), (20, 5, 5), (30, 6, 6)) for w in (1, 2, 4) for t in ("soft", "hard")
        for i in (None, 1, 2, 4) for c in ("+0.0005", "-0.0005", "+0.01", "-0.01", "+0.00002", "-0.00002")
    ]
    ctx.explore("singular values close to each other", cases, history)
    cases = [
        dict(shape=s, seed=seed, op=o, thresh=th, type=t)
        for s in ((2, 2, 2), (4, 3, 3), (5, 4, 4), (9, 2, 2)) for seed in (1, 2, 3)
        for o in ("id", "double", "mask") for th in (0.0, 0.15, 0.6, 1.7) for t in ("soft", "hard")
    ]
    ctx.explore("ngole", cases, ngole)
    names = ["lowrank-soft", "lowrank-hard"]
    cases = proxhist.cases(names, "of", 5, ("float64",) + ctx.pick((), ("complex128",)))
    ctx.explore("all histories of one operator", cases, proxhist.history)
    ctx.explore("narrow types", narrow(TYPED, ["bool"]), typed(TYPED, loose=True))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(CALLS, ("float64", "complex128")), laid_out(CALLS))
