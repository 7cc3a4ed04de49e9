"""C26: matrix routines: orthogonalisation, norms, rotations, spectral radius."""

import itertools

import numpy as np

from modopt.math.matrix import PowerMethod, gram_schmidt, nuclear_norm, project, rot_matrix, rotate

from ..common import MAGNITUDES, call_words, calls, data, layout_cases, laid_out, narrow, scaled, typed
from ..core import Pruned

DT = {"float64": 1e-9, "float32": 2e-4, "int64": 1e-9, "complex128": 1e-9}


def layouts(x, layout):
    if layout == "fortran":
        return np.asfortranarray(x)
    if layout == "reverse":
        return np.ascontiguousarray(x[::-1])[::-1]
    x = x.copy()
    if layout == "readonly":
        x.flags.writeable = False
    return x


def gram(case, obs):
    a = np.array(case["rows"], dtype=case["dtype"]) if "rows" in case else data(case["shape"], case["seed"], case["dtype"])
    ref = a.astype(float)
    sing = np.linalg.svd(ref, compute_uv=False)
    if ref.shape[0] > ref.shape[1] or sing[-1] < 0.15 * sing[0] or not sing[0]:
        raise Pruned()
    want_u = []
    for i, row in enumerate(ref):
        if i:
            base = ref[:i].T
            row = row - base @ np.linalg.lstsq(base, row, rcond=None)[0]
        want_u.append(row)
    want_u = np.array(want_u)
    want_e = want_u / np.linalg.norm(want_u, axis=1, keepdims=True)
    arg = layouts(a, case.get("layout", "plain"))
    if case.get("wrap") == "list":
        arg = [r for r in a]
    rt = DT[case["dtype"]] * 10
    got_e = gram_schmidt(arg)
    obs.close(got_e, want_e, "default: orthonormal rows", rtol=rt, atol=rt)
    obs.close(gram_schmidt(arg, return_opt="orthonormal"), want_e, "orthonormal rows", rtol=rt, atol=rt)
    obs.close(gram_schmidt(arg, "orthogonal"), want_u, "orthogonal rows", rtol=rt, atol=rt * sing[0])
    both = gram_schmidt(arg, return_opt="both")
    obs.check(len(both) == 2, "both: {} results", len(both))
    obs.close(both[0], want_u, "both: orthogonal rows", rtol=rt, atol=rt * sing[0])
    obs.close(both[1], want_e, "both: orthonormal rows", rtol=rt, atol=rt)
    obs.close(np.asarray(got_e) @ np.asarray(got_e).T, np.eye(len(ref)), "products of rows", rtol=rt, atol=rt)
    obs.exact(np.array(arg), a, "input matrix")
    for bad in ("", "none", None, "Both"):
        obs.raises(ValueError, lambda: gram_schmidt(arg, bad), f"return_opt {bad!r}")
    obs.state(got_e)
    obs.outcome(ref.shape)


def nuclear(case, obs):
    a = np.array(case["rows"], dtype=case["dtype"]) if "rows" in case else data(case["shape"], case["seed"], case["dtype"])
    arg = layouts(a, case.get("layout", "plain"))
    wide = a.astype(complex)
    small = wide @ wide.conj().T if a.shape[0] <= a.shape[1] else wide.conj().T @ wide
    eig = np.clip(np.linalg.eigvalsh(small), 0, None)
    want = np.sum(np.sqrt(eig))
    got = nuclear_norm(arg)
    # singular values near zero are only known to the root of the precision
    obs.check(np.ndim(got) == 0, "nuclear norm is not a number")
    obs.close(got, want, "nuclear norm", rtol=max(1e-6, DT[case["dtype"]]), atol=1e-6 * (1 + want))
    obs.exact(arg, a, "input matrix")
    obs.state(float(got))


def proj(case, obs):
    u, v = np.array(case["u"], dtype=case["dtype"]), np.array(case["v"], dtype=case["dtype"])
    if not u.any():
        raise Pruned()
    keep = u.copy(), v.copy()
    got = project(u, v)
    want = (float(np.sum(u * v)) / float(np.sum(u * u))) * u
    obs.close(got, want, "projection", rtol=DT[case["dtype"]], atol=DT[case["dtype"]])
    obs.close(project(u, got), want, "projection of the projection", rtol=1e-5, atol=1e-6)
    obs.exact(u, keep[0], "u")
    obs.exact(v, keep[1], "v")
    obs.state(got)


def rotation(case, obs):
    ang = case["angle"] * np.pi / 12 if case["unit"] == "steps" else case["angle"]
    got = rot_matrix(ang)
    obs.check(got.shape == (2, 2), "shape {}", got.shape)
    want = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
    obs.close(got, want, "rotation matrix", rtol=0, atol=1e-9)
    obs.close(got @ got.T, np.eye(2), "orthogonality", rtol=0, atol=1e-8)
    obs.state(got)


def turn(case, obs):
    n, k = case["n"], case["k"]
    a = data((n, n), 3 + n, case["dtype"])
    if case["dtype"] == "int64":
        a = np.arange(n * n).reshape(n, n)
    arg = layouts(a, case["layout"])
    got = rotate(arg, k * np.pi / 2)
    if n % 2:
        obs.exact(got, np.rot90(a, k), f"{k} quarter turns")
    else:
        # periodic rotation about the central pixel
        s = (n - 1) // 2
        c, d = [(1, 0), (0, 1), (-1, 0), (0, -1)][k % 4]
        want = np.empty_like(a)
        for i, j in itertools.product(range(n), repeat=2):
            p, q = i - s, j - s
            want[i, j] = a[(p * c + q * d + s) % n, (-p * d + q * c + s) % n]
        obs.exact(got, want, f"{k} quarter turns")
    obs.check(got.dtype == a.dtype, "type {}", got.dtype)
    obs.exact(arg, a, "input matrix")
    obs.state(got)
    obs.outcome(n, k % 4)


def angles(case, obs):
    """Any angle: every entry comes from within a pixel of where it was, the matrix being periodic."""
    n, angle = case["n"], case["angle"]
    a = np.arange(n * n, dtype=case["dtype"]).reshape(n, n)
    keep = a.copy()
    got = rotate(a, angle)
    obs.exact(a, keep, "input matrix")
    obs.check(got.shape == (n, n) and got.dtype == a.dtype, "shape {}, type {}", got.shape, got.dtype)
    s = (n - 1) // 2
    c, d = np.cos(angle), np.sin(angle)
    for i, j in itertools.product(range(n), repeat=2):
        p, q = i - s, j - s
        at = divmod(int(got[i, j]), n)
        obs.check(0 <= got[i, j] < n * n and at[1] + n * at[0] == got[i, j], "entry {} is not of the matrix", got[i, j])
        for place, exact in zip(at, (p * c + q * d + s, -p * d + q * c + s)):
            gap = (place - exact + n / 2) % n - n / 2
            obs.check(abs(gap) < 1 + 1e-9, "entry {},{} of {} rotated by {} comes from {}", i, j, n, angle, at)
    obs.state(got)
    obs.outcome(n)


def odd_shape(case, obs):
    obs.raises(ValueError, lambda: rotate(np.ones(case["shape"]), case["angle"]), f"shape {case['shape']}")
    obs.state(case["shape"])


class Op:
    """Linear operator that keeps what it was asked and what it said."""

    def __init__(self, mat, shape):
        self.mat, self.shape, self.asked, self.said = mat, shape, [], []

    def __call__(self, x):
        self.asked.append(np.array(x, copy=True))
        out = (self.mat @ np.ravel(x)).reshape(self.shape).astype(x.dtype)
        self.said.append(out.copy())
        return out


def power(case, obs):
    shape, dtype = tuple(case["shape"]), case["dtype"]
    size = int(np.prod(shape))
    if "mat" in case:
        mat = np.array(case["mat"], dtype=float)
    else:
        raw = data((size, size), case["seed"], dtype)
        mat = raw @ raw.conj().T + np.eye(size)
    lam = np.sort(np.abs(np.linalg.eigvals(mat)))[::-1]
    if lam[0] < 0.1 or abs(np.linalg.det(mat)) < 1e-9 and size > 2:
        raise Pruned()
    rt = 1e-4 if dtype in ("float32", "complex64") else 1e-9
    op = Op(mat, shape)
    before = np.random.get_state()[1].copy()
    seed = case["rng"] if case["rng"] != "generator" else np.random.default_rng(3)
    pm = PowerMethod(op, shape, data_type=np.dtype(dtype).type if case["typed"] else float, auto_run=False, rng=seed,
                     verbose=case["verbose"])
    obs.check(not op.asked, "operator applied before it was asked to")
    tol, budget, extra = case["tol"], case["budget"], case["extra"]
    for repeat in range(2):
        op.asked, op.said = [], []
        pm.get_spec_rad(tolerance=tol, max_iter=budget, extra_factor=extra)
        if case["rng"] != "generator" and case["rng"] is not None:
            if repeat:
                obs.exact(op.asked[0], start, "a second run with the same seed starts elsewhere")
            start = op.asked[0]
        norms = [np.linalg.norm(o) for o in op.said]
        obs.check(1 <= len(norms) <= budget, "{} iterations for a budget of {}", len(norms), budget)
        for i, x in enumerate(op.asked):
            obs.check(x.shape == shape, "iterate of shape {}", x.shape)
            obs.close(np.linalg.norm(x), 1.0, "norm of the iterate", rtol=max(rt, 1e-6))
            if i:
                obs.close(x, op.said[i - 1] / norms[i - 1], "iterate", rtol=max(rt, 1e-6), atol=max(rt, 1e-7))
            obs.state(x)
        gaps = np.abs(np.diff(norms))
        if np.any(np.abs(gaps - tol) < 1e-12 + (1e-6 if rt > 1e-6 else 0)):
            raise Pruned()
        if len(norms) < budget and len(norms) > 1:
            obs.check(gaps[-1] < tol, "stopped although the norm still moves by {}", gaps[-1])
        obs.check(len(norms) > 1 or budget == 1, "stopped after one iteration")
        obs.check(not np.any(gaps[:-1] < tol), "went on after convergence")
        obs.close(pm.spec_rad, norms[-1] * extra, "spectral radius", rtol=rt * 10)
        obs.close(pm.inv_spec_rad * pm.spec_rad, 1.0, "inverse spectral radius", rtol=rt * 10)
        if budget >= 200 and tol <= 1e-9 and case["sym"] and (size == 1 or lam[1] < 0.9 * lam[0]):
            obs.close(pm.spec_rad, lam[0] * extra, "true spectral radius", rtol=max(1e-6, rt * 10), atol=1e-7)
    obs.exact(np.random.get_state()[1], before, "global random state")
    obs.outcome(len(op.said), pm.spec_rad)


def sharing(case, obs):
    """Operators that keep the array they return, or return their argument."""
    shape, budget = tuple(case["shape"]), case["budget"]
    size = int(np.prod(shape))
    raw = data((size, size), case["seed"], case["dtype"])
    mat = raw @ raw.conj().T + np.eye(size)
    buffer = np.zeros(shape, case["dtype"])
    asked = []

    def fresh(x):
        return (mat @ x.ravel()).reshape(shape)

    def op(x):
        asked.append(x.copy())
        out = fresh(x)
        if case["how"] == "argument":
            x[...] = out
            return x
        if case["how"] == "buffer":
            # a row at a time: the argument must stay what it was meanwhile
            flat = buffer.reshape(size)
            for i in range(size):
                flat[i] = mat[i] @ x.ravel()
            return buffer
        if case["how"] == "view":
            buffer[...] = out
            return buffer[...]
        return out

    pm = PowerMethod(op, shape, data_type=np.dtype(case["dtype"]).type, auto_run=False, rng=3, verbose=False)
    for again in range(2):
        asked.clear()
        pm.get_spec_rad(tolerance=case["tol"], max_iter=budget)
        if not again:
            start = asked[0]
        obs.exact(asked[0], start, "start")
        x, norms = start, []
        for k, seen in enumerate(asked):
            obs.close(seen, x, f"iterate {k}", rtol=1e-7, atol=1e-9)
            y = fresh(seen)
            norms.append(np.linalg.norm(y))
            x = y / norms[-1]
        if case["tol"] < 0:
            obs.check(len(asked) == budget, "{} iterations for a budget of {}", len(asked), budget)
        obs.close(pm.spec_rad, norms[-1], "spectral radius")
        obs.close(pm.inv_spec_rad, 1 / norms[-1], "inverse spectral radius")
        obs.state(case["how"], norms)
    obs.outcome(case["how"], len(asked))


def seeds(case, obs):
    shape = tuple(case["shape"])
    size = int(np.prod(shape))
    mat = data((size, size), 4)
    firsts, values = [], []
    for seed in case["word"]:
        op = Op(mat @ mat.T + np.eye(size), shape)
        pm = PowerMethod(op, shape, rng=seed)
        firsts.append(op.asked[0])
        values.append(pm.spec_rad)
    for i, j in itertools.combinations(range(len(firsts)), 2):
        same = np.array_equal(firsts[i], firsts[j])
        if case["word"][i] == case["word"][j] and case["word"][i] is not None:
            obs.check(same and values[i] == values[j], "seed {} is not reproducible", case["word"][i])
        elif size > 1:
            obs.check(not same, "seeds {} and {} start alike", case["word"][i], case["word"][j])
    obs.state(case["word"], size)
    obs.step(len(firsts))


def _rows(s):
    a = data((3, 5), 1) * s
    yield "orthonormal rows", gram_schmidt(a), 0
    yield "orthogonal rows", gram_schmidt(a, "orthogonal"), 1
    yield "nuclear norm", nuclear_norm(a), 1
    yield "nuclear norm", nuclear_norm(a.T + 1j * s), 1


def _project(s):
    u, v = data((4,), 1), data((4,), 2)
    yield "project, data", project(u, v * s), 1
    yield "project, direction", project(u * s, v), 0
    yield "project, both", project(u * s, v * s), 1


def _turned(s):
    for n in (3, 4):
        yield "rotate", rotate(data((n, n), 1) * s, np.pi / 2), 1


def _power(s):
    mat = data((3, 3), 1)
    mat = s * (mat @ mat.T + np.eye(3))
    for budget in (1, 2, 7, 30):
        pm = PowerMethod(lambda x: mat @ x, (3,), rng=3, auto_run=False)
        pm.get_spec_rad(tolerance=-1.0, max_iter=budget)
        yield "spectral radius", pm.spec_rad, 1
        yield "inverse spectral radius", pm.inv_spec_rad, -1


SCALED = {"rows": _rows, "project": _project, "rotate": _turned, "power": _power}


def _narrow_rows(x, y):
    a = x[0][0][:2]
    yield "orthonormal rows", gram_schmidt(a)
    yield "orthogonal rows", gram_schmidt(a, "orthogonal")


TYPED = {
    "rows": _narrow_rows,
    "nuclear norm": lambda x, y: [("norm", nuclear_norm(x[0][0])), ("norm", nuclear_norm(y[0].reshape(8, 4)))],
    "project": lambda x, y: [("project", project(x[0][0][0], y[0][0][0])), ("project", project(x.ravel(), y.ravel()))],
    "rotate": lambda x, y: [("rotate", rotate(x[0][0], a)) for a in (0.3, np.pi / 2)],
}


CALLS = {
    "rows": (lambda: lambda x: list(gram_schmidt(x, "both")), [(2, 4)]),
    "nuclear norm": (lambda: nuclear_norm, [(2, 4)]),
    "project": (lambda: project, [(4,), (4,)]),
    "rotate": (lambda: lambda x: [rotate(x, np.pi / 2), rotate(x, 0.0)], [(3, 3)]),
    "rotation matrix": (lambda: lambda x: rot_matrix(0.3), [(1,)]),
}


def run(ctx):
    alpha = ctx.pick([-1, 0, 2], [-1, 0, 1, 3])
    grids = [(r, c, v) for r, c in ((1, 1), (1, 2), (2, 2), (1, 3), (2, 3)) + (((3, 3),) if ctx.thorough else ())
             for v in itertools.product(alpha if r * c < 9 else (-1, 0, 2), repeat=r * c)]
    rows = [(r, c, [list(map(float, v[i * c:(i + 1) * c])) for i in range(r)]) for r, c, v in grids]
    cases = [dict(rows=m, dtype=d) for r, c, m in rows for d in ("float64", "int64")]
    cases += [dict(shape=s, seed=seed, dtype=d, layout=lay, wrap=w)
              for s in ((1, 4), (3, 3), (3, 5), (5, 8), (8, 20), (20, 60)) for seed in range(4)
              for d in ("float64", "float32", "int64") for lay in ("plain", "fortran", "readonly") for w in ("array", "list")]
    ctx.explore("Gram-Schmidt", cases, gram)
    cases = [dict(rows=m, dtype=d) for r, c, m in rows for d in ("float64", "int64")]
    cases += [dict(rows=np.array(m).T.tolist(), dtype="float64") for r, c, m in rows if r != c]
    cases += [dict(shape=s, seed=seed, dtype=d, layout=lay)
              for s in ((1, 1), (4, 1), (3, 3), (3, 5), (8, 5), (20, 20), (33, 65), (129, 7)) for seed in range(3)
              for d in ("float64", "float32", "complex128", "int64") for lay in ("plain", "fortran", "reverse", "readonly")]
    ctx.explore("nuclear norm", cases, nuclear)
    vals = [-2.0, 0.0, 1.0, 3.0]
    cases = [dict(u=list(u), v=list(v), dtype=d) for n in (1, 2, 3) for u in itertools.product(vals, repeat=n)
             for v in itertools.product(vals, repeat=n) for d in ("float64", "int64")[: 1 if n == 3 else 2]]
    ctx.explore("projections", cases, proj)
    cases = [dict(angle=k, unit="steps") for k in range(-30, 61)]
    cases += [dict(angle=a, unit="radians") for a in (1, 2, -1, 0.1, 1e-3, -7.5, 100.0, 0)]
    ctx.explore("rotation matrices", cases, rotation)
    cases = [dict(n=n, k=k, dtype=d, layout=lay) for n in range(1, ctx.pick(10, 18)) for k in range(-5, 9)
             for d in ("int64", "float64", "float32", "complex128") for lay in ("plain", "fortran", "reverse", "readonly")]
    ctx.explore("quarter turns", cases, turn)
    cases = [dict(shape=(r, c), angle=a) for r in range(1, 6) for c in range(1, 6) if r != c for a in (0.0, 0.5, 1.5)]
    ctx.explore("rectangular matrices", cases, odd_shape)
    cases = [dict(n=n, angle=k * np.pi / 36, dtype=d) for n in range(1, ctx.pick(12, 24)) for k in range(-72, 73)
             for d in ("int64", "float64")]
    ctx.explore("turns by any angle", cases, angles)
    sym = [[[a, b], [b, c]] for a in (-2, 0, 1, 3) for b in (-1, 0, 2) for c in (-2, 0, 1, 3)]
    gen = [[[a, b], [c, d]] for a, b, c, d in itertools.product((-1, 0, 2), repeat=4)]
    base = dict(shape=(2,), dtype="float64", typed=True, verbose=False)
    cases = [dict(base, mat=m, sym=s, tol=t, budget=b, extra=e, rng=r)
             for pool, s in ((sym, True), (gen, False)) for m in pool for t in (1e-12, 1e-6, 1e-3)
             for b in (1, 2, 20, 400) for e in (1.0, 1.1) for r in (0, 5)]
    cases += [dict(shape=s, seed=seed, dtype=d, typed=d != "float64" or t, verbose=v, sym=True, tol=tol, budget=b, extra=e, rng=r)
              for s in ((1,), (3,), (2, 3), (4, 4), (2, 2, 3), (17,)) for seed in (0, 2)
              for d in ("float64", "float32", "complex128") for t in (False, True) for v in (False, True)
              for tol in (1e-9, 1e-4) for b in (3, 20, 400) for e in (1.0, 2.5) for r in (1, "generator")
              if not (d == "float32" and tol == 1e-9)]
    ctx.explore("power method", cases, power)
    cases = [dict(shape=s, seed=seed, dtype=d, how=h, tol=t, budget=b)
             for s in ((1,), (3,), (2, 2), (5,), (2, 1, 2)) for seed in range(3) for d in ("float64", "complex128")
             for h in ("argument", "buffer", "view", "fresh") for t in (-1.0, 1e-3) for b in range(1, ctx.pick(9, 30))]
    ctx.explore("power method on operators that share their arrays", cases, sharing)
    cases = [dict(shape=s, word=list(w)) for s in ((1,), (3,), (2, 2)) for n in (2, 3)
             for w in itertools.product([0, 1, 7, None], repeat=n)]
    ctx.explore("seeds", cases, seeds)
    ctx.assumptions += ["Gram-Schmidt: rows with condition number at most 7"]
    ctx.explore("every magnitude", [dict(what=w, scale=s) for w in SCALED for s in MAGNITUDES if 1e-130 < s < 1e130], scaled(SCALED))
    ctx.explore("narrow types", narrow(TYPED, [("rows", "bool")]), typed(TYPED))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(CALLS, ("float64", "complex128")), laid_out(CALLS))
