"""C17: the wavelet transform is the PyWavelets transform and is inverted exactly."""

import itertools
from unittest import mock
import warnings

import numpy as np
import pywt

from modopt.opt.linear import WaveletTransform
from modopt.opt.linear.wavelet import CPUWaveletTransform

from .. import sched
from ..common import MODERATE, call_words, calls, data, layout_cases, laid_out, narrow, scaled, typed
from ..core import Pruned

ORTHO = ("haar", "db2", "sym4", "coif1")


def tols(dtype):
    if np.dtype(dtype) in (np.dtype("float32"), np.dtype("complex64")):
        return dict(rtol=1e-4, atol=2e-4)
    return dict(rtol=1e-9, atol=1e-9)


def oracle(x, wavelet, mode, level):
    return pywt.ravel_coeffs(pywt.wavedecn(x, wavelet=wavelet, mode=mode, level=level))[0] \
        if x.ndim > 1 else \
        np.concatenate(pywt.wavedec(x, wavelet=wavelet, mode=mode, level=level))


def build(case):
    shape = case["shape"]
    shape = shape if isinstance(shape, int) else tuple(shape)
    kwargs = {}
    if case.get("mode") is not None:
        kwargs["mode"] = case["mode"]
    if case.get("level") is not None:
        # None is the default of ModOpt, "all" the maximal level of PyWavelets
        kwargs["level"] = None if case["level"] == "all" else case["level"]
    for key in ("n_batch", "n_jobs", "backend"):
        if case.get(key) is not None:
            kwargs[key] = case[key]
    maker = WaveletTransform if case.get("api", "front") == "front" else CPUWaveletTransform
    return maker(case["wavelet"], shape, **kwargs)


def sizes(case):
    shape = (case["shape"],) if isinstance(case["shape"], int) else tuple(case["shape"])
    level = case.get("level")
    return shape, case.get("mode") or "symmetric", 4 if level is None else None if level == "all" else level


def transform(case, obs):
    shape, mode, level = sizes(case)
    try:
        oracle(np.zeros(shape), case["wavelet"], mode, level)
    except ValueError as exc:
        raise Pruned("PyWavelets has no such transform") from exc
    inst = build(case)
    batch = case.get("n_batch") or 1
    full = shape if batch == 1 else (batch,) + shape
    t = tols(case["dtype"])
    for seed in range(2):
        x = data(full, 3 + seed, case["dtype"])
        if case.get("layout") == "fortran":
            x = np.asfortranarray(x)
        elif case.get("layout") == "readonly":
            x.flags.writeable = False
        x0 = x.copy()
        got = inst.op(x)
        want = (oracle(x0, case["wavelet"], mode, level) if batch == 1 else
                np.array([oracle(x0[i], case["wavelet"], mode, level) for i in range(batch)]))
        obs.close(got, want, "coefficients", **t)
        keep = np.array(got)
        back = inst.adj_op(got)
        obs.close(back, x0, "reconstruction", **t)
        obs.exact(x, x0, "data modified")
        obs.exact(got, keep, "coefficients modified")
        obs.state(case["wavelet"], mode, level, want)
    number = sum(int(np.prod(s)) for s in inst.coeffs_shape)
    obs.check(number == want.shape[-1], "coeffs_shape adds up to {}, {} coefficients", number,
              want.shape[-1])
    obs.outcome(case["wavelet"], mode, shape, level)


def recompose(case, obs):
    """adj_op on arbitrary coefficients is the PyWavelets reconstruction."""
    shape, mode, level = sizes(case)
    zero = np.zeros(shape)
    try:
        dec = pywt.wavedecn(zero, wavelet=case["wavelet"], mode=mode, level=level)
    except ValueError as exc:
        raise Pruned("PyWavelets has no such transform") from exc
    inst = build(case)
    arr, slices, shapes = pywt.ravel_coeffs(dec)
    for seed in range(2):
        c = data(arr.shape, 5 + seed, case["dtype"])
        want = pywt.waverecn(pywt.unravel_coeffs(c, slices, shapes, "wavedecn"),
                             wavelet=case["wavelet"], mode=mode)
        want = want[tuple(slice(0, n) for n in shape)]
        obs.close(inst.adj_op(c), want, "reconstruction of arbitrary coefficients",
                  **tols(case["dtype"]))
        obs.state(case["wavelet"], mode, want)
    if case["wavelet"] in ORTHO and mode == "periodization":
        if all(n % 2 ** level == 0 for n in shape):
            size = int(np.prod(shape))
            eye = np.eye(size)
            mat = np.array([inst.op(e.reshape(shape)) for e in eye]).T
            adj = np.array([np.ravel(inst.adj_op(e)) for e in np.eye(arr.size)]).T
            obs.close(adj, mat.T, "the adjoint is not the transpose", rtol=1e-9, atol=1e-9)
            obs.close(adj @ mat, eye, "not orthogonal", rtol=1e-9, atol=1e-9)
    obs.outcome(case["wavelet"], mode, shape, level)


def history(case, obs):
    """Every sequence of calls on one instance answers like a fresh instance."""
    shape, mode, level = sizes(case)
    batch = case.get("n_batch") or 1
    full = shape if batch == 1 else (batch,) + shape
    inst = build(case)
    t = tols("float64")
    for letter in case["word"]:
        kind, seed = letter
        if kind == "f":
            x = data(full, seed, case["dtype"])
            want = (oracle(x, case["wavelet"], mode, level) if batch == 1 else
                    np.array([oracle(x[i], case["wavelet"], mode, level) for i in range(batch)]))
            obs.close(inst.op(x), want, "op in a history", **t)
        else:
            x = data(full, seed + 4, case["dtype"])
            c = (oracle(x, case["wavelet"], mode, level) if batch == 1 else
                 np.array([oracle(x[i], case["wavelet"], mode, level) for i in range(batch)]))
            obs.close(inst.adj_op(c), x, "adj_op in a history", **t)
        obs.state(case["wavelet"], shape, letter)
    obs.outcome(case["word"], shape)


def race(case, obs):
    """All interleavings of the batch elements, up to a preemption bound."""
    shape, mode, level = sizes(case)
    batch = case["n_batch"]
    inst = build(case)
    x = data((batch,) + shape, 3)
    want = np.array([oracle(x[i], case["wavelet"], mode, level) for i in range(batch)])
    t = tols("float64")
    for how, arg, expect in (("op", x, want), ("adj_op", want, x)):
        for schedule, got in sched.interleavings(lambda: getattr(inst, how)(arg), case["bound"]):
            obs.close(got, expect, f"{how} under schedule {schedule}", **t)
            obs.state(how, schedule)
            obs.outcome(how, len(schedule))


def torch_case(case, obs):
    import torch
    from modopt.opt.linear.wavelet import TorchWaveletTransform

    shape = tuple(case["shape"])
    inst = TorchWaveletTransform(shape, case["wavelet"], case["level"], case["mode"])
    xs = []
    for seed in range(2):
        x = data(shape, 3 + seed, case["dtype"])
        xs.append(x)
        arg = torch.from_numpy(x.copy())
        if case["batch"]:
            arg = torch.stack([arg, 2 * arg, -arg])
        coeffs = inst.op(arg)
        fn = pywt.wavedecn(x, case["wavelet"], mode=case["mode"], level=case["level"])
        obs.close(coeffs[0].numpy()[0], fn[0], "approximation", rtol=1e-4, atol=1e-4)
        per = 2 ** len(shape) - 1
        obs.check(len(coeffs) == 1 + per * case["level"], "{} sub-bands", len(coeffs))
        for lev in range(case["level"]):
            mine = coeffs[1 + per * lev: 1 + per * (lev + 1)]
            theirs = list(fn[lev + 1].values())
            # the same sub-bands, whatever their order
            for m in mine:
                obs.check(any(m.shape[1:] == t.shape and np.allclose(m.numpy()[0], t, rtol=1e-4,
                                                                     atol=1e-4) for t in theirs),
                          "a sub-band of level {} is not in the PyWavelets transform", lev)
            for t in theirs:
                obs.check(any(m.shape[1:] == t.shape and np.allclose(m.numpy()[0], t, rtol=1e-4,
                                                                     atol=1e-4) for m in mine),
                          "a sub-band of level {} is missing", lev)
        back = inst.adj_op(coeffs).numpy()
        back = back[(slice(None),) + tuple(slice(0, n) for n in shape)]
        want = arg.numpy() if case["batch"] else x[None]
        obs.close(back, want, "reconstruction", rtol=1e-4, atol=1e-4)
        if case["batch"]:
            for c in coeffs:
                obs.close(c[1].numpy(), 2 * c[0].numpy(), "second item", rtol=1e-4, atol=1e-4)
                obs.close(c[2].numpy(), -c[0].numpy(), "third item", rtol=1e-4, atol=1e-4)
        obs.state(case["wavelet"], shape, x)
    obs.outcome(case["wavelet"], case["mode"], shape, case["level"])


class _Torch:
    """PyTorch on a machine without a graphics card."""

    def __init__(self, torch):
        self._torch = torch

    def __getattr__(self, name):
        return getattr(self._torch, name)

    def as_tensor(self, value, dtype=None, device=None):
        return self._torch.as_tensor(value, dtype=dtype)


def cupy_case(case, obs):
    """The CuPy transform (NumPy stands in for CuPy) against the PyTorch one, over a word of calls."""
    import torch
    from modopt.opt.linear import wavelet as mod

    shape = tuple(case["shape"])
    with mock.patch.object(mod, "cp", np, create=True), mock.patch.object(mod, "torch", _Torch(torch), create=True):
        inst = mod.CupyWaveletTransform(shape, case["wavelet"], case["level"], case["mode"])
        for step, letter in enumerate(case["word"]):
            x = data(shape, 3 + step, case["dtype"])
            if letter == "b":  # a batch
                x = np.stack([x, 2 * x, -x])
            keep = x.copy()
            ref = mod.TorchWaveletTransform(shape, case["wavelet"], case["level"], case["mode"])
            bands = ref.op(torch.from_numpy(x.copy()))
            coeffs = inst.op(x)
            want = np.concatenate([b.numpy().reshape(-1) for b in bands])
            obs.close(coeffs, want, "coefficients", rtol=1e-4, atol=1e-4)
            held = coeffs.copy()
            back = np.asarray(inst.adj_op(coeffs))
            back = back[(slice(None),) + tuple(slice(0, n) for n in shape)]
            obs.close(back, x if letter == "b" else x[None], "reconstruction", rtol=1e-4, atol=1e-4)
            other = np.asarray(inst.adj_op(coeffs[::-1].copy()))
            obs.close(np.asarray(inst.adj_op(2 * coeffs[::-1] + coeffs))[(slice(None),) + tuple(slice(0, n) for n in shape)],
                      2 * other[(slice(None),) + tuple(slice(0, n) for n in shape)] + back, "linearity", rtol=1e-3, atol=1e-3)
            obs.exact(coeffs, held, "coefficients of the caller")
            obs.exact(x, keep, "data of the caller")
            obs.state(case["wavelet"], shape, letter, x)
    obs.outcome(case["wavelet"], case["mode"], shape, case["level"])


MODES = ["zero", "constant", "symmetric", "periodic", "smooth", "periodization", "reflect",
         "antisymmetric", "antireflect"]


def _typed_wave(name, mode):
    def fn(x, y):
        one = WaveletTransform(name, (4, 4), level=1, mode=mode)
        many = WaveletTransform(name, (4, 4), level=1, mode=mode, n_batch=2, n_jobs=2)
        for v in (x, y):
            yield "op", one.op(v[0][0])
            yield "op of a batch", many.op(v[0])
            yield "adj_op", one.adj_op(one.op(v[1][0]))
            yield "adj_op of a batch", many.adj_op(many.op(v[1]))
    return fn


def _scaled_wave(name, mode, dtype):
    def fn(s):
        one = WaveletTransform(name, (5, 6), level=2, mode=mode)
        line = WaveletTransform(name, (11,), level=1, mode=mode)
        x, z = data((5, 6), 2, dtype) * s, data((11,), 3, dtype) * s
        c, d = one.op(x), line.op(z)
        yield "op", c, 1
        yield "adj_op", one.adj_op(c), 1
        yield "op of a line", d, 1
        yield "adj_op of a line", line.adj_op(d), 1
    return fn


TYPED = {f"{n} {m}": _typed_wave(n, m) for n in ("haar", "db3", "bior2.2") for m in ("symmetric", "zero", "periodization")}
SCALED = {f"{n} {m} {d}": _scaled_wave(n, m, d) for n in ("haar", "db3", "bior2.2")
          for m in ("symmetric", "zero", "periodization") for d in ("float64", "complex128")}


def _calls(fn, **kw):
    def make():
        inst = WaveletTransform("db2", level=1, **kw)
        return lambda x: fn(inst, x)
    return make


CALLS = {
    "op": (_calls(lambda i, x: i.op(x), shape=(5, 4)), [(5, 4)]),
    "adj_op": (_calls(lambda i, x: i.adj_op(x), shape=(4, 4)), [(36,)]),
    "both": (_calls(lambda i, x: [i.op(x), i.adj_op(i.op(x))], shape=(7,)), [(7,)]),
    "batch": (_calls(lambda i, x: [i.op(x), i.adj_op(i.op(x))], shape=(4, 4), n_batch=2), [(2, 4, 4)]),
}


def run(ctx):
    warnings.filterwarnings("ignore")
    wavelets = ["haar", "db2", "db4", "sym4", "bior2.2", "coif1", "rbio1.3"]
    if ctx.thorough:
        wavelets = [w for w in pywt.wavelist(kind="discrete") if pywt.Wavelet(w).dec_len <= 12]
    shapes = [8, 7, 16, (13,), (4, 4), (8, 8), (7, 9), (16, 5), (1, 6), (4, 5, 6), (8, 8, 4), (3, 4, 2)]
    cases = [dict(wavelet=w, shape=s, mode=m, level=lev, dtype=d, api=api, layout="plain")
             for w in wavelets for s in shapes for m in MODES + [None] for lev in (1, 2, 3)
             for d, api in (("float64", "front"), ("complex128", "direct"))]
    cases += [dict(wavelet=w, shape=s, mode=m, level=lev, dtype=d, api="front", layout=lay)
              for w in ("haar", "db4") for s in ((33,), (32, 32), (65, 30), (17, 9, 5)) for m in (None, "zero")
              for lev in (None, 1, 4) for d in ("float64", "float32", "complex128", "complex64", "int64")
              for lay in ("plain", "fortran", "readonly")]
    cases += [dict(wavelet=w, shape=s, mode=m, level=lev, dtype=d, api=api, layout="plain", n_batch=b)
              for w in ("haar", "db2", "bior2.2") for s in (8, 33, (16, 16), (7, 9), (65, 30), (8, 8, 4), (1, 6))
              for m in (None, "zero", "periodization") for lev in ("all", 0) for b in (1, 2)
              for d, api in (("float64", "front"), ("complex128", "direct"))]
    ctx.explore("wavelets, modes, levels and shapes", cases, transform)
    cases = [dict(wavelet=w, shape=s, mode=m, level=lev, dtype=d, api="front", layout="plain",
                  n_batch=b, n_jobs=j, backend=bk)
             for w in ("haar", "db2") for s in (8, (4, 4), (7, 6), (4, 3, 5))
             for m in (None, "zero", "periodization") for lev in (1, 2) for d in ("float64", "complex128")
             for b in (1, 2, 3, 5) for j, bk in ((None, None), (2, "threading"), (-1, None), (3, None))]
    ctx.explore("batches and jobs", cases, transform)
    cases = [dict(wavelet=w, shape=s, mode=m, level=lev, dtype=d, api="front")
             for w in wavelets for s in (8, 7, (4, 4), (8, 8), (7, 6), (4, 4, 4), (4, 5, 6))
             for m in MODES for lev in (1, 2) for d in ("float64", "complex128")]
    ctx.explore("arbitrary coefficients", cases, recompose)
    letters = [("f", 1), ("f", 2), ("a", 1), ("a", 2)]
    cases = [dict(wavelet=w, shape=s, mode=m, level=lev, n_batch=b, dtype=d, word=list(word), api="front")
             for w, s, m, lev, b, d in (
                 ("db2", (7, 6), "zero", 2, 1, "float64"), ("db2", 9, "symmetric", 2, 1, "complex128"),
                 ("haar", (4, 6), None, 1, 3, "float64"), ("db2", (5, 4, 3), "symmetric", 1, 1, "float64"),
                 ("haar", (5, 4), "periodic", 2, 2, "complex128"))
             for n in range(1, ctx.pick(4, 6)) for word in itertools.product(letters, repeat=n)]
    ctx.explore("all call sequences", cases, history)
    cases = [dict(wavelet=w, shape=s, mode=m, level=1, n_batch=b, n_jobs=2, bound=bound, api=api)
             for w, s, m in (("haar", (4, 4), None), ("db2", (5, 6), "zero"), ("db2", 9, "periodization"),
                             ("haar", (4, 3, 2), None))
             for b, bound in ((2, ctx.pick(2, 4)), (3, ctx.pick(1, 3)))
             for api in ("front", "direct")]
    ctx.explore("all interleavings of batch elements", cases, race, chunk=1)
    cases = [dict(wavelet=w, shape=s, mode=m, level=lev, dtype=d, batch=b)
             for w in ("haar", "db2", "sym4") for s in ((8, 8), (6, 10), (7, 9), (8, 8, 8), (6, 4, 10), (5, 8, 7))
             for m in ("zero", "symmetric", "periodic", "constant", "reflect") for lev in (1, 2)
             for d in ("float64", "complex128") for b in (False, True)
             if not (m == "reflect" and min(s) < 6) and (w != "sym4" or m in ("zero", "constant"))]
    ctx.explore("PyTorch transform", cases, torch_case)
    cases = [dict(wavelet=w, shape=s, mode=m, level=lev, dtype=d, word="".join(word))
             for w in ("haar", "db2") for s in ((8, 8), (6, 10), (7, 9), (8, 8, 8), (5, 8, 7))
             for m in ("zero", "symmetric", "periodic") for lev in (1, 2) for d in ("float64", "complex128")
             for n in range(1, ctx.pick(3, 5)) for word in itertools.product("ab", repeat=n)]
    ctx.explore("CuPy transform", cases, cupy_case)
    ctx.explore("narrow types", narrow(TYPED), typed(TYPED))
    ctx.explore("every magnitude", [dict(what=w, scale=s) for w in SCALED for s in MODERATE], scaled(SCALED))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(3, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(CALLS), laid_out(CALLS))
