"""C34: ModOpt works with whichever optional packages are installed.

A *world* is a set of hidden optional packages.  In a forked process per world
ModOpt is imported afresh and everything below is put to use; the outcomes are
compared with those of the world where nothing is hidden.
"""

import importlib
import itertools
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile

import numpy as np

from .. import boot
from ..core import Violation

# package -> what else can not be imported without it
NEEDED_BY = {
    "astropy": (), "skimage": (), "sklearn": (), "pywt": (), "joblib": ("sklearn",), "matplotlib": (), "termcolor": (),
    "pyfftw": (), "packaging": ("astropy", "skimage", "matplotlib"),
}
PRELOAD = ("astropy.convolution", "astropy.io.fits", "skimage.metrics", "sklearn.isotonic", "pywt", "joblib",
           "matplotlib.pyplot", "termcolor", "pyfftw", "packaging.version", "scipy.signal", "scipy.linalg",
           "scipy.sparse.linalg", "scipy.fftpack", "tqdm.auto", "importlib_metadata")
COLOURS = ("\x1b[33m", "\x1b[31m", "\x1b[0m")


def worlds(full):
    """Sets of hidden packages closed under the dependencies between them."""
    names = list(NEEDED_BY)
    for size in range(len(names) + 1):
        for hidden in itertools.combinations(names, size):
            if all(dep in hidden for name in hidden for dep in NEEDED_BY[name]):
                if full or size <= 2 or size >= len(names) - 1 or hidden in FEW:
                    yield list(hidden)


FEW = [("astropy", "matplotlib"), ("pywt", "sklearn"), ("termcolor", "pyfftw"), ("sklearn", "joblib"),
       ("astropy", "skimage", "matplotlib", "packaging"), ("skimage", "sklearn", "pywt", "joblib"),
       ("skimage", "matplotlib", "termcolor"), ("sklearn", "joblib", "astropy")]
FEW = [tuple(n for n in NEEDED_BY if n in few) for few in FEW]


def modules():
    """All modules of ModOpt but its tests."""
    found = []
    base = os.path.join(boot.SRC, "modopt")
    for folder, subs, files in os.walk(base):
        subs[:] = sorted(s for s in subs if s not in ("tests", "__pycache__"))
        for name in sorted(files):
            if name.endswith(".py"):
                path = os.path.relpath(os.path.join(folder, name), boot.SRC)[:-3].replace(os.sep, ".")
                found.append(path[:-9] if path.endswith(".__init__") else path)
    return found


def forked(fn, *args):
    """The value of a function run in a process of its own."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(read)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                answer = (True, fn(*args))
                answer = pickle.dumps(answer)
            except BaseException as exc:
                answer = pickle.dumps((False, f"{type(exc).__name__}: {exc}"))
            with os.fdopen(write, "wb") as sink:
                sink.write(struct.pack("q", len(answer)) + answer)
        finally:
            os._exit(0)
    os.close(write)
    try:
        with os.fdopen(read, "rb") as source:
            raw = source.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if len(raw) < 8:
        raise Violation("the process died")
    good, value = pickle.loads(raw[8:])
    if not good:
        raise Violation(f"the process failed: {value}")
    return value


def hide(hidden):
    """Forget ModOpt, and make the hidden packages impossible to import."""
    for name in list(sys.modules):
        top = name.split(".")[0]
        if top in ("modopt", *hidden) or name in ("mc.solvers", "mc.common", "mc.refs", "mc.props.c32"):
            del sys.modules[name]
    for name in hidden:
        sys.modules[name] = None


def own(module):
    """What a module defines, and what it says it offers."""
    mine = sorted(k for k, v in vars(module).items()
                  if not k.startswith("_") and callable(v) and getattr(v, "__module__", None) == module.__name__)
    return mine, sorted(getattr(module, "__all__", []))


def plots():
    """The plots and the files they leave."""
    from modopt.opt.cost import costObj
    from modopt.plot.cost_plot import plotCost

    old, here = os.getcwd(), tempfile.mkdtemp(prefix="mc34-")
    os.chdir(here)

    class Op:
        def cost(self, *args, **kwargs):
            return 2.0

    def third():
        plotCost([1.0, 2.0])

    def fourth():
        cost = costObj([Op()], verbose=False, plot_output="out")
        cost.get_cost(np.ones(2))
        cost.plot_cost()

    try:
        return [outcome_of(third), outcome_of(fourth), sorted(os.listdir(here))]
    finally:
        os.chdir(old)
        shutil.rmtree(here)


def transforms():
    """The external program is looked for only when its output can be read."""
    from modopt.signal.wavelet import call_mr_transform, get_mr_filters

    path, old, here = os.environ.get("PATH"), os.getcwd(), tempfile.mkdtemp(prefix="mc34-")
    os.environ["PATH"] = here
    os.chdir(here)
    try:
        return [outcome_of(lambda: call_mr_transform(np.ones((4, 4)))),
                outcome_of(lambda: get_mr_filters((4, 4))), sorted(os.listdir(here))]
    finally:
        os.environ["PATH"] = path
        os.chdir(old)
        shutil.rmtree(here)


def many():
    """What optional packages are for, in all sizes: name -> (packages, what is done instead, function)."""
    from modopt.math.convolve import convolve, convolve_stack
    from modopt.math.metrics import ssim
    from modopt.math.stats import gaussian_kernel
    from modopt.opt.linear import WaveletConvolve, WaveletTransform
    from modopt.opt.proximity import OrderedWeightedL1Norm
    from modopt.plot.cost_plot import plotCost
    from modopt.signal.wavelet import call_mr_transform, filter_convolve, filter_convolve_stack, get_mr_filters

    from ..common import data

    jobs = {}
    for shape, kernel in itertools.product([(4,), (1,), (3, 4), (1, 3), (2, 3, 2), (1, 1)], [1, 2, 3]):
        kernel = data((kernel,) * len(shape), 4)
        for kind in ("ordinary", "ordinary int", "ordinary nan"):
            x = data(shape, 3)
            x = np.round(3 * x).astype(int) if kind.endswith("int") else x
            if kind.endswith("nan"):
                x[(0,) * len(shape)] = np.nan
            jobs["convolve", shape, kernel.shape, kind] = ("astropy", True, lambda m, x=x, kernel=kernel: convolve(
                x, kernel, method=m))
    for number, side, flag in itertools.product((1, 2, 3), (2, 4), (False, True)):
        x, kernel = data((number, side, side), 5), data((number, 3, 3), 2)
        jobs["convolve_stack", number, side, flag] = ("astropy", True, lambda m, x=x, k=kernel, flag=flag: convolve_stack(
            x, k, rot_kernel=flag, method=m))
        x = data((number, side, side) if flag else (side, side), 6)
        jobs["filter_convolve", number, side, flag] = ("astropy", True, lambda m, x=x, k=kernel, flag=flag: filter_convolve(
            x, k, filter_rot=flag, method=m))
        jobs["filter_convolve_stack", number, side, flag] = (
            "astropy", True, lambda m, x=x, k=kernel, flag=flag: filter_convolve_stack(
                np.array([x, x]), k, filter_rot=flag, method=m))
        jobs["WaveletConvolve", number, side, flag] = ("astropy", True, lambda m, x=x, k=kernel, flag=flag: getattr(
            WaveletConvolve(k, method=m), "adj_op" if flag else "op")(np.array([x, x])))
    for shape, sigma, norm in itertools.product([(1, 1), (2, 3), (4, 4)], (0.5, 2), ("max", "sum")):
        jobs["gaussian_kernel", shape, sigma, norm] = ("astropy", False, lambda m, a=(shape, sigma, norm): gaussian_kernel(*a))
    for shape, mask in itertools.product([(7, 7), (8, 9)], (None, "ones", "half")):
        x, y = np.abs(data(shape, 1)), np.abs(data(shape, 2))
        given = None if mask is None else (np.arange(x.size).reshape(shape) % (2 if mask == "half" else 1) == 0) * 1.0
        jobs["ssim", shape, mask] = ("skimage", False, lambda m, a=(x, y, given): ssim(*a))
    for size, level in itertools.product((1, 2, 5), (0.0, 1.0)):
        w = level * np.linspace(2.0, 1.0, size)
        jobs["OWL", size, level] = ("sklearn", False, lambda m, w=w, size=size: OrderedWeightedL1Norm(w).op(
            data((size,), 3), extra_factor=0.5))
    for shape, name, level, batch in itertools.product([8, (8,), (8, 8), (4, 4, 4)], ("haar", "db2"), (0, 1), (1, 2)):
        full = (shape,) if isinstance(shape, int) else shape
        x = data((batch, *full) if batch > 1 else full, 3)
        jobs["wavelet", shape, name, level, batch] = (
            ("pywt", "joblib"), False, lambda m, a=(name, shape, level), batch=batch, x=x: WaveletTransform(
                *a, n_batch=batch).op(x))
    for shape, opt in itertools.product([(1, 1), (4, 3)], ("", "-t 2", ["-t2"])):
        jobs["call_mr_transform", shape, str(opt)] = ("astropy", False, lambda m, shape=shape, opt=opt: call_mr_transform(
            np.ones(shape), opt=opt))
        jobs["get_mr_filters", shape, str(opt)] = ("astropy", False, lambda m, shape=shape, opt=opt: get_mr_filters(
            shape, opt=opt))
    for costs, name in itertools.product(([], [1.0], [3.0, 2.0]), (None, "a", "")):
        jobs["plot", str(costs), name] = ("matplotlib", False, lambda m, costs=costs, name=name: plotCost(costs, name))
    path, old, here = os.environ.get("PATH"), os.getcwd(), tempfile.mkdtemp(prefix="mc34-")
    os.environ["PATH"] = here
    os.chdir(here)
    results = {}
    try:
        for name, (packages, falls, fn) in jobs.items():
            results[name] = (packages, [outcome_of(lambda m=m: fn(m)) for m in (("astropy", "scipy") if falls else (None,))],
                             sorted(os.listdir(here)))
            for left in os.listdir(here):
                os.remove(os.path.join(here, left))
        return results
    finally:
        os.environ["PATH"] = path
        os.chdir(old)
        shutil.rmtree(here)


def tensors():
    from modopt.base import backend

    back, name = backend.get_backend("tensorflow")
    other, its = backend.get_backend("cupy")
    return [outcome_of(lambda: backend.convert_to_tensor(np.ones(2))),
            outcome_of(lambda: backend.convert_to_cupy_array(np.ones(2))), back.__name__, name, other.__name__, its]


def noise():
    """A warning and an error, with the colours."""
    from modopt.interface import errors

    errors.warn("text")
    errors.catch_error("text")
    return None


def outcome_of(fn):
    try:
        return ("value", fn())
    except Exception as exc:
        return ("raised", type(exc).__name__)


def live(hidden, entries):
    """Everything there is, in a world."""
    import contextlib
    import io

    hide(hidden)
    said = io.StringIO()
    shapes = {}
    with contextlib.redirect_stderr(said), contextlib.redirect_stdout(said):
        for name in modules():
            try:
                shapes[name] = own(importlib.import_module(name))
            except Exception as exc:
                raise Violation(f"import {name} raised {exc!r}") from exc
    c32 = importlib.import_module("mc.props.c32")
    results = {}
    np.seterr(all="ignore")
    for name, alt in entries:
        fn, known, alts = c32.ENTRIES[name]
        value, out, err, warned = c32.outcome(fn, {**known, **({alt: alts[alt]} if alt else {})})
        results[name, alt] = c32.flat(value), out, err, warned
    for name, fn in (("plots", plots), ("transforms", transforms), ("tensors", tensors), ("noise", noise)):
        value, out, err, warned = c32.listen(fn)
        results[name, None] = c32.flat(value), out, err, warned
    try:
        pickle.dumps(results)
    except Exception:
        results = {k: ([str(x) if callable(x) else x for x in v[0]], *v[1:]) for k, v in results.items()}
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        sizes = many()
    return shapes, results, said.getvalue(), sizes


def plain(value):
    """A text without colours."""
    if isinstance(value, str):
        for colour in COLOURS:
            value = value.replace(colour, "")
        return value
    if isinstance(value, (tuple, list)):
        return type(value)(plain(v) for v in value)
    return value


IMPORT_ERROR = [2, "raised", "ImportError"]


def refused(value, *kinds):
    return len(value) == 3 and isinstance(value[1], str) and value[1] == "raised" and value[2] in (kinds or ("ImportError",))


def needs(name):
    """Packages without which this can not be done."""
    if name.startswith("WaveletTransform"):
        return ("pywt", "joblib")
    return {"gaussian_kernel": ("astropy", "packaging"), "metrics.ssim": ("skimage",),
            "OrderedWeightedL1Norm.op": ("sklearn",)}.get(name, ())


def by_astropy(name, alt):
    return alt == "method" and ("onvol" in name)


REFERENCE = {}


def options():
    """What there is to do, and what can be done otherwise."""
    hide([])
    c32 = importlib.import_module("mc.props.c32")
    return [(name, list(alts)) for name, (_, _, alts) in c32.ENTRIES.items()]


def same(obs, got, want, what):
    obs.check(len(got) == len(want), "{}: {} instead of {}", what, got, want)
    for g, w in zip(got, want):
        if isinstance(w, (np.ndarray, float, complex, np.number)):
            obs.check(not (g is None or isinstance(g, str)), "{}: {} instead of {}", what, g, w)
            obs.close(g, w, what, rtol=1e-10, atol=1e-12)
        else:
            obs.check(type(g) is type(w) and g == w, "{}: {} instead of {}", what, g, w)


def deep(value):
    if isinstance(value, (list, tuple)):
        return [len(value)] + [x for v in value for x in deep(v)]
    return [value]


def compare(obs, key, got, want, what):
    same(obs, plain(got[0]), plain(want[0]), what)
    obs.check(plain(got[1]) == plain(want[1]), "{}: printed {!r} instead of {!r}", what, got[1], want[1])
    for one, other in zip(got[2:], want[2:]):
        obs.check(plain(one) == plain(other), "{}: {} instead of {}", what, one, other)


def world(case, obs):
    hidden = case["hidden"]
    shapes, results, said, sizes = forked(live, hidden, REFERENCE["entries"])
    ref_shapes, ref, _, ref_sizes = REFERENCE["all"]
    where = f"without {', '.join(hidden) or 'nothing'}"
    for name, shape in shapes.items():
        obs.check(shape == ref_shapes[name], "{}: {} offers {} instead of {}", where, name, shape, ref_shapes[name])
    # a convolution that is not the one asked for is announced
    obs.check(("astropy" in said.lower()) == ("astropy" in hidden), "{}: said on import {!r}", where, said)
    for (name, alt), got in results.items():
        what = f"{where}: {name}" + (f" with another {alt}" if alt else "")
        obs.state(tuple(hidden), name, alt)
        if name == "noise":
            want = ref[name, None]
            compare(obs, name, got, want, what)
            coloured = any(c in str(got[2]).encode().decode("unicode_escape") for c in COLOURS)
            obs.check(not (coloured and "termcolor" in hidden), "{}: {}", what, got[2])
        elif any(n in hidden for n in needs(name)):
            kinds = ("ImportError", "ValueError") if name.startswith("WaveletTransform") else ()
            obs.check(refused(got[0], *kinds), "{}: {} instead of an ImportError", what, got[0])
        elif name == "plots":
            want = [3, *IMPORT_ERROR, *IMPORT_ERROR, 0] if "matplotlib" in hidden else ref[name, None][0]
            obs.check(got[0] == want, "{}: {} instead of {}", what, got[0], want)
        elif name == "transforms":
            want = [3, *IMPORT_ERROR, *IMPORT_ERROR, 0] if "astropy" in hidden else ref[name, None][0]
            obs.check(got[0] == want, "{}: {} instead of {}", what, got[0], want)
        elif by_astropy(name, alt) and "astropy" in hidden:
            compare(obs, name, got, ref[name, None], what)
        else:
            compare(obs, name, got, ref[name, alt], what)
            obs.check(name == "tensors" or not refused(got[0]), "{}: ImportError", what)
    for name, (packages, got, files) in sizes.items():
        packages = [packages] if isinstance(packages, str) else packages
        want, ref_files = ref_sizes[name][1:]
        what = f"{where}: {' '.join(map(str, name))}"
        obs.state(tuple(hidden), *name)
        if not any(p in hidden for p in packages):
            same(obs, deep(got), deep(want), what)
            obs.check(files == ref_files, "{}: left {} instead of {}", what, files, ref_files)
        elif len(want) == 2:
            # falls back
            same(obs, deep(got), deep([want[1], want[1]]), what)
        else:
            kinds = ("ImportError", "ValueError") if name[0] == "wavelet" else ("ImportError",)
            obs.check(got[0][0] == "raised" and got[0][1] in kinds, "{}: {} instead of an ImportError", what, got[0])
            obs.check(not files, "{}: left {}", what, files)
    obs.outcome(tuple(hidden))


def first(case, obs):
    """A module imported before all others."""

    def go():
        hide(case["hidden"])
        for name in case["order"]:
            try:
                importlib.import_module(name)
            except Exception as exc:
                raise Violation(f"import {name} raised {exc!r}") from exc
        others = {}
        for name in modules():
            others[name] = own(importlib.import_module(name))
        return others

    got = forked(go)
    for name, shape in got.items():
        want = REFERENCE["all"][0][name]
        obs.check(shape == want, "{} first: {} offers {} instead of {}", case["order"], name, shape, want)
        obs.state(tuple(case["order"]), name)
    obs.outcome(tuple(case["order"]))


def run(ctx):
    for name in PRELOAD:
        importlib.import_module(name)
    entries = []
    for name, alts in forked(options):
        if name.endswith(("FISTA greedy", "POGM damped")):
            continue
        entries.append((name, None))
        entries += [(name, alt) for alt in alts if by_astropy(name, alt) or ctx.thorough]
    REFERENCE["entries"] = entries
    try:
        REFERENCE["all"] = forked(live, [], entries)
    except Violation as exc:
        ctx.explore("everything installed", [dict(hidden=[])],
                    lambda case, obs: obs.check(False, str(exc)))
        return
    ctx.explore("sets of missing packages", [dict(hidden=h) for h in worlds(ctx.thorough)], world,
                timeout=240)
    names = modules()
    orders = [[a] for a in names] + ([[a, b] for a in names for b in names if a != b] if ctx.thorough else [])
    few = [[], sorted(NEEDED_BY)]
    ctx.explore("imported first", [dict(order=o, hidden=h) for h in few for o in orders], first, timeout=60)
