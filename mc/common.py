"""Environment operators and recorders shared by the solver checks."""

import itertools

import numpy as np

from .core import Pruned, Violation

TIE = 1e-9


# --- adversarial environment -------------------------------------------------
#
# An answer word fixes, letter by letter, what an operator answers the first
# time it sees each new argument; seeing the same argument again gives the same
# answer.  Enumerating all words therefore enumerates all operators
# (functions) that answer within the alphabet, up to the length of the word,
# however often and in whatever order the implementation evaluates them.

ANSWERS = {
    "i": lambda x: x.copy(),  # the argument itself
    "0": lambda x: np.zeros_like(x),
    "a": lambda x: np.resize(np.array([1.0, -2.0, 0.5]), x.shape).astype(x.dtype),
    "b": lambda x: np.resize(np.array([-1.5, 0.25, 2.0]), x.shape).astype(x.dtype),
    "n": lambda x: -x,
    "h": lambda x: 0.5 * x,
}


class Adversary:
    """A function revealed one answer at a time."""

    def __init__(self, word):
        self.word = word
        self.memo = []

    def __call__(self, x, factor=None):
        x = np.array(x)
        for seen, seen_factor, answer in self.memo:
            if seen.shape == x.shape and np.allclose(seen, x, rtol=1e-7, atol=1e-9):
                if factor is None or np.allclose(seen_factor, factor, rtol=1e-7, atol=0):
                    return answer.copy()
        letter = self.word[min(len(self.memo), len(self.word) - 1)]
        answer = ANSWERS[letter](x)
        self.memo.append((x, factor, answer))
        return answer.copy()

    @property
    def calls(self):
        return [(x, f) for x, f, _ in self.memo]

    def again(self):
        return type(self)(self.word)


def words(alphabet, length):
    return ["".join(w) for w in itertools.product(alphabet, repeat=length)]


class Grad:
    """Gradient operator answering through ``fn``."""

    def __init__(self, fn, cost=None):
        self._fn = fn
        self._cost = cost or (lambda x: 0.0)
        self.grad = None

    def get_grad(self, x):
        self.grad = self._fn(x)

    def cost(self, *args, **kwargs):
        return self._cost(args[0])


class Prox:
    """Proximity operator answering through ``fn(x, factor)``."""

    def __init__(self, fn, cost=None):
        self._fn = fn
        self._cost = cost or (lambda x: 0.0)

    def op(self, x, extra_factor=1.0):
        return self._fn(x, extra_factor)

    def cost(self, *args, **kwargs):
        return self._cost(args[0])


class Linear:
    """Linear operator given by a matrix acting on the flattened data."""

    def __init__(self, matrix, shape_in=None, shape_out=None):
        self.matrix = np.asarray(matrix)
        self.shape_in = shape_in or (self.matrix.shape[1],)
        self.shape_out = shape_out or (self.matrix.shape[0],)

    def op(self, x):
        return (self.matrix @ np.ravel(x)).reshape(self.shape_out)

    def adj_op(self, y):
        return (self.matrix.conj().T @ np.ravel(y)).reshape(self.shape_in)


class Recorder:
    """A metric that records (copies of) the state variables it is given."""

    def __init__(self, *names):
        self.names = names
        self.rows = []

    def __call__(self, **kwargs):
        self.rows.append(
            {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in kwargs.items()}
        )
        return float(len(self.rows))

    def metrics(self, early_stopping=False):
        return {
            "rec": {
                "metric": self,
                "mapping": {n: n for n in self.names},
                "cst_kwargs": {},
                "early_stopping": early_stopping,
            }
        }


class _Ties:
    """Resolution of comparisons that rounding may decide either way."""

    forced = None  # answers to the first ties; None: ties leave the bounds
    met = []


def decided(value, exact, tie=TIE):
    """``value``, or, if its sign is in rounding doubt, one of both signs.

    ``exact`` tells that the value is zero for every way of computing it.
    """
    if (exact and value == 0) or abs(value) > tie:
        return value
    if _Ties.forced is None or not np.isfinite(value):
        raise Pruned("tie")
    at = len(_Ties.met)
    answer = _Ties.forced[at] if at < len(_Ties.forced) else bool(value >= 0)
    _Ties.met.append(answer)
    return tie if answer else -tie


def with_ties(fn, attempts=32):
    """A case function for which every way of resolving the ties is acceptable."""

    def wrapped(case, obs):
        forced, first, open_ends = [], None, []
        for _ in range(attempts):
            _Ties.forced, _Ties.met = forced, []
            trial = type(obs)()
            try:
                fn(case, trial)
            except Violation as exc:
                first = first or exc
                obs.transitions += trial.transitions
                met = list(_Ties.met)
                open_ends += [met[:k] + [not met[k]] for k in range(len(forced), len(met))]
                if not open_ends:
                    raise first
                forced = open_ends.pop()
                continue
            finally:
                _Ties.forced = None
            obs.merge(trial)
            return
        raise Pruned("too many ties")

    return wrapped


# --- executions decided by rounding ------------------------------------------
#
# A difference between ModOpt and the reference counts only where the reference
# itself is insensitive to the order of its additions: where it moves by as much
# when every operator is asked a few ulps aside, the execution is left out.


def shaken(fn, seed):
    """``fn``, asked a few ulps aside of its arguments."""
    rng = np.random.default_rng(seed)

    def aside(x):
        x = np.asarray(x)
        if x.dtype.kind not in "fc":
            return x
        return (x * (1 + 8 * np.finfo(x.dtype).eps * rng.uniform(-1, 1, x.shape))).astype(x.dtype)

    return lambda *args: fn(*(aside(a) if isinstance(a, np.ndarray) and a.ndim else a for a in args))


def fresh(fn):
    return fn.again() if hasattr(fn, "again") else fn


def unsteady(make, total, rtol=1e-7, atol=1e-9):
    """Do the rows of ``make(shake)`` depend on rounding?"""
    saved = _Ties.forced, _Ties.met

    def rows(shake):
        _Ties.forced, _Ties.met = [], []
        with np.errstate(all="ignore"):
            return make(shake, total)

    try:
        base = rows(fresh)
        for seed in range(3):
            other = rows(lambda fn, s=seed: shaken(fresh(fn), s))
            for one, two in zip(base, other):
                for name, value in one.items():
                    if isinstance(value, np.ndarray) and value.dtype.kind in "fc" and not np.allclose(
                            two[name], value, rtol=rtol / 4, atol=atol / 4, equal_nan=True):
                        return True
    finally:
        _Ties.forced, _Ties.met = saved
    return False


def steady(fn):
    """A case function in which rounding may not decide; ``obs.twin`` is the reference."""

    def wrapped(case, obs):
        try:
            fn(case, obs)
        except Violation as exc:
            if getattr(obs, "twin", None) and unsteady(*obs.twin[:2], **obs.twin[2]):
                raise Pruned("rounding") from exc
            raise

    return wrapped


def plain(*values):
    """Are these small multiples of 1/64, on which sums are exact?"""
    return all(np.array_equal(v * 64, np.round(v * 64)) and np.all(np.abs(v) < 2**20)
               for v in map(np.asarray, values))


def rounding(values, moves):
    """Rounding doubt of a product of differences of ``values``, of size ``moves``."""
    norm = [np.linalg.norm(np.ravel(v)) for v in values]
    move = [np.linalg.norm(np.ravel(v)) for v in moves]
    eps = max(np.finfo(np.asarray(v).dtype).eps for v in values)
    return 1e3 * eps * (sum(norm) * sum(move) + eps * sum(norm) ** 2)


# --- deterministic data ------------------------------------------------------


def data(shape, seed=0, dtype=float):
    """Fixed pseudo-generic data (no randomness: a linear congruence)."""
    size = int(np.prod(shape)) if shape != () else 1
    k = np.arange(1, size + 1, dtype=np.float64) + 17.0 * seed
    vals = np.mod(k * 0.61803398875 * (1 + seed % 5) + 0.318 * np.sqrt(k), 1.0) * 6 - 3
    vals = np.round(vals * 64) / 64
    if np.dtype(dtype).kind == "c":
        im = np.mod(k * 0.7548776662 + 0.1 * seed, 1.0) * 4 - 2
        vals = vals + 1j * np.round(im * 64) / 64
    if np.dtype(dtype).kind in "iu":
        vals = np.round(vals)
    return vals.reshape(shape).astype(dtype)


def matrix(rows, cols, seed=0, dtype=float, norm=None):
    mat = data((rows, cols), seed + 3, dtype)
    if norm is not None:
        mat = mat * (norm / np.linalg.norm(mat, 2))
    return mat.astype(dtype)


def tol(dtype, scale=1.0):
    if np.dtype(dtype) in (np.dtype("float32"), np.dtype("complex64")):
        return {"rtol": 2e-3, "atol": 2e-3 * scale}
    return {"rtol": 1e-7, "atol": 1e-8 * scale}


# --- magnitudes ---------------------------------------------------------------

MAGNITUDES = tuple(2.0**k for k in (-400, -100, -60, -40, -20, -10, -3, 3, 10, 20, 40, 60, 100, 300))
MODERATE = tuple(s for s in MAGNITUDES if 1e-40 < s < 1e40)


def scaled(table):
    """Case function: ``table[what](s)`` yields (label, value, degree) triples.

    A value of degree p is multiplied by ``s**p`` when the data is multiplied
    by s; ``degree`` None: the value does not depend on s, exactly.
    """

    def fn(case, obs):
        make, s = table[case["what"]], case["scale"]
        one, got = list(make(1.0)), list(make(s))
        obs.check(len(one) == len(got), "{} results at scale {}", len(got), s)
        for (label, want, degree), (_, value, _) in zip(one, got):
            want, value = np.asarray(want), np.asarray(value)
            if degree is None:
                obs.exact(value, want, f"{label} at scale {s}")
                continue
            value = value.astype(np.result_type(value.dtype, float)) / s**degree
            size = float(np.max(np.abs(want))) if want.size else 1.0
            narrow = want.dtype in (np.dtype("float32"), np.dtype("complex64"))
            obs.close(value, want, f"{label} at scale {s}", rtol=1e-3 if narrow else 1e-8,
                      atol=(1e-3 if narrow else 1e-9) * size)
            obs.state(case["what"], label, s)
        obs.outcome(case["what"], s)

    return fn


# --- narrow data types ----------------------------------------------------------

NARROW = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "bool", "float32")


def wide(shape, seed, dtype):
    """Data that fills the range of a type."""
    dtype = np.dtype(dtype)
    raw = data(shape, seed)
    if dtype.kind == "b":
        return raw > 0
    if dtype.kind == "f":
        return raw.astype(dtype)
    if dtype.itemsize == 8:
        return np.round(raw * 1e4).astype(dtype)
    raw = (raw if dtype.kind == "i" else np.abs(raw)) / 3 * 0.99
    return (raw * np.iinfo(dtype).max).astype(dtype)


def typed(table, loose=False):
    """Case function: values of a narrow type are the values they are as floats.

    ``table[what](x, y)`` yields (label, value) pairs, for ``x`` and ``y`` of
    shape (2, 2, 4, 4).  ``loose``: computed in single precision for some types.
    """

    def fn(case, obs):
        make = table[case["what"]]
        x, y = (wide((2, 2, 4, 4), k, case["dtype"]) for k in (1, 2))
        x0, y0 = x.copy(), y.copy()
        want = list(make(x.astype(float), y.astype(float)))
        got = list(make(x, y))
        obs.check(len(got) == len(want), "{} results for type {}", len(got), case["dtype"])
        for (label, one), (_, other) in zip(want, got):
            one, other = np.asarray(one), np.asarray(other)
            size = float(np.max(np.abs(one))) if one.size else 1.0
            t = 2e-3 if loose or case["dtype"] == "float32" else 1e-8
            obs.close(other.astype(np.result_type(other.dtype, float)), one, f"{label} of type {case['dtype']}",
                      rtol=t, atol=t * size)
            obs.state(case["what"], label, case["dtype"])
        obs.exact(x, x0, "argument modified")
        obs.exact(y, y0, "argument modified")
        obs.outcome(case["what"], case["dtype"])

    return fn


def narrow(table, skip=()):
    return [dict(what=w, dtype=d) for w in table for d in NARROW if (w, d) not in skip and d not in skip]


# --- histories of calls -----------------------------------------------------------


def _results(out):
    """The arrays and numbers in a result, flattened."""
    if isinstance(out, (list, tuple)) or isinstance(out, np.ndarray) and out.dtype == object:
        return [r for part in out for r in _results(part)]
    return [out]


def calls(table):
    """Case function: what a call returns depends on the values given to it only.

    ``table[what]`` is (make, shapes[, seeds]): ``make()`` gives a callable of arrays
    of those shapes.  A word says what happens: a, b: call with one of two sets of
    arrays; m: the first set gets other values in place; n: it is replaced by
    new arrays; s: the caller overwrites all results handed out so far.
    """

    def fn(case, obs):
        make, shapes, *prepare = table[case["what"]]
        prepare = prepare[0] if prepare else (lambda v: v)

        def values(version):
            return [np.array(prepare(data(s, 3 * version + k + 1, case["dtype"]))) for k, s in enumerate(shapes)]

        alive, wants = [], []
        for version in range(4):
            alive.append(values(version))
            wants.append([np.array(r) for r in _results(make()(*alive[-1]))])
        run = make()
        sets, version = {"a": values(0), "b": values(1)}, {"a": 0, "b": 1}
        handed = []
        for at, letter in enumerate(case["word"]):
            if letter in "ab":
                args = sets[letter]
                got = _results(run(*args))
                for r, want in zip(got, wants[version[letter]]):
                    obs.close(r, want, f"call {at} of {case['word']}", rtol=1e-9, atol=1e-12)
                    if isinstance(r, np.ndarray) and r.flags.writeable and not any(np.shares_memory(r, x) for x in args):
                        handed.append(r)
                for x, keep in zip(args, values(version[letter])):
                    obs.exact(x, keep, "an argument was modified")
            elif letter == "s":
                for r in handed:
                    r[...] = 77
                handed = []
            else:
                version["a"] = 2 if version["a"] != 2 else 3
                if letter == "m":
                    for x, v in zip(sets["a"], values(version["a"])):
                        x[...] = v
                else:
                    sets["a"] = None
                    sets["a"] = values(version["a"])
            obs.state(case["what"], case["dtype"], letter, version["a"], len(handed))
        obs.outcome(case["what"], case["word"])

    return fn


def call_words(table, depth, dtypes=("float64",)):
    return [dict(what=w, word="".join(word) + end, dtype=d) for w in table for d in dtypes
            for k in range(depth) for word in itertools.product("abmns", repeat=k) for end in "ab"
            if "a" in word or "b" in word or not k]


# --- memory layouts -----------------------------------------------------------------

LAYOUTS = ("fortran", "strided", "reversed", "offset", "readonly", "swapped", "unaligned", "subclass", "inner")


class Sub(np.ndarray):
    """A plain subclass of arrays."""


def laid(a, how):
    """The same values in another memory layout."""
    a = np.array(a)
    if how == "plain":
        return a
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "swapped":
        return a.astype(a.dtype.newbyteorder())
    if how == "subclass":
        return a.view(Sub)
    if how == "readonly":
        a.setflags(write=False)
        return a
    if how == "unaligned":
        raw = np.zeros(a.nbytes + 1, np.uint8)[1:].view(a.dtype).reshape(a.shape)
    elif how == "strided":
        raw = np.full(tuple(2 * n for n in a.shape), 99, a.dtype)[tuple(slice(None, None, 2) for _ in a.shape)]
    elif how == "reversed":
        raw = np.full(a.shape, 99, a.dtype)[tuple(slice(None, None, -1) for _ in a.shape)]
    elif how == "offset":
        raw = np.full(tuple(n + 3 for n in a.shape), 99, a.dtype)[tuple(slice(1, 1 + n) for n in a.shape)]
    else:  # one component of a larger array
        raw = np.full((*a.shape, 3), 99, a.dtype)[..., 1]
    raw[...] = a
    return raw


def reusing(fn):
    """The same function, answering in one array that it overwrites at every call."""
    buffer = []

    def run(*args):
        value = np.asarray(fn(*args))
        if not buffer or buffer[0].shape != value.shape or buffer[0].dtype != value.dtype:
            buffer[:] = [np.empty(value.shape, value.dtype)]
        buffer[0][...] = value
        return buffer[0]

    return run


def environment(case, *fns):
    """The operators of a case, for the implementation."""
    return [reusing(f) for f in fns] if case.get("reuse") else list(fns)


def laid_out(table):
    """Case function: the layout of the arguments in memory is no part of their value."""

    def fn(case, obs):
        make, shapes, *prepare = table[case["what"]]
        prepare = prepare or [lambda v: v]
        args = [np.array(prepare[k % len(prepare)](data(s, k + 1, case["dtype"]))) for k, s in enumerate(shapes)]
        wants = [np.array(r) for r in _results(make()(*args))]
        given = [laid(a, how) for a, how in zip(args, case["layouts"])]
        run = make()
        for turn in range(2):
            got = _results(run(*given))
            obs.check(len(got) == len(wants), "{} results for layout {}", len(got), case["layouts"])
            for r, want in zip(got, wants):
                obs.close(np.asarray(r), want, f"call {turn} for layout {case['layouts']}", rtol=1e-8, atol=1e-10)
            for x, keep in zip(given, args):
                obs.exact(np.asarray(x), keep, "an argument was modified")
        obs.state(case["what"], case["dtype"], case["layouts"])
        obs.outcome(case["what"], wants)

    return fn


def layout_cases(table, dtypes=("float64",), skip=()):
    """All combinations of layouts of up to two arguments; the same one for more."""
    cases = []
    for what in table:
        count = len(table[what][1])
        every = itertools.product(("plain", *LAYOUTS), repeat=count) if count < 3 else ((how,) * count for how in LAYOUTS)
        cases += [dict(what=what, dtype=d, layouts=list(w)) for w in every for d in dtypes
                  if not any((what, how) in skip or how in skip for how in w)]
    return cases
