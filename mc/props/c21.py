"""C21: noise: scaling, reproducibility and independence of global state."""

import itertools

import numpy as np

from modopt.signal.noise import add_noise

from ..common import call_words, calls, data, layout_cases, laid_out, narrow, typed

SIGMAS = [0.0, 0.5, 1.0, 3, 10.0]


def source(case):
    x = data(tuple(case["shape"]), 3, case["dtype"])
    return {"array": lambda: x.copy(), "list": x.tolist, "tuple": lambda: tuple(x.tolist())}[case["wrap"]](), x


def unit(seed, shape):
    return np.random.default_rng(seed).standard_normal(shape)


def gauss(case, obs):
    arg, x = source(case)
    seed, sigma = case["seed"], case["sigma"]
    if case.get("type"):
        sigma = np.dtype(case["type"]).type(sigma)
    rand = unit(seed, x.shape)
    kw = {} if case["style"] == "default" else {"noise_type": "gauss"}
    got = add_noise(arg, sigma=sigma, rng=seed, **kw)
    obs.close(got, x + sigma * rand, "data plus sigma times unit noise")
    obs.close(add_noise(arg, sigma=sigma, rng=seed, **kw), got, "the same seed gives the same noise")
    if sigma == 1.0:
        obs.close(add_noise(arg, rng=seed, **kw), got, "default sigma is one")
    if isinstance(arg, np.ndarray):
        obs.exact(arg, x, "argument modified")
    if sigma and x.size > 2:
        other = add_noise(arg, sigma=sigma, rng=seed + 1, **kw)
        obs.check(not np.allclose(other, got), "another seed gives the same noise")
    # a generator: successive draws, consumed in order
    gen, ref = np.random.default_rng(seed), np.random.default_rng(seed)
    for _ in range(3):
        want = x + sigma * ref.standard_normal(x.shape)
        obs.close(add_noise(arg, sigma=sigma, rng=gen, **kw), want, "successive draws of one generator")
    obs.state(x, sigma, seed)
    obs.outcome(x.shape, sigma)


def slices(case, obs):
    """One sigma per slice along the first axis."""
    arg, x = source(case)
    sig = case["sigmas"]
    wrap = {"list": list, "tuple": tuple, "array": np.array}[case["swrap"]]
    got = add_noise(arg, sigma=wrap(sig), rng=case["seed"])
    rand = unit(case["seed"], x.shape)
    want = x + np.array(sig, dtype=float).reshape((-1,) + (1,) * (x.ndim - 1)) * rand
    obs.close(got, want, "one sigma per slice")
    for wrong in (sig[:-1], sig + [1.0]):
        if len(wrong) and len(wrong) != x.shape[0]:
            obs.raises(ValueError, lambda: add_noise(arg, sigma=wrap(wrong)), "wrong number of sigmas")
    obs.state(x, sig)
    obs.outcome(sig)


def poisson(case, obs):
    arg, x = source(case)
    seed = case["seed"]
    draw = np.random.default_rng(seed).poisson(np.abs(x))
    got = add_noise(arg, noise_type="poisson", rng=seed)
    obs.close(got, x + draw, "data plus Poisson counts")
    zero = add_noise(np.zeros(x.shape), noise_type="poisson", rng=seed)
    obs.exact(zero, np.zeros(x.shape), "no counts where there is no data")
    obs.check(np.all(np.asarray(got) >= x), "negative counts")
    if isinstance(arg, np.ndarray):
        obs.exact(arg, x, "argument modified")
    obs.state(x, seed)
    obs.outcome(got)


def poisson_scaled(case, obs):
    """Poisson counts are scaled like unit noise."""
    arg, x = source(case)
    seed, sig = case["seed"], case["sigma"]
    draw = np.random.default_rng(seed).poisson(np.abs(x)).astype(float)
    if isinstance(sig, list):
        given = {"list": list, "tuple": tuple, "array": np.array}[case["swrap"]](sig)
        scale = np.array(sig, dtype=float).reshape((-1,) + (1,) * (x.ndim - 1))
    else:
        given, scale = sig, sig
    obs.close(add_noise(arg, sigma=given, noise_type="poisson", rng=seed), x + scale * draw, "data plus sigma times Poisson counts")
    gen, ref = np.random.default_rng(seed), np.random.default_rng(seed)
    for _ in range(2):
        want = x + scale * ref.poisson(np.abs(x))
        obs.close(add_noise(arg, given, "poisson", rng=gen), want, "successive draws of one generator")
    if isinstance(sig, list):
        obs.exact(np.array(given), np.array(sig), "sigmas modified")
        for wrong in (sig[:-1], sig + [1.0]):
            if wrong:
                obs.raises(ValueError, lambda: add_noise(arg, wrong, "poisson", rng=seed), "wrong number of sigmas")
    obs.state(x, sig, seed)
    obs.outcome(sig)


def history(case, obs):
    """All interleavings of seeded calls, own generators and the global state."""
    x = data((3, 2), 4)
    gens = {"g": np.random.default_rng(7), "h": np.random.default_rng(8)}
    refs = {"g": np.random.default_rng(7), "h": np.random.default_rng(8)}
    np.random.seed(5)
    before = np.random.get_state()[1].copy()
    for letter in case["word"]:
        if letter in "gh":
            got = add_noise(x, sigma=2.0, rng=gens[letter])
            want = x + 2.0 * refs[letter].standard_normal(x.shape)
            obs.close(got, want, "a generator of its own")
        elif letter in "zo":
            sigma = 0.0 if letter == "z" else [0.0, 0, 0.0]
            obs.close(add_noise(x, sigma=sigma, rng=gens["g"]), x, "sigma zero adds nothing")
            refs["g"].standard_normal(x.shape)
        elif letter == "s":
            obs.close(add_noise(x, sigma=0.5, rng=11), x + 0.5 * unit(11, x.shape), "a seed")
        elif letter == "p":
            obs.close(add_noise(x, noise_type="poisson", rng=12),
                      x + np.random.default_rng(12).poisson(np.abs(x)), "Poisson, a seed")
        elif letter == "n":
            a, b = add_noise(x), add_noise(x)
            obs.check(not np.allclose(a, b), "unseeded noise repeats itself")
            obs.check(np.asarray(a).shape == x.shape and np.all(np.isfinite(a)), "unseeded noise")
        obs.state(letter, case["word"].count(letter))
    obs.check(np.array_equal(before, np.random.get_state()[1]), "the global generator was used")
    obs.outcome(case["word"])


def refuse(case, obs):
    x = data((3, 2), 4)
    obs.raises(ValueError, lambda: add_noise(x, noise_type=case["kind"]), "noise type")
    obs.state(case["kind"])
    obs.outcome("refused")


TYPED = {
    "gauss": lambda x, y: [("noise", add_noise(x, s, rng=k)) for s in (2.0, 3, [1.0, 2.0]) for k in (0, 1)],
    "poisson": lambda x, y: [("noise", add_noise(np.abs(x), s, "poisson", rng=k)) for s in (2.0, [1.0, 2.0]) for k in (0, 1)],
}


CALLS = {
    "gauss": (lambda: lambda x: add_noise(x, 2.0, rng=3), [(2, 3)]),
    "gauss, several": (lambda: lambda x, y: add_noise(x, np.abs(y), rng=3), [(2, 3), (2,)]),
    "poisson": (lambda: lambda x: add_noise(np.abs(x), 2.0, "poisson", rng=0), [(2, 3)]),
}


def run(ctx):
    shapes = [(1,), (5,), (2, 3), (1, 1), (3, 2, 4), (2, 1, 2, 2), (257,), (33, 17)]
    seeds = range(ctx.pick(4, 40))
    cases = [dict(shape=s, dtype=d, wrap=w, sigma=sg, seed=seed, style=st)
             for s in shapes for d in ("float64", "float32", "int64") for w in ("array", "list", "tuple")
             for sg in SIGMAS for seed in seeds for st in ("default", "explicit")]
    cases += [dict(shape=s, dtype=d, wrap="array", sigma=sg, seed=1, style="explicit", type=t)
              for s in shapes for d in ("float64", "float32", "int64") for sg in (0.0, 1.0, 2.0, 3.0)
              for t in ("float64", "float32", "float16", "int64", "int32", "uint8", "longdouble")]
    ctx.explore("Gaussian noise", cases, gauss)
    cases = [dict(shape=s, dtype=d, wrap=w, sigmas=list(sg), swrap=sw, seed=seed)
             for s in ((1,), (2, 3), (3, 2), (3,), (3, 3), (2, 2, 3), (4, 1))
             for d in ("float64", "int64") for w in ("array", "list")
             for sg in itertools.product([0.0, 1.0, 2.5], repeat=s[0]) for sw in ("list", "tuple", "array")
             for seed in (1, 2)]
    ctx.explore("one sigma per slice", cases, slices)
    cases = [dict(shape=s, dtype=d, wrap=w, seed=seed) for s in shapes for d in ("float64", "int64")
             for w in ("array", "list") for seed in seeds]
    ctx.explore("Poisson noise", cases, poisson)
    cases = [dict(shape=s, dtype=d, wrap=w, sigma=list(sg), swrap=sw, seed=seed)
             for s in ((1,), (2, 3), (3, 2), (2, 2, 3), (3, 1)) for d in ("float64", "float32", "int64") for w in ("array", "list")
             for sg in itertools.product([0.0, 0.5, 2, 2.75], repeat=s[0]) for sw in ("list", "tuple", "array") for seed in (1, 2)]
    cases += [dict(shape=s, dtype=d, wrap=w, sigma=sg, swrap=None, seed=seed)
              for s in shapes for d in ("float64", "float32", "int64") for w in ("array", "list") for sg in SIGMAS for seed in (1, 2)]
    ctx.explore("Poisson noise, scaled", cases, poisson_scaled)
    cases = [dict(word="".join(w)) for n in range(1, ctx.pick(6, 8)) for w in itertools.product("ghspn", repeat=n)]
    cases += [dict(word="".join(w)) for n in range(2, ctx.pick(5, 7)) for w in itertools.product("gzohs", repeat=n)]
    ctx.explore("all sequences of calls", cases, history)
    ctx.explore("invalid noise types", [dict(kind=k) for k in ("", "gaus", "Gauss", "normal", None, 3)], refuse)
    ctx.explore("narrow types", narrow(TYPED, ["float32"]), typed(TYPED))
    ctx.explore("histories of calls", call_words(CALLS, ctx.pick(4, 5)), calls(CALLS))
    ctx.explore("memory layouts", layout_cases(CALLS, ("float64", "complex128")), laid_out(CALLS))
