"""C29: the external transform: results, command line, and temporary files.

``mr_transform`` is replaced by a stub program found first on the search path;
what it does (answers, refuses, crashes, interrupts its caller, destroys files)
is one axis of the enumeration, resource faults of the calling process are
another.  Everything happens in a scratch directory.
"""

import contextlib
import itertools
import os
import resource
import shutil
import signal
import tempfile

import numpy as np
from astropy.io import fits

from modopt.signal.wavelet import call_mr_transform, execute, get_mr_filters

from ..common import data

LEVEL = "fault_enumeration"

HEAD = """#!/bin/sh
for last; do prev=$cur; cur=$last; done
printf '%s\\n' "$@" > "$MC_ARGS"
[ -f "$prev" ] && cp "$prev" "$MC_SEEN"
"""
# behaviour -> (script, does the call succeed, exception expected)
STUB = {
    "ok": ('cp "$MC_RESULT" "$cur"', None),
    "chatty": ('echo "reading; writing; done"; echo problem >&2; cp "$MC_RESULT" "$cur"', None),
    "exit code": ('cp "$MC_RESULT" "$cur"; exit 3', None),
    "says bad": ('echo "bad option"', RuntimeError),
    "says Error": ('echo "line"; echo "Error: cannot"', RuntimeError),
    "says Sorry": ('echo "Sorry"; exit 1', RuntimeError),
    "bad, after output": ('cp "$MC_RESULT" "$cur"; echo "bad value"', RuntimeError),
    "bad, partial output": ('head -c 100 "$MC_RESULT" > "$cur"; echo "Error"', RuntimeError),
    "silent": ("exit 0", Exception),
    "crash": ("kill -KILL $$", Exception),
    "crash after output": ('cp "$MC_RESULT" "$cur"; kill -KILL $$', None),
    "empty output": (': > "$cur"', Exception),
    "garbage output": ('echo garbage > "$cur"', Exception),
    "torn header": ('head -c 1500 "$MC_RESULT" > "$cur"', Exception),
    "interrupt": ("kill -INT $PPID; sleep 2", KeyboardInterrupt),
    "interrupt after output": ('cp "$MC_RESULT" "$cur"; kill -INT $PPID; sleep 2', KeyboardInterrupt),
    "eats input": ('rm "$prev"; cp "$MC_RESULT" "$cur"', None),
    "eats input, bad": ('rm "$prev"; echo "bad"', Exception),
}
FOLDERS = ("my data", "a  b 'c' \"d\"", "$HOME", "né", "back\\slash", "semi;colon", "-t", "star*")
SETUP = {
    "missing": OSError,          # no such program
    "not executable": OSError,
    "bad interpreter": OSError,  # found, but can not be started
}


@contextlib.contextmanager
def bench(script, result, state="ok"):
    where = tempfile.mkdtemp(prefix="mc29-")
    saved = {k: os.environ.get(k) for k in ("PATH", "MC_ARGS", "MC_SEEN", "MC_RESULT")}
    home = os.getcwd()
    try:
        os.makedirs(f"{where}/bin")
        os.makedirs(f"{where}/work/sub")
        os.makedirs(f"{where}/out")
        prog = f"{where}/bin/mr_transform"
        if state != "missing":
            with open(prog, "w") as handle:
                handle.write("#!/no/such/interpreter\n" if state == "bad interpreter" else HEAD + script + "\n")
            os.chmod(prog, 0o644 if state == "not executable" else 0o755)
        fits.writeto(f"{where}/out/result.fits", result)
        os.environ.update(PATH=f"{where}/bin:/usr/bin:/bin", MC_ARGS=f"{where}/out/args",
                          MC_SEEN=f"{where}/out/seen.fits", MC_RESULT=f"{where}/out/result.fits")
        for folder in FOLDERS:
            os.makedirs(f"{where}/work/{folder}", exist_ok=True)
        for folder in ("work", "work/sub"):
            with open(f"{where}/{folder}/mr_temp_precious.fits", "w") as handle:
                handle.write("precious")
        os.chdir(f"{where}/work")
        yield where
    finally:
        os.chdir(home)
        for key, val in saved.items():
            os.environ.pop(key, None)
            if val is not None:
                os.environ[key] = val
        shutil.rmtree(where, ignore_errors=True)


def listing(where):
    found = {}
    for root, _, files in os.walk(f"{where}/work"):
        for name in files:
            full = os.path.join(root, name)
            with open(full, "rb") as handle:
                found[os.path.relpath(full, f"{where}/work")] = handle.read()
    return found


def check_args(obs, where, opts, folder):
    with open(f"{where}/out/args") as handle:
        args = handle.read().splitlines()
    obs.check(args[: len(opts)] == opts and len(args) == len(opts) + 2, "program called with {}, options {}", args, opts)
    src, dst = args[-2:]
    obs.check(src != dst, "input and output are the same file")
    for name in (src, dst):
        obs.check(os.path.dirname(os.path.normpath(os.path.join(f"{where}/work", name)))
                  == os.path.normpath(f"{where}/work/{folder}"), "file {} is not in {}", name, folder)
    return src, dst


def same(x):
    """FITS stores big-endian values."""
    return np.asarray(x).astype(np.asarray(x).dtype.newbyteorder("="))


def call(case, obs):
    x = data(tuple(case["shape"]), 3, case["dtype"])
    result = data((3,) + tuple(case["shape"]), 5)
    keep = x.copy()
    script, wrong = STUB[case["stub"]]
    folder = os.path.normpath(case["path"].replace("WORK", "."))
    opts = case["opt"].split() if isinstance(case["opt"], str) else list(case["opt"])
    with bench(script, result) as where:
        before = listing(where)
        names = set()
        for turn in range(case["times"]):
            path = case["path"].replace("WORK", f"{where}/work")
            kw = {} if case["default"] else dict(opt=case["opt"], path=path, remove_files=case["remove"])
            got = caught = None
            old = signal.signal(signal.SIGINT, signal.default_int_handler)
            try:
                got = call_mr_transform(x, **kw)
            except (Exception, KeyboardInterrupt) as exc:
                caught = exc
            finally:
                signal.signal(signal.SIGINT, old)
            after = listing(where)
            new = {k: v for k, v in after.items() if k not in before}
            obs.check(all(after.get(k) == v for k, v in before.items()), "other files were touched")
            obs.exact(x, keep, "input data")
            if wrong is None:
                obs.check(caught is None, "{}: raised {!r}", case["stub"], caught)
                obs.exact(got, result.astype(x.dtype), "result")
                obs.check(np.asarray(got).dtype == x.dtype, "result of type {}", np.asarray(got).dtype)
                src, dst = check_args(obs, where, [] if case["default"] else opts, "" if case["default"] else folder)
                obs.exact(same(fits.getdata(f"{where}/out/seen.fits")), keep, "data handed to the program")
                obs.check(src not in names, "file name used twice")
                names.add(src)
            else:
                obs.check(isinstance(caught, wrong), "{}: {!r} instead of {}", case["stub"], caught if caught else got, wrong.__name__)
            if case["default"] or case["remove"]:
                obs.check(not new, "{}: temporary files left behind: {}", case["stub"], sorted(new))
            elif wrong is None and case["stub"] != "eats input":
                obs.check(len(new) == 2 * (turn + 1), "remove_files=False kept {}", sorted(new))
                obs.exact(same(fits.getdata(os.path.join(f"{where}/work", src))), keep, "kept input file")
                obs.exact(same(fits.getdata(os.path.join(f"{where}/work", dst))), result, "kept output file")
            obs.state(case["stub"], turn, len(new), type(caught).__name__)
        obs.outcome(case["stub"], case["remove"], type(caught).__name__)


def broken_setup(case, obs):
    with bench("", data((1, 2, 2), 1), case["state"]) as where:
        before = listing(where)
        path = {"here": "./", "sub": "sub/", "nowhere": "no/such/folder/"}[case["path"]]
        obs.raises(OSError, lambda: call_mr_transform(data((4, 4), 2), path=path, remove_files=case["remove"]),
                   f"program {case['state']}")
        if case["remove"]:
            obs.check(listing(where) == before, "{}: files left behind {}", case["state"], sorted(set(listing(where)) - set(before)))
        obs.state(case)
        obs.outcome(case["state"])


def nowhere(case, obs):
    """A folder that can not be written to."""
    with bench(*(STUB["ok"][0], data((1, 2, 2), 1))) as where:
        before = listing(where)
        obs.raises(OSError, lambda: call_mr_transform(data((4, 4), 2), path=case["path"], remove_files=case["remove"]),
                   "path that does not exist")
        obs.check(listing(where) == before, "files left behind")
        obs.state(case)


def full(case, obs):
    """The disk fills up after every possible number of blocks."""
    x = data((32, 32), 2)  # two FITS blocks of header, three of data
    with bench(STUB[case["stub"]][0], data((2, 32, 32), 1)) as where:
        before = listing(where)
        hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
        old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        caught = got = None
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (case["limit"], hard))
            try:
                got = call_mr_transform(x)
            except Exception as exc:
                caught = exc
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
            signal.signal(signal.SIGXFSZ, old)
        after = listing(where)
        obs.check(after == before, "limit {}: files left behind {}", case["limit"], sorted(set(after) - set(before)))
        if caught is None:
            obs.exact(got, data((2, 32, 32), 1), "result")
        obs.state(case["limit"], type(caught).__name__)
        obs.outcome(type(caught).__name__)


def history(case, obs):
    """Failed calls do not disturb later ones."""
    x = data((3, 4), 4)
    results = data((2, 3, 4), 7)
    with bench("", results) as where:
        before = listing(where)
        for act in case["word"]:
            with open(f"{where}/bin/mr_transform", "w") as handle:
                handle.write(HEAD + STUB[act][0] + "\n")
            try:
                got = call_mr_transform(x, opt=["-n", "3"])
                obs.check(STUB[act][1] is None, "{} accepted in {}", act, case["word"])
                obs.exact(got, results, f"result in {case['word']}")
                check_args(obs, where, ["-n", "3"], "")
            except (RuntimeError, OSError) as exc:
                obs.check(STUB[act][1] is not None, "{} failed in {}: {!r}", act, case["word"], exc)
            obs.check(listing(where) == before, "files left behind after {} in {}", act, case["word"])
            obs.state(act)
        obs.outcome(case["word"])


def invalid(case, obs):
    bad = {"list": [[1.0]], "none": None, "1d": np.ones(3), "3d": np.ones((2, 2, 2)), "number": 2.0, "0d": np.array(1.0)}
    with bench(STUB["ok"][0], data((1, 2, 2), 1)) as where:
        before = listing(where)
        obs.raises(ValueError, lambda: call_mr_transform(bad[case["name"]]), f"data {case['name']}")
        obs.check(listing(where) == before, "files left behind")
        obs.check(not os.path.exists(f"{where}/out/args"), "program started on invalid data")
        obs.state(case["name"])


def filters(case, obs):
    shape = tuple(case["shape"])
    real = tuple(s if s % 2 else s - 1 for s in shape)
    stack = np.zeros((len(case["sizes"]),) + real)
    for k, (h, w) in enumerate(case["sizes"]):
        h, w = min(h, real[0]), min(w, real[1])
        top, left = (real[0] - h) // 2, (real[1] - w) // 2
        stack[k, top:top + h, left:left + w] = np.abs(data((h, w), k)) + 1
    want = list(stack)
    if case["trim"]:
        want = [m[np.ix_(m.any(1), m.any(0))] for m in want]
    if not case["coarse"]:
        want = want[:-1]
    with bench(STUB["ok"][0], stack) as where:
        before = listing(where)
        given = {"tuple": tuple, "list": list, "array": np.array}[case["wrap"]](shape)
        options = {k: case[k] for k, default in (("opt", ""), ("coarse", False), ("trim", False))
                   if not (case.get("short") and case[k] == default)}
        got = get_mr_filters(given, **options)
        obs.check(len(got) == len(want), "{} filters instead of {}", len(got), len(want))
        for g, w in zip(got, want):
            obs.exact(g, w, "filter")
        obs.check(tuple(given) == shape, "shape {} turned into {}", shape, given)
        seen = same(fits.getdata(f"{where}/out/seen.fits"))
        delta = np.zeros(real)
        delta[real[0] // 2, real[1] // 2] = 1
        obs.exact(seen, delta, "impulse handed to the program")
        check_args(obs, where, case["opt"].split() if isinstance(case["opt"], str) else list(case["opt"]), "")
        obs.check(listing(where) == before, "files left behind")
        obs.state(case["shape"], [w.shape for w in want])
        obs.outcome(case["trim"], case["coarse"], len({w.shape for w in want}))


def shell(case, obs):
    where = tempfile.mkdtemp(prefix="mc29-")
    try:
        prog = f"{where}/prog"
        with open(prog, "w") as handle:
            handle.write(f'#!/bin/sh\nprintf "%s|" "$@"\n{case["extra"]}\n')
        os.chmod(prog, 0o755)
        out, err = execute(" ".join([prog, *case["args"]]))
        obs.check(out.startswith("".join(a + "|" for a in case["args"]) or "|"), "stdout {!r}", out)
        want = {"": "", "echo oops >&2": "oops\n", "exit 4": "", "echo é": "", "kill -TERM $$": "",
                "i=0; while [ $i -lt 3000 ]; do echo 0123456789012345678901234567890123456789 >&2; i=$((i+1)); done": None}
        if want[case["extra"]] is None:
            obs.check(len(err) == 3000 * 41, "long stderr cut to {}", len(err))
        else:
            obs.check(err == want[case["extra"]], "stderr {!r}", err)
        if case["extra"] == "echo é":
            obs.check(out.endswith("é\n"), "stdout {!r}", out)
        obs.state(case)
        for bad in (None, 3, ["ls"], b"ls"):
            obs.raises(TypeError, lambda: execute(bad), f"command {bad!r}")
    finally:
        shutil.rmtree(where, ignore_errors=True)


def run(ctx):
    cases = [dict(stub=s, remove=r, opt=o, path=p, shape=(4, 5), dtype="float64", times=2, default=False)
             for s in STUB for r in (True, False) for o in ("", "-t 2 -n 4", ["-t", "2"], []) for p in ("./", "sub/", "./sub/")
             if "interrupt" not in s or (o == "" and p == "sub/")]
    cases += [dict(stub=s, remove=True, opt="", path="./", shape=sh, dtype=d, times=3, default=df)
              for s in ("ok", "chatty", "says bad", "silent") for sh in ((1, 1), (3, 3), (2, 7), (40, 40))
              for d in ("float64", "float32", "int64", "int32", "int16") for df in (True, False)]
    cases += [dict(stub=s, remove=r, opt=o, path=f"{up}{f}/", shape=(4, 5), dtype="float64", times=2, default=False)
              for s in STUB if "interrupt" not in s for r in (True, False) for o in ("", "-t 2 -n 4", ["-t", "2"])
              for f in FOLDERS for up in ("", "./", "WORK/") if not (f == "-t" and not up)
              if s in ("ok", "says bad", "silent") or (f == "my data" and o == "")]
    ctx.explore("every program behaviour", cases, call, chunk=4)
    cases = [dict(state=s, remove=r, path=p) for s in SETUP for r in (True, False) for p in ("here", "sub", "nowhere")]
    ctx.explore("program can not be started", cases, broken_setup)
    cases = [dict(path=p, remove=r) for p in ("no/such/folder/", "./no/", "mr_temp_precious.fits/") for r in (True, False)]
    ctx.explore("folder can not be written", cases, nowhere)
    limits = [0, 1, 80, 1440, 2879, 2880, 2881, 4000, 5760, 5761, 8000, 8640, 11000, 11519, 11520, 11521, 14400, 17280, 20000]
    if ctx.thorough:
        limits = sorted(set(limits) | set(range(0, 21000, 97)))
    cases = [dict(limit=n, stub=s) for n in limits for s in ("ok", "silent", "bad, after output")]
    ctx.explore("disk full after every block", cases, full, chunk=2)
    acts = ["ok", "says bad", "silent", "bad, after output", "torn header"]
    cases = [dict(word=list(w)) for n in range(1, ctx.pick(4, 6)) for w in itertools.product(acts, repeat=n)]
    ctx.explore("all histories of failing calls", cases, history, chunk=2)
    ctx.explore("invalid data", [dict(name=n) for n in ("list", "none", "1d", "3d", "number", "0d")], invalid)
    sizes = [[(1, 1), (3, 3), (5, 5)], [(3, 3), (3, 3), (3, 3)], [(1, 3), (3, 1), (5, 5), (3, 5)], [(3, 3)], [(3, 1), (3, 3)]]
    cases = [dict(shape=s, sizes=z, coarse=c, trim=t, opt=o, wrap=w)
             for s in ((5, 5), (6, 6), (7, 6), (8, 5), (9, 9)) for z in sizes for c in (False, True) for t in (False, True)
             for o in ([], ["-t", "14"]) for w in ("tuple", "list", "array") if len(z) > 1 or c or t]
    cases += [dict(shape=(5, 5), sizes=[(1, 3), (3, 3), (5, 5)], wrap="tuple", opt=o, coarse=c, trim=t, short=True)
              for o in ("", "-t 2") for c in (False, True) for t in (False, True)]
    ctx.explore("filters", cases, filters, chunk=4)
    cases = [dict(args=list(a), extra=e) for n in range(4) for a in itertools.product(["-x", "file.fits"], repeat=n)
             for e in ("", "echo oops >&2", "exit 4", "echo é", "kill -TERM $$",
                       "i=0; while [ $i -lt 3000 ]; do echo 0123456789012345678901234567890123456789 >&2; i=$((i+1)); done")]
    ctx.explore("commands", cases, shell)
    ctx.assumptions += ["mr_transform is a stub program: Sparse2D is not installed",
                        "options without blanks"]
