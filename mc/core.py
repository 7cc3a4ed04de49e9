"""Explorer: enumerates cases completely, in parallel, and keeps the books.

A *group* is one finite space of executions.  ``Ctx.explore`` runs every
member of it against the real code; the case function drives ModOpt and a
reference model in lock step through an ``Obs`` object, which counts the
distinct states seen, the transitions compared and the executions completed.
Nothing is sampled: if a group can not be finished the check says so.
"""

import contextlib
import io
import itertools
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np

from . import boot

CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "60"))
MAX_JOBS = 12000  # their numbers have to fit in a pipe
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The property does not hold on this execution."""


class Pruned(Exception):
    """The execution leaves the stated bounds (counted, not judged)."""


class Hang(BaseException):
    """The code under test did not come back in time."""


def _alarm(signum, frame):
    raise Hang()


def canon(value):
    """Canonical, rounding-tolerant form of a value, for hashing states."""
    if isinstance(value, np.ndarray):
        if value.dtype == object:
            return ("o",) + tuple(canon(v) for v in value.ravel())
        if value.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                value = np.round(value.astype(complex), 6) + 0.0
        return (value.shape, value.tobytes())
    if isinstance(value, (float, np.floating)):
        return round(float(value), 6) + 0.0
    if isinstance(value, complex):
        return (canon(value.real), canon(value.imag))
    if isinstance(value, (list, tuple)):
        return tuple(canon(v) for v in value)
    if isinstance(value, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in value.items()))
    if isinstance(value, (np.integer,)):
        return int(value)
    return repr(value)


def digest(value):
    data = repr(canon(value)).encode()
    return (zlib.crc32(data) << 32) | zlib.adler32(data)


class Obs:
    """What one execution observed."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.outcomes = set()
        self.known = set()

    def state(self, *value):
        self.states.add(digest(value))

    def merge(self, other):
        self.states |= other.states
        self.outcomes |= other.outcomes
        self.known |= other.known
        self.transitions += other.transitions

    def step(self, number=1):
        self.transitions += number

    def outcome(self, *value):
        self.outcomes.add(digest(value))

    def check(self, condition, message, *args):
        self.transitions += 1
        if not condition:
            raise Violation(message.format(*args) if args else message)

    def close(self, got, want, message, rtol=1e-7, atol=1e-9):
        """Equality of shape and values up to rounding (NaN equals NaN)."""
        self.transitions += 1
        got_a, want_a = np.asarray(got), np.asarray(want)
        if got_a.dtype == object or want_a.dtype == object:
            if len(got_a) != len(want_a):
                raise Violation(f"{message}: {short(got)} instead of {short(want)}")
            for g, w in zip(got_a, want_a):
                self.close(g, w, message, rtol, atol)
            return
        if got_a.shape != want_a.shape:
            raise Violation(
                f"{message}: shape {got_a.shape} instead of {want_a.shape}"
            )
        with np.errstate(all="ignore"):
            same = np.allclose(got_a, want_a, rtol=rtol, atol=atol, equal_nan=True)
        if not same:
            raise Violation(f"{message}: {short(got)} instead of {short(want)}")

    def exact(self, got, want, message):
        self.transitions += 1
        got_a, want_a = np.asarray(got), np.asarray(want)
        # NaN equals NaN
        nan = got_a.dtype.kind in "fc" and want_a.dtype.kind in "fc"
        if got_a.shape != want_a.shape or not np.array_equal(got_a, want_a, equal_nan=nan):
            raise Violation(f"{message}: {short(got)} instead of {short(want)}")

    def raises(self, kinds, func, message):
        """The call must be refused with one of the documented exceptions."""
        self.transitions += 1
        try:
            result = func()
        except kinds:
            return
        except Hang:
            raise
        except Exception as exc:
            raise Violation(f"{message}: raised {exc!r}") from exc
        raise Violation(f"{message}: accepted, returned {short(result)}")


def short(value, limit=300):
    text = np.array2string(value, threshold=20) if isinstance(value, np.ndarray) else repr(value)
    text = " ".join(text.split())
    return text if len(text) <= limit else text[:limit] + "..."


_FN = None
_KNOWN = frozenset()


def _run_case(fn, case, timeout):
    obs = Obs()
    error = None
    pruned = 0
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            with np.errstate(all="ignore"):
                fn(case, obs)
    except Pruned:
        pruned = 1
    except Violation as exc:
        error = str(exc)
    except Hang:
        error = f"no answer within {timeout:g} s"
    except Exception as exc:
        where = traceback.extract_tb(exc.__traceback__)
        site = "; ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in where[-4:]
        )
        error = f"unexpected {type(exc).__name__}: {exc} at {site}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return obs, error, pruned


def _work(args):
    start, cases, timeout = args
    states, outcomes, known = set(), set(), set()
    transitions = 0
    pruned = 0
    done = 0
    failures = []
    for number, case in enumerate(cases):
        obs, error, prune = _run_case(_FN, case, timeout)
        done += 1
        pruned += prune
        states |= obs.states
        outcomes |= obs.outcomes
        known |= obs.known
        transitions += obs.transitions
        if error is not None:
            failures.append((start + number, case, error))
            break
    return states, outcomes, transitions, pruned, done, known, failures


def _serve(jobs, source, sink):
    """One worker: take job numbers from the common pipe until it is empty."""
    while True:
        token = os.read(source, 4)
        if len(token) < 4:
            break
        number = int.from_bytes(token, "little")
        sink.send(("begin", number))
        sink.send(("end", _work(jobs[number])))
    sink.send(("bye", None))
    sink.close()


def _parallel(jobs, workers):
    """Run all jobs on forked workers; after a failure start no further ones.

    A pool is not used: terminating it while tasks are queued can dead-lock.
    """
    source, feed = os.pipe()
    os.write(feed, b"".join(n.to_bytes(4, "little") for n in range(len(jobs))))
    os.close(feed)
    sys.stdout.flush()
    sys.stderr.flush()
    running = {}
    for _ in range(min(workers, len(jobs))):
        ours, theirs = mp.Pipe(duplex=False)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                ours.close()
                for other in running:
                    other.close()
                _serve(jobs, source, theirs)
                code = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code)
        theirs.close()
        running[ours] = [pid, None]
    deadline = None
    try:
        while running:
            wait = None if deadline is None else max(0, deadline - time.time())
            ready = mp.connection.wait(list(running), wait)
            if not ready:
                break
            for conn in ready:
                pid, job = running[conn]
                try:
                    kind, value = conn.recv()
                except (EOFError, OSError):
                    kind, value = "died", None
                if kind == "begin":
                    running[conn][1] = value
                    continue
                if kind == "end":
                    running[conn][1] = None
                    result = value
                else:
                    conn.close()
                    del running[conn]
                    status = os.waitpid(pid, 0)[1]
                    if kind == "bye" or job is None:
                        continue
                    start, cases, _ = jobs[job]
                    result = (set(), set(), 0, 0, 0, set(),
                              [(start, cases[0], f"the process running this case or one of the next {len(cases) - 1} "
                                f"died (status {status})")])
                if result[6] and deadline is None:
                    deadline = time.time() + 20
                    while os.read(source, 65536):
                        pass
                yield result
    finally:
        os.close(source)
        for conn, (pid, _) in running.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            conn.close()


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed, level):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.began = time.time()
        self.groups = {}
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.pruned = 0
        self.samples = []
        self.failures = []
        self.known = set()
        self.assumptions = []
        self.only = None
        with open(os.path.join(boot.VERIF, "known_findings.json")) as handle:
            self.findings = {
                item["key"]: item
                for item in json.load(handle)["known"]
                if item["property"] == prop
            }

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def explore(self, name, cases, fn, timeout=CASE_TIMEOUT, workers=None, chunk=None):
        """Run ``fn(case, obs)`` on every case."""
        global _FN
        if self.only is not None:
            if self.only["group"] != name:
                return
            wanted = self.only["case"]
            cases = [c for c in cases if _plain(c) == wanted]
            if not cases:
                print(f"replay: case not found in group {name}", file=sys.stderr)
                return
        cases = list(cases)
        if not cases:
            raise RuntimeError(f"group {name} is empty")
        began = time.time()
        known_keys = frozenset(self.findings)
        _FN = fn
        workers = workers or WORKERS
        size = chunk or max(1, min(200, len(cases) // (workers * 8) or 1))
        size = max(size, len(cases) // MAX_JOBS + 1)
        jobs = [
            (i, cases[i : i + size], timeout) for i in range(0, len(cases), size)
        ]
        outcomes, states = set(), set()
        transitions = traces = pruned = 0
        failures = []
        if workers == 1 or len(jobs) == 1 or self.only is not None:
            results = map(_work, jobs)
        else:
            results = _parallel(jobs, workers)
        for st, out, tr, pr, done, known, fails in results:
            states |= st
            outcomes |= out
            transitions += tr
            traces += done
            pruned += pr
            for key in known:
                if key not in known_keys:
                    raise RuntimeError(f"unknown known-finding key {key}")
            self.known |= known
            failures += fails
            if fails and results.__class__ is map:
                break
        failures.sort(key=lambda item: item[0])
        self.states |= {hash((name, s)) for s in states}
        self.transitions += transitions
        self.traces += traces - pruned
        self.pruned += pruned
        self.groups[name] = {
            "executions": traces,
            "of": len(cases),
            "outside_bounds": pruned,
            "states": len(states),
            "transitions": transitions,
            "distinct_outcomes": len(outcomes),
            "wall_s": round(time.time() - began, 2),
        }
        step = max(1, len(cases) // 2)
        for case in cases[::step][:2]:
            self.samples.append({"group": name, "case": _plain(case)})
        for number, case, error in failures[:1]:
            self.failures.append({"group": name, "case": _plain(case), "error": error})

    def finish(self):
        out = os.path.join(boot.VERIF, "evidence", f"{self.prop}.json")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        complete = not self.failures and all(
            g["executions"] == g["of"] for g in self.groups.values()
        )
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": len(self.states),
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "exhaustive": complete,
                "outside_bounds": self.pruned,
                "groups": self.groups,
                "samples": self.samples[:24],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.began, 2),
            "violations": len(self.failures),
        }
        if self.level == "fault_enumeration":
            evidence["coverage"]["evaluations"] = self.traces
            evidence["coverage"]["distinct_nontrivial"] = sum(
                g["distinct_outcomes"] for g in self.groups.values()
            )
            evidence["coverage"]["rule"] = (
                "every fault at every step of every listed history; distinct "
                "observed end states are counted"
            )
            del evidence["coverage"]["traces_validated_against_impl"]
        if self.only is None:
            with open(out, "w") as handle:
                json.dump(evidence, handle, indent=1)
                handle.write("\n")
        for key in sorted(self.known):
            print(f"KNOWN-FINDING: property={self.prop} {self.findings[key]['what']}")
        for name, grp in self.groups.items():
            print(
                f"{self.prop} {name}: {grp['executions']}/{grp['of']} executions, "
                f"{grp['states']} states, {grp['transitions']} transitions, "
                f"{grp['distinct_outcomes']} outcomes, {grp['wall_s']} s"
            )
        if not self.failures:
            print(
                f"{self.prop} held: {self.traces} executions, {len(self.states)} "
                f"states, {self.transitions} transitions, "
                f"{evidence['wall_s']} s"
            )
            return 0
        for number, failure in enumerate(self.failures):
            where = os.path.join(boot.VERIF, "replays")
            os.makedirs(where, exist_ok=True)
            path = os.path.join(where, f"{self.prop}-{number}.json")
            if self.only is None:
                with open(path, "w") as handle:
                    json.dump({"property": self.prop, "tier": self.tier, **failure}, handle, indent=1)
                    handle.write("\n")
            print(f"{self.prop} {failure['group']} {short(failure['case'])}: {failure['error']}")
            print(f"VIOLATION property={self.prop} replay={path}")
        return 1


def _plain(case):
    return json.loads(json.dumps(case, default=_default))


def _default(value):
    if isinstance(value, np.ndarray):
        return {"array": value.tolist(), "dtype": str(value.dtype)}
    if isinstance(value, (np.integer,)):
        return int(value)
    if isinstance(value, (np.floating,)):
        return float(value)
    if isinstance(value, (set, frozenset)):
        return sorted(value)
    return repr(value)


def product_dicts(**axes):
    """All combinations of named axes, as dictionaries."""
    names = list(axes)
    for combo in itertools.product(*axes.values()):
        yield dict(zip(names, combo))
