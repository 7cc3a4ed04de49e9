"""C10: observers: registration, notification and the metric convergence flag."""

import functools
import itertools

import numpy as np

from modopt.base.observable import MetricObserver, Observable

from ..core import Pruned

SIGNALS = ("s", "t")


class Boom(Exception):
    pass


def machine(case, obs):
    """Drive Observable and an ordered-set model through the same operations."""
    log = []
    subject = Observable(list(SIGNALS))
    other = Observable(["s"])
    model = {s: [] for s in SIGNALS}
    inner = []

    def plain(sig):
        obs.check(sig.object is subject, "the signal comes from {}", sig.object)
        log.append(("A", sig.signal, sig.x))

    def raiser(sig):
        log.append(("B", sig.signal, sig.x))
        raise Boom()

    def nested(sig):
        log.append(("C", sig.signal, sig.x))
        for name in SIGNALS:
            inner.append(subject.notify_observers(name, x=-1))

    def leaver(sig):
        log.append(("D", sig.signal, sig.x))
        subject.remove_observer(sig.signal, leaver)

    def joiner(sig):
        log.append(("E", sig.signal, sig.x))
        subject.add_observer(sig.signal, late)

    def late(sig):
        log.append(("L", sig.signal, sig.x))

    class Counter:
        def see(self, sig):
            log.append(("M", sig.signal, sig.x))

    counter = Counter()

    class Who(dict):
        def __missing__(self, name):
            return counter.see  # a new bound method object every time

    who = Who(A=plain, B=raiser, C=nested, D=leaver, E=joiner, L=late)
    for number, word in enumerate(case["ops"]):
        verb, sig, name = word[0], word[1], word[2:]
        if verb == "+":
            if sig == "?":
                obs.raises(ValueError, lambda: subject.add_observer("?", who[name]),
                           "observer for a signal that is not allowed")
            else:
                subject.add_observer(sig, who[name])
                if name not in model[sig]:
                    model[sig].append(name)
        elif verb == "-":
            if sig == "?":
                obs.raises(ValueError, lambda: subject.remove_observer("?", who[name]),
                           "removal for a signal that is not allowed")
            else:
                subject.remove_observer(sig, who[name])
                if name in model[sig]:
                    model[sig].remove(name)
        else:
            del log[:]
            del inner[:]
            due = list(model[sig])
            cut = due.index("B") + 1 if "B" in due else len(due)
            called = due[:cut]
            raised = False
            answer = None
            try:
                answer = subject.notify_observers(sig, x=number)
            except Boom:
                raised = True
            want = [(n, sig, number) for n in called]
            got = [e for e in log if e[0] != "L" or "L" in called]
            obs.check(got == want, "notification {} reached {} instead of {}", number, log, want)
            obs.check(raised == ("B" in called), "exception of an observer {}",
                      "lost" if not raised else "invented")
            if not raised:
                obs.check(answer is True, "notification answered {}", answer)
            obs.check(inner == [False] * len(inner), "a notification took place inside another")
            if "D" in called:
                model[sig].remove("D")
            if "E" in called and "L" not in model[sig]:
                model[sig].append("L")
        obs.check(list(subject.allowed_signals) == list(SIGNALS), "allowed signals changed")
        obs.state(model["s"], model["t"], verb)
    # another observable is not affected
    del log[:]
    obs.check(other.notify_observers("s", x=1) is True and not log, "observers leaked")
    obs.outcome(model["s"], model["t"])


def flag(values, wind, eps):
    if len(values) < wind:
        return False
    old = np.mean(values[-wind: -(wind // 2)])
    new = np.mean(values[-(wind // 2):])
    if old == 0:
        return False
    change = abs(old - new) / abs(old)
    if 0 < abs(change - eps) < 1e-10:
        raise Pruned("boundary")
    return bool(change < eps)


class Signal:
    pass


def alike(case, obs):
    """Observers that look alike (name, type, settings) but are not the same."""
    log = []

    def build(number):
        if case["what"] == "metric":
            return MetricObserver("m", lambda test: log.append(number) or 1.0,
                                  {"a": "test"}, {}, wind=2, eps=1e-3)
        if case["what"] == "function":
            def observer(sig):
                log.append(number)
            return observer
        if case["what"] == "partial":
            return functools.partial(lambda number, sig: log.append(number), number)

        class Same:
            name = "same"

            def __call__(self, sig):
                log.append(number)

            def see(self, sig):
                log.append(number)

        if case["what"] == "unhashable":
            Same.__hash__ = None
        elif case["what"] == "empty":
            Same.__len__ = lambda self: 0
        elif case["what"] == "false":
            Same.__bool__ = lambda self: False
        return Same().see if case["what"] == "method" else Same()

    who = [build(k) for k in range(3)]
    subject, model = Observable(["s"]), []
    for number, word in enumerate(case["ops"]):
        if word == "!":
            del log[:]
            subject.notify_observers("s", a=number, idx=number)
            obs.check(log == model, "notification reached {} instead of {}", log, model)
            continue
        k = int(word[1])
        if word[0] == "+":
            subject.add_observer("s", who[k])
            model = model if k in model else model + [k]
        else:
            subject.remove_observer("s", who[k])
            model = [m for m in model if m != k]
        obs.state(case["what"], model)
    obs.outcome(model)


def metric(case, obs):
    """The convergence flag and the records of a metric observer."""
    values, wind, eps = case["values"], case["wind"], case["eps"]
    seen = []

    def measure(test, ref):
        seen.append((test, ref))
        return values[len(seen) - 1]

    kwargs = {} if wind is None else {"wind": wind, "eps": eps}
    inst = MetricObserver("m", measure, {"a": "test", "b": None}, {"ref": "R"},
                          early_stopping=case["early"], **kwargs)
    wind, eps = (6, 1e-3) if wind is None else (wind, eps)
    obs.check(not inst.converge_flag, "convergence flag up before any value")
    for k in range(len(values)):
        sig = Signal()
        sig.a, sig.b, sig.idx = 10 * k, "unused", 3 * k
        inst(sig)
        want = flag(values[: k + 1], wind, eps) if case["early"] else False
        obs.check(bool(inst.converge_flag) == want, "flag {} after value {} of {}",
                  inst.converge_flag, k, values)
        obs.state(wind, eps, k, want, values[max(0, k - wind): k + 1])
    obs.check(seen == [(10 * k, "R") for k in range(len(values))], "metric called with {}", seen)
    report = inst.retrieve_metrics()
    obs.exact(np.array(report["values"], float), np.array(values, float), "reported values")
    obs.check(list(report["index"]) == [3 * k for k in range(len(values))], "reported indices {}",
              report["index"])
    obs.check(np.shape(report["time"]) == (len(values),), "reported times {}", report["time"])
    obs.outcome(bool(inst.converge_flag))


def run(ctx):
    ops = ["+s" + n for n in "ABCDE"] + ["-s" + n for n in "ABDL"] + ["+tA", "-tA", "+tC", "!s", "!t"]
    depth = ctx.pick(5, 6)
    cases = [dict(ops=list(w)) for w in itertools.product(ops, repeat=depth)]
    ctx.explore(f"all operation sequences of length {depth}", cases, machine)
    small = ["+sA", "+sD", "+sC", "+sM", "-sA", "-sD", "-sM", "!s", "+?A", "-?A"]
    cases = [dict(ops=list(w)) for w in itertools.product(small, repeat=ctx.pick(5, 6))]
    ctx.explore("longer sequences over fewer operations", cases, machine)
    full = ["+sA", "+sL", "+sE", "+sC", "+sD", "+sM"]
    cases = [dict(ops=list(p) + tail) for n in range(1, len(full) + 1) for p in itertools.permutations(full, n)
             for tail in (["!s", "!s", "!s"], ["!s", "-sA", "!s", "+sA", "!s"],
                          ["+sB", "!s", "!s", "-sB", "!s"])]
    ctx.explore("all registration orders", cases, machine)
    words = ["+0", "+1", "+2", "-0", "-1", "!"]
    cases = [dict(what=what, ops=list(w) + ["!"])
             for what in ("metric", "function", "partial", "method", "object", "unhashable", "empty", "false")
             for w in itertools.product(words, repeat=ctx.pick(4, 6))]
    ctx.explore("observers that look alike", cases, alike)
    cases = [
        dict(values=list(v), wind=w, eps=e, early=x)
        for v in itertools.product([1.0, 2.0, -1.0, 0.0], repeat=ctx.pick(6, 7)) for w in (2, 3, 4, 5)
        for e in (1e-3, 0.5) for x in (True,)
    ]
    cases += [
        dict(values=list(v), wind=w, eps=e, early=x)
        for v in itertools.product([1.0, 1.002], repeat=ctx.pick(9, 11))
        for w, e in ((None, None), (6, 1e-3), (7, 5e-4)) for x in (True, False)
    ]
    cases += [
        dict(values=list(v), wind=w, eps=e, early=True)
        for v in itertools.product([1.0, float("nan"), float("inf"), 0.0], repeat=ctx.pick(5, 7))
        for w, e in ((2, 1e-3), (3, 0.5), (4, 2.0))
    ]
    ctx.explore("all metric histories", cases, metric)
