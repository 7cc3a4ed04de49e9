"""Controlled scheduler: stateless exploration of thread interleavings.

The tasks handed to ``joblib.Parallel`` are run in real threads, but one at a
time: a thread gives up control before every source line of ModOpt it is about
to execute, and the scheduler decides who goes on.  A schedule is the list of
those decisions; ``interleavings`` enumerates all schedules with at most
``bound`` preemptions.
"""

import contextlib
import sys
import threading

from . import boot


class _Run:
    def __init__(self, tasks, prefix):
        self.tasks = tasks
        self.prefix = list(prefix)
        self.go = [threading.Semaphore(0) for _ in tasks]
        self.back = threading.Semaphore(0)
        self.done = [False] * len(tasks)
        self.results = [None] * len(tasks)
        self.errors = [None] * len(tasks)
        self.points = []

    def _pause(self, me):
        self.back.release()
        self.go[me].acquire()

    def _thread(self, me):
        self.go[me].acquire()

        def local(frame, event, arg):
            if event == "line":
                self._pause(me)
            return local

        def tracer(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(boot.SRC):
                return local
            return None

        fn, args, kwargs = self.tasks[me]
        sys.settrace(tracer)
        try:
            self.results[me] = fn(*args, **kwargs)
        except BaseException as exc:
            self.errors[me] = exc
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.back.release()

    def run(self):
        threads = [
            threading.Thread(target=self._thread, args=(k,), daemon=True)
            for k in range(len(self.tasks))
        ]
        for thread in threads:
            thread.start()
        current = None
        while not all(self.done):
            enabled = [k for k, d in enumerate(self.done) if not d]
            step = len(self.points)
            if step < len(self.prefix) and self.prefix[step] in enabled:
                choice = self.prefix[step]
            elif current in enabled:
                choice = current
            else:
                choice = enabled[0]
            self.points.append((tuple(enabled), choice, current))
            current = choice
            self.go[choice].release()
            self.back.acquire()
        for thread in threads:
            thread.join()
        for error in self.errors:
            if error is not None:
                raise error
        return self.results


@contextlib.contextmanager
def controlled(prefix, log):
    """Run every ``joblib.Parallel`` call under the schedule ``prefix``."""
    import joblib

    original = joblib.Parallel.__call__

    def call(self, iterable):
        run = _Run(list(iterable), prefix[len(log):])
        try:
            return run.run()
        finally:
            log.extend(run.points)

    joblib.Parallel.__call__ = call
    try:
        yield
    finally:
        joblib.Parallel.__call__ = original


def interleavings(body, bound, limit=200000):
    """Run ``body`` under every schedule with at most ``bound`` preemptions.

    ``body`` is run once per schedule; yields (schedule, result).
    """
    stack = [((), 0)]
    count = 0
    while stack:
        prefix, used = stack.pop()
        log = []
        with controlled(list(prefix), log):
            result = body()
        count += 1
        if count > limit:
            raise RuntimeError("too many schedules")
        yield tuple(c for _, c, _ in log), result
        for step in range(len(prefix), len(log)):
            enabled, chosen, current = log[step]
            for other in enabled:
                if other == chosen:
                    continue
                cost = 1 if current in enabled else 0
                if used + cost <= bound:
                    head = tuple(c for _, c, _ in log[:step]) + (other,)
                    stack.append((head, used + cost))
