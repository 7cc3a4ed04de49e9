"""C28: log files, warnings and file checks."""

import contextlib
import io
import itertools
import locale
import logging
import os
import re
import shutil
import tempfile
import warnings

from modopt.interface import errors
from modopt.interface.log import close_log, set_up_log

ENCODING = locale.getpreferredencoding(False)
LINE = re.compile(r"^\d\d/\d\d/\d{4} \d\d:\d\d:\d\d (.*)$")


@contextlib.contextmanager
def scratch():
    where = tempfile.mkdtemp(prefix="mc28-")
    try:
        yield where
    finally:
        shutil.rmtree(where, ignore_errors=True)


def lines(path):
    with open(path, encoding=ENCODING) as handle:
        return handle.read().splitlines()


def open_files(where):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if target.startswith(where):
            out.append(os.path.basename(target))
    return sorted(out)


def logs(case, obs):
    """Log files against a model: name -> None (closed) or list of messages."""
    with scratch() as where:
        model, handles, number, referred = {}, {}, 0, []
        known = set()
        try:
            for op in case["word"]:
                act, name = op[0], op[1:]
                base = os.path.join(where, name)
                path = base + ".log"
                heard = io.StringIO()
                loud = case["verbose"]
                if act == "s":
                    with contextlib.redirect_stdout(heard):
                        log = set_up_log(base, verbose=loud) if not case["default"] else set_up_log(base)
                    obs.check(isinstance(log, logging.Logger), "not a logger: {}", log)
                    handles[name] = log
                    # closing is not left to the garbage collector
                    referred += log.handlers
                    model[name] = [None]
                    known.add(name)
                    obs.check((path in heard.getvalue()) == (loud or case["default"]), "set up printed {!r}", heard.getvalue())
                elif act == "c":
                    if name not in model:
                        continue
                    with contextlib.redirect_stdout(heard):
                        close_log(handles[name], verbose=loud) if not case["default"] else close_log(handles[name])
                    obs.check((path in heard.getvalue()) == (loud or case["default"]), "closing printed {!r}", heard.getvalue())
                    got = [ln for ln in lines(path) if LINE.match(ln)]
                    obs.check(len(got) == len(model[name]) + 1, "{} lines after closing, {} expected", len(got), len(model[name]) + 1)
                    del model[name]
                    obs.check(not handles[name].handlers, "handlers left after closing")
                elif name in handles and act == "w":
                    number += 1
                    text = f"message {number}" + case.get("extra", "")
                    with warnings.catch_warnings(), contextlib.redirect_stderr(heard):
                        warnings.simplefilter("ignore")
                        errors.warn(text, log=handles[name])
                    obs.check(text in heard.getvalue() and "WARNING" in heard.getvalue(), "stderr {!r}", heard.getvalue())
                    if name in model:
                        model[name].append(text)
                elif name in handles:
                    number += 1
                    text = f"message {number}" + case.get("extra", "")
                    target = handles[name]
                    if act == "e":
                        with contextlib.redirect_stderr(heard):
                            errors.catch_error(text, log=target)
                        obs.check(text in heard.getvalue() and "ERROR" in heard.getvalue(), "stderr {!r}", heard.getvalue())
                    else:
                        getattr(target, {"d": "debug", "i": "info"}[act])(text)
                    if name in model:
                        model[name].append(text)
                # every open log has exactly its own messages, in order
                for key, want in model.items():
                    got = lines(os.path.join(where, key + ".log"))
                    full = [ln for ln in got if LINE.match(ln)]
                    obs.check(len(full) == len(want), "log {} has {} entries instead of {} after {}", key, len(full), len(want), case["word"])
                    for ln, text in zip(full, want):
                        obs.check(text is None or text in ln, "log {}: {!r} instead of {!r}", key, ln, text)
                obs.check(sorted(os.listdir(where)) == sorted(k + ".log" for k in known), "files {}", os.listdir(where))
                obs.check(open_files(where) == sorted(k + ".log" for k in model), "open files {} for open logs {} after {}",
                          open_files(where), sorted(model), case["word"])
                for key in known - set(model):
                    got = lines(os.path.join(where, key + ".log"))
                    if act == "c":
                        handles[key].mc_len = len(got)
                    obs.check(len(got) == handles[key].mc_len, "closed log {} grew", key)
                obs.state({k: len(v) for k, v in model.items()}, sorted(known))
            obs.outcome({k: len(v) for k, v in model.items()})
        finally:
            for name, log in handles.items():
                for hand in list(log.handlers):
                    log.removeHandler(hand)
                    hand.close()
                logging.Logger.manager.loggerDict.pop(log.name, None)
            logging.captureWarnings(False)


def captured(case, obs):
    """Once a log has been set up, warnings are logged instead of being written to stderr."""
    records = []
    hand = logging.Handler()
    hand.emit = lambda r: records.append(r.getMessage())
    collector = logging.getLogger("py.warnings")
    collector.addHandler(hand)
    # whatever stands in for the display of warnings outside
    shown = warnings.showwarning
    heard = io.StringIO()
    with scratch() as where, warnings.catch_warnings(), contextlib.redirect_stderr(heard):
        warnings.simplefilter("always")
        logs_open = {}
        try:
            for k, act in enumerate(case["word"]):
                if act in "ab":
                    logs_open[act] = set_up_log(f"{where}/{act}", verbose=False)
                elif act == "w" and logs_open:
                    before = len(records)
                    heard.truncate(0)
                    heard.seek(0)
                    warnings.warn(f"warning {k}", stacklevel=1)
                    obs.check(len(records) == before + 1 and f"warning {k}" in records[-1], "{} records of a warning", len(records) - before)
                    obs.check(f"warning {k}" not in heard.getvalue(), "the warning is written to stderr: {!r}", heard.getvalue())
                elif act == "w":
                    before = len(records)
                    warnings.warn(f"warning {k}", stacklevel=1)
                    obs.check(len(records) == before, "a warning is logged without a log")
                obs.state(case["word"][: k + 1], sorted(logs_open))
        finally:
            for log in logs_open.values():
                close_log(log, verbose=False)
                logging.Logger.manager.loggerDict.pop(log.name, None)
            logging.captureWarnings(False)
            collector.removeHandler(hand)
            warnings.showwarning = shown
    obs.outcome(len(records))


def message(case, obs):
    heard = io.StringIO()
    log = logging.getLogger("mc28") if case["log"] else None
    if log is not None:
        log.propagate = False
    records = []
    hand = logging.Handler()
    hand.emit = lambda r: records.append(r.getMessage())
    if log is not None:
        log.handlers = [hand]
    fun = errors.warn if case["kind"] == "warn" else errors.catch_error
    arg = ValueError(case["text"]) if case["exc"] else case["text"]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        with contextlib.redirect_stderr(heard):
            fun(arg, log=log) if case["log"] else fun(arg)
    text = heard.getvalue()
    obs.check(text.count(case["text"]) == 1, "stderr {!r}", text)
    obs.check(("WARNING" if case["kind"] == "warn" else "ERROR") in text and text.endswith("\n"), "stderr {!r}", text)
    mine = [w for w in caught if case["text"] in str(w.message)]
    if case["kind"] == "warn":
        obs.check(len(mine) == (1 if case["log"] else 0), "{} warnings issued", len(mine))
    else:
        obs.check(not mine, "error issued as a warning")
    obs.check(len(records) == (1 if case["log"] else 0), "{} log records", len(records))
    obs.check(not records or case["text"] in records[0], "log record {}", records)
    obs.state(case["kind"], case["log"], text)


def names(case, obs):
    with scratch() as where:
        os.makedirs(f"{where}/dir")
        with open(f"{where}/file", "w"):
            pass
        with open(f"{where}/-dash", "w"):
            pass
        os.symlink(f"{where}/file", f"{where}/link")
        os.symlink(f"{where}/none", f"{where}/dangling")
        home = os.getcwd()
        os.chdir(where)
        try:
            name = case["name"] if case["rel"] or not case["name"] else f"{where}/{case['name']}"
            good = case["name"] in ("file", "link", "dir/../file") or (case["name"] == "-dash" and not case["rel"])
            if good:
                obs.check(errors.file_name_error(name) is None, "{} refused", name)
            else:
                obs.raises(OSError, lambda: errors.file_name_error(name), f"file name {case['name']!r}")
            obs.state(case)
        finally:
            os.chdir(home)


def executables(case, obs):
    """All permission patterns over a search path of two directories."""
    with scratch() as where:
        path = []
        for num, mode in enumerate(case["modes"]):
            folder = f"{where}/bin{num}"
            if mode != "nodir":
                os.makedirs(folder)
            if mode == "dir":
                os.makedirs(f"{folder}/prog")
            elif mode not in ("none", "nodir"):
                with open(f"{folder}/prog", "w") as handle:
                    handle.write("#!/bin/sh\n")
                os.chmod(f"{folder}/prog", int(mode, 8))
            path.append(folder)
        runs = [m not in ("none", "nodir", "dir") and bool(int(m, 8) & 0o111) for m in case["modes"]]
        for folder, yes in zip(path, runs):
            full = f"{folder}/prog"
            obs.check(bool(errors.is_exe(full)) == yes, "is_exe says {} for {}", not yes, case["modes"])
            if yes:
                errors.is_executable(full)
                obs.step()
            else:
                obs.raises(OSError, lambda: errors.is_executable(full), f"path {case['modes']}")
        saved, home = os.environ["PATH"], os.getcwd()
        try:
            # a path relative to the current folder; never looked up on the search path
            os.environ["PATH"] = os.pathsep.join([where, *path])
            for at, names in ((where, [f"bin{k}/prog" for k in range(len(runs))]),
                              (where, [f"./bin{k}/prog" for k in range(len(runs))]),
                              (path[0] if os.path.isdir(path[0]) else where,
                               [f"../bin{k}/prog" for k in range(len(runs))] if os.path.isdir(path[0]) else [])):
                os.chdir(at)
                for name, yes in zip(names, runs):
                    if yes:
                        obs.check(errors.is_executable(name) is None, "{} refused", name)
                    else:
                        obs.raises(OSError, lambda: errors.is_executable(name), f"relative path {name}")
            os.makedirs(f"{where}/empty")
            os.chdir(f"{where}/empty")
            # on the search path, but not here
            obs.raises(OSError, lambda: errors.is_executable("bin0/prog"), "relative path, another folder")
            del os.environ["PATH"]
            obs.raises(OSError, lambda: errors.is_executable("mc28-prog"), "no search path")
            obs.check(errors.is_executable("sh") is None, "sh refused without a search path")
            os.environ["PATH"] = os.pathsep.join(path)
            if any(runs):
                obs.check(errors.is_executable("prog") is None, "executable on the search path refused")
            else:
                obs.raises(OSError, lambda: errors.is_executable("prog"), f"search path {case['modes']}")
            obs.raises(OSError, lambda: errors.is_executable("other"), "unknown program")
        finally:
            os.chdir(home)
            os.environ["PATH"] = saved
        for bad in (None, 1, ["prog"], b"prog", 1.0):
            obs.raises(TypeError, lambda: errors.is_executable(bad), f"executable {bad!r}")
        obs.state(case["modes"])
        obs.outcome(runs)


def run(ctx):
    letters = ["sa", "sb", "ia", "wb", "ea", "ca", "cb"]
    depth = ctx.pick(5, 6)
    cases = [dict(word=list(w), verbose=False, default=False) for w in itertools.product(letters, repeat=depth)
             if w[0][0] == "s"]
    cases += [dict(word=list(w), verbose=v, default=d)
              for w in itertools.product(["sa", "da", "ea", "wa", "ca", "sb", "db", "wb"], repeat=3) if w[0] == "sa"
              for v in (False, True) for d in (False, True)]
    extras = [" with {braces}", " 100%", " %s %d", " \\ back", " " + "long " * 400, " tab\tx"]
    if ENCODING.lower().replace("-", "") == "utf8":
        extras += [" h\u00e9", " \u03bb = 3", " \U0001f600"]
    cases += [dict(word=list(w), verbose=False, default=False, extra=e) for e in extras
              for w in itertools.product(["ia", "ea", "wa", "da"], repeat=2) for w in (("sa",) + w, ("sa",) + w + ("ca",))]
    # one name extends the other
    for one, two in (("a", "a.log"), ("a.log", "a.log.b"), ("a.log.b", "a"), ("a", "a.b"), ("a.b", "a.c")):
        cases += [dict(word=list(w), verbose=False, default=False)
                  for w in itertools.product([f"{x}{n}" for x in "sic" for n in (one, two)], repeat=ctx.pick(4, 5)) if w[0][0] == "s"]
    ctx.explore("all sequences of log operations", cases, logs)
    cases = [dict(word="".join(w)) for n in (1, 2, 3, 4) for w in itertools.product("abw", repeat=n)]
    ctx.explore("warnings and logs", cases, captured)
    cases = [dict(kind=k, log=g, text=t, exc=e) for k in ("warn", "catch") for g in (False, True)
             for t in ("text", "two words", "per%cent %s", "{braces}") for e in (False, True) if not (e and k == "warn")]
    ctx.explore("warnings and errors", cases, message)
    cases = [dict(name=n, rel=r) for n in ("", "file", "none", "dir", "link", "dangling", "-dash", "-x", "--", "dir/../file", "dir/none")
             for r in (False, True)]
    ctx.explore("file names", cases, names)
    modes = ["none", "nodir", "dir", "644", "755", "500", "600", "000"]
    cases = [dict(modes=list(m)) for n in (1, 2) + ((3,) if ctx.thorough else ()) for m in itertools.product(modes, repeat=n)]
    ctx.explore("executables", cases, executables)
    ctx.assumptions += ["one file is known by one name", "run as root"]
