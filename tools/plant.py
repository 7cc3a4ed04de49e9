"""Confirm planted bugs in scratch copies and run the checks on them.

    plant.py DEFS.py [ID ...]     create/confirm the bugs defined in DEFS.py
    plant.py --check [ID ...]     run the checks on the bugs in seeded/

DEFS.py holds BUGS, a list of dicts: id, property, edits [(file, old, new)],
needs, breaks, demo (Python source; must fail with the change).
"""

import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
SCRATCH = "/tmp/plant"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MPLBACKEND="Agg", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="")
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=900, env=ENV):
    try:
        out = subprocess.run(cmd, cwd=cwd, shell=True, env=env, capture_output=True, text=True, timeout=timeout)
        return out.returncode, out.stdout + out.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy(name):
    where = f"{SCRATCH}/{name}"
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    shutil.copytree("/repo", where, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    return where


def failed(where):
    code, out = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:sugar --no-cov --timeout=300 "
                   "--continue-on-collection-errors --doctest-modules --ignore=src/modopt/signal/validation.py tests src",
                   where, env=dict(ENV, PYTHONPATH=f"{where}/src"))
    return sorted(set(re.findall(r"^(?:FAILED|ERROR) (\S+)", out, re.M))), out.strip().splitlines()[-1]


def check(prop, where):
    code, out = sh(f"python3 run.py {prop}", HERE, env=dict(ENV, VERIF_REPO=where, VERIF_SEED="1", VERIF_TIER="quick"))
    hit = code == 1 and f"VIOLATION property={prop} " in out
    lines = [ln for ln in out.splitlines() if "VIOLATION" not in ln and ln.startswith(prop) and " executions" not in ln]
    return code, hit, (lines or out.splitlines()[-3:] or [""])


def confirm(bug, baseline):
    name = bug["id"]
    where = copy(name)
    try:
        for path, old, new in bug["edits"]:
            full = f"{where}/{path}"
            text = open(full).read()
            if text.count(old) != 1:
                return name, f"edit matches {text.count(old)} times in {path}"
            open(full, "w").write(text.replace(old, new))
        _, patch = sh("git diff", where)
        fails, summary = failed(where)
        if fails != baseline:
            return name, f"tests notice: {sorted(set(fails) - set(baseline))} {summary}"
        folder = f"{SEEDED}/{name}"
        os.makedirs(folder, exist_ok=True)
        open(f"{folder}/patch.diff", "w").write(patch)
        open(f"{folder}/demo.sh", "w").write(DEMO)
        os.chmod(f"{folder}/demo.sh", 0o755)
        open(f"{folder}/demo.py", "w").write(bug["demo"].lstrip("\n"))
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(f"{folder}/meta.json", "w"), indent=1)
        open(f"{folder}/meta.json", "a").write("\n")
        good, gout = sh(f"bash {folder}/demo.sh", "/repo", 300)
        bad, bout = sh(f"bash {folder}/demo.sh", where, 300)
        if good != 0 or bad == 0:
            shutil.rmtree(folder)
            return name, f"demo: {good} on the clean tree, {bad} with the bug\n{gout[-800:]}\n--\n{bout[-300:]}"
        code, hit, lines = check(bug["property"], where)
        return name, f"{bug['property']} {'CAUGHT' if hit else 'MISSED'} (exit {code}) {lines[0][:260]}"
    finally:
        shutil.rmtree(where, ignore_errors=True)


def recheck(name):
    meta = json.load(open(f"{SEEDED}/{name}/meta.json"))
    where = copy(name)
    try:
        code, out = sh(f"git apply {SEEDED}/{name}/patch.diff", where)
        if code:
            return name, f"patch does not apply: {out}"
        code, hit, lines = check(meta["property"], where)
        return name, f"{meta['property']} {'CAUGHT' if hit else 'MISSED'} (exit {code}) {lines[0][:200]}"
    finally:
        shutil.rmtree(where, ignore_errors=True)


def main():
    if sys.argv[1] == "--check":
        names = sys.argv[2:] or sorted(os.listdir(SEEDED))
        job = recheck
        work = names
    else:
        spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        work = [b for b in mod.BUGS if not sys.argv[2:] or b["id"] in sys.argv[2:]]
        base = copy("base")
        baseline, summary = failed(base)
        shutil.rmtree(base)
        print("baseline:", summary, flush=True)
        job = lambda b: confirm(b, baseline)
    with cf.ThreadPoolExecutor(4) as pool:
        for name, text in pool.map(job, work):
            print(f"{name}: {text}", flush=True)


main()
