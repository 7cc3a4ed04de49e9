"""Run one check:  run.py C01 [--tier quick|thorough] [--replay FILE]"""

import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from mc import boot  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    args = parser.parse_args()
    if sys.prefix != boot.VENV or any(
        os.environ.get(k) != v for k, v in boot.ENV.items()
    ):
        os.environ.update(boot.ENV)
        os.execv(boot.VENV_PYTHON, [boot.VENV_PYTHON, "-B", os.path.abspath(__file__), *sys.argv[1:]])
    boot.boot(args.prop)
    from mc import core

    module = importlib.import_module(f"mc.props.{args.prop.lower()}")

    ctx = core.Ctx(
        args.prop,
        args.tier if args.tier in ("quick", "thorough") else "quick",
        int(os.environ.get("VERIF_SEED", "1") or 1),
        getattr(module, "LEVEL", "model_checking"),
    )
    if args.replay:
        with open(args.replay) as handle:
            ctx.only = json.load(handle)
            ctx.tier = ctx.only.get("tier", ctx.tier)
    module.run(ctx)
    return ctx.finish()


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    os._exit(code)
