"""Entry point: python -m zmon.run C01 [quick|thorough]  |  --replay FILE"""
import faulthandler
import importlib
import json
import os
import sys
import threading
import traceback
import warnings
from contextlib import redirect_stdout
from . import core

LIMIT = {"quick": 780, "thorough": 850}


def main(argv):
    only = None
    if argv and argv[0] == "--replay":
        rep = json.load(open(argv[1]))
        prop, tier, seed, only = rep["property"], rep["tier"], rep["seed"], rep["section"]
    else:
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(prop, tier, seed, only)
    module = importlib.import_module(f"zmon.checks.{prop.lower()}")
    faulthandler.enable()

    def too_long():  # a call of the library which never comes back must not hang the check
        sys.stdout = sys.__stdout__
        print("The run exceeded its time limit; stacks of this process:", flush=True)
        faulthandler.dump_traceback(file=sys.__stdout__)
        ctx.ok(False, "the monitored operation returns", limit_s=LIMIT[tier], last_case=ctx.current)
        code = core.finish(ctx, module.RULE, module.LEVEL, module.ASSUMPTIONS)
        sys.stdout.flush()
        os._exit(code)
    timer = threading.Timer(LIMIT[tier], too_long); timer.daemon = True; timer.start()
    warnings.simplefilter("ignore")
    try:
        core.import_target()
    except core.HarnessError:
        raise
    except BaseException as e:  # noqa: B902
        if not core.Ctx.from_target(e):
            raise
        ctx.section = "import"
        ctx.ok(False, "the package can be imported", exception=f"{type(e).__name__}: {e}")
        return core.finish(ctx, module.RULE, module.LEVEL, module.ASSUMPTIONS)
    failed = None
    for name, func in module.SECTIONS:
        if only is not None and name.split(":")[0] != only.split(":")[0]:
            continue
        if ctx.violations and core.time.time() - ctx.t0 > 200:
            break  # the verdict is known; broken code may be arbitrarily slow
        ctx.section = name
        t = core.time.time()
        try:
            with open(os.devnull, "w") as quiet, redirect_stdout(quiet):  # reports and prints of the library
                with ctx.guard():
                    func(ctx)
        except BaseException:  # noqa: B902
            failed = traceback.format_exc()
            print(failed)
        ctx.extra.setdefault("section_seconds", {})[name] = round(core.time.time() - t, 2)
    timer.cancel()
    if failed and not ctx.violations:
        print(f"harness error in the check of {prop}: no verdict")
        return 3
    return core.finish(ctx, module.RULE, module.LEVEL, module.ASSUMPTIONS)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(code)  # do not wait for processes leaked by the code under test
