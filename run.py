#!/opt/venv/bin/python
"""run.py C03 [--tier quick] [--seed N] [--runs N] | --replay FILE"""
import argparse
import os
import sys

for k, v in {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
             "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1"}.items():
    os.environ[k] = v
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("check", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int,
                   default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--runs", type=int)
    p.add_argument("--workers", type=int)
    p.add_argument("--replay")
    p.add_argument("--selfcheck", action="store_true",
                   help="import the code and the checks, run nothing")
    a = p.parse_args()

    import shutil
    import tempfile
    mpl = tempfile.mkdtemp(prefix="verif-mpl-")
    src = "/opt/vp/mplconfig/fontlist-v330.json"
    if os.path.exists(src):
        shutil.copy(src, mpl)
    os.environ["MPLCONFIGDIR"] = mpl
    code = 2
    try:
        from sim import engine
        if a.selfcheck:
            from sim import world
            world.repo()
            import glob
            for path in sorted(glob.glob(os.path.join(HERE, "checks",
                                                      "c[0-9]*.py"))):
                engine.load_check(os.path.basename(path)[:-3].upper())
            print("selfcheck: ok")
            code = 0
        elif a.replay:
            body, ctx = engine.replay(a.replay)
            for line in ctx.trace:
                print("  " + line)
            for cls, msg in ctx.violations:
                print(f"violation {cls}: {msg}")
            for cls, msg in ctx.known:
                print(f"known {cls}: {msg}")
            same = any(c == body["class"]
                       for c, _ in ctx.violations + ctx.known)
            if same and engine.trace_hash(ctx) == body["trace_hash"]:
                print("replay: reproduced exactly")
            elif same:
                print("replay: same violation, different trace")
            else:
                print("replay: not reproduced")
            if same:
                print(f"VIOLATION property={body['property']} "
                      f"replay={a.replay}")
            code = 1 if same else 0
        else:
            code = engine.run_check(a.check.upper(), a.tier, a.seed, a.runs,
                                    a.workers)
    finally:
        shutil.rmtree(mpl, ignore_errors=True)
    return code


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
