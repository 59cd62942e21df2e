"""tools/determinism.py [seed] [runs]: are executions functions of their plan?

Every check's first runs are executed three times, each in fresh interpreters:
as usual, backwards in a single worker under another PYTHONHASHSEED, and with
three workers under yet another one. All trace hashes (every file-system call,
fault, log line and verdict) have to agree.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHILD = """
import json, os, sys, tempfile
sys.path.insert(0, sys.argv[1])
for k, v in {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
             "MPLBACKEND": "Agg"}.items():
    os.environ[k] = v
from sim import engine
check = engine.load_check(sys.argv[2])
seed, order = int(sys.argv[3]), json.loads(sys.argv[4])
engine._worker_init()
out = {}
for i in order:
    ctx = engine.execute(check, engine.make_plan(check, seed, i),
                         engine._SCRATCH)
    out[i] = engine.trace_hash(ctx)
sys.stderr = sys.__stderr__
print("HASHES " + json.dumps(out))
"""


def hashes(check, seed, order, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed),
               PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-c", CHILD, HERE, check, str(seed),
                        json.dumps(order)], env=env, capture_output=True,
                       text=True)
    lines = [x for x in r.stdout.splitlines() if x.startswith("HASHES ")]
    if not lines:
        raise SystemExit(f"{check}: {r.stderr[-2000:]}")
    return json.loads(lines[0][7:])


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 5
    runs = int(sys.argv[2]) if len(sys.argv) > 2 else 40
    bad = 0
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    for check in [c["property"] for c in manifest["checks"]]:
        order = list(range(runs))
        a = hashes(check, seed, order, 0)
        b = hashes(check, seed, order[::-1], 12345)
        c = hashes(check, seed, order[1::2] + order[::2], 777)
        diff = [i for i in a if not a[i] == b[i] == c[i]]
        bad += len(diff)
        print(f"{check}: {runs} plans x 3 executions, {len(set(a.values()))} "
              f"distinct traces, {len(diff)} not repeated exactly {diff[:5]}",
              flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
