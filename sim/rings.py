"""Ring systems: generation, operations and observation."""
import copy

import numpy as np

from sim.grids import ask, quiet


def gen_system(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 4]) if n is None else n
    inner, outer, trans = [], [], []
    r = rng.choice([0.0, 0.5, 1.0])
    for _ in range(n):
        if rng.random() < 0.5:
            r = round(r + rng.choice([0.1, 0.5, 1.0]), 4)   # a gap
        inner.append(r)
        r = round(r + rng.choice([0.2, 0.7, 1.0, 2.5]), 4)
        outer.append(r)
        trans.append(rng.choice([0.0, 0.2, 0.5, 0.5, 0.9, 1.0]))
    return {"R": 0.3, "inner": inner, "outer": outer, "trans": trans,
            "i": rng.choice([0.0, 30.0, 72.5]),
            "t": rng.choice([0.0, -40.0, 110.0])}


def build(M, spec, level=50):
    return M.RingSystem.RingSystem(
        spec["R"], np.array(spec["inner"], float),
        np.array(spec["outer"], float), np.array(spec["trans"], float),
        spec["i"], spec["t"], logging_level=level)


def observe(system):
    out = {}
    with quiet():
        s = copy.deepcopy(system)
        out["planet"] = s.planet_radius
        out["inclination"], out["tilt"] = s.inclination, s.tilt
        for n, v in zip(("inner", "outer", "transmission"),
                        s.get_rings_data()):
            out[n] = np.array(v)
        out["ring geometry"] = [(r.inclination, r.tilt) for r in s.rings]
        out["num"] = s.get_num_rings()
        out["repr"] = ask(lambda: repr(s))
    return out


def gen_ring(rng, edges):
    """A ring that often touches or overlaps what is there."""
    edges = sorted(set(edges + [0.0])) or [0.0]
    k = rng.random()
    if k < 0.35:                       # exactly between two edges
        a = rng.choice(edges)
        later = [e for e in edges if e > a]
        b = rng.choice(later[:2]) if later and rng.random() < 0.8 \
            else a + rng.choice([0.3, 1.0])
    else:
        a = rng.choice(edges) + rng.choice([0.0, 0.01, 0.05, -0.05, 0.2])
        b = a + rng.choice([0.02, 0.1, 0.5, 3.0])
    a = max(round(a, 6), 0.0)
    b = max(round(b, 6), round(a + 0.01, 6))
    return {"in": a, "out": b, "tr": rng.choice([0.0, 0.2, 0.5, 0.9, 1.0]),
            "i": rng.choice([0, 30.0, 45.0]), "t": rng.choice([0, 20.0])}


def gen_edit(rng, n, edges):
    k = rng.random()
    if k < 0.3:
        return {"op": "add", "at": rng.randrange(n + 1),
                "ring": gen_ring(rng, edges)}
    if k < 0.42:
        return {"op": "remove", "at": rng.randrange(max(n, 1))}
    if k < 0.6:
        return {"op": "replace", "at": rng.randrange(max(n, 1)),
                "ring": gen_ring(rng, edges)}
    if k < 0.72:
        return {"op": "split", "n": rng.choice([2, 2, 3, 5, [1, 2, 3]])}
    if k < 0.88:
        return {"op": "merge", "tol": rng.choice([None, None, 1e-6, 1e-3,
                                                  0.0, 0.3])}
    return rng.choice([
        {"op": "add", "at": n + 2, "ring": gen_ring(rng, edges)},
        {"op": "add", "at": -1, "ring": gen_ring(rng, edges)},
        {"op": "add", "at": 0, "ring": None},
        {"op": "add", "at": 0.5, "ring": gen_ring(rng, edges)},
        {"op": "remove", "at": n + 1},
        {"op": "remove", "at": -1},
        {"op": "replace", "at": n + 1, "ring": gen_ring(rng, edges)},
        {"op": "replace", "at": 0, "ring": None},
        {"op": "replace", "at": -1, "ring": gen_ring(rng, edges)},
        {"op": "split", "n": 1},
        {"op": "split", "n": 0},
        {"op": "split", "n": "two"},
        {"op": "split", "n": [2, 2], "extra": 1},
        {"op": "split", "n": [2, 0, 2]},
    ])


def ring(M, r):
    if r is None:
        return "not a ring"
    return M.Ring.Ring(r["in"], r["out"], r["tr"], r["i"], r["t"])


def divisions(op, n):
    if isinstance(op["n"], list):
        n += op.get("extra", 0)
        return [op["n"][i % len(op["n"])] for i in range(n)]
    return op["n"]


def make(M, system, op):
    k = op["op"]
    if k in ("add", "replace"):
        r = ring(M, op["ring"])
        if k == "add":
            return lambda: system.add_ring(op["at"], r)
        return lambda: system.replace_ring(op["at"], r)
    if k == "remove":
        return lambda: system.remove_ring(op["at"])
    if k == "split":
        n = divisions(op, system.get_num_rings())
        if isinstance(n, list):
            n = np.array(n)
        return lambda: system.split_rings(n)
    if op["tol"] is None:
        return lambda: system.merge_rings()
    return lambda: system.merge_rings(op["tol"])
