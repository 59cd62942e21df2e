"""C19: several readers of one object at a time answer as each does alone."""
import copy
import os

import numpy as np

from sim import grids, rings
from sim.engine import BaseCheck
from sim.threads import Scheduler
from checks.c04 import apply, gen_ops


def gen_reading(rng):
    k = rng.random()
    if k < 0.1:
        return {"op": "view", "name": rng.choice(grids.MAPS),
                "axis": rng.choice([0, 1, 2, 2]), "m": rng.random() < 0.6,
                "scroll": [rng.choice(["up", "up", "down"])
                           for _ in range(rng.choice([1, 3, 5]))]}
    if k < 0.16:
        return {"op": "load"}
    if k < 0.22:
        return {"op": "rings", "what": rng.choice(["repr", "data", "plot"])}
    op = grids.gen_read(rng)
    while op["op"] == "cube":           # pyplot has one current figure
        op = grids.gen_read(rng)
    return op


PASSING = ("validate.py", "GridPropertyUnit.py", "GridPropertyName.py")


def gen_focus(rng):
    """One or two readings that compute much, with arguments of their own."""
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        if k < 0.3:
            op = grids.gen_nearest(rng)
        elif k < 0.5:
            op = {"op": "extract", "k": rng.choice([1, 2, 5, None])}
        elif k < 0.6:
            op = {"op": "combined"}
        elif k < 0.8:
            op = {"op": rng.choice(["get", "gradients", "getfit"]),
                  "name": rng.choice(grids.MAPS), "m": rng.random() < 0.7,
                  "p": rng.random() < 0.3}
        elif k < 0.9:
            op = grids.gen_point(rng)
        else:
            op = gen_reading(rng)
        if op["op"] == "nearest" and rng.random() < 0.6:
            op["b"] = rng.choice([-1, 1]) * rng.uniform(0.2, 2.5)
        out.append(op)
    return out


class Reader:
    def __init__(self, M, w, k, plan, grid, system, prefix):
        self.M, self.w, self.k, self.plan = M, w, k, plan
        self.grid, self.system, self.prefix = grid, system, prefix
        self.out, self.loaded = [], []
        self.lines, self.at = 0, None

    def hook(self, code, line):
        self.lines += 1
        if self.at is not None and self.lines > self.at:
            self.at = None
            raise KeyboardInterrupt()

    def call(self, n, op):
        if op["op"] == "view":
            return lambda: view(self.M, self.grid, op)
        if op["op"] == "load":
            return self.load
        if op["op"] == "rings":
            return lambda: look(self.system, op["what"])
        if op["op"] == "save":
            op = dict(op, to=f"{self.prefix}{self.k}-{n}")
        return grids.make(self.M, self.w, self.grid, op)

    def load(self):
        self.loaded.append(self.M.Shallot.ShallotGrid.load("base", 50))

    def body(self):
        for n, op in enumerate(self.plan):
            self.lines, self.at = 0, op.get("stop")
            try:
                value = ("ok", grids.freeze(self.call(n, op)()))
            except Exception as e:
                value = (f"error {type(e).__name__}", str(e))
            except KeyboardInterrupt:
                value = ("interrupt", None)
            self.at = None
            self.out.append((grids.brief(op), value))


def look(system, what):
    if what == "repr":
        return repr(system)
    if what == "data":
        return system.get_rings_data()
    import matplotlib.figure
    ax = matplotlib.figure.Figure().add_subplot()
    system.plot(ax, 0.3, -0.2)
    return [p.get_path().vertices.copy() for p in ax.patches]


def view(M, grid, op):
    import matplotlib.figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    fig = matplotlib.figure.Figure(figsize=(2, 2), dpi=30)
    FigureCanvasAgg(fig).draw = lambda *a, **k: None
    ax = fig.add_subplot()
    p = getattr(grid, op["name"])
    viewer = M.GridProperty.GridPropertyViewer(ax, op["axis"], p, op["m"])
    seen = []
    for button in op["scroll"]:
        viewer.onscroll(grids.Event(button))
        seen.append(ax.get_title())
        seen.append(np.ma.filled(viewer.image.get_array(), np.nan))
    return seen


class C19(BaseCheck):
    id = "C19"
    runs = {"quick": 2500, "thorough": 18000}
    rule = ("One evaluation = one seeded run: one worked-on grid (and one "
            "ring system) is read by 2-4 threads - retrieval, lookups, "
            "extraction, printing, plots and viewers, saving to different "
            "places, loading the same save - first one reader after the "
            "other, then together under a seeded schedule that switches at "
            "source lines and file-system calls; some readings are "
            "interrupted. Answers, saved files and the grid are compared.")
    nontrivial_rule = "the schedule switched between readers at least twice."
    stubs = BaseCheck.stubs + [
        "the OS thread scheduler (real threads, one runs at a time, a seeded "
        "schedule decides at source lines and file-system calls)"]
    assumptions = BaseCheck.assumptions + [
        "threads switch between source lines of the code under test and at "
        "file-system calls, not inside numpy calls",
        "every reader has a figure of its own"]
    lists = ("ops", "readers", "schedule")

    def gen(self, rng):
        state = {}
        ops = gen_ops(rng, state, rng.choice([2, 4, 6, 8]))
        if rng.random() < 0.6:
            ops.append({"op": "fit", "w": rng.random() < 0.5})
        spec = grids.gen_spec(rng)
        while min(spec["p"][2], spec["p"][5], spec["p"][7]) < 2:
            spec = grids.gen_spec(rng)      # viewers need two values
        same = [gen_reading(rng) for _ in range(rng.choice([1, 3, 5]))]
        readers = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            r = copy.deepcopy(same) if rng.random() < 0.5 else [
                gen_reading(rng) for _ in range(rng.choice([1, 3, 5]))]
            for op in r:
                if rng.random() < 0.1:
                    op["stop"] = int(10 ** rng.uniform(0, 2.5))
            readers.append(r)
        scale = rng.choice([0.7, 1.5, 2.5])
        number = rng.choice([6, 20, 80])
        focus = rng.random() < 0.5
        if focus:               # few calls, finely interleaved
            readers = [gen_focus(rng) for _ in range(rng.choice([2, 2, 3]))]
            scale, number = rng.choice([(0.5, 300), (1, 100), (1.5, 40)])
        schedule = [[int(10 ** rng.uniform(0, scale)),
                     rng.randrange(len(readers))]
                    for _ in range(number)]
        return {"spec": spec, "ops": ops, "readers": readers,
                "system": rings.gen_system(rng, rng.choice([2, 3])),
                "schedule": schedule, "listing": rng.randrange(10**6),
                "coarse": focus}

    def simplify(self, plan):
        for i, r in enumerate(plan["readers"]):
            for j in range(len(r)):
                p = copy.deepcopy(plan)
                del p["readers"][i][j]
                yield p
        if plan["spec"]["diag"]:
            yield dict(plan, spec=dict(plan["spec"], diag=False))

    def execute(self, plan, ctx):
        w = ctx.new_world(plan["listing"])
        if not plan["readers"]:
            return
        M = w.start_process(1)
        grid = grids.build(M, plan["spec"], level=50)
        for op in plan["ops"]:
            apply(M, w, grid, op)
        system = rings.build(M, plan["system"])
        with grids.quiet():
            grid.save("base")
        before = grids.observe(grid)
        expected = grids.observe(grid, False)
        ring_before = rings.observe(system)
        alone = [Reader(M, w, k, r, copy.deepcopy(grid),
                        copy.deepcopy(system), "alone")
                 for k, r in enumerate(plan["readers"])]
        for reader in alone:
            Scheduler(w, [], False).run([reader.body], [reader.hook])
        together = [Reader(M, w, k, r, grid, system, "with")
                    for k, r in enumerate(plan["readers"])]
        s = Scheduler(w, plan["schedule"], True,
                      PASSING if plan.get("coarse") else ())
        s.run([r.body for r in together], [r.hook for r in together])
        ctx.nontrivial = s.switches >= 2
        ctx.stats["switches"] += s.switches
        for a, b in zip(alone, together):
            for (text, one), (_, other) in zip(a.out, b.out):
                ctx.probe(text.split("(")[0] + " " + one[0].split()[0])
                if one[0] == "interrupt":
                    ctx.fault_stats["interrupt-line"] += 1
                if one[0] != other[0] or (one[0] == "ok" and
                                          not grids.same(one[1], other[1])):
                    return ctx.fail("answer", f"reader {a.k}: {text} ends "
                                    f"with {other[0]} among others, with "
                                    f"{one[0]} alone"
                                    + ("; the answers differ"
                                       if one[0] == other[0] else ""))
            for g in b.loaded:
                bad = grids.diff(expected, grids.observe(g, False))
                if bad:
                    return ctx.fail("loaded", f"reader {b.k} loaded a "
                                    "different grid: " + grids.short(bad))
            for n, op in enumerate(plan["readers"][a.k]):
                if op["op"] == "save" and b.out[n][1][0] == "ok":
                    one = w.tree(f"alone{a.k}-{n}")
                    two = w.tree(f"with{a.k}-{n}")
                    bad = [f for f in sorted(set(one) | set(two))
                           if one.get(f) != two.get(f)]
                    if bad:
                        return ctx.fail("saved", f"reader {a.k} saved other "
                                        f"files among others: {bad[:4]}")
        bad = grids.diff(before, grids.observe(grid))
        if bad:
            return ctx.fail("changed", "reading together changed: "
                            + grids.short(bad))
        bad = grids.diff(ring_before, rings.observe(system))
        if bad:
            ctx.fail("changed", "reading together changed the ring system: "
                     + grids.short(bad))


CHECK = C19()
