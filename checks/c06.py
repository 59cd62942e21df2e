"""C06: looking at a grid never changes it."""
import copy
import os

import numpy as np

from sim import grids
from sim.engine import BaseCheck
from sim.faults import gen_alloc, gen_io, gen_line, place
from checks.c04 import apply, gen_ops


class C06(BaseCheck):
    id = "C06"
    runs = {"quick": 2500, "thorough": 12000}
    rule = ("One evaluation = one seeded run: a grid is built, worked on and "
            "possibly reloaded; then 3-12 read operations (valid, invalid, "
            "interrupted at any source line, failing allocations, disk errors "
            "while saving) with modifying operations in between; everything "
            "observable is compared before and after every read, and every "
            "read is repeated later.")
    nontrivial_rule = "at least one read was cut short or rejected."
    lists = ("ops", "reads")

    def gen(self, rng):
        state = {}
        ops = gen_ops(rng, state, rng.choice([0, 3, 5, 8]))
        if rng.random() < 0.6:
            ops.append({"op": "fit", "w": rng.random() < 0.5})
        reads = []
        loose = None
        if rng.random() < 0.2:
            loose = {"seed": rng.randrange(1000), "mask": rng.random() < 0.4,
                     "gradient": rng.random() < 0.5}
        for _ in range(rng.choice([3, 5, 8, 12])):
            if rng.random() < 0.12:
                reads.append(dict(grids.gen_change(rng, state), change=True))
                continue
            op = grids.gen_read(rng)
            k = rng.random()
            if k < 0.18:
                op["fault"] = gen_line(rng)
            elif k < 0.3:
                op["fault"] = gen_alloc(rng)
            elif op["op"] == "save" and k < 0.75:
                op["fault"] = gen_io(rng, ("interrupt", "enospc", "eio",
                                           "eacces"))
            reads.append(op)
        return {"spec": grids.gen_spec(rng), "listing": rng.randrange(10**6),
                "ops": ops, "reads": reads, "reload": rng.random() < 0.3,
                "loose": loose}

    def simplify(self, plan):
        if plan["reload"]:
            yield dict(plan, reload=False)
        for i, r in enumerate(plan["reads"]):
            if "fault" in r:
                p = dict(plan)
                p["reads"] = list(plan["reads"])
                p["reads"][i] = {k: v for k, v in r.items() if k != "fault"}
                yield p
        if plan["spec"]["diag"]:
            yield dict(plan, spec=dict(plan["spec"], diag=False))

    def execute(self, plan, ctx):
        w = ctx.new_world(plan["listing"])
        M = w.start_process(1)
        grid = grids.build(M, plan["spec"], level=50)
        for op in plan["ops"]:
            apply(M, w, grid, op)
        if plan["reload"]:
            grid.save("start")
            M = w.start_process(2)
            grid = M.Shallot.ShallotGrid.load("start", 50)
        if plan.get("loose"):
            self.unusual(M, grid, plan["loose"])
        before = grids.observe(grid)
        asked = {}
        for op in plan["reads"]:
            if op.get("change"):
                apply(M, w, grid, op)
                before, asked = grids.observe(grid), {}
                continue
            faults = []
            if "fault" in op:
                dry = copy.deepcopy(grid)
                lines = op["fault"]["kind"] == "interrupt-line"
                allocs = op["fault"]["kind"] == "alloc"
                with grids.quiet():
                    w.run(grids.make(M, w, dry, op), lines=lines,
                          allocs=allocs)
                faults = [place(op["fault"], w.counts())]
            kind, value = w.run(grids.make(M, w, grid, op), faults,
                                label=grids.brief(op))
            if kind != "ok":
                ctx.nontrivial = True
            ctx.probe(op["op"] + {"ok": "", "error": " failed",
                                  "interrupt": " interrupted"}[kind])
            after = grids.observe(grid)
            bad = grids.diff(before, after)
            if bad:
                how = {"ok": "", "error": "failed ",
                       "interrupt": "interrupted "}[kind]
                return ctx.fail("changed", f"the {how}read "
                                f"{grids.brief(op)} changed: "
                                + grids.short(bad))
            if op["op"] in ("slice", "cube", "save") or w.fired:
                continue
            answer = (grids.freeze(value) if kind == "ok"
                      else type(value).__name__)
            key = str(sorted(op.items(), key=str))
            if key not in asked:
                asked[key] = (op, answer)
        for op, answer in asked.values():
            kind, value = w.run(grids.make(M, w, grid, op))
            again = value if kind == "ok" else type(value).__name__
            if not grids.same(answer, again):
                return ctx.fail("answer", f"{grids.brief(op)} answers "
                                "differently when asked again")
        bad = grids.diff(before, grids.observe(grid))
        if bad:
            ctx.fail("changed", "asking everything again changed: "
                     + grids.short(bad))

    @staticmethod
    def unusual(M, grid, how):
        """Properties made by the caller, with values no grid has."""
        rs = np.random.RandomState(how["seed"])
        P = M.GridProperty

        def values():
            data = rs.uniform(-3, 3, grid.parameters.grid_shape)
            for v in (np.inf, -np.inf, np.nan, -0.0, 1e300):
                data[rs.random_sample(data.shape) < 0.06] = v
            return data
        with grids.quiet():
            grid.tilt = P.GridProperty(grid.tilt.name, grid.tilt.unit,
                                       values(), grid.parameters)
            if how["gradient"]:
                g = P.GridGradient(values(), grid.parameters, 0.25)
                if how["mask"]:
                    g.determine_mask(0.5, 0.5)
                else:
                    g.measured_error = 1.0
                grid.gradients = (grid.gradients or []) + [g]
            if how["mask"]:
                grid.tilt.set_mask(rs.random_sample(
                    grid.parameters.grid_shape) < 0.3)


CHECK = C06()
