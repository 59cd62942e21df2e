"""C08: gradients, masks and fit always match the current inputs."""
import copy

from sim import grids
from sim.engine import BaseCheck
from sim.faults import gen_alloc, gen_io, gen_line, place
from sim.model import Model


def gen_session(rng, state, n, reads=0.0):
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.08:
            state["saves"] = state.get("saves", 0) + 1
            op = {"op": "restart", "to": f"s{state['saves']}"}
            if rng.random() < 0.3:
                op["fault"] = gen_io(rng)
            ops.append(op)
            continue
        if k < 0.08 + reads:
            ops.append(grids.gen_read(rng))
            continue
        if rng.random() < 0.15:
            op = grids.gen_invalid(rng, state)
        elif state.get("n") and rng.random() < 0.08:
            op = {"op": "byhand", "u": rng.random(), "args": rng.choice([
                [0.05, 1.0], [0.2, 0.7, 0.5], [0.1, 2.0, 0.9, 0.3],
                [0.0, 1.0, 1.0, 1.0], [0.6, 1.5, 0.5, 0.2], [0.1, -1.0],
                [0.1, 1.0, 1.2], [0.1, 1.0, 1.0, -1], [0.2, 1.0, 0.0],
                ["tie", 1.0], ["tie", 1.0, 1.0, 0.5]])}
        elif rng.random() < 0.03:
            op = grids.gen_add(rng, n=11)
            state["n"] = state.get("n", 0) + 11
        else:
            op = grids.gen_change(rng, state)
        k = rng.random()
        if k < 0.12:
            op["fault"] = gen_line(rng)
        elif k < 0.18:
            op["fault"] = gen_alloc(rng)
        ops.append(op)
    return ops


class Session:
    """A grid and its model, driven by one list of operations."""

    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.w = ctx.new_world(plan["listing"])
        self.w.start_process(1)
        self.grid = grids.build(self.w.mod, plan["spec"], level=50)
        self.model = Model(self.grid)
        self.processes = 1

    def fail(self, cls, msg):
        self.ctx.fail(cls, msg)
        return False

    def change(self, op):
        """Apply a change to both; False if the grid went wrong."""
        w, M, ctx = self.w, self.w.mod, self.ctx
        text = grids.brief(op)
        verdict, after = self.model.predict(op)
        if verdict in ("unclear", "skip"):
            ctx.probe("skipped: " + verdict)
            return True
        faults = []
        if "fault" in op:
            kind = op["fault"]["kind"]
            dry = copy.deepcopy(self.grid)
            with grids.quiet():
                w.run(grids.make(M, w, dry, op),
                      lines=kind == "interrupt-line", allocs=kind == "alloc")
            faults = [place(op["fault"], w.counts())]
        kind, value = w.run(grids.make(M, w, self.grid, op), faults,
                            label=text)
        ctx.probe(op["op"] + " " + kind)
        if w.fired and kind != "ok":
            # stopped: either nothing happened or all of it
            ctx.nontrivial = True
            if not self.model.mismatch(self.grid):
                return True
            wrong = after.mismatch(self.grid)
            if verdict == "reject" or wrong:
                return self.fail("mixture", f"{text}, stopped by "
                                 f"{w.fired[0]}: "
                                 f"{self.model.mismatch(self.grid)}")
            self.model = after
            return True
        if verdict == "reject" and kind == "ok":
            return self.fail("accepted", f"{text} should be rejected")
        if verdict == "ok" and kind != "ok":
            return self.fail("refused", f"{text} is refused: {value!r}")
        if kind == "ok":
            self.model = after
        wrong = self.model.mismatch(self.grid)
        if wrong:
            return self.fail("wrong", f"after {text}: {wrong}")
        if op["op"] == "fit" and kind == "ok" and self.model.grads is not None:
            if self.grid.gradient_fit is None:
                return self.fail("wrong", f"after {text} there is no fit")
        return True

    def restart(self, op):
        """Save, start a fresh process, load."""
        w, ctx = self.w, self.ctx
        faults = []
        if "fault" in op:
            n = self.w.run(lambda: self.grid.save(op["to"] + "-dry"),
                           label="")
            faults = [place(op["fault"], w.counts())]
        kind, value = w.run(lambda: self.grid.save(op["to"]), faults,
                            label="save " + op["to"])
        where = op["to"]
        if kind != "ok":
            if kind != "crash":
                ctx.probe("failed save")
                return True         # and the work goes on
            where = op["to"] + "-dry"
            ctx.probe("crashed while saving")
        self.processes += 1
        M = w.start_process(self.processes)
        kind, value = w.run(lambda: M.Shallot.ShallotGrid.load(where, 50),
                            label="load " + where)
        if kind != "ok":
            return self.fail("load-fails", f"load: {value!r}")
        self.grid = value
        ctx.nontrivial = True
        wrong = self.model.mismatch(self.grid)
        if wrong:
            return self.fail("wrong", f"after a restart: {wrong}")
        ctx.probe("restart")
        return True


class C08(BaseCheck):
    id = "C08"
    runs = {"quick": 2400, "thorough": 12000}
    rule = ("One evaluation = one seeded run: 5-30 operations on one grid "
            "(eclipse parameters, adding, removing, rescaling, masks, fits, "
            "invalid input, interrupts at any source line, failing "
            "allocations, saves hit by disk faults or crashes, restarts), "
            "compared with the reference model after every one.")
    nontrivial_rule = ("an operation was stopped by a fault or the grid went "
                       "through a restart.")
    lists = ("ops",)

    def gen(self, rng):
        state = {}
        return {"spec": grids.gen_spec(rng), "listing": rng.randrange(10**6),
                "ops": gen_session(rng, state, rng.choice([5, 10, 15, 30]),
                                   0.06)}

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            if "fault" in op:
                p = dict(plan)
                p["ops"] = list(plan["ops"])
                p["ops"][i] = {k: v for k, v in op.items() if k != "fault"}
                yield p
        if plan["spec"]["diag"]:
            yield dict(plan, spec=dict(plan["spec"], diag=False))

    def execute(self, plan, ctx):
        s = Session(ctx, plan)
        for op in plan["ops"]:
            if op["op"] == "restart":
                good = s.restart(op)
            elif hasattr(Model, "_" + op["op"]):
                good = s.change(op)
            else:
                s.w.run(grids.make(s.w.mod, s.w, s.grid, op),
                        label=grids.brief(op))
                wrong = s.model.mismatch(s.grid)
                good = not wrong or s.fail("wrong", f"after reading "
                                           f"{grids.brief(op)}: {wrong}")
            if not good:
                return


CHECK = C08()
