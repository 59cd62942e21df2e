"""C07: a rejected, failed or interrupted change leaves no trace."""
import copy

import numpy as np

from sim import grids, rings
from sim.engine import BaseCheck
from sim.faults import gen_alloc, gen_line, place
from checks.c04 import gen_ops
from checks.c10 import C10 as Edits, gen_edit


def gen_step(rng, state):
    k = rng.random()
    what = rng.choice(["grid"] * 8 + ["gradient", "gradient", "parameters",
                                      "property", "rings", "rings",
                                      "rings"])
    s = {"on": what}
    invalid = k < 0.4
    if what == "grid":
        if invalid:
            s["op"] = grids.gen_invalid(rng, state)
            k = 1 if rng.random() < 0.7 else 0.5
        else:
            s["op"] = grids.gen_change(rng, state)
    elif what == "gradient":
        s["u"] = rng.random()
        s["op"] = {"op": "determine_mask", "args": rng.choice([
            [0.2, 1.0, 0.5, 0.1], [0.05, 0.5], [0.3, 0.9, 1.0],
            [-0.1, 1.0], [0.2, -1.0], [0.2, 1.0, 1.5], [0.2, 1.0, 0.5, -1.0],
            [0.5, 10.0], [0.2, 1.0, "x"], [0.9, 1.0, 0.1, 0.3],
            ["x", 1.0], [0.2, 3.0, 0.9, "x"]])}
    elif what == "parameters":
        s["op"] = {"op": "extend_grid"}
        s["p"] = grids.gen_spec(rng)["p"]
    elif what == "property":
        s["u"] = rng.random()
        s["op"] = rng.choice([
            {"op": "set_contrast_parameters", "kw": {"vmin": 0.1,
                                                     "vmax": "x"}},
            {"op": "set_contrast_parameters", "kw": {"color_map": 5,
                                                     "vmin": 0.5}},
            {"op": "set_contrast_parameters", "kw": {"num_colors": 1,
                                                     "color_map": "jet"}},
            {"op": "set_contrast_parameters", "kw": {"num_colors": 7,
                                                     "color_map": "jet"}},
            {"op": "set_mask", "bad": "shape"},
            {"op": "set_mask", "bad": "text"},
            {"op": "set_mask", "seed": rng.randrange(100), "p": 0.5}])
    else:
        s["op"] = gen_edit(rng)
    if 0.4 <= k < 0.8:
        s["fault"] = gen_line(rng)
    elif 0.8 <= k < 0.97:
        s["fault"] = gen_alloc(rng)
    return s


class C07(BaseCheck):
    id = "C07"
    runs = {"quick": 2500, "thorough": 20000}
    rule = ("One evaluation = one seeded run: a worked-on grid, its gradients "
            "and properties, a parameters object and a ring system; 4-14 "
            "changes that are invalid, interrupted at any source line, or hit "
            "by a failing allocation; state compared with the state before "
            "and with the state of the completed call, then repeated.")
    nontrivial_rule = "at least one change did not complete."
    lists = ("ops", "steps")

    def gen(self, rng):
        state = {}
        ops = gen_ops(rng, state, rng.choice([0, 3, 6]))
        return {"spec": grids.gen_spec(rng), "listing": rng.randrange(10**6),
                "rings": rings.gen_system(rng), "ops": ops,
                "steps": [gen_step(rng, state) for _ in
                          range(rng.choice([4, 6, 10, 14]))]}

    def simplify(self, plan):
        for i, s in enumerate(plan["steps"]):
            if "fault" in s:
                p = dict(plan)
                p["steps"] = list(plan["steps"])
                p["steps"][i] = {k: v for k, v in s.items() if k != "fault"}
                yield p
        if plan["spec"]["diag"]:
            yield dict(plan, spec=dict(plan["spec"], diag=False))

    def execute(self, plan, ctx):
        from checks.c04 import apply
        w = ctx.new_world(plan["listing"])
        M = w.start_process(1)
        state = {"grid": grids.build(M, plan["spec"], level=50),
                 "rings": rings.build(M, plan["rings"])}
        for op in plan["ops"]:
            apply(M, w, state["grid"], op)
        for s in plan["steps"]:
            if s["on"] == "parameters":
                state["parameters"] = M.GridParameters.GridParameters(*s["p"])
            if s["on"] == "gradient" and not state["grid"].gradients:
                continue
            if not self.step(ctx, w, M, state, s):
                return

    # ------------------------------------------------------------------
    def observe(self, state, s):
        if s["on"] == "rings":
            return rings.observe(state["rings"])
        if s["on"] == "parameters":
            return grids.observe_parameters(state["parameters"])
        return grids.observe(state["grid"])

    def make(self, M, w, state, s):
        on, op = s["on"], s["op"]
        if on == "grid":
            return grids.make(M, w, state["grid"], op)
        if on == "rings":
            have = Edits.state(state["rings"])
            op = Edits.resolve(op, have)
            if op["op"] == "split" and len(have) * np.max(
                    op["n"] if not isinstance(op["n"], str) else 1,
                    initial=1) > 60:
                op["n"] = 1                 # refused
            r = op.get("ring")
            if r and r["out"] - max(r["in"], 1e-16) < 1e-5:
                r["out"] = r["in"] + 0.1
            return Edits.make(M, state["rings"], op)
        if on == "parameters":
            return state["parameters"].extend_grid
        if on == "gradient":
            gs = state["grid"].gradients
            g = gs[int(s["u"] * len(gs))]
            return lambda: g.determine_mask(*op["args"])
        g = state["grid"]
        names = ("disk_radius", "inclination", "tilt", "fx_map",
                 "diagnostic_map")
        p = getattr(g, names[int(s["u"] * len(names))])
        if op["op"] == "set_mask":
            mask = grids.make_mask(op, g.parameters.grid_shape)
            return lambda: p.set_mask(mask)
        return lambda: p.set_contrast_parameters(**op["kw"])

    def step(self, ctx, w, M, state, s):
        text = s["on"] + "." + grids.brief(s["op"])
        before = self.observe(state, s)
        # what the completed call does, and where it can be stopped
        ideal = copy.deepcopy(state)
        kind0 = s.get("fault", {}).get("kind")
        with grids.quiet():
            k0, v0 = w.run(self.make(M, w, ideal, s),
                           lines=kind0 == "interrupt-line",
                           allocs=kind0 == "alloc")
        counts = w.counts()
        completed = self.observe(ideal, s)
        if k0 == "error":
            bad = grids.diff(before, completed)
            if bad:
                return self.fail(ctx, "trace", f"the rejected {text} "
                                 f"({v0!r}) changed: " + grids.short(bad))
        faults = []
        if "fault" in s:
            faults = [place(s["fault"], counts)]
        kind, value = w.run(self.make(M, w, state, s), faults, label=text)
        after = self.observe(state, s)
        unchanged = not grids.diff(before, after)
        done = k0 == "ok" and not grids.diff(completed, after)
        if kind != "ok":
            ctx.nontrivial = True
        if not w.fired:
            if kind != k0 or type(value).__name__ != type(v0).__name__:
                return self.fail(ctx, "unstable", f"{text} ends with {kind} "
                                 f"{value!r}, but with {k0} {v0!r} on a copy")
            if kind == "ok" and not done:
                return self.fail(ctx, "unstable", f"{text} has another "
                                 "result on a copy: " + grids.short(
                                     grids.diff(completed, after)))
            if kind != "ok" and not unchanged:
                return self.fail(ctx, "trace", f"the rejected {text} "
                                 f"({value!r}) changed: " + grids.short(
                                     grids.diff(before, after)))
            ctx.probe("rejected" if kind != "ok" else "completed")
            return True
        ctx.probe(f"{s['on']} {s['fault']['kind']}")
        if kind == "ok":
            if not (done if k0 == "ok" else unchanged):
                return self.fail(ctx, "trace", f"{text} with {w.fired[0]} "
                                 "reports success but leaves a mixture")
        elif not unchanged and not done:
            return self.fail(ctx, "trace", f"{text}, stopped by "
                             f"{w.fired[0]}, left a mixture: "
                             + grids.short(grids.diff(before, after)))
        ctx.probe("left completed" if done and not unchanged
                  else "left unchanged")
        if unchanged and not (done and kind == "ok"):
            kind, value = w.run(self.make(M, w, state, s),
                                label=text + " again")
            if kind != k0 or grids.diff(completed, self.observe(state, s)):
                return self.fail(ctx, "not-repeatable", f"after {text} was "
                                 f"stopped it ends with {kind} {value!r}"
                                 f" instead of {k0} {v0!r}")
            ctx.probe("repeated")
        return True

    def fail(self, ctx, cls, msg):
        ctx.fail(cls, msg)
        return False


CHECK = C07()
