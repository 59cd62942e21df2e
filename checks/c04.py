"""C04: a reloaded grid is the grid that was saved."""
import copy
import os
import shutil

import numpy as np

from sim import grids
from sim.engine import BaseCheck
from sim.faults import gen_io, gen_line, place

PARTS = ("disk_radius", "inclination", "tilt", "fx_map", "fy_map",
         "diagnostic_map", "fit", "gradient", "diagnostics", "parameters")


def gen_ops(rng, state, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.78:
            out.append(grids.gen_change(rng, state))
        elif k < 0.84:
            out.append(grids.gen_invalid(rng, state))
        elif k < 0.90:
            out.append({"op": "part-mask", "name": rng.choice(
                ["fx_map", "fy_map", "diagnostic_map", "gradient_fit"]),
                "seed": rng.randrange(1000), "p": 0.3})
        elif k < 0.96:
            out.append({"op": "gradient-mask", "u": rng.random(),
                        "seed": rng.randrange(1000), "p": 0.4})
        else:
            op = grids.gen_add(rng, n=12)
            if state.get("ecl"):
                state["n"] = state.get("n", 0) + 12
            out.append(op)
    return out


def apply(M, w, grid, op, label=True):
    k = op["op"]
    text = grids.brief(op) if label else ""
    if k == "part-mask":
        if getattr(grid, op["name"]) is None:
            return "ok", None
        mask = grids.make_mask(op, grid.parameters.grid_shape)
        return w.run(lambda: getattr(grid, op["name"]).set_mask(mask),
                     label=text)
    if k == "gradient-mask":
        if not grid.gradients:
            return "ok", None
        mask = grids.make_mask(op, grid.parameters.grid_shape)
        g = grid.gradients[int(op["u"] * len(grid.gradients))]
        return w.run(lambda: g.set_mask(mask), label=text)
    return w.run(grids.make(M, w, grid, op), label=text)


# directories a user may well choose
ODD_NAMES = ["my grid", "run[1]", "v1.2", "sub/a*b?", "grid_\u00e9\u4e2d",
             ".hidden", "100%", "{x}", "a'b\"c", "gradient_0.5000", "x" * 80,
             "sub/gradients", "grid.npy", "$HOME", "~user"]
SPELLINGS = ["{}", "{}", "{}", "./{}", "{}/", "sub/../{}", "{0}//", "ABS"]


def spelled(name, how):
    if how == "ABS":
        return os.path.join(os.getcwd(), name)
    return how.replace("{0}", "{}").replace("{}", name)


class C04(BaseCheck):
    id = "C04"
    runs = {"quick": 1800, "thorough": 12000}
    rule = ("One evaluation = one seeded run: 1-4 working sessions; each ends "
            "with a save and a fresh process that loads it (file listings "
            "shuffled), is compared with the original, and goes on working "
            "in parallel with it; single objects are saved and loaded in "
            "between, also into places used before.")
    nontrivial_rule = ("a grid with gradients, masks or a fit was loaded in a "
                       "fresh process.")
    lists = ("sessions",)

    def gen(self, rng):
        state = {}
        sessions = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            s = {"ops": gen_ops(rng, state, rng.choice([0, 2, 4, 6, 9])),
                 "parts": [{"part": rng.choice(PARTS), "u": rng.random(),
                            "to": rng.choice(["parts", "parts2"]),
                            # a new object without masks, in the same place
                            "fresh": rng.random() < 0.35}
                           for _ in range(rng.choice([0, 0, 1, 2, 4]))],
                 "after": [grids.gen_change(rng, dict(state))
                           for _ in range(rng.choice([0, 1, 2, 3]))],
                 # the name may have been used (and removed) before
                 "to": rng.choice(["saved", "saved", "other", "sub/saved"]
                                  if rng.random() < 0.7 else ODD_NAMES),
                 "spell": [rng.choice(SPELLINGS), rng.choice(SPELLINGS)],
                 "here": rng.random() < 0.25,
                 "early": rng.random() < 0.15,
                 "level": rng.choice([10, 20, 50])}
            for op in s["after"]:
                if op["op"] == "fit":
                    op["op"] = "fit"
            sessions.append(s)
        return {"spec": grids.gen_spec(rng), "listing": rng.randrange(10**6),
                "sessions": sessions}

    def simplify(self, plan):
        for i, s in enumerate(plan["sessions"]):
            for key in ("ops", "parts", "after"):
                for j in range(len(s[key])):
                    p = dict(plan)
                    p["sessions"] = list(plan["sessions"])
                    p["sessions"][i] = dict(s, **{
                        key: s[key][:j] + s[key][j + 1:]})
                    yield p
        if plan["spec"]["diag"]:
            yield dict(plan, spec=dict(plan["spec"], diag=False))

    def execute(self, plan, ctx):
        w = ctx.new_world(plan["listing"])
        M = w.start_process(1)
        os.mkdir("sub")
        grid = grids.build(M, plan["spec"], level=50)
        self.pristine = copy.deepcopy(grid)
        for n, s in enumerate(plan["sessions"]):
            for op in s["ops"]:
                apply(M, w, grid, op)
            if grid.gradients or any(
                    getattr(grid, p).mask is not None for p in grids.MAPS):
                ctx.nontrivial = True
            for part in s["parts"]:
                if not self.part(ctx, w, grid, part, n):
                    return
            to = s["to"]
            if os.path.exists(to):
                shutil.rmtree(to)
            if s["early"]:      # what was there before must not shine through
                apply(M, w, grid, {"op": "save", "where": "grid", "to": to})
                shutil.rmtree(to)
            spell = s.get("spell", ["{}", "{}"])
            kind, value = w.run(lambda: grid.save(spelled(to, spell[0])),
                                label=f"save {to} as {spell[0]}")
            if kind != "ok":
                return ctx.fail("save-fails", f"undisturbed save: {value!r}")
            expected = grids.observe(grid)
            if s.get("here"):           # as well in the process that saved
                kind, loaded = w.run(lambda: M.Shallot.ShallotGrid.load(
                    spelled(to, spell[1]), 50), label=f"load {to} here")
                if kind != "ok":
                    return ctx.fail("load-fails", f"in the same process: "
                                    f"{loaded!r}")
                if not self.equal(ctx, "grid reloaded in the same process",
                                  expected, grids.observe(loaded)):
                    return
                ctx.probe("reloaded in the same process")
            M = w.start_process(2 + n)
            kind, loaded = w.run(lambda: M.Shallot.ShallotGrid.load(
                spelled(to, spell[1]), s["level"]),
                label=f"load {to} as {spell[1]}")
            if kind != "ok":
                return ctx.fail("load-fails", f"undisturbed load: {loaded!r}")
            loaded.logger.setLevel(50)
            for h in loaded.logger.handlers:
                h.setLevel(50)
            if not self.equal(ctx, "reloaded grid", expected,
                              grids.observe(loaded)):
                return
            ctx.probe("reloaded")
            # both go on working and stay the same
            for op in s["after"]:
                k1, v1 = apply(M, w, grid, op, False)
                k2, v2 = apply(M, w, loaded, op)
                if k1 != k2 or type(v1).__name__ != type(v2).__name__:
                    return ctx.fail("behaves-differently", f"{grids.brief(op)}"
                                    f" gives {k1} {v1!r} on the original and "
                                    f"{k2} {v2!r} on the reloaded grid")
                if not self.equal(ctx, f"reloaded grid after "
                                  f"{grids.brief(op)}", grids.observe(grid),
                                  grids.observe(loaded)):
                    return
                ctx.probe("further operation")
            if not self.answers(ctx, w, M, grid, loaded, n):
                return
            grid = loaded

    def equal(self, ctx, what, a, b):
        # plot colours a user sets are not part of the promise: only the
        # colours of the maps that are there by default
        bad = grids.diff(a, b)
        if bad:
            ctx.fail("differs", f"{what} differs from the original in: "
                     + grids.short(bad))
        return not bad

    def answers(self, ctx, w, M, a, b, n):
        """Lookups give the same answers."""
        reads = [{"op": "extract", "k": 3},
                 {"op": "nearest", "R": 1.3, "i": 40.0, "t": 50.0 + n,
                  "b": 0.4, "m": True},
                 {"op": "nearest", "R": 0.9, "i": 70.0, "t": 20.0,
                  "b": -0.6, "m": False},
                 {"op": "point", "y": 0.5, "x": 0.9, "r": 0.2, "m": True,
                  "bad": False}]
        for op in reads:
            k1, v1 = w.run(grids.make(M, w, a, op))
            k2, v2 = w.run(grids.make(M, w, b, op))
            if k1 == "error":
                v1 = type(v1).__name__
            if k2 == "error":
                v2 = type(v2).__name__
            if k1 != k2 or not grids.same(v1, v2):
                ctx.fail("behaves-differently", f"{grids.brief(op)} answers "
                         "differently on the reloaded grid")
                return False
        return True

    def part(self, ctx, w, grid, part, n):
        """Save and load one object on its own."""
        name, to = part["part"], part["to"]
        M = w.mod
        P = M.GridProperty
        if name == "parameters":
            obj, look = grid.parameters, grids.observe_parameters
            if part["fresh"]:
                obj = grids.parameters(M, {"p": [0, 2, 3, -1, 2, 4, 2, 3]})
            save = lambda: obj.save(to)
            load = lambda N: N.GridParameters.GridParameters.load(to)
        elif name == "diagnostics":
            obj = grid.diagnostics
            if obj is None:
                return True
            shape = grid.parameters.slice_shape
            if part["fresh"]:
                obj = M.GridDiagnostics.GridDiagnostics(
                    grids.parameters(M, {"p": [0, 2, 3, 0, 2, 2, 2, 2]}))
                obj.save_diagnostic(1, 2, np.arange(3.0), np.arange(3.0) + n)
            look = lambda d: grids.observe_diagnostics(d, shape)
            save = lambda: obj.save(to)
            load = lambda N: N.GridDiagnostics.GridDiagnostics.load(to)
        elif name == "gradient":
            if not grid.gradients:
                return True
            obj = grid.gradients[int(part["u"] * len(grid.gradients))]
            if part["fresh"]:
                obj = P.GridGradient(obj.data, obj.grid_parameters
                                     if isinstance(obj.grid_parameters,
                                                   M.GridParameters
                                                   .GridParameters)
                                     else _again(M, obj.grid_parameters),
                                     obj.position)
            look = grids.observe_gradient
            if not os.path.exists(to):
                os.mkdir(to)
            save = lambda: obj.save_gradient(to)
            where = f"{to}/gradient_{obj.position:.4f}"
            load = lambda N: N.GridProperty.GridGradient.load(where)
        else:
            of = self.pristine if part["fresh"] and name != "fit" else grid
            obj = of.gradient_fit if name == "fit" else getattr(of, name)
            if obj is None:
                return True
            look = grids.observe_property
            save = lambda: obj.save(to)
            load = lambda N: N.GridProperty.GridProperty.load(
                to, N.GridPropertyName.GridPropertyName[obj.name.name],
                N.GridPropertyUnit.GridPropertyUnit[obj.unit.name])
        expected = look(obj)
        kind, value = w.run(save, label=f"save {name} to {to}")
        if kind != "ok":
            ctx.fail("save-fails", f"saving one {name}: {value!r}")
            return False
        keep = w.mod
        kind, value = w.run(lambda: load(keep),
                            label=f"load {name} from {to}")
        if kind != "ok":
            ctx.fail("load-fails", f"loading one {name}: {value!r}")
            return False
        bad = grids.diff(expected, look(value))
        if bad:
            ctx.fail("part-differs", f"a reloaded {name} differs from the "
                     "original in: " + grids.short(bad))
            return False
        ctx.probe("part: " + name)
        return True


def _again(M, p):
    """The same parameters as an object of the running process."""
    q = M.GridParameters.GridParameters(0, 1, 2, 0, 1, 2, 2, 2)
    vars(q).update(vars(p))
    return q


CHECK = C04()
