"""C14: kept interpolation records stay with their grid point."""
import copy
import os

import numpy as np

from sim import grids
from sim.engine import BaseCheck
from sim.faults import gen_io, place
from checks.c01 import CHECK as RESUME
from checks.c01 import gen_stop

KNOWN = "diag-mirror-off-by-one"


def interpolated(rf, fy, radius):
    """The fy values of a grid point according to its curve."""
    k = int(np.nanargmin(radius))
    fraction = radius / radius[k]
    left = np.interp(rf, fraction[:k + 1][::-1], fy[:k + 1][::-1])[::-1]
    right = np.interp(rf, fraction[k:], fy[k:])
    return np.concatenate([left[:-1], [fy[k]], right[1:]])


def gen_record(rng, shape):
    op = {"op": "record", "y": rng.randrange(shape[0]),
          "x": rng.randrange(shape[1]), "n": rng.choice([1, 2, 5]),
          "seed": rng.randrange(1000)}
    if rng.random() < 0.5:      # nearly the curve of another point
        op["seed"] = rng.choice([0, 0, 1])
        op["n"] = rng.choice([2, 5])
        op["eps"] = [rng.choice([0, 0, 1e-15, 1e-12, 1e-9, 1e-6, 1e-4, 1e-2])
                     for _ in range(2)]
    if rng.random() < 0.35:
        op["bad"] = rng.choice(["shape", "dims", "text", "y", "x", "negative",
                                "half", "none"])
    return op


def curve(op):
    rs = np.random.RandomState(op["seed"])
    fy, R = rs.random_sample(op["n"]), rs.random_sample(op["n"]) + 1
    a, b = op.get("eps", (0, 0))
    return fy + a, R + b


class C14(BaseCheck):
    id = "C14"
    runs = {"quick": 3000, "thorough": 15000}
    rule = ("One evaluation = one seeded run. Either a grid with kept records "
            "whose build is stopped 0-3 times (crash, interrupt, disk error, "
            "failing allocation at any point) and resumed, then saved, "
            "loaded, copied and offered further recordings: the record of "
            "every grid point must interpolate to the map stored at that "
            "point and equal that of an uninterrupted build. Or a records "
            "object that is filled, overwritten, mirrored, saved (possibly "
            "cut short) and loaded in any order, against a dictionary model.")
    nontrivial_rule = ("a build was stopped, a save was cut short, or a "
                       "recording was rejected.")
    lists = ("stops", "ops")

    def gen(self, rng):
        if rng.random() < 0.35:
            shape = (rng.choice([1, 2, 3]), rng.choice([1, 2, 4]))
            ops = []
            for k in range(rng.choice([4, 8, 16])):
                u = rng.random()
                if u < 0.6:
                    ops.append(gen_record(rng, shape))
                elif u < 0.7:
                    ops.append({"op": "extend"})
                else:
                    op = {"op": "restart", "to": f"d{k}"}
                    if rng.random() < 0.5:
                        op["fault"] = gen_io(rng)
                    ops.append(op)
            return {"mode": "object", "shape": shape, "ops": ops,
                    "listing": rng.randrange(10**6), "stops": []}
        ops = []
        for k in range(rng.choice([1, 2, 4])):
            ops.append(rng.choice([
                {"op": "reload", "to": f"g{k}"}, {"op": "copy"},
                {"op": "part", "to": f"p{k}"}, gen_record(rng, (3, 3)),
                gen_record(rng, (3, 3))]))
        return {"mode": "grid", "spec": grids.gen_spec(rng, diag=True),
                "listing": rng.randrange(10**6), "ops": ops,
                "stops": [gen_stop(rng) for _ in
                          range(rng.choice([0, 1, 1, 2, 3]))]}

    def simplify(self, plan):
        if plan["mode"] == "grid":
            yield from RESUME.simplify(plan)

    def execute(self, plan, ctx):
        if plan["mode"] == "object":
            return self.records(plan, ctx)
        w = ctx.new_world(plan["listing"])
        spec = plan["spec"]
        M = w.start_process(1)
        # an interrupted run has to give the records of this one
        reference = grids.build(M, spec)
        want = self.look(reference)
        self.points(ctx, reference, "an undisturbed build")
        if ctx.violations:
            return
        allocs = any(s["fault"]["kind"] in ("alloc", "interrupt-line")
                     for s in plan["stops"])
        grid = reference
        if plan["stops"]:
            kind, grid = w.run(lambda: grids.build(M, spec, True, 50),
                               lines=allocs, allocs=allocs, label="dry build")
            if kind != "ok":
                return
            grid = RESUME.chain(plan, ctx, w, spec, w.counts())
            if grid is None:        # judged by C01
                ctx.violations.clear()
                return
        self.compare(ctx, grid, want, "the stopped and resumed build")
        for op in plan["ops"]:
            if ctx.violations:
                return
            text = grids.brief(op)
            M = w.mod
            if op["op"] == "reload":
                kind, value = w.run(lambda: grid.save(op["to"]), label=text)
                if kind == "ok":
                    M = w.start_process(9)
                    kind, value = w.run(lambda: M.Shallot.ShallotGrid.load(
                        op["to"], 50), label="load")
                if kind != "ok":
                    return ctx.fail("refused", f"{text}: {value!r}")
                grid = value
            elif op["op"] == "copy":
                grid = copy.deepcopy(grid)
            elif op["op"] == "part":
                kind, value = w.run(lambda: grid.diagnostics.save(op["to"]),
                                    label=text)
                if kind == "ok":
                    kind, value = w.run(
                        lambda: M.GridDiagnostics.GridDiagnostics.load(
                            op["to"]), label="load")
                if kind != "ok":
                    return ctx.fail("refused", f"{text}: {value!r}")
                grid.diagnostics = value
            elif spec["p"][0] == 0 == spec["p"][3]:
                # a reflected grid takes no more recordings, good or bad
                kind, value = w.run(self.recording(grid.diagnostics, op),
                                    label=text)
                ctx.nontrivial = True
                ctx.probe("recording on a reflected grid")
                if kind == "ok":
                    return ctx.fail("accepted", f"{text} on a reflected grid")
            elif "bad" in op:
                kind, value = w.run(self.recording(
                    grid.diagnostics, op, grid.parameters.slice_shape),
                    label=text)
                ctx.nontrivial = True
                ctx.probe("bad recording")
                if kind == "ok":
                    return ctx.fail("accepted", text)
            else:
                continue
            ctx.probe(op["op"])
            self.compare(ctx, grid, want, "after " + text)

    # ------------------------------------------------------------------
    @staticmethod
    def recording(d, op, shape=(9, 9)):
        fy, R = curve(op)
        y, x, bad = op["y"], op["x"], op.get("bad")
        if bad == "shape":
            R = np.append(R, 1.0)
        if bad == "dims":
            fy, R = fy[None], R[None]
        if bad == "text":
            R = "curve"
        if bad == "none":
            fy = None
        if bad == "y":
            y = int(shape[0])
        if bad == "x":
            x = int(shape[1])
        if bad == "negative":
            y = -1
        if bad == "half":
            x = x + 0.5
        return lambda: d.save_diagnostic(y, x, fy, R)

    @staticmethod
    def look(grid):
        return grids.observe_diagnostics(grid.diagnostics,
                                         grid.parameters.slice_shape)

    def compare(self, ctx, grid, want, when):
        bad = grids.diff(want, self.look(grid))
        if bad:
            return ctx.fail("records", f"{when}: other records than an "
                            "undisturbed build: " + grids.short(bad))
        self.points(ctx, grid, when)

    def points(self, ctx, grid, when):
        """The record of every grid point is the one of its map."""
        g = copy.deepcopy(grid)
        rf = np.asarray(g.parameters.rf).ravel()
        fy_map = g.fy_map.get_data(False)
        ny, nx, _ = fy_map.shape
        extended = self.spec_ext(g)
        my, mx = ((ny + 1) // 2, (nx + 1) // 2) if extended else (ny, nx)

        def fits(record, y, x):
            if isinstance(record, str):
                return False
            with np.errstate(all="ignore"):
                got = interpolated(rf, *record)
            return got.shape == fy_map[y, x].shape and np.allclose(
                got, fy_map[y, x], rtol=1e-9, atol=1e-12, equal_nan=True)

        for y in range(ny):
            for x in range(nx):
                built = not np.isnan(fy_map[y, x]).all()
                record = grids.ask(lambda: g.diagnostics.get_diagnostic(y, x))
                if not built and not extended:
                    continue
                if fits(record, y, x):
                    ctx.probes["points with their record"] += 1
                    continue
                if not extended:
                    return ctx.fail("point", f"{when}: the record of point "
                                    f"({y}, {x}) is not that of its map: "
                                    f"{show(record)}")
                # the recorded finding: one row and column too far
                a, b = abs(y - my), abs(x - mx)
                inside = a < my and b < mx
                at = (a + my - 1, b + mx - 1)
                exists = inside and not np.isnan(fy_map[at]).all()
                if record == "<KeyError>" if isinstance(record, str) else \
                        False:
                    known = not exists
                else:
                    known = exists and fits(record, *at)
                if built and known:
                    ctx.note(KNOWN, f"point ({y}, {x}) of a {ny}x{nx} grid "
                             f"gives the record of ({a}, {b}) instead of "
                             f"({abs(y - my + 1)}, {abs(x - mx + 1)})")
                elif built:
                    return ctx.fail("point", f"{when}: the record of point "
                                    f"({y}, {x}) of a reflected grid is "
                                    f"neither its own nor that of the "
                                    f"listed finding: {show(record)}")

    @staticmethod
    def spec_ext(g):
        # a reflected grid has its origin in the middle
        dy = np.asarray(g.parameters.dy).ravel()
        return bool(dy[0] < 0 and abs(dy[0] + dy[-1]) < 1e-9
                    and not g.parameters.extendable)

    # ------------------------------------------------------- the object alone
    def records(self, plan, ctx):
        w = ctx.new_world(plan["listing"])
        M = w.start_process(1)
        my, mx = plan["shape"]
        p = M.GridParameters.GridParameters(0, 2, mx, 0, 2, my, 2, 2) \
            if min(my, mx) >= 1 else None
        my, mx = (int(n) for n in p.slice_shape)
        d = M.GridDiagnostics.GridDiagnostics(p)
        model, extended, procs = {}, False, 1
        for op in plan["ops"]:
            text = grids.brief(op)
            if op["op"] == "record":
                fn = self.recording(d, op, (my, mx))
                good = (not extended and "bad" not in op
                        and op["y"] < my and op["x"] < mx)
                kind, value = w.run(fn, label=text)
                if good != (kind == "ok"):
                    return ctx.fail("accepted" if kind == "ok" else "refused",
                                    f"{text}: {value!r}")
                if good:
                    model[op["y"], op["x"]] = curve(op)
                else:
                    ctx.nontrivial = True
                    ctx.probe("rejected recording")
            elif op["op"] == "extend":
                w.run(d.extend, label=text)
                extended = True
            else:
                faults = []
                if "fault" in op:
                    w.run(lambda: d.save(op["to"] + "-dry"))
                    faults = [place(op["fault"], w.counts())]
                kind, value = w.run(lambda: d.save(op["to"]), faults,
                                    label=text)
                load = w.mod.GridDiagnostics.GridDiagnostics
                if kind == "crash":
                    procs += 1
                    load = w.start_process(procs).GridDiagnostics.\
                        GridDiagnostics
                saved = kind == "ok"
                k2, v2 = w.run(lambda: load.load("./" + op["to"]),
                               label="load")
                if not saved:
                    ctx.nontrivial = True
                    ctx.probe("save cut short")
                if k2 == "ok":
                    d = v2
                    ctx.probe("loaded")
                elif saved:
                    return ctx.fail("refused", f"{text}: {v2!r}")
                elif kind == "crash":
                    k2, v2 = w.run(lambda: load.load(
                        "./" + op["to"] + "-dry"), label="load other")
                    if k2 != "ok":
                        return ctx.fail("refused", f"{text}: {v2!r}")
                    d = v2
            wrong = self.wrong(ctx, d, model, extended, my, mx)
            if wrong:
                return ctx.fail("model", f"after {text}: {wrong}")

    @staticmethod
    def wrong(ctx, d, model, extended, my, mx):
        d = copy.deepcopy(d)

        def same(record, at):
            if at not in model:
                return record == "<KeyError>" if isinstance(record, str) \
                    else False
            return not isinstance(record, str) and grids.same(
                tuple(record), model[at])
        ny, nx = (2 * my - 1, 2 * mx - 1) if extended else (my, mx)
        for y in range(ny):
            for x in range(nx):
                record = grids.ask(lambda: d.get_diagnostic(y, x))
                at = (abs(y - my + 1), abs(x - mx + 1)) if extended \
                    else (y, x)
                if same(record, at):
                    continue
                off = (abs(y - my), abs(x - mx))
                if extended and same(record, off):
                    ctx.note(KNOWN, f"point ({y}, {x}) of {ny}x{nx} gives "
                             f"the record of {off} instead of {at}")
                    continue
                return f"point ({y}, {x}) gives {show(record)}"
        return None


def show(record):
    if isinstance(record, str):
        return record
    return str([np.round(np.asarray(r)[:3], 4).tolist() for r in record])


CHECK = C14()
