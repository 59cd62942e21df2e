"""C05: damaged or unreadable saves are refused."""
import os
import shutil

from sim import builds, grids
from sim.engine import BaseCheck
from sim.faults import gen_line, place
from checks.c04 import apply, gen_ops

PARTS = ("disk_radius", "tilt", "diagnostic_map", "fit", "gradient",
         "diagnostics", "parameters")
OPTIONAL = ("_mask.npy", "mask_values.npy", "extended.npy")
OPTIONAL_GRID = OPTIONAL + ("eclipse_parameters.npy", "unfinished.npy",
                            "GRADIENT_FIT_NONE.npy",
                            "DIAGNOSTIC_MAP_ECLIPSE_DURATION.npy")


def gen_damage(rng):
    how = rng.choice(["cut", "cut", "cut", "remove", "fault", "fault",
                      "line"])
    d = {"how": how, "u": int(rng.random() * 1e4) / 1e4}
    if how == "cut":
        d["length"] = rng.choice([0, 0, 1, 6, 10, 64, 127, 128, 129, -1, -1,
                                  -2, -8, -9, "u"])
        d["v"] = int(rng.random() * 1e4) / 1e4
    if how == "fault":
        d["fault"] = {"kind": rng.choice(["eio-read", "eio-read",
                                          "eacces-read"]),
                      "u": int(rng.random() * 1e4) / 1e4}
        if rng.random() < 0.2:
            d["fault"]["sticky"] = rng.choice([True, True, "file"])
    if how == "line":
        d["fault"] = gen_line(rng)
    return d


class C05(BaseCheck):
    id = "C05"
    runs = {"quick": 1600, "thorough": 15000}
    rule = ("One evaluation = one seeded run: a worked-on grid, a checkpoint "
            "of an interrupted build, or a single object is saved; 2-6 times "
            "one file is cut to a seeded length or removed, or a read fails, "
            "or the load is interrupted; after each the damage is undone.")
    nontrivial_rule = "a load met damage or a read fault."
    lists = ("damages", "ops")

    def gen(self, rng):
        state = {}
        return {"spec": grids.gen_spec(rng), "listing": rng.randrange(10**6),
                "ops": gen_ops(rng, state, rng.choice([0, 3, 6, 8])),
                "target": rng.choice(["grid", "grid", "grid", "grid",
                                      "checkpoint", "checkpoint",
                                      "in-place"] + [rng.choice(PARTS)] * 2),
                "stop": round(rng.uniform(0.3, 0.85), 3),
                "pick": int(rng.random() * 1e3) / 1e3,
                "damages": [gen_damage(rng) for _ in
                            range(rng.choice([2, 3, 4, 6]))]}

    def simplify(self, plan):
        if plan["spec"]["diag"]:
            yield dict(plan, spec=dict(plan["spec"], diag=False))

    def prepare(self, plan, ctx, w):
        """-> (place, load function, look function, whether a part)."""
        M = w.start_process(1)
        target = plan["target"]
        S = "good"

        def load_grid():
            return w.mod.Shallot.ShallotGrid.load(S, 50)
        look = lambda g: grids.observe(g, colours=False)
        if target in ("checkpoint", "in-place"):
            kind, grid, rows, counts, _ = builds.dry_run(w, plan["spec"])
            if kind != "ok":
                return None
            f = {"kind": "crash", "u": plan["stop"], "mode": "before"}
            kind, value = builds.start(w, plan["spec"], [place(f, counts)])
            w.start_process(2)
            if kind != "crash" or not builds.has_checkpoint(w):
                return None
            if target == "checkpoint":
                os.rename(builds.TEMP, S)
            else:
                S = builds.DIR
            # a stop inside the first checkpoint may leave an unusable one
            keep = os.path.join(w.root, "keep")
            shutil.copytree(S, keep)
            kind, value = w.run(load_grid, label="try checkpoint")
            self.put_back(w, S, keep)
            if kind != "ok":
                return None
            return S, load_grid, look, False
        grid = grids.build(M, plan["spec"], level=50)
        for op in plan["ops"]:
            apply(M, w, grid, op)
        if target == "grid":
            w.run(lambda: grid.save(S), label="save")
            w.start_process(2)
            return S, load_grid, look, False
        if target == "parameters":
            obj = grid.parameters
            load = lambda: w.mod.GridParameters.GridParameters.load(S)
            look = grids.observe_parameters
            save = lambda: obj.save(S)
        elif target == "diagnostics":
            obj = grid.diagnostics
            if obj is None:
                return None
            shape = grid.parameters.slice_shape
            load = lambda: w.mod.GridDiagnostics.GridDiagnostics.load(S)
            look = lambda d: grids.observe_diagnostics(d, shape)
            save = lambda: obj.save(S)
        elif target == "gradient":
            if not grid.gradients:
                return None
            obj = grid.gradients[int(plan["pick"] * len(grid.gradients))]
            S = f"good/gradient_{obj.position:.4f}"
            os.mkdir("good")
            load = lambda: w.mod.GridProperty.GridGradient.load(S)
            look = grids.observe_gradient
            save = lambda: obj.save_gradient("good")
        else:
            obj = grid.gradient_fit if target == "fit" else \
                getattr(grid, target)
            if obj is None:
                return None

            def load():
                N = w.mod
                return N.GridProperty.GridProperty.load(
                    S, N.GridPropertyName.GridPropertyName[obj.name.name],
                    N.GridPropertyUnit.GridPropertyUnit[obj.unit.name])
            look = grids.observe_property
            save = lambda: obj.save(S)
        kind, value = w.run(save, label="save " + target)
        w.start_process(2)
        return S, load, look, True

    def put_back(self, w, S, keep):
        for d in (S, builds.TEMP):
            if os.path.lexists(d):
                shutil.rmtree(d)
        shutil.copytree(keep, S)

    def execute(self, plan, ctx):
        w = ctx.new_world(plan["listing"])
        prepared = self.prepare(plan, ctx, w)
        if prepared is None:
            ctx.probe("nothing saved")
            return
        S, load, look, part = prepared
        keep = os.path.join(w.root, "keep")
        if not os.path.exists(keep):
            shutil.copytree(S, keep)
        good = w.tree(S)
        lines = any(d["how"] == "line" for d in plan["damages"])
        kind, value = w.run(load, lines=lines, label="load")
        if kind != "ok":
            return ctx.fail("load-fails", f"undisturbed load: {value!r}")
        under = os.path.normpath(S)
        counts = w.counts(under)
        opened = sorted({os.path.relpath(p, S) for k, p in w.events
                         if k == "open-r" and not
                         os.path.relpath(p, S).startswith("..")})
        expected = look(value)
        self.put_back(w, S, keep)
        files = sorted(f for f, b in good.items() if b is not None)
        optional = OPTIONAL if part else OPTIONAL_GRID
        for n, d in enumerate(plan["damages"]):
            if d["how"] in ("cut", "remove"):
                path = files[int(d["u"] * len(files))]
                full = os.path.join(S, path)
                if d["how"] == "cut":
                    size = len(good[path])
                    cut = d["length"]
                    cut = int(d["v"] * size) if cut == "u" else cut
                    cut = min(cut, size - 1) if cut >= 0 else size + cut
                    cut = max(cut, 0)
                    os.truncate(full, cut)
                    what = f"{path} cut to {cut} of {size} bytes"
                    required = path in opened
                else:
                    os.remove(full)
                    what = f"{path} removed"
                    required = (path in opened and
                                not path.endswith(optional))
                    if not required and path in opened:
                        # the object can exist without it: nothing promised
                        self.put_back(w, S, keep)
                        continue
                faults = []
                ctx.fault_stats["file " + d["how"]] += 1
            else:
                f = place(d["fault"], counts)
                if d["how"] == "fault":
                    f["under"] = under
                faults, what, required = [f], f["kind"], True
            before = w.tree()
            kind, value = w.run(load, faults, label="load with " + what)
            if faults and not w.fired:
                ctx.probe("fault point not reached")
                if kind != "ok":
                    return ctx.fail("load-fails", f"undisturbed load: "
                                    f"{value!r}")
                self.put_back(w, S, keep)
                continue
            if faults:
                what = w.fired[0]
            ctx.nontrivial = True
            if kind == "ok":
                bad = grids.diff(expected, look(value))
                if required and d["how"] != "line" or bad:
                    return ctx.fail(
                        "accepted", f"loading a {plan['target']} with {what} "
                        "does not fail" + (", it returns a different object: "
                                           + grids.short(bad) if bad else ""))
                ctx.probe("damage without effect")
                self.put_back(w, S, keep)
                continue
            if kind == "error":
                name = type(value).__name__
                if name != "LoadError":
                    return ctx.fail("wrong-error", f"loading a "
                                    f"{plan['target']} with {what} fails with "
                                    f"{name}: {value} instead of LoadError")
                text = str(value)
                if "good" not in text and grids.TEMP not in text:
                    return ctx.fail("unnamed", f"the load error does not name "
                                    f"the location: {text}")
                ctx.probe("refused: " + d["how"])
            else:
                ctx.probe("load interrupted")
            progressing = (kind == "interrupt" and
                           plan["target"] in ("checkpoint", "in-place"))
            if not progressing and w.tree() != before:
                return ctx.fail("altered", f"the failed load ({what}) altered "
                                "the stored files")
            if d["how"] == "fault":
                # the read error is over: the very same load works
                kind, value = w.run(load, label="load again")
                if kind != "ok":
                    return ctx.fail("not-repeatable", f"after a transient "
                                    f"{what} the load fails: {value!r}")
                bad = grids.diff(expected, look(value))
                if bad:
                    return ctx.fail("accepted", f"after a transient {what} "
                                    "the object differs in: "
                                    + grids.short(bad))
                ctx.probe("load repeated")
            self.put_back(w, S, keep)


CHECK = C05()
