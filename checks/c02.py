"""C02: checkpointed progress is never lost."""
import os
import shutil

from sim import builds, grids
from sim.engine import BaseCheck
from sim.faults import gen_alloc, gen_io, gen_line, place, simpler
from sim.world import SimCrash


def gen_stop(rng):
    k = rng.random()
    f = (gen_io(rng) if k < 0.75 else gen_line(rng) if k < 0.92
         else gen_alloc(rng))
    if f["kind"] in ("crash", "interrupt", "eio", "eacces") \
            and rng.random() < 0.3:
        f["u"] = round(rng.uniform(0.8, 1.0), 4)    # around the end
    return {"fault": f, "restart": rng.random() < 0.6,
            "seed": rng.randrange(10**6),
            "others": [gen_other(rng) for _ in
                       range(rng.choice([0, 0, 1, 2]))]}


def gen_other(rng):
    return {"do": rng.choice(["build", "build", "save", "load", "rebuild",
                              "reject", "part"]),
            "spec": grids.gen_spec(rng, rows=2),
            # interrupted at this place, if any
            "fault": rng.choice([None, None, gen_io(rng), gen_line(rng)])}


class C02(BaseCheck):
    id = "C02"
    runs = {"quick": 1200, "thorough": 10000}
    rule = ("One evaluation = one seeded run: a progress-saving build stopped "
            "1-5 times (any file-system call, source line or allocation), "
            "other grids built, saved and loaded in the same directory in "
            "between, resumed until it finishes; or a crash loop in which "
            "every process survives three rows.")
    nontrivial_rule = ("a stop happened after the first checkpoint and the "
                       "build was resumed.")
    lists = ("stops",)

    def gen(self, rng):
        plan = {"spec": grids.gen_spec(rng, rows=rng.choice([3, 3, 4, 5])),
                "listing": rng.randrange(10**6), "loop": False, "stops": []}
        if rng.random() < 0.1:
            plan["loop"] = True
            plan["spec"] = grids.gen_spec(rng, rows=rng.choice([5, 6, 7]))
            plan["kind"] = rng.choice(["crash", "interrupt"])
        else:
            plan["stops"] = [gen_stop(rng) for _ in
                             range(rng.choice([1, 1, 2, 3, 4, 5]))]
        # something not progress-saving happens before the build starts
        plan["first"] = [gen_other(rng)] if rng.random() < 0.1 else []
        return plan

    def simplify(self, plan):
        for i, s in enumerate(plan["stops"]):
            def with_(**k):
                p = dict(plan)
                p["stops"] = list(plan["stops"])
                p["stops"][i] = dict(s, **k)
                return p
            for f in simpler(s["fault"]):
                yield with_(fault=f)
            if s["others"]:
                yield with_(others=s["others"][1:])
                yield with_(others=[])
            if any(o["fault"] for o in s["others"]):
                yield with_(others=[dict(o, fault=None)
                                    for o in s["others"]])
        if plan["first"]:
            yield dict(plan, first=[])
        if plan["spec"]["diag"]:
            yield dict(plan, spec=dict(plan["spec"], diag=False))

    # ------------------------------------------------------------------
    def execute(self, plan, ctx):
        w = ctx.new_world(plan["listing"])
        spec = plan["spec"]
        w.start_process(1)
        for other in plan["first"]:
            self.other(ctx, w, other)
        deep = any(s["fault"]["kind"] in ("alloc", "interrupt-line")
                   for s in plan["stops"])
        M = w.mod
        kind, grid = w.run(lambda: grids.build(M, spec, True, 50),
                           lines=deep, allocs=deep, label="dry build")
        if kind != "ok":
            return ctx.fail("cannot-finish", f"undisturbed build: {grid!r}")
        counts = w.counts()
        rows = builds.Rows(w, spec)
        num_y = spec["p"][5]
        # rows can only be counted while rows are shown as progress bars
        counting = rows() == num_y
        if not counting:
            ctx.probe("rows not countable")
        reference = grids.observe(grid)
        if builds.has_checkpoint(w):
            return ctx.fail("left-behind", "an undisturbed build leaves its "
                            "checkpoint behind")
        w.start_process(2)
        if plan["loop"]:
            if counting:
                self.loop(plan, ctx, w, spec, rows, num_y)
            return
        self.chain(plan, ctx, w, spec, counts, rows, num_y, counting,
                   reference)

    def chain(self, plan, ctx, w, spec, counts, rows, num_y, counting,
              reference):
        safe = 0                 # rows that certainly are in the checkpoint
        stops = list(plan["stops"])
        resuming = False
        while True:
            s = stops.pop(0) if stops else None
            faults = []
            if s is not None:
                faults = [place(s["fault"], builds.scaled(
                    counts, 0.6 if resuming else 1.0))]
            if resuming:
                kind, value = builds.resume(w, faults, 50)
            else:
                kind, value = builds.start(w, spec, faults, 50)
                safe = 0
            built = rows()
            if kind == "ok":
                if resuming and counting and built > num_y - max(safe - 1, 0):
                    return self.fail(ctx, "repeats", f"{safe} of {num_y} rows "
                                     f"were checkpointed but the resume built "
                                     f"{built} rows again")
                if resuming:
                    ctx.probe("finished after resume")
                # only what was disturbed may leave its checkpoint behind
                if builds.has_checkpoint(w) and not w.fired:
                    return self.fail(ctx, "left-behind", "a build that "
                                     "finished undisturbed leaves its "
                                     "checkpoint behind")
                return
            if not w.fired:
                what = "resume" if resuming else "build"
                return self.fail(ctx, "lost" if resuming else "cannot-finish",
                                 f"undisturbed {what} ends with {value!r}")
            # a row that follows another one started: that other one is saved
            start = max(safe - 1, 0) if resuming else 0
            if counting and built:
                safe = max(safe, start + built - 1)
            done = (not builds.has_checkpoint(w)
                    and self.complete(w, reference))
            disk_error = s["fault"]["kind"] in ("enospc", "eio", "eacces")
            ctx.probe("stopped by " + s["fault"]["kind"])
            if kind == "crash" or s["restart"]:
                w.start_process(s["seed"] % 1000)
            for other in s["others"]:
                self.other(ctx, w, other)
            present = builds.has_checkpoint(w)
            if present:
                if not resuming and safe >= 1:
                    ctx.nontrivial = True
                resuming = True
                if safe >= 1:
                    ctx.probe("checkpoint must be usable")
                elif not self.readable(w):
                    # no row is certain to have been checkpointed yet
                    ctx.probe("incomplete first checkpoint")
                    resuming = False
                continue
            gone_rightly = done and not disk_error
            if safe >= 1 and not gone_rightly:
                return self.fail(ctx, "lost", f"{safe} of {num_y} rows were "
                                 "checkpointed but no checkpoint is left")
            if gone_rightly:
                ctx.probe("gone at the very end")
            else:
                ctx.probe("nothing checkpointed yet")
            resuming, safe = False, 0

    def complete(self, w, reference):
        """Whether the stopped call had already completed the grid."""
        for g in w.in_flight("ShallotGrid"):
            try:
                if not grids.diff(reference, grids.observe(g)):
                    return True
            except Exception:
                pass
        return False

    def readable(self, w):
        keep = os.path.join(w.root, "side")
        shutil.copytree(os.path.join(w.work, grids.TEMP), keep)
        kind, value = builds.resume(w, [], 50, label="")
        shutil.rmtree(os.path.join(w.work, grids.TEMP), ignore_errors=True)
        shutil.move(keep, os.path.join(w.work, grids.TEMP))
        return kind == "ok"

    def fail(self, ctx, cls, msg):
        ctx.fail(cls, msg)

    # ------------------------------------------------------------------
    def loop(self, plan, ctx, w, spec, rows, num_y):
        """Every process is stopped when it starts its fourth row."""
        for attempt in range(num_y + 3):
            seen = [0]

            def bar(total):
                if total == spec["p"][2]:
                    seen[0] += 1
                    if seen[0] == 4:
                        w.fired.append("stopped at the fourth row")
                        w.fault_stats["crash-loop"] += 1
                        if plan["kind"] == "interrupt":
                            raise KeyboardInterrupt()
                        w.frozen = True
                        raise SimCrash()
            w.on_bar = bar
            if attempt == 0:
                kind, value = builds.start(w, spec, [], 50)
            else:
                kind, value = builds.resume(w, [], 50)
            w.on_bar = None
            if kind == "ok":
                ctx.nontrivial = attempt > 0
                ctx.probe("crash loop finished")
                return
            if not w.fired:
                return ctx.fail("lost", f"attempt {attempt} ends with "
                                f"{value!r}")
            w.start_process(3 + attempt)
        ctx.fail("no-progress", f"a build of {num_y} rows is not finished "
                 f"after {num_y + 3} processes that survive three rows each")

    # ------------------------------------------------------------------
    def other(self, ctx, w, other):
        """Work on another grid, without progress saving."""
        M = w.mod
        spec, do = other["spec"], other["do"]
        S = M.Shallot.ShallotGrid

        def work():
            if do == "reject":
                try:
                    S(grids.parameters(M, spec), spec["n"], 50, False, 7)
                except TypeError:
                    pass
                try:
                    S(grids.parameters(M, spec), -3, 50, False, True)
                except ValueError:
                    pass
                try:
                    S(grids.parameters(M, spec), spec["n"], 500, False, True)
                except ValueError:
                    pass
                try:
                    S(None, spec["n"], 50, False, True)
                except TypeError:
                    pass
                return
            g = grids.build(M, spec, False, 50)
            if do == "build":
                return
            n = sum(f.startswith("other") for f in os.listdir("."))
            if do == "part":
                g.tilt.save(f"other{n}")
                return
            g.save(f"other{n}")
            if do == "load":
                S.load(f"other{n}", 50)
            if do == "rebuild":
                S.load(f"other{n}", 50).save(f"other{n}b")
        before = w.tree(grids.TEMP) if builds.has_checkpoint(w) else None
        faults = []
        if other["fault"]:
            faults = [place(other["fault"],
                            {"crash": 60, "interrupt": 60, "enospc": 30,
                             "eio": 40, "eacces": 20,
                             "interrupt-line": 1500})]
        kind, value = w.run(work, faults, label="other " + do)
        if kind == "error" and not w.fired:
            ctx.fail("other-fails", f"another grid ({do}) fails: {value!r}")
        ctx.probe("other activity")
        if before is not None:
            ctx.probe("other activity beside a checkpoint")
            after = w.tree(grids.TEMP) if builds.has_checkpoint(w) else None
            if after != before:
                ctx.fail("disturbed", f"working on another grid ({do}) "
                         "changed the checkpoint")
        if kind == "crash":
            w.start_process(5)


CHECK = C02()
