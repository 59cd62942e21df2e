"""C01: a build resumed from its checkpoint equals the uninterrupted one."""
import os

from sim import builds, grids
from sim.engine import BaseCheck
from sim.faults import gen_alloc, gen_io, gen_line, place, simpler


def gen_stop(rng):
    k = rng.random()
    if k < 0.72:
        f = gen_io(rng)
    elif k < 0.9:
        f = gen_line(rng)
    else:
        f = gen_alloc(rng)
    return {"fault": f,
            # the stopped process may go on in the same process or not
            "restart": rng.random() < 0.6,
            # the checkpoint may be moved elsewhere before it is resumed
            "move": rng.random() < 0.08,
            "seed": rng.randrange(10**6)}


class C01(BaseCheck):
    id = "C01"
    runs = {"quick": 1600, "thorough": 12000}
    rule = ("One evaluation = one seeded run: a grid specification, a "
            "progress-saving build and 1-4 stops (crash, interrupt, disk "
            "error, failing allocation; at any file-system call, source line "
            "or allocation), each followed by a resume from the checkpoint.")
    nontrivial_rule = ("at least one stop really happened and the finished "
                       "grid came from a resumed checkpoint.")
    lists = ("stops",)

    def gen(self, rng):
        spec = grids.gen_spec(rng)
        if rng.random() < 0.1:              # two-digit row numbers
            spec["p"][2], spec["p"][5] = 2, rng.choice([11, 12, 13])
            spec["p"][6:] = [2, 2]
            spec["n"] = 10
        return {"spec": spec, "listing": rng.randrange(10**6),
                "stops": [gen_stop(rng) for _ in
                          range(rng.choice([1, 1, 1, 2, 2, 3, 4]))]}

    def simplify(self, plan):
        for i, s in enumerate(plan["stops"]):
            for f in simpler(s["fault"]):
                p = dict(plan)
                p["stops"] = list(plan["stops"])
                p["stops"][i] = dict(s, fault=f)
                yield p
            if s["move"]:
                p = dict(plan)
                p["stops"] = list(plan["stops"])
                p["stops"][i] = dict(s, move=False)
                yield p
        if plan["spec"]["diag"]:
            yield dict(plan, spec=dict(plan["spec"], diag=False))

    def execute(self, plan, ctx):
        w = ctx.new_world(plan["listing"])
        spec = plan["spec"]
        M = w.start_process(1)
        reference = grids.observe(grids.build(M, spec))
        allocs = any(s["fault"]["kind"] in ("alloc", "interrupt-line")
                     for s in plan["stops"])
        kind, grid = w.run(lambda: grids.build(M, spec, True, 50),
                           lines=allocs, allocs=allocs, label="dry build")
        if kind != "ok":
            return ctx.fail("build-fails", f"undisturbed progress-saving "
                            f"build ends with {grid!r}")
        counts = w.counts()
        bad = grids.diff(reference, grids.observe(grid))
        if bad:
            return ctx.fail("differs", "an undisturbed progress-saving build "
                            "differs: " + grids.short(bad))
        grid = self.chain(plan, ctx, w, spec, counts)
        if grid is None:
            return
        got = grids.observe(grid)
        bad = grids.diff(reference, got)
        if bad:
            ctx.fail("differs", "the finished grid differs from an "
                     "uninterrupted build in: " + grids.short(bad))

    def chain(self, plan, ctx, w, spec, counts):
        w.start_process(2)
        where = None                 # where the progress is
        moves = 0
        stops = list(plan["stops"])
        while True:
            s = stops.pop(0) if stops else None
            faults = []
            if s is not None:
                share = 1.0 if where is None else 0.6
                faults = [place(s["fault"], builds.scaled(counts, share))]
            if where is None:
                kind, value = builds.start(w, spec, faults, 50)
            else:
                kind, value = builds.resume(w, faults, 50, where)
            if kind == "ok":
                if where is not None:
                    ctx.nontrivial = True
                    ctx.probe("finished after resume")
                else:
                    ctx.probe("finished without a resume")
                return value
            if not w.fired:
                if where is not None and type(value).__name__ == "LoadError":
                    # no usable progress: C02 judges that, here we start over
                    ctx.probe("checkpoint refused")
                    where = None
                    if s is not None:
                        stops.insert(0, s)
                    continue
                ctx.fail("cannot-finish", f"undisturbed "
                         f"{'build' if where is None else 'resume'} ends "
                         f"with {value!r}")
                return None
            ctx.probe("stopped by " + s["fault"]["kind"])
            if kind == "crash" or s["restart"]:
                w.start_process(s["seed"] % 1000)
            if builds.has_checkpoint(w):
                where = builds.DIR
                if s["move"]:
                    moves += 1
                    where = f"moved-{moves}"
                    os.rename(builds.TEMP, where)
                    ctx.probe("checkpoint moved")
            elif where == builds.DIR or where is None:
                where = None
                ctx.probe("nothing to resume")


CHECK = C01()
