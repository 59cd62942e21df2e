"""C03: saving a grid is all or nothing."""
import os

from sim import grids
from sim.engine import BaseCheck
from sim.faults import gen_io, gen_line, gen_alloc, place, simpler


class C03(BaseCheck):
    id = "C03"
    runs = {"quick": 2000, "thorough": 15000}
    rule = ("One evaluation = one seeded run: a grid is built and worked on, "
            "saved once undisturbed, then saved elsewhere 1-3 times while a "
            "crash, interrupt or disk error strikes at any file-system call "
            "or source line of the save; a fresh process loads what is there "
            "and, some of them after further changes, the save is repeated.")
    nontrivial_rule = "a fault really cut a save short."
    lists = ("ops", "saves")

    def gen(self, rng):
        state = {}
        ops = [grids.gen_change(rng, state) for _ in range(rng.randrange(7))]
        saves = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            f = (gen_io(rng) if k < 0.85 else gen_line(rng) if k < 0.95
                 else gen_alloc(rng))
            if rng.random() < 0.12:
                f["u"] = round(rng.uniform(0.95, 1.0), 4)
            saves.append({"fault": f, "restart": rng.random() < 0.3,
                          "into": rng.choice(["", "", "saves/"]),
                          "slash": rng.random() < 0.06,
                          "after": [grids.gen_change(rng, state) for _ in
                                    range(rng.choice([0, 0, 0, 1, 2, 3]))],
                          "onto": rng.choice([None, None, "earlier", "empty",
                                              "file", "partial"])})
        return {"spec": grids.gen_spec(rng), "listing": rng.randrange(10**6),
                "ops": ops, "saves": saves}

    def simplify(self, plan):
        for i, s in enumerate(plan["saves"]):
            def with_(**k):
                p = dict(plan)
                p["saves"] = list(plan["saves"])
                p["saves"][i] = dict(s, **k)
                return p
            for f in simpler(s["fault"]):
                yield with_(fault=f)
            for k, v in (("into", ""), ("slash", False), ("onto", None),
                         ("restart", False), ("after", s["after"][:-1])):
                if s[k] != v:
                    yield with_(**{k: v})
        if plan["spec"]["diag"]:
            yield dict(plan, spec=dict(plan["spec"], diag=False))

    def execute(self, plan, ctx):
        w = ctx.new_world(plan["listing"])
        M = w.start_process(1)
        grid = grids.build(M, plan["spec"], level=50)
        for op in plan["ops"]:
            w.run(grids.make(M, w, grid, op), label=grids.brief(op))
        os.mkdir("saves")
        expected = grids.observe(grid, colours=False)
        deep = any(s["fault"]["kind"] in ("interrupt-line", "alloc")
                   for s in plan["saves"])
        kind, value = w.run(lambda: grid.save("earlier"), lines=deep,
                            allocs=deep, label="save earlier")
        if kind != "ok":
            return ctx.fail("save-fails", f"undisturbed save: {value!r}")
        counts = w.counts()
        first = expected
        if not self.loads_equal(ctx, w, M, "earlier", expected):
            return
        for n, s in enumerate(plan["saves"]):
            target = f"{s['into']}target{n}" + ("/" if s["slash"] else "")
            fault = place(s["fault"], counts)
            kept = {d: w.tree(d) for d in self.existing(w)}
            kind, value = w.run(lambda: grid.save(target), [fault],
                                label="save " + target)
            cut = bool(w.fired) and kind != "ok"
            if cut:
                ctx.nontrivial = True
                ctx.probe("cut short by " + fault["kind"])
            if kind == "error" and not w.fired:
                return ctx.fail("save-fails", f"undisturbed save: {value!r}")
            for d, tree in kept.items():
                if w.tree(d) != tree:
                    return ctx.fail("earlier-changed", f"saving {target} "
                                    f"changed the earlier save {d}")
            if s["restart"] or kind == "crash":
                M = w.start_process(10 + n)
                loaded = self.load(w, M, "earlier")
                if isinstance(loaded, Exception):
                    return ctx.fail("earlier-lost", f"the earlier save can "
                                    f"not be loaded any more: {loaded!r}")
                if kind == "crash":
                    grid = loaded
            # what is there now?
            result = self.load(w, M, target)
            complete = False
            if isinstance(result, Exception):
                ctx.probe("nothing loadable there")
                if kind == "ok":
                    return ctx.fail("silent-failure", f"the save reported no "
                                    f"failure but its target does not load: "
                                    f"{result!r}")
            else:
                bad = grids.diff(expected, grids.observe(result, False))
                if bad:
                    return ctx.fail("partial", f"a save that ended with "
                                    f"{kind} loads as a different grid: "
                                    + grids.short(bad))
                complete = True
                ctx.probe("complete grid there")
            # work goes on
            if kind == "crash":
                expected = first
            for op in s["after"]:
                w.run(grids.make(M, w, grid, op), label=grids.brief(op))
            if s["after"]:
                expected = grids.observe(grid, colours=False)
                ctx.probe("changed between saves")
            # the same save again, now undisturbed
            before = w.tree(target) if os.path.isdir(target) else None
            kind2, value2 = w.run(lambda: grid.save(target),
                                  label="save again " + target)
            if kind2 == "ok":
                if complete:
                    return ctx.fail("overwrites", f"saving onto the existing "
                                    f"save {target} is not refused")
                if not self.loads_equal(ctx, w, M, target, expected):
                    return
                ctx.probe("repeated save")
            else:
                if not complete:
                    return ctx.fail("not-repeatable", f"after a save that "
                                    f"ended with {kind} the same save fails: "
                                    f"{value2!r}")
                if w.tree(target) != before:
                    return ctx.fail("overwrites", f"a refused save changed "
                                    f"{target}")
            if s["onto"] and not self.refused(ctx, w, grid, s["onto"], n):
                return

    def existing(self, w):
        out = [d for d in sorted(os.listdir("."))
               if d == "earlier" or d.startswith("target")]
        return out + ["saves/" + d for d in sorted(os.listdir("saves"))
                      if d.startswith("target")]

    def load(self, w, M, where):
        kind, value = w.run(lambda: M.Shallot.ShallotGrid.load(where, 50),
                            label="load " + where)
        return value

    def loads_equal(self, ctx, w, M, where, expected):
        value = self.load(w, M, where)
        if isinstance(value, Exception):
            ctx.fail("unloadable", f"an undisturbed save to {where} does not "
                     f"load: {value!r}")
            return False
        bad = grids.diff(expected, grids.observe(value, False))
        if bad:
            ctx.fail("partial", f"an undisturbed save to {where} loads as a "
                     "different grid: " + grids.short(bad))
        return not bad

    def refused(self, ctx, w, grid, onto, n):
        """A save onto something that exists is refused, nothing changes."""
        where = onto
        if onto == "empty":
            where = f"empty{n}"
            os.mkdir(where)
        elif onto == "file":
            where = f"file{n}"
            with open(where, "w") as f:
                f.write("notes")
        elif onto == "partial":
            where = f"partial{n}"
            os.mkdir(where)
            with open(where + "/dx.npy", "w") as f:
                f.write("something else")
        def visible():
            return {k: v for k, v in w.tree().items()
                    if not any(part.startswith(".")
                               for part in k.split("/"))}
        before = visible()
        kind, value = w.run(lambda: grid.save(where), label="save onto "
                            + where)
        if kind != "error":
            ctx.fail("overwrites", f"saving onto an existing {onto} "
                     "is not refused")
            return False
        if visible() != before:
            ctx.fail("overwrites", f"the refused save onto an existing "
                     f"{onto} changed something")
            return False
        ctx.probe("save onto existing refused")
        return True


CHECK = C03()
