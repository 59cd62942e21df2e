"""C10: ring edits keep the system ordered and conserve the transmission."""
import copy

import numpy as np

from sim import grids, rings
from sim.engine import BaseCheck
from sim.faults import gen_alloc, gen_line, place

TIE = 1e-9
ROUNDING = 1e-12
MOST = 60


def gen_edit(rng):
    k = rng.random()
    bad = rng.random() < 0.12
    digits = rng.choice([2, 3, 17])
    if k < 0.5:
        op = {"op": "add" if k < 0.3 else "replace", "u": rng.random(),
              "how": rng.choice(["fill", "fill", "inside", "inside", "left",
                                 "right", "touch-left", "touch-right",
                                 "around", "over-left", "over-right",
                                 "elsewhere"]),
              "f": [round(rng.random(), digits), round(rng.random(), digits)],
              "d": rng.choice([1e-10, 1e-6, 1e-3, 0.05, 0.5]),
              "tr": rng.choice([0.0, 0.2, 0.5, 0.5, 0.500000003, 0.9,
                               1.0, rng.random()]),
              "i": rng.choice([None, None, 0, 45.0]), "t": rng.choice([None, 20.0, "half"])}
        if bad:
            op["bad"] = rng.choice(["negative", "beyond", "half", "text",
                                    "ring", "ring"])
        return op
    if k < 0.62:
        op = {"op": "remove", "u": rng.random()}
        if bad:
            op["bad"] = rng.choice(["negative", "beyond", "half", "text"])
        return op
    if k < 0.76:
        op = {"op": "split", "n": rng.choice([2, 2, 3, 4, [1, 2], [3, 1, 1],
                                              [1], [2, 1, 5]])}
        if bad:
            op = {"op": "split", "n": rng.choice([0, 1, -2, 2.5, "two",
                                                  [0, 2], [2, -1]])}
        elif isinstance(op["n"], list) and rng.random() < 0.2:
            op["extra"] = rng.choice([1, -1])
        return op
    if k < 0.92:
        op = {"op": "merge", "tol": rng.choice([None, None, None, 0.0, 1e-9,
                                                1e-4, 0.002, 0.2])}
        return op
    return {"op": "look", "what": rng.choice(["repr", "plot", "data"])}


class C10(BaseCheck):
    id = "C10"
    runs = {"quick": 6000, "thorough": 60000}
    rule = ("One evaluation = one seeded run: 5-40 edits (filling gaps, "
            "touching and overlapping neighbours, removing, replacing, "
            "splitting evenly and unevenly, merging across gaps, invalid "
            "input), some interrupted at a source line or by a failing "
            "allocation, on one ring system; compared after every edit with a "
            "list model and with the transmission profile.")
    nontrivial_rule = ("at least one edit was stopped by a fault or refused "
                       "because rings would overlap.")
    assumptions = ["radii that differ by less than 1e-9 count as touching "
                   "where rings were split (floating point)"]
    lists = ("ops",)

    def gen(self, rng):
        ops = []
        for _ in range(rng.choice([5, 10, 20, 40])):
            op = gen_edit(rng)
            k = rng.random()
            if k < 0.15:
                op["fault"] = gen_line(rng)
            elif k < 0.22:
                op["fault"] = gen_alloc(rng)
            ops.append(op)
        return {"system": rings.gen_system(rng, rng.choice([0, 1, 2, 4, 7])),
                "level": rng.choice([10, 50]), "ops": ops}

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            if "fault" in op:
                p = dict(plan)
                p["ops"] = list(plan["ops"])
                p["ops"][i] = {k: v for k, v in op.items() if k != "fault"}
                yield p
        s = plan["system"]
        for i in range(len(s["inner"])):
            yield dict(plan, system=dict(s, **{
                k: s[k][:i] + s[k][i + 1:]
                for k in ("inner", "outer", "trans")}))

    # ------------------------------------------------------------- the model
    @staticmethod
    def resolve(op, model):
        """The edit with definite arguments, for the rings there are."""
        n = len(model)
        out = {"op": op["op"]}
        if op["op"] == "split":
            out["n"] = op["n"]
            if isinstance(op["n"], list):
                m = max(n + op.get("extra", 0), 0)
                out["n"] = [op["n"][i % len(op["n"])] for i in range(m)]
            return out
        if op["op"] not in ("add", "remove", "replace"):
            return dict(op)
        places = n + 1 if op["op"] == "add" else n
        at = int(op["u"] * max(places, 1))
        bad = op.get("bad")
        out["at"] = {"negative": -1, "beyond": places + int(op["u"] * 2),
                     "half": at + 0.5, "text": "1"}.get(bad, at)
        if op["op"] == "remove":
            return out
        if bad == "ring":
            out["ring"] = None
            return out
        left = model[at - 1] if 0 < at <= n else None
        right_at = at + (op["op"] == "replace")
        right = model[right_at] if right_at < n else None
        lo = left[1] if left else 0.0
        hi = right[0] if right else lo + 3.0
        f0, f1 = sorted(op["f"])
        a = lo + f0 * (hi - lo)
        b = lo + f1 * (hi - lo)
        how, d = op["how"], op["d"]
        if how in ("fill", "touch-left", "over-right"):
            a = lo
        if how in ("fill", "touch-right", "over-left"):
            b = hi
        if how in ("left", "over-left", "around"):
            a = lo - d
        if how in ("right", "over-right", "around"):
            b = hi + d
        if how == "elsewhere":
            a, b = 8 * op["f"][0], 8 * op["f"][0] + op["f"][1]
        out["ring"] = {"in": max(a, 0.0), "out": b, "tr": op["tr"],
                       "i": op["i"], "t": op["t"]}
        return out

    @staticmethod
    def predict(op, model, have):
        """-> (ok | reject | either, candidate models)"""
        n, k = len(model), op["op"]
        whole = lambda v: isinstance(v, int)
        if k == "look":
            return "either", [model]
        if k == "remove":
            if not whole(op["at"]) or not 0 <= op["at"] < n:
                return "reject", [model]
            return "ok", [model[:op["at"]] + model[op["at"] + 1:]]
        if k in ("add", "replace"):
            at, r = op["at"], op["ring"]
            if r is None or not whole(at) or \
                    not 0 <= at < n + (k == "add"):
                return "reject", [model]
            rest = model[at + (k == "replace"):]
            verdict = "ok"
            gaps = []
            if at > 0:
                gaps.append(max(r["in"], 1e-16) - model[at - 1][1])
            if rest:
                gaps.append(rest[0][0] - r["out"])
            for gap in gaps:
                if gap < -1e-12:
                    return "reject", [model]
                if gap < 0:             # a rounding error of a split
                    verdict = "either"
            return verdict, [model[:at] + [(r["in"], r["out"], r["tr"])]
                             + rest]
        if k == "split":
            d = op["n"]
            if isinstance(d, list):
                if n == 0 and not d:
                    return "either", [model]
                if len(d) != n or any(v < 1 for v in d):
                    return "reject", [model]
            elif not isinstance(d, int) or d < 2:
                return "reject", [model]
            else:
                d = [d] * n
            new = []
            for (a, b, t), m in zip(model, d):
                w = (b - a) / m
                new += [(a + j * w, a + (j + 1) * w, t) for j in range(m)]
            return "ok", [new]
        tol = 1e-6 if op["tol"] is None else op["tol"]
        new = []
        for a, b, t in model:
            if new and new[-1][2] == t:
                gap = abs(a - new[-1][1])
                joined = gap < tol
                if abs(gap - tol) <= 1e-12:     # a matter of rounding
                    joined = not any(abs(r[0] - a) < TIE for r in have)
                if joined:
                    new[-1] = (new[-1][0], b, t)
                    continue
            new.append((a, b, t))
        return "ok", [new]

    @staticmethod
    def matches(have, want):
        return len(have) == len(want) and np.allclose(
            np.reshape(have, -1), np.reshape(want, -1), rtol=0, atol=TIE)

    @staticmethod
    def profile(model, radii):
        out = np.ones(len(radii))
        for a, b, t in model:
            out[(radii > a) & (radii < b)] = t
        return out

    # --------------------------------------------------------------- running
    @staticmethod
    def make(M, system, op):
        k = op["op"]
        if k in ("add", "replace"):
            r = op["ring"]
            if r is None:
                ring = "not a ring"
            else:
                i = system.inclination if r["i"] is None else r["i"]
                t = system.tilt if r["t"] is None else r["t"]
                if t == "half":     # half a turn from the system's
                    t = system.tilt + (180 if system.tilt <= 0 else -180)
                ring = M.Ring.Ring(r["in"], r["out"], r["tr"], i, t)
            f = system.add_ring if k == "add" else system.replace_ring
            return lambda: f(op["at"], ring)
        if k == "remove":
            return lambda: system.remove_ring(op["at"])
        if k == "split":
            n = op["n"]
            n = np.array(n) if isinstance(n, list) else n
            return lambda: system.split_rings(n)
        if k == "merge":
            if op["tol"] is None:
                return lambda: system.merge_rings()
            return lambda: system.merge_rings(op["tol"])
        if op["what"] == "repr":
            return lambda: (repr(system), str(system), system.get_num_rings(),
                            [str(r) for r in system.rings])
        if op["what"] == "data":
            return lambda: system.get_rings_data()

        def plot():
            import matplotlib.figure
            system.plot(matplotlib.figure.Figure().add_subplot(), 0.3, -0.2)
        return plot

    @staticmethod
    def state(system):
        with grids.quiet():
            data = system.get_rings_data()
        return [tuple(float(v) for v in r) for r in zip(*data)]

    def execute(self, plan, ctx):
        w = ctx.new_world()
        M = w.start_process(1)
        system = rings.build(M, plan["system"], plan["level"])
        model = self.state(system)
        s = plan["system"]
        if not self.matches(model, list(zip(s["inner"], s["outer"],
                                            s["trans"]))):
            return ctx.fail("build", f"built from {s}: {model}")
        for op in plan["ops"]:
            r = self.resolve(op, model)
            if r["op"] == "split" and not (isinstance(r["n"], str)) and \
                    len(model) * np.max(r["n"], initial=2) > MOST:
                continue
            ring = r.get("ring")
            if ring and ring["out"] - max(ring["in"], 1e-16) < 1e-5:
                continue            # too thin to speak of
            model = self.step(ctx, w, M, system, r, op.get("fault"), model)
            if ctx.violations:
                return

    def step(self, ctx, w, M, system, op, fault, model):
        text = grids.brief(op)
        faults = []
        if fault:
            dry = copy.deepcopy(system)
            with grids.quiet():
                w.run(self.make(M, dry, op),
                      lines=fault["kind"] == "interrupt-line",
                      allocs=fault["kind"] == "alloc")
            faults = [place(fault, w.counts())]
        call = self.make(M, system, op)
        kind, value = w.run(call, faults, label=text)
        have = self.state(system)
        verdict, after = self.predict(op, model, have)
        w.trace.append(f"  {len(have)} rings")
        unchanged = have == model
        done = any(self.matches(have, m) for m in after)
        if w.fired and kind != "ok":
            ctx.nontrivial = True
            ctx.probe(f"{op['op']} stopped, " + ("unchanged" if unchanged
                                                 else "completed"))
            if not unchanged and (verdict == "reject" or not done):
                ctx.fail("mixture", f"{text} stopped by {w.fired[0]} leaves "
                         f"{have}, before {model}")
        elif verdict == "reject":
            ctx.nontrivial = True
            ctx.probe(op["op"] + " rejected")
            if kind == "ok":
                ctx.fail("accepted", f"{text} on {model} should be refused")
            elif not unchanged:
                ctx.fail("trace", f"the refused {text} changed {model} to "
                         f"{have}")
        elif kind != "ok":
            if verdict == "ok":
                ctx.fail("refused", f"{text} on {model}: {value!r}")
            elif not unchanged:
                ctx.fail("trace", f"the refused {text} changed {model} to "
                         f"{have}")
        else:
            ctx.probe(op["op"])
            if not done:
                ctx.fail("edit", f"{text} on {model} gives {have}")
        if ctx.violations:
            return have
        # what holds for every system, whatever the model says
        for (a, b, _), (c, d, _) in zip(have, have[1:]):
            if c < b - ROUNDING * max(1.0, abs(b)):
                ctx.fail("order", f"after {text} rings overlap: {have}")
                return have
        for ring in system.rings:
            if (ring.inclination, ring.tilt) != (system.inclination,
                                                 system.tilt):
                ctx.fail("geometry", f"after {text} a ring has inclination "
                         f"{ring.inclination} and tilt {ring.tilt}")
                return have
        if op["op"] in ("split", "merge"):
            tol = 1e-6 if op.get("tol") is None else op["tol"]
            edges = np.array([e for m in (model, have) for r in m
                              for e in r[:2]] + [0.0])
            edges = np.unique(edges)
            radii = np.append((edges[1:] + edges[:-1]) / 2, edges[-1] + 1)
            width = np.append(np.diff(edges), 1)
            old, new = self.profile(model, radii), self.profile(have, radii)
            reach = ROUNDING * max(1.0, float(np.max(np.abs(edges))))
            if op["op"] == "merge":
                reach += max(tol, 0.0)
            if np.any((old != new) & (width > reach)):
                ctx.fail("profile", f"{text} changes the transmission: "
                         f"{model} -> {have}")
        return have


CHECK = C10()
