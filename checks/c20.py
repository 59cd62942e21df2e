"""C20: rings and grid parameters stay valid through any history."""
import copy
import math

import numpy as np

from sim import grids
from sim.engine import BaseCheck
from sim.faults import gen_alloc, gen_io, gen_line, place

NAMES = ("inner_radius", "outer_radius", "transmission", "inclination",
         "tilt")
START = ("inner_radius", "outer_radius", "transmission", "inclination",
         "tilt")


def gen_value(rng, name):
    """A value for an attribute: ordinary, at a bound, beyond it, not one."""
    k = rng.random()
    if k > 0.9:                         # a scalar of numpy's
        return {"np": rng.choice(["float64", "float32", "float16", "int64",
                                  "int32"]),
                "v": rng.choice([0, 1, 2, 45, -20, 100])}
    if k > 0.86:
        return {"np": "float64", "v": 2 * rng.random()}
    if k < 0.06:
        return rng.choice(["x", None, [1.0]])
    if k < 0.3:                         # all its digits, of any size
        low, high = {"inclination": (0, 90), "tilt": (-180, 180),
                     "transmission": (0, 1)}.get(name, (0, 4))
        v = low + (high - low) * rng.random()
        return v if rng.random() < 0.7 else v * 10**rng.uniform(-12, 0)
    if name in ("inner_radius", "outer_radius"):
        return rng.choice([0, 0.0, 0.5, 1, 1.0, 1.5, 2, 2.5, 3.0,
                           1e-16, 1e-17, 1e-9, 1.0 + 2.0**-52, 7, -1, -0.5,
                           -1e-12, -0.0, 1e12])
    if name == "transmission":
        return rng.choice([0, 0.0, 1, 1.0, 0.3, 0.5, 1 - 2.0**-53,
                           1 + 2.0**-52, -2.0**-60, 1.5, -1, 2])
    if name == "inclination":
        return rng.choice([0, 90, 90.0, 0.0, 45, 30.5, 90 + 2.0**-40,
                           -2.0**-60, 91, -1, 180])
    return rng.choice([-180, 180, 0, 0.0, 12.5, -170.25, 180.0, -180.0,
                       180 + 2.0**-40, -180 - 2.0**-40, 181, 360, -270])


def plain(v):
    return v["v"] if isinstance(v, dict) else v


def actual(v):
    return getattr(np, v["np"])(v["v"]) if isinstance(v, dict) else v


def gen_parameters(rng):
    p = grids.gen_spec(rng)["p"]
    p[2], p[5] = rng.choice([1, 2, 3, 4, 7]), rng.choice([1, 2, 3, 5, 10])
    p[7] = rng.choice([1, 2, 3, 6])
    if rng.random() < 0.15:             # nearly, but not at, the origin
        p[0] = rng.choice([0, 1e-9, -1e-12, 1e-300])
        p[3] = rng.choice([0, 1e-9, -1e-10, 5e-324])
    if rng.random() < 0.25:             # tiny or huge, many or few
        for i in (1, 4):
            p[i] = p[i - 1] + 10**rng.uniform(-4, 7)
        p[6] = 1 + 10**rng.uniform(-3, 5)
        p[rng.choice([2, 5, 7])] = rng.choice([11, 33, 101])
    if rng.random() < 0.35:
        i = rng.randrange(8)
        p[i] = rng.choice({2: [0, -1, 2.5, "3"], 5: [0, -2, 3.5, None],
                           7: [0, -1, 1.5, "x"], 6: [0.5, -1, 0.999, "y"],
                           }.get(i, [p[i], "1", None, 99.0, -99.0]))
    if rng.random() < 0.1:
        p = [{"np": "float64", "v": v} if type(v) is float else
             {"np": "int64", "v": v} if type(v) is int else v for v in p]
    return p


class C20(BaseCheck):
    id = "C20"
    runs = {"quick": 9000, "thorough": 40000}
    rule = ("One evaluation = one seeded run: rings made and assigned to 8-30 "
            "times (ordinary values, values at, just beyond and far beyond "
            "the bounds, values of another kind), grid parameters made, "
            "extended, extended again, saved and loaded, some of it "
            "interrupted at a source line or hit by a failing allocation, a "
            "disk error or a crash; "
            "after every step all values are compared with a model.")
    nontrivial_rule = "at least one assignment was refused or interrupted."
    assumptions = ["numbers are ordinary ints and floats, not NaN"]
    lists = ("steps",)

    def gen(self, rng):
        steps = []
        for _ in range(rng.choice([8, 16, 30])):
            k = rng.random()
            if k < 0.12:
                s = {"do": "ring", "v": [gen_value(rng, n) for n in START]}
                if rng.random() < 0.6:
                    s["v"] = [rng.choice([0, 0.5, 1]),
                              rng.choice([2, 3.0]), 0.5, 10, -20]
            elif k < 0.75:
                n = rng.choice(NAMES)
                s = {"do": "set", "name": n, "v": gen_value(rng, n)}
            elif k < 0.83:
                s = {"do": "parameters", "p": gen_parameters(rng)}
            elif k < 0.92:
                s = {"do": "extend"}
            elif k < 0.95:
                s = {"do": "look"}
            else:
                s = {"do": "reload"}
            k = rng.random()
            if k < 0.12:
                s["fault"] = gen_line(rng)
            elif k < 0.16:
                s["fault"] = gen_alloc(rng)
            if s["do"] == "reload" and rng.random() < 0.5:
                s["fault"] = gen_io(rng)
            steps.append(s)
        return {"p": [0, 2, 3, 0, 1.5, 2, 2, 2], "steps": steps}

    def simplify(self, plan):
        for i, s in enumerate(plan["steps"]):
            if "fault" in s:
                p = dict(plan)
                p["steps"] = list(plan["steps"])
                p["steps"][i] = {k: v for k, v in s.items() if k != "fault"}
                yield p

    # ------------------------------------------------------------- the model
    @staticmethod
    def ring_ok(name, v, model):
        if not isinstance(v, (int, float)):
            return False
        if name == "inner_radius":
            v = 1e-16 if v == 0 else v
            return 0 < v < model.get("outer_radius", math.inf)
        if name == "outer_radius":
            return v > model["inner_radius"]
        low, high = {"transmission": (0, 1), "inclination": (0, 90),
                     "tilt": (-180, 180)}[name]
        return low <= v <= high

    @classmethod
    def ring_model(cls, values):
        model = {}
        for name, v in zip(START, values):
            if not cls.ring_ok(name, v, model):
                return None
            model[name] = 1e-16 if name == "inner_radius" and v == 0 else v
        return model

    @staticmethod
    def parameters_model(p):
        min_x, max_x, nx, min_y, max_y, ny, max_rf, nrf = p
        number = (int, float)
        if not all(isinstance(v, number) for v in (min_x, max_x, min_y,
                                                   max_y, max_rf)):
            return None
        if not all(isinstance(v, int) and v >= 1 for v in (nx, ny, nrf)):
            return None
        if min_x >= max_x or min_y >= max_y or max_rf < 1:
            return None
        rf = np.linspace(1, max_rf, nrf)
        return {"dx": np.linspace(min_x, max_x, nx),
                "dy": np.linspace(min_y, max_y, ny), "rf": rf,
                "rf_array": np.append(rf[::-1], rf[1:]),
                "extendable": min_x == 0 and min_y == 0}

    @staticmethod
    def extended(m):
        if m is None or not m["extendable"]:
            return None
        out = dict(m)
        for k in ("dx", "dy"):
            out[k] = np.append(-m[k][:0:-1], m[k])
        out["extendable"] = False
        return out

    @staticmethod
    def ring_bad(ring, model):
        if model is None:
            return None
        for name in NAMES:
            v = getattr(ring, name)
            if v != model[name]:
                return f"{name} is {v!r} instead of {model[name]!r}"
        return None

    @staticmethod
    def parameters_bad(p, m):
        if m is None:
            return None
        dy, dx, rf_array = p.get_vectors()
        for name, have, want in (("dx", dx, m["dx"]), ("dy", dy, m["dy"]),
                                 ("rf", p.rf, m["rf"]),
                                 ("rf_array", rf_array, m["rf_array"])):
            if np.shape(have) != want.shape or not np.allclose(
                    have, want, rtol=0,
                    atol=1e-12 * np.max(np.abs(want), initial=1e-300)):
                return f"{name} is {have} instead of {want}"
        shape = (len(dy), len(dx), len(rf_array))
        if tuple(p.grid_shape) != shape or tuple(p.slice_shape) != shape[:2]:
            return f"shape {p.grid_shape}, {p.slice_shape} instead of {shape}"
        if p.dy.shape != (shape[0], 1, 1) or p.dx.shape != (1, shape[1], 1):
            return f"dy has shape {p.dy.shape}, dx {p.dx.shape}"
        if bool(p.extendable) != m["extendable"]:
            return f"extendable is {p.extendable}"
        return None

    # --------------------------------------------------------------- running
    def execute(self, plan, ctx):
        w = ctx.new_world()
        M = w.start_process(1)
        ring = M.Ring.Ring(1, 2, 0.5)
        model = self.ring_model([1, 2, 0.5, 0, 0])
        par = M.GridParameters.GridParameters(*plan["p"])
        pmodel = self.parameters_model(plan["p"])
        for n, s in enumerate(plan["steps"]):
            do, text = s["do"], self.brief(s)
            box = {"ring": ring, "par": par}
            if do == "extend" and pmodel["extendable"] and \
                    1 in (len(pmodel["dx"]), len(pmodel["dy"])):
                continue            # one row has nothing to mirror

            def call(b):
                if do == "ring":
                    return lambda: b.update(ring=M.Ring.Ring(
                        *map(actual, s["v"])))
                if do == "set":
                    return lambda: setattr(b["ring"], s["name"],
                                           actual(s["v"]))
                if do == "parameters":
                    return lambda: b.update(par=M.GridParameters.
                                            GridParameters(
                                                *map(actual, s["p"])))
                if do == "extend":
                    return lambda: b["par"].extend_grid()
                if do == "look":
                    return lambda: self.look(b)
                return lambda: self.reload(M, b, b.get("to", f"p{n}"))
            # what it should lead to
            after, pafter, ok = model, pmodel, True
            if do == "ring":
                new = self.ring_model(list(map(plain, s["v"])))
                ok, after = new is not None, new or model
            elif do == "set":
                v = plain(s["v"])
                ok = self.ring_ok(s["name"], v, model)
                if ok:
                    if s["name"] == "inner_radius" and v == 0:
                        v = 1e-16
                    after = dict(model, **{s["name"]: v})
            elif do == "parameters":
                new = self.parameters_model(list(map(plain, s["p"])))
                ok, pafter = new is not None, new or pmodel
            elif do == "extend":
                new = self.extended(pmodel)
                ok, pafter = new is not None, new or pmodel
            faults = []
            if "fault" in s:
                f = s["fault"]
                w.run(call(dict(copy.deepcopy(box), to=f"dry{n}")),
                      lines=f["kind"] == "interrupt-line",
                      allocs=f["kind"] == "alloc")
                faults = [place(f, w.counts())]
            kind, value = w.run(call(box), faults, label=text)
            stopped = bool(w.fired) and kind != "ok"
            if stopped or not ok:
                ctx.nontrivial = True
            ctx.probe(do + (" stopped" if stopped else "" if ok
                            else " refused"))
            if not stopped and (kind == "ok") != ok:
                return ctx.fail("refused" if ok else "accepted",
                                f"{text} on {model if do == 'set' else ''} "
                                f"ends with {kind} {value!r}")
            if kind == "crash":         # on with what there was
                M = w.start_process(n + 2)
                ring = M.Ring.Ring(*[model[a] for a in START])
                par = M.GridParameters.GridParameters.load(f"dry{n}")
            else:
                ring, par = box["ring"], box["par"]
            if stopped and do == "reload":
                kind, value = w.run(lambda: M.GridParameters.GridParameters
                                    .load(f"p{n}"), label="load again")
                bad = None
                if kind == "ok":
                    bad = self.parameters_bad(value, pmodel)
                elif type(value).__name__ != "LoadError":
                    bad = f"load ends with {value!r}"
                if bad:
                    return ctx.fail("parameters", f"after {text} was "
                                    f"stopped: {bad}")
            bad = self.ring_bad(ring, after)
            if bad and stopped:
                bad, after = self.ring_bad(ring, model), model
            if bad:
                return ctx.fail("ring", f"after {text} the ring's {bad}")
            model = after
            bad = self.parameters_bad(par, pafter)
            if bad and stopped:
                bad, pafter = self.parameters_bad(par, pmodel), pmodel
            if bad:
                return ctx.fail("parameters", f"after {text} of {pmodel}: "
                                + bad)
            pmodel = pafter

    @staticmethod
    def reload(M, b, to):
        b["par"].save(to)
        b["par"] = M.GridParameters.GridParameters.load(to)

    @staticmethod
    def look(b):
        return (str(b["ring"]), b["ring"].get_patch(), str(b["par"]),
                repr(b["par"]), b["par"].get_vectors())

    @staticmethod
    def brief(s):
        return {"ring": lambda: f"Ring{tuple(map(actual, s['v']))}",
                "set": lambda: f"ring.{s['name']} = {actual(s['v'])!r}",
                "parameters": lambda: f"GridParameters{tuple(map(actual, s['p']))}",
                "extend": lambda: "extend_grid()",
                "look": lambda: "look",
                "reload": lambda: "save and load"}[s["do"]]()


CHECK = C20()
