"""C11: independent objects never influence each other."""
import copy
import json
import logging
import os

import numpy as np

from sim import grids, rings
from sim.engine import BaseCheck
from sim.faults import gen_line
from sim.threads import Scheduler
from checks.c10 import C10 as Edits, gen_edit


class Inputs:
    """The caller's input objects; equal ones are one object if shared."""

    def __init__(self, M, shared):
        self.M, self.shared = M, shared
        self.kept = []          # (description, object, look, first look)
        self.by_key = {}

    def _get(self, what, value, create, look):
        key = json.dumps([what, value], sort_keys=True)
        if self.shared and key in self.by_key:
            return self.by_key[key]
        obj = create()
        self.by_key[key] = obj
        self.kept.append((key, obj, look, look(obj)))
        return obj

    def array(self, v):
        if v is None:
            return None
        return self._get("array", v, lambda: np.array(v, dtype=float),
                         lambda a: a.copy())

    def indices(self, v):
        return self._get("indices", v, lambda: np.array(v),
                         lambda a: a.copy())

    def mask(self, op, shape):
        return self._get("mask", [op, list(map(int, shape))],
                         lambda: grids.make_mask(op, shape),
                         lambda a: copy.deepcopy(a))

    def parameters(self, p):
        return self._get("parameters", p, lambda: self.M.GridParameters.
                         GridParameters(*p), grids.observe_parameters)

    def ring(self, r):
        if r is None:
            return "not a ring"
        return self._get(
            "ring", r, lambda: self.M.Ring.Ring(r["in"], r["out"], r["tr"],
                                                r["i"], r["t"]),
            lambda o: (o.inner_radius, o.outer_radius, o.transmission,
                       o.inclination, o.tilt))

    def changed(self):
        for key, obj, look, first in self.kept:
            now = look(obj)
            same = (not grids.diff(first, now) if isinstance(first, dict)
                    else grids.same(first, now))
            if not same:
                return key
        return None


def gen_ops(rng, kind):
    n = rng.choice([2, 4, 6])
    if kind == "rings":
        return [rings.gen_edit(rng, 3, [0.5, 1.0, 2.0, 3.0, 4.5])
                for _ in range(2 * n)]
    ops, state = [], {}
    if rng.random() < 0.3:              # as far as a fit and its end
        ops += [grids.gen_eclipse(rng), grids.gen_add(rng, 2),
                {"op": "fit", "w": rng.random() < 0.6}]
        state = {"ecl": True, "n": 2}
        ops.append(rng.choice([grids.gen_add(rng, 1), {"op": "remove",
                                                       "i": [0]},
                               {"op": "rescale", "v": 15.0, "u": None,
                                "c": None}, grids.gen_eclipse(rng)]))
    for _ in range(n):
        k = rng.random()
        if k < 0.12:
            ops.append({"op": "saveload", "n": len(ops)})
        elif k < 0.3:
            op = grids.gen_read(rng)
            if op["op"] in ("cube", "slice", "save"):
                op = {"op": "repr", "what": "grid"}
            ops.append(op)
        elif k < 0.42:
            ops.append(grids.gen_invalid(rng, state))
        else:
            ops.append(grids.gen_change(rng, state))
    if rng.random() < 0.4:
        ops.insert(rng.randrange(len(ops) + 1), {
            "op": "hill", "h": rng.choice([0.6, 0.8, 1.0, 1.4, 1.7])})
    return ops


class Actor:
    def __init__(self, M, w, k, plan, inputs):
        self.M, self.w, self.k, self.plan = M, w, k, plan
        self.inputs = inputs
        self.obj = None
        self.out = []
        self.lines, self.at = 0, None

    # the interrupt of an operation, counted in this actor's own lines
    def hook(self, code, line):
        self.lines += 1
        if self.at is not None and self.lines > self.at:
            self.at = None
            raise KeyboardInterrupt()

    def calls(self):
        plan = self.plan
        yield "build", self.build(), plan.get("stop")
        for op in plan["ops"]:
            if self.obj is None:
                return
            yield grids.brief(op), self.call(op), op.get("stop")

    def build(self):
        """The constructor call; its inputs are made here, not in it."""
        plan = self.plan
        if plan["kind"] == "rings":
            s = plan["system"]
            args = [self.inputs.array(s[k]) for k in ("inner", "outer",
                                                      "trans")]

            def build():
                self.obj = self.M.RingSystem.RingSystem(
                    s["R"], *args, s["i"], s["t"],
                    logging_level=plan["level"])
        else:
            spec = plan["spec"]
            parameters = self.inputs.parameters(spec["p"])

            def build():
                self.obj = self.M.Shallot.ShallotGrid(
                    parameters, spec["n"], logging_level=plan["level"],
                    keep_diagnostics=spec["diag"],
                    intermittent_saving=plan.get("saving", False))
        return build

    def call(self, op):
        if self.plan["kind"] == "rings":
            if op["op"] in ("add", "replace"):
                r = self.inputs.ring(op["ring"])
                f = getattr(self.obj, op["op"] + "_ring")
                return lambda: f(op["at"], r)
            n = rings.divisions(op, self.obj.get_num_rings()) \
                if op["op"] == "split" else None
            if isinstance(n, list):
                n = self.inputs.indices(n)
                return lambda: self.obj.split_rings(n)
            return rings.make(self.M, self.obj, op)
        if op["op"] == "saveload":
            return lambda: self.saveload(op)
        return grids.make(self.M, self.w, self.obj, op, self.inputs)

    def saveload(self, op):
        where = f"a{self.k}-{op['n']}"
        self.obj.save(where)
        self.obj = self.M.Shallot.ShallotGrid.load(where,
                                                   self.plan["level"])

    def body(self, between=None):
        for text, call, stop in self.calls():
            self.lines, self.at = 0, stop
            try:
                value = ("ok", grids.freeze(call()))
            except Exception as e:
                value = ("error", type(e).__name__)
            except KeyboardInterrupt:
                value = ("interrupt", None)
            self.at = None
            self.out.append((text, value))
            if between is not None:
                between(text)

    def final(self):
        if self.obj is None:
            return {"object": None}
        if self.plan["kind"] == "rings":
            return rings.observe(self.obj)
        return grids.observe(self.obj)


class C11(BaseCheck):
    id = "C11"
    runs = {"quick": 1000, "thorough": 5000}
    rule = ("One evaluation = one seeded run: 2-4 objects (grids and ring "
            "systems), each built and worked on alone in a fresh process, "
            "then all of them in one process under a seeded schedule that "
            "switches threads at source lines and file-system calls, or "
            "between calls; equal inputs may be one and the same object. "
            "Every answer and final state is compared with the solo run, "
            "every input object with its state before.")
    nontrivial_rule = "the schedule switched between objects at least twice."
    stubs = BaseCheck.stubs + [
        "the OS thread scheduler (real threads, one runs at a time, a seeded "
        "schedule decides at source lines and file-system calls)"]
    assumptions = BaseCheck.assumptions + [
        "threads switch between source lines of the code under test and at "
        "file-system calls, not inside numpy calls",
        "at most one of the objects saves its build progress (the checkpoint "
        "directory is one per working directory)"]
    lists = ("actors", "schedule")

    def gen(self, rng):
        actors = []
        spec = grids.gen_spec(rng)
        system = rings.gen_system(rng, rng.choice([2, 3]))
        ops = {"grid": gen_ops(rng, "grid"), "rings": gen_ops(rng, "rings")}
        for k in range(rng.choice([2, 2, 3, 4])):
            kind = "grid" if k == 0 else rng.choice(["grid", "grid", "rings"])
            a = {"kind": kind, "level": rng.choice([10, 20, 50, 50])}
            if kind == "grid":
                a["spec"] = spec
                if rng.random() < 0.6:
                    a["spec"] = grids.gen_spec(rng)
                    part = rng.random()
                    if part < 0.25:
                        a["spec"]["p"] = spec["p"]
                    elif part < 0.8:    # another in one number only
                        a["spec"] = dict(spec, p=list(spec["p"]))
                        i = rng.choice([0, 0, 1, 3, 3, 4, 6])
                        p = a["spec"]["p"]
                        p[i] += rng.choice([0.25, 0.5, 1.0])
                        if i in (0, 3) and p[i] >= p[i + 1]:
                            p[i] = p[i + 1] - 0.25
            else:
                a["system"] = system
                if rng.random() < 0.5:
                    a["system"] = dict(rings.gen_system(rng), inner=system[
                        "inner"], outer=system["outer"], trans=system[
                        "trans"])
            a["ops"] = copy.deepcopy(ops[kind]) if rng.random() < 0.7 \
                else gen_ops(rng, kind)
            for op in a["ops"]:
                if rng.random() < 0.1:
                    op["stop"] = int(10 ** rng.uniform(0, 3))
            if rng.random() < 0.08:
                a["stop"] = int(10 ** rng.uniform(0, 4.8))
            actors.append(a)
        if rng.random() < 0.25:
            a = rng.choice([a for a in actors if a["kind"] == "grid"])
            a["saving"] = True
            a.pop("stop", None)
        mode = "threads" if rng.random() < 0.8 else "calls"
        scale = rng.choice([1.5, 2.5, 3.5, 4.5]) if mode == "threads" else 0.5
        schedule = [[int(10 ** rng.uniform(0, scale)),
                     rng.randrange(len(actors))]
                    for _ in range(rng.choice([4, 15, 60]))]
        return {"actors": actors, "mode": mode, "schedule": schedule,
                "shared": rng.random() < 0.75, "listing": rng.randrange(10**6)}

    def simplify(self, plan):
        for i, a in enumerate(plan["actors"]):
            for j in range(len(a["ops"])):
                p = copy.deepcopy(plan)
                del p["actors"][i]["ops"][j]
                yield p
        if plan["shared"]:
            yield dict(plan, shared=False)
        if plan["mode"] == "threads":
            yield dict(plan, mode="calls")

    def execute(self, plan, ctx):
        w = ctx.new_world(plan["listing"])
        if not plan["actors"]:
            return
        alone = []
        for k, a in enumerate(plan["actors"]):
            M = w.start_process(1)
            os.mkdir(f"solo{k}")
            os.chdir(f"solo{k}")
            actor = Actor(M, w, k, a, Inputs(M, False))
            Scheduler(w, [], False).run([actor.body], [actor.hook])
            alone.append((actor.out, actor.final()))
            os.chdir(w.work)
            w.trace.append(f"alone {k}: " + "; ".join(
                t + " " + v[0] for t, v in actor.out))
        M = w.start_process(1)
        inputs = Inputs(M, plan["shared"])
        actors = [Actor(M, w, k, a, inputs)
                  for k, a in enumerate(plan["actors"])]
        s = Scheduler(w, plan["schedule"], plan["mode"] == "threads")
        between = None if plan["mode"] == "threads" else s.point
        os.mkdir("together")
        os.chdir("together")
        s.run([(lambda a=a: a.body(between)) for a in actors],
              [a.hook for a in actors])
        ctx.nontrivial = s.switches >= 2
        ctx.stats["switches"] += s.switches
        ctx.probe(plan["mode"] + (" shared" if plan["shared"] else ""))
        for a, (out, final) in zip(actors, alone):
            who = f"{a.plan['kind']} {a.k}"
            for (text, one), (_, other) in zip(a.out, out):
                if not (one[0] == other[0] and grids.same(one[1], other[1])):
                    return ctx.fail("answer", f"{who}: {text} ends with "
                                    f"{show(one)}, alone with {show(other)}")
                if one[0] == "interrupt":
                    ctx.fault_stats["interrupt-line"] += 1
            if len(a.out) != len(out):
                return ctx.fail("answer", f"{who}: {len(a.out)} calls, alone "
                                f"{len(out)}")
            now = a.final()
            bad = grids.diff(final, now)
            if bad:
                return ctx.fail("state", f"{who} differs from its solo run: "
                                + grids.short(bad))
        key = inputs.changed()
        if key:
            ctx.fail("input", f"the caller's {key} was changed")


def show(out):
    return out[0] if out[0] != "error" else f"{out[0]} {out[1]}"


CHECK = C11()
