"""C12: log output and random numbers are independent of everything else."""
import gc
import logging
import os
import random
import re
import sys
import threading

import numpy as np

from sim import grids, rings
from sim.engine import BaseCheck
from sim.threads import Scheduler
from checks.c11 import Actor, Inputs, gen_ops

HEAD = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} - (.+?) *- ([^:]+?): ")
LEVELS = (10, 10, 15, 20, 20, 30, 40, 50)


class Stream:
    """The terminal: keeps what is written, by who is running."""

    def __init__(self):
        self.parts = {}

    def write(self, text):
        self.parts.setdefault(threading.get_ident(), []).append(text)
        return len(text)

    def flush(self):
        pass

    def take(self):
        return "".join(self.parts.pop(threading.get_ident(), []))


class Spy:
    """What objects log, taken down before any handler sees it."""

    def __init__(self):
        self.records = {}

    def __enter__(self):
        self.real = logging.Logger.handle

        def handle(logger, record):
            self.records.setdefault(threading.get_ident(), []).append(
                (record.levelno, record.levelname, record.funcName,
                 record.getMessage()))
            return self.real(logger, record)
        logging.Logger.handle = handle
        return self

    def __exit__(self, *a):
        logging.Logger.handle = self.real

    def take(self):
        return self.records.pop(threading.get_ident(), [])


class Caller(logging.Handler):
    """The caller's own handler at the root logger."""

    def __init__(self):
        super().__init__()
        self.seen = []

    def emit(self, record):
        self.seen.append(record.getMessage())


def rng_state():
    a, b = np.random.get_state(), random.getstate()
    return (a[0], a[1].tobytes(), a[2:], b)


class C12(BaseCheck):
    id = "C12"
    runs = {"quick": 1000, "thorough": 7000}
    rule = ("One evaluation = one seeded run: 2-6 grids and ring systems with "
            "different logging levels, each first built and used alone at the "
            "lowest level to learn what it logs, then all together under a "
            "seeded schedule (between calls or between source lines) while "
            "the caller reseeds the global generators, drops objects, asks "
            "for what can not be loaded and has a root handler; the output of every call and the generators' "
            "states are compared.")
    nontrivial_rule = ("at least two objects existed and at least one log "
                       "line was expected.")
    stubs = BaseCheck.stubs + ["the terminal (kept in memory, by thread)",
                               "the OS thread scheduler (seeded)"]
    lists = ("actors", "schedule")

    def gen(self, rng):
        actors = []
        spec = grids.gen_spec(rng)
        for k in range(rng.choice([2, 3, 4, 6])):
            kind = rng.choice(["grid", "rings", "rings"])
            a = {"kind": kind, "level": rng.choice(LEVELS)}
            if kind == "grid":
                a["spec"] = spec if rng.random() < 0.5 \
                    else grids.gen_spec(rng)
            else:
                a["system"] = rings.gen_system(rng)
            a["ops"] = gen_ops(rng, kind)
            out = []
            for op in a["ops"]:
                if rng.random() < 0.2:
                    out.append({"op": "reseed", "to": rng.choice([0, 1, 1])})
                if rng.random() < 0.1:
                    out.append({"op": "root", "to": rng.choice([10, 20, 30,
                                                                50])})
                if rng.random() < 0.15:
                    out.append({"op": "say", "level": rng.choice(
                        [10, 15, 20, 30, 40, 50])})
                if rng.random() < 0.08:
                    out.append({"op": "badload", "of": rng.choice(
                        ["grid", "grid", "part", "part",
                         "parameters", "diagnostics"])})
                out.append(op)
            a["ops"] = out
            a["first"] = rng.choice([None, 0, 1, 1])
            a["drop"] = rng.random() < 0.4
            actors.append(a)
        mode = rng.choice(["threads", "calls", "calls"])
        scale = rng.choice([2, 3, 4]) if mode == "threads" else 0.7
        schedule = [[int(10 ** rng.uniform(0, scale)),
                     rng.randrange(len(actors))]
                    for _ in range(rng.choice([0, 4, 15, 40]))]
        return {"actors": actors, "mode": mode, "schedule": schedule,
                "root": rng.choice([None, 10, 50]),
                "listing": rng.randrange(10**6)}

    def simplify(self, plan):
        for i, a in enumerate(plan["actors"]):
            for j in range(len(a["ops"])):
                b = dict(a, ops=a["ops"][:j] + a["ops"][j + 1:])
                yield dict(plan, actors=plan["actors"][:i] + [b]
                           + plan["actors"][i + 1:])
        if plan["mode"] == "threads":
            yield dict(plan, mode="calls")
        if plan["root"] is not None:
            yield dict(plan, root=None)

    def execute(self, plan, ctx):
        w = ctx.new_world(plan["listing"])
        w.listing_rng.shuffle = lambda names: None
        if not plan["actors"]:
            return
        stream = Stream()
        sys.stderr = stream
        with Spy() as spy:
            alone = []
            for k, a in enumerate(plan["actors"]):
                M = w.start_process(100 + k)
                logging.disable(logging.NOTSET)
                actor = Talker(M, w, k, dict(a, level=10), stream, spy, None)
                self.inside(w, f"solo{k}", lambda: Scheduler(
                    w, [], False).run([actor.body]))
                alone.append((actor.log, actor.final()))
            M = w.start_process(1)
            logging.disable(logging.NOTSET)
            root = Caller()
            level = logging.root.level
            if plan["root"] is not None:
                logging.root.addHandler(root)
                logging.root.setLevel(plan["root"])
            shared = {"state": None}
            actors = [Talker(M, w, k, a, stream, spy, shared)
                      for k, a in enumerate(plan["actors"])]
            s = Scheduler(w, plan["schedule"], plan["mode"] == "threads")
            between = None if plan["mode"] == "threads" else s.point
            np.random.seed(5)
            random.seed(5)
            shared["state"] = rng_state()
            try:
                self.inside(w, "together", lambda: s.run(
                    [(lambda a=a: a.body(between)) for a in actors]))
            finally:
                if plan["root"] is not None:
                    logging.root.removeHandler(root)
                logging.root.setLevel(level)
        ctx.probe(plan["mode"])
        ctx.stats["switches"] += s.switches
        if root.seen:
            return ctx.fail("twice", "also written by the caller's root "
                            f"handler: {root.seen[0][:80]!r}")
        for a, (log, final) in zip(actors, alone):
            if a.random_changed:
                return ctx.fail("random", a.random_changed)
            who = f"{a.plan['kind']} {a.k} (level {a.plan['level']})"
            for (text, said, _, end), (_, _, records, end0) in zip(a.log,
                                                                   log):
                want = "".join(f"{r[1]} {r[2]} {r[3]}\n" for r in records
                               if r[0] >= a.plan["level"])
                if want:
                    ctx.nontrivial = len(actors) > 1
                    ctx.probe("calls with output")
                if said != want:
                    return ctx.fail("log", f"{who}: {text} writes "
                                    f"{brief(said)} instead of {brief(want)}")
                if end != end0:
                    return ctx.fail("answer", f"{who}: {text} ends with "
                                    f"{end}, alone with {end0}")
            bad = grids.diff(final, a.kept)
            if bad:
                return ctx.fail("state", f"{who} differs from its solo run: "
                                + grids.short(bad))

    @staticmethod
    def inside(w, name, fn):
        os.mkdir(name)
        os.chdir(name)
        try:
            fn()
        finally:
            os.chdir(w.work)


class Talker(Actor):
    def __init__(self, M, w, k, plan, stream, spy, shared):
        super().__init__(M, w, k, plan, Inputs(M, False))
        self.stream, self.spy, self.shared = stream, spy, shared
        self.log = []
        self.random_changed = None

    def body(self, between=None):
        if self.shared is not None and self.plan["first"] is not None:
            self.reseed(self.plan["first"])
        for text, call, _ in self.calls():
            self.stream.take()
            self.spy.take()
            try:
                call()
                end = "ok"
            except Exception as e:
                end = type(e).__name__
            said = clean(self.stream.take())
            self.log.append((text, said, self.spy.take(), end))
            if self.shared is not None:
                if rng_state() != self.shared["state"] and \
                        not self.random_changed:
                    self.random_changed = (f"{self.plan['kind']} {self.k}: "
                                           f"{text} changed the caller's "
                                           "random numbers")
                    self.shared["state"] = rng_state()
            if between is not None:
                between(text)
        if self.shared is not None:
            self.kept = self.final()
            if self.plan["drop"]:
                self.obj = None
                gc.collect()
            self.stream.take()
            self.spy.take()

    def call(self, op):
        if op["op"] == "reseed":
            return lambda: self.reseed(op["to"])
        if op["op"] == "root":
            return lambda: (logging.root.setLevel(op["to"])
                            if self.shared is not None else None)
        if op["op"] == "say":       # a message of the object's own logger
            logger = getattr(self.obj, "logger", None)
            return lambda: (logger.log(op["level"], "said")
                            if isinstance(logger, logging.Logger) else None)
        if op["op"] == "badload":
            return lambda: self.badload(op["of"])
        return super().call(op)

    def badload(self, what):
        """Something that can not be loaded, for another object."""
        M, level = self.M, self.plan["level"]
        if what == "parameters":
            return M.GridParameters.GridParameters.load("nowhere")
        if what == "diagnostics":
            return M.GridDiagnostics.GridDiagnostics.load("nowhere")
        where = "nowhere"
        if what == "part":
            where = f"part{self.k}"
            os.makedirs(where, exist_ok=True)
            M.GridParameters.GridParameters(0, 1, 2, 0, 1, 2, 2, 2).save(where)
        return M.Shallot.ShallotGrid.load(where, level)

    def reseed(self, seed):
        if self.shared is not None:
            np.random.seed(seed)
            random.seed(seed)
            self.shared["state"] = rng_state()


def clean(text):
    """The output without timestamps and padding."""
    return "".join(HEAD.sub(lambda m: f"{m[1]} {m[2]} ", line)
                   for line in text.splitlines(True))


def brief(text):
    lines = [l for l in text.splitlines() if l.strip()]
    return f"{len(lines)} lines {lines[:2]}"[:300]


CHECK = C12()
