"""C13: the cube viewer always shows the slice it says it shows."""
import copy

import numpy as np

from sim import grids
from sim.engine import BaseCheck
from checks.c04 import apply

FAILURES = {"os": (OSError, "no display"), "memory": (MemoryError, "canvas"),
            "value": (ValueError, "singular matrix"),
            "interrupt": (KeyboardInterrupt,)}


def gen_viewer(rng):
    v = {"what": rng.choice(list(grids.MAPS) + ["gradient", "fit"]),
         "axis": rng.randrange(3), "m": rng.random() < 0.6,
         "how": rng.choice(["viewer", "viewer", "viewer", "frozen", "cube",
                            "slice"]),
         "index": rng.choice([None, 0.0, 0.5, 0.999]),
         "coords": None}
    if rng.random() < 0.7:
        v["coords"] = [[rng.choice([-1, 1, 1, 2]) * rng.randrange(8)
                        for _ in range(3)]
                       + [rng.choice([0, 0, 0, 0.1, -0.1, 0.25, 0.5, 0.6])]
                       for _ in range(rng.choice([0, 1, 2, 4]))]
    if rng.random() < 0.06:
        v["bad"] = rng.choice(["pair", "axis", "index", "tuple"])
    return v


class C13(BaseCheck):
    id = "C13"
    runs = {"quick": 5000, "thorough": 40000}
    rule = ("One evaluation = one seeded run: up to 4 viewers (scrollable, "
            "fixed, opened through plot_cube and plot_slice) of one grid's "
            "maps, gradients and fits; up to 40 scroll events and redraws in "
            "seeded order, some of whose drawings fail or are interrupted "
            "(the canvas' drawing, or setting the image or title before it); "
            "image, title and markers of every viewer are compared with the "
            "modelled slice at every drawing and after every event.")
    nontrivial_rule = "a drawing failed or was interrupted."
    stubs = BaseCheck.stubs + ["the canvas' drawing (checks what is to be "
                               "drawn, fails when told to)",
                               "plt.show (delivers the scroll events)"]
    assumptions = ["a coordinate lies on a slice when it is nearer than a "
                   "third of the grid step; distances between 0.3 and 0.36 "
                   "steps are not judged"]
    lists = ("ops", "viewers", "events")

    def gen(self, rng):
        state = {}
        ops = [grids.gen_eclipse(rng), grids.gen_add(rng),
               {"op": "fit", "w": True}]
        state["ecl"], state["n"] = True, len(ops[1]["t"])
        for _ in range(rng.choice([0, 2, 4])):
            ops.append(grids.gen_change(rng, state))
        viewers = [gen_viewer(rng) for _ in range(rng.choice([1, 1, 2, 4]))]
        events = []
        way = rng.choice([0.5, 0.5, 0.8, 0.2])
        for _ in range(rng.choice([5, 12, 40])):
            e = {"v": rng.randrange(len(viewers)),
                 "do": "up" if rng.random() < way else "down"}
            if rng.random() < 0.12:
                e["do"] = "redraw"
            k = rng.random()
            if k < 0.15:
                e["draw"] = rng.choice(list(FAILURES))
            elif k < 0.25:
                e["part"] = rng.choice(["set_data", "set_title"])
                e["with"] = rng.choice(list(FAILURES))
            events.append(e)
        return {"spec": grids.gen_spec(rng), "ops": ops, "viewers": viewers,
                "events": events}

    def simplify(self, plan):
        for i, e in enumerate(plan["events"]):
            if "draw" in e or "part" in e:
                p = dict(plan, events=list(plan["events"]))
                p["events"][i] = {"v": e["v"], "do": e["do"]}
                yield p

    def execute(self, plan, ctx):
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        from matplotlib.image import AxesImage
        w = ctx.new_world()
        M = w.start_process(1)
        grid = grids.build(M, plan["spec"], level=50)
        for op in plan["ops"]:
            apply(M, w, grid, op)
        before = grids.observe(grid)
        self.failing, self.views, self.part = [], [], []
        draw, show = FigureCanvasAgg.draw, plt.show
        parts = [(AxesImage, "set_data", AxesImage.set_data),
                 (Axes, "set_title", Axes.set_title)]

        def failing(name, real):
            def call(obj, *a, **k):
                if self.part and self.part[0][0] == name:
                    kind = self.part.pop()[1]
                    ctx.fault_stats[f"{name}-{kind}"] += 1
                    raise FAILURES[kind][0](*FAILURES[kind][1:])
                return real(obj, *a, **k)
            return call

        def drawing(canvas, *a, **k):
            for v in self.views:
                if v.ax is not None and v.ax.figure.canvas is canvas:
                    v.check(ctx, "when drawn")
            if self.failing:
                kind = self.failing.pop()
                ctx.fault_stats["draw-" + kind] += 1
                raise FAILURES[kind][0](*FAILURES[kind][1:])
        FigureCanvasAgg.draw = drawing
        for cls, name, real in parts:
            setattr(cls, name, failing(name, real))
        try:
            with plt.rc_context({"figure.figsize": (2, 2),
                                 "figure.dpi": 30}):
                self.run(plan, ctx, w, M, grid, plt)
        finally:
            FigureCanvasAgg.draw, plt.show = draw, show
            for cls, name, real in parts:
                setattr(cls, name, real)
            plt.close("all")
        if not ctx.violations:
            bad = grids.diff(before, grids.observe(grid))
            if bad:
                ctx.fail("changed", "viewing changed the grid: "
                         + grids.short(bad))

    def run(self, plan, ctx, w, M, grid, plt):
        opened = []
        for k, spec in enumerate(plan["viewers"]):
            events = [e for e in plan["events"]
                      if e["v"] % len(plan["viewers"]) == k]
            view = self.open(ctx, w, M, grid, spec, k, plt, events)
            if ctx.violations:
                return
            opened.append(view)
        for e in plan["events"]:
            view = opened[e["v"] % len(opened)] if opened else None
            if view is None or view.how == "cube":
                continue
            self.deliver(ctx, w, view, e)
            if not ctx.violations:
                for v in opened:
                    if v is not None and v.how != "cube":
                        v.check(ctx, f"after {e['do']} on viewer {view.k}")
            if ctx.violations:
                return

    def open(self, ctx, w, M, grid, spec, k, plt, events):
        p = getattr(grid, spec["what"], None)
        if spec["what"] == "gradient":
            p = (grid.gradients or [None])[-1]
        if spec["what"] == "fit":
            p = grid.gradient_fit
        if p is None:
            return None
        vectors = [np.array(v).ravel() for v in
                   p.grid_parameters.get_vectors()]
        axis = spec["axis"]
        n = len(vectors[axis])
        if n < 2:           # a viewer needs two slices along its axis
            return None
        index = spec["index"]
        at = n // 2 if index is None else int(index * n)
        coords = None
        if spec["coords"] is not None:
            coords = []
            for c in spec["coords"]:
                point = [float(v[i % len(v)]) for v, i in zip(vectors, c)]
                point[axis] += c[3] * abs(vectors[axis][1] - vectors[axis][0])
                if tuple(point) not in coords:
                    coords.append(tuple(point))
        view = View(k, p, spec, vectors, at, coords)
        bad = spec.get("bad")
        arg_axis = 3 if bad == "axis" else axis
        arg_index = n if bad == "index" else (None if index is None else at)
        arg_coords = coords
        if bad == "pair":
            arg_coords = [(0.5, 0.5)]
        if bad == "tuple":
            arg_coords = ((0.5, 0.5, 0.5),)
        Viewer = M.GridProperty.GridPropertyViewer
        how = spec["how"]
        if how == "cube":
            view.index = n // 2
            self.views.append(view)

            def showing(*a, **kw):
                view.ax = plt.gcf().axes[0]
                view.check(ctx, "when opened")
                for e in events:
                    if not ctx.violations:
                        self.deliver(ctx, w, view, e, inside=True)
                        view.check(ctx, "after " + e["do"])
            plt.show = showing
            if bad == "index":
                bad = None
            kind, value = w.run(lambda: p.plot_cube(
                arg_axis, arg_coords, spec["m"]), label=f"cube {k}")
        elif how == "slice":
            fig, ax = plt.subplots()
            view.coords, view.frozen = None, True
            if bad in ("pair", "tuple"):
                bad = None
            if arg_index is None:
                arg_index = at
            kind, value = w.run(lambda: p.plot_slice(
                arg_axis, arg_index, ax, spec["m"]), label=f"slice {k}")
            view.ax = ax
        else:
            fig, ax = plt.subplots()
            view.frozen = how == "frozen"
            kind, value = w.run(lambda: Viewer(
                ax, arg_axis, p, spec["m"], arg_index, view.frozen,
                arg_coords), label=f"viewer {k}")
            view.ax = ax
            if kind == "ok":
                view.viewer = value
                fig.canvas.mpl_connect("scroll_event", value.onscroll)
        if bad:
            if kind == "ok":
                ctx.fail("accepted", f"a viewer with bad {bad}")
            return None
        if kind != "ok":
            ctx.fail("refused", f"viewer {k} {spec}: {value!r}")
            return None
        ctx.probe("opened " + how)
        if how != "cube":
            self.views.append(view)
            view.check(ctx, "when opened")
        return view

    def deliver(self, ctx, w, view, e, inside=False):
        """Deliver one event, possibly with a failure."""
        old = view.index
        step = {"up": 1, "down": -1, "redraw": 0}[e["do"]]
        if not view.frozen:
            view.index = min(max(old + step, 0), view.n - 1)
        if e["do"] == "redraw":
            if view.viewer is None:
                return
            call = view.viewer.update
        else:
            event = grids._scroll_event(view.ax.figure, e["do"])
            call = lambda: view.ax.figure.canvas.callbacks.process(
                "scroll_event", event)
        self.failing = [e["draw"]] if "draw" in e else []
        label = f"  {view.k}: {e['do']}"
        if inside:                  # already within a call of the world
            try:
                call()
                kind, value = "ok", None
            except KeyboardInterrupt as err:
                kind, value = "interrupt", err
            except Exception as err:
                kind, value = "error", err
            w.trace.append(label + " " + kind)
            fired = False
        else:
            self.part = [(e["part"], e["with"])] if "part" in e else []
            kind, value = w.run(call, label=label)
            fired = "part" in e and not self.part
            self.part = []
        drawn = not self.failing
        failed = "draw" in e and drawn
        self.failing = []
        if fired:
            ctx.nontrivial = True
            ctx.probe("part of a redraw failed")
            # a redraw brings everything in line with one of the two slices
            shown = [i for i in (view.index, old)
                     if view.viewer.index == i]
            if not shown:
                return ctx.fail("index", f"viewer {view.k} is at "
                                f"{view.viewer.index}, not {view.index}")
            view.index = shown[0]
            kind, value = w.run(view.viewer.update, label="  redraw")
            if kind != "ok":
                ctx.fail("refused", f"a redraw after a failed one: "
                         f"{value!r}")
            return
        if failed:
            ctx.nontrivial = True
            ctx.probe("drawing failed")
            return
        if kind != "ok":
            ctx.fail("refused", f"{e['do']} on viewer {view.k}: {value!r}")
        ctx.probe(e["do"] + (" frozen" if view.frozen else ""))


class View:
    """A viewer and the model of what it has to show."""

    def __init__(self, k, prop, spec, vectors, index, coords):
        self.k, self.spec, self.how = k, spec, spec["how"]
        self.axis = spec["axis"]
        self.vectors = vectors
        self.values = vectors[self.axis]
        self.n = len(self.values)
        self.index, self.coords = index, coords
        with grids.quiet():
            p = copy.deepcopy(prop)
            self.data = np.array(p.get_data(spec["m"]))
        self.name = p.name.get_name()
        self.frozen = False
        self.ax = self.viewer = None

    def check(self, ctx, when):
        if ctx.violations or self.ax is None or not self.ax.images:
            return
        who = f"viewer {self.k} ({self.how}, axis {self.axis}) {when}"
        shown = self.ax.images[0].get_array()
        shown = np.ma.filled(np.ma.asarray(shown, float), np.nan)
        want = np.take(self.data, self.index, self.axis)
        if not grids.same(shown, want):
            at = [i for i in range(self.n) if grids.same(
                shown, np.take(self.data, i, self.axis))]
            return ctx.fail("image", f"{who} shows slice {at} instead of "
                            f"{self.index}")
        title = self.ax.get_title()
        value = f"= {self.values[self.index]:.4f}"
        word = ""
        if self.axis == 2:
            middle = self.n // 2
            word = ("horizontal" if self.index < middle else
                    "vertical" if self.index > middle else "")
        if value not in title or self.name not in title or any(
                (x in title) != (x == word) for x in ("horizontal",
                                                      "vertical")):
            return ctx.fail("title", f"{who} is at slice {self.index} "
                            f"({value} {word}) but says {title!r}")
        if self.viewer is not None and when != "when drawn" and \
                value not in repr(self.viewer) + str(self.viewer):
            return ctx.fail("title", f"{who} is at slice {self.index} "
                            f"({value}) but prints {self.viewer!r}")
        must, may = [], []
        step = abs(self.values[1] - self.values[0])
        for c in self.coords or []:
            far = abs(self.values[self.index] - c[self.axis]) / step
            rest = [v for i, v in enumerate(c) if i != self.axis]
            if far < 0.3:
                must.append((rest[1], rest[0]))
            elif far < 0.36:
                may.append((rest[1], rest[0]))
        have = [(float(x), float(y)) for line in self.ax.lines
                for x, y in zip(*line.get_data())]
        have += [(float(x), float(y)) for c in self.ax.collections
                 for x, y in c.get_offsets()]
        for one in must:
            hits = [h for h in have if np.allclose(h, one, rtol=0,
                                                   atol=1e-9)]
            if not hits:
                return ctx.fail("markers", f"{who}: {one} is not marked on "
                                f"slice {self.index}")
            have.remove(hits[0])
        have = [h for h in have if not any(np.allclose(h, one) for one in
                                           may)]
        if have:
            return ctx.fail("markers", f"{who}: {have} marked on slice "
                            f"{self.index} without a reason")
        if must:
            ctx.probes["markers seen"] += 1


CHECK = C13()
