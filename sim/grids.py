"""Grids under test: specifications, operations and observation."""
import copy
import io
import logging
import os
import threading

import numpy as np

MAPS = ("disk_radius", "inclination", "tilt", "fx_map", "fy_map",
        "diagnostic_map")
TEMP = ".temp_shallot"


# ----------------------------------------------------------------- building
def gen_spec(rng, rows=None, diag=None, extendable=None):
    if extendable is None:
        extendable = rng.random() < 0.65
    num_x = rng.choice([3, 3, 4])
    if rows is None and rng.random() < 0.1:
        num_x = 2       # not with rows: load() builds a 2x2 grid, which C02
                        # could not tell from rows of two points
    num_y = rows or rng.choice([2, 3, 3, 4])
    max_x = rng.choice([1.5, 2, 2.25, 3])
    max_y = rng.choice([1.5, 2, 2.75, 3])
    min_x = min_y = 0
    if not extendable:
        min_x, min_y = rng.choice([(0, 0.5), (0.25, 0), (0.5, 0.5), (-1, 0),
                                   (0, -1), (-1.5, 0.25), (0.1, -0.5)])
    max_rf, num_rf = rng.choice([1.5, 2, 3]), rng.choice([2, 2, 2, 3, 3, 5])
    n = rng.choice([25, 40, 60])
    if rng.random() < 0.04:              # does not fit in one byte
        n = 300
    k = rng.random()
    if rows is None and k < 0.05:        # two-digit numbers of rows, columns
        num_y, num_rf, n = rng.choice([10, 11, 12]), 2, 25
    elif rows is None and k < 0.08:
        num_x, num_y, num_rf, n = 11, 3, 2, 25
    elif k < 0.14:                       # one radius factor only
        max_rf, num_rf = rng.choice([(1, 1), (2, 1)])
    elif rows is None and k < 0.17 and not extendable:   # one row or column
        min_x, min_y = 0.5, 0.5
        num_x, num_y = rng.choice([(1, 2), (3, 1), (1, 3), (4, 1)])
    if rng.random() < 0.05:              # coarse interpolation
        n = rng.choice([1, 2, 5, 10])
    if num_rf > 1 and rng.random() < 0.04:
        max_rf = rng.choice([1.01, 5, 12])
    elif extendable and rng.random() < 0.1:     # narrow and wide grids
        max_x = rng.choice([0.5, 0.7, 5, 20, 100])
        max_y = rng.choice([0.5, 0.7, max_y, 5, 20, 100])
    if rng.random() < 0.08:              # all the digits
        max_x, max_y = max_x + rng.random() / 3, max_y + rng.random() / 7
        if not extendable:
            min_x, min_y = min_x + rng.random() / 5, min_y - rng.random() / 9
    return {"p": [min_x, max_x, num_x, min_y, max_y, num_y, max_rf, num_rf],
            "n": n, "diag": rng.random() < 0.5 if diag is None else diag}


def parameters(M, spec):
    return M.GridParameters.GridParameters(*spec["p"])


def build(M, spec, intermittent=False, level=logging.ERROR):
    return M.Shallot.ShallotGrid(
        parameters(M, spec), spec["n"], logging_level=level,
        keep_diagnostics=spec["diag"], intermittent_saving=intermittent)


# -------------------------------------------------------------- observation
class quiet:
    """Log records created while looking are not part of the run, and no
    other thread runs meanwhile (logging is switched off for all of them)."""
    held = threading.local()

    def __enter__(self):
        self.held.on = True
        logging.disable(logging.CRITICAL)

    def __exit__(self, *a):
        logging.disable(logging.NOTSET)
        self.held.on = False


class Seen(dict):
    """Observations; arrays are copied when seen, as looking further must
    not be able to change what has been seen."""

    def __setitem__(self, key, value):
        if isinstance(value, np.ndarray):
            value = value.copy()
        dict.__setitem__(self, key, value)


def ask(fn):
    """The answer of fn, or the kind of its failure."""
    try:
        return fn()
    except Exception as e:
        return f"<{type(e).__name__}>"


def _property(out, key, p, colours=True):
    if p is None:
        out[key] = None
        return
    out[key + ".name"] = str(p.name.name)
    out[key + ".unit"] = str(p.unit.name)
    out[key + ".all"] = ask(lambda: p.get_data(False))
    out[key + ".shown"] = ask(lambda: p.get_data(True))
    out[key + ".mask"] = None if p.mask is None else np.array(p.mask)
    out[key + ".shape"] = p.grid_parameters.grid_shape
    if colours:
        out[key + ".colours"] = (p.vmin, p.vmax, p.color_map, p.num_colors)
        out[key + ".repr"] = ask(lambda: repr(p))


def _gradient(out, key, g, colours=True):
    _property(out, key, g, colours)
    for name in ("position", "measured_gradient", "measured_error",
                 "orbital_scale", "transmission_change"):
        out[f"{key}.{name}"] = getattr(g, name)
    out[key + ".scaled"] = ask(g.get_scaled_gradient)


def _parameters(out, key, p):
    dy, dx, rf = p.get_vectors()
    out[key + ".dy"], out[key + ".dx"], out[key + ".rf_array"] = dy, dx, rf
    out[key + ".rf"] = p.rf
    out[key + ".grid_shape"] = tuple(int(n) for n in p.grid_shape)
    out[key + ".slice_shape"] = tuple(int(n) for n in p.slice_shape)
    out[key + ".extendable"] = bool(p.extendable)
    out[key + ".repr"] = ask(lambda: repr(p))


def records(d, shape):
    """Every kept interpolation record, by asked-for grid point."""
    out = {}
    for y in range(shape[0] + 1):
        for x in range(shape[1] + 1):
            r = ask(lambda: d.get_diagnostic(y, x))
            out[y, x] = r
    return out


def _diagnostics(out, key, d, shape):
    if d is None:
        out[key] = None
        return
    for (y, x), r in records(d, shape).items():
        if isinstance(r, str):
            out[f"{key}[{y},{x}]"] = r
        else:
            out[f"{key}[{y},{x}].fy"] = np.array(r[0])
            out[f"{key}[{y},{x}].disk_radius"] = np.array(r[1])
    out[key + ".repr"] = ask(lambda: repr(d))

    def record():
        copy.deepcopy(d).save_diagnostic(0, 0, np.ones(2), np.ones(2))
    out[key + ".recording"] = str(ask(record))


def observe(grid, colours=True, deep=True):
    """Everything the grid can be asked for (asked of a copy)."""
    out = Seen()
    with quiet():
        g = copy.deepcopy(grid)
        _parameters(out, "parameters", g.parameters)
        out["num_fxfy"] = int(g.num_fxfy)
        for name in MAPS:
            _property(out, name, getattr(g, name), colours)
            get = getattr(g, "get_" + name)
            for m in (False, True):
                for p in (False, True):
                    out[f"get_{name}({m},{p})"] = ask(lambda: get(m, p))
        out["combined"] = ask(g.get_combined_mask)
        out["gradients"] = (None if g.gradients is None
                            else len(g.gradients))
        for i, gradient in enumerate(g.gradients or []):
            _gradient(out, f"gradient[{i}]", gradient, colours)
        if g.gradients is not None:
            for m in (False, True):
                for p in (False, True):
                    r = ask(lambda: g.get_gradients(m, p))
                    names = ("positions", "scaled", "errors", "data")
                    if isinstance(r, str):
                        r = [r] * 4
                    for n, v in zip(names, r):
                        out[f"get_gradients({m},{p}).{n}"] = v
        _property(out, "fit", g.gradient_fit, colours)
        for m in (False, True):
            for p in (False, True):
                out[f"get_fit({m},{p})"] = ask(lambda:
                                               g.get_gradient_fit(m, p))
        shape = g.parameters.slice_shape
        _diagnostics(out, "diagnostics", g.diagnostics, shape)
        if colours:
            out["repr"] = ask(lambda: repr(g))
        if deep:
            _eclipse(out, g)
    return out


def _eclipse(out, g):
    """The eclipse parameters, seen through what they do (on a copy)."""
    def probe():
        before = 0 if g.gradients is None else len(g.gradients)
        tiny = 2.0**-60         # never too steep, whatever the scaling
        g.add_gradients(np.array([1.0]), np.array([tiny]))
        n = 0 if g.gradients is None else len(g.gradients)
        if n == before:
            return "not set"
        new = g.gradients[-1]
        got = [new.position, new.get_scaled_gradient() / tiny]
        g.gradients = [new]
        h = copy.deepcopy(g)
        g.update_gradient_scaling(transverse_velocity=1.0)
        got.append(g.gradients[0].get_scaled_gradient() / tiny)
        h.update_gradient_scaling(limb_darkening=0.5)
        got.append(h.gradients[0].get_scaled_gradient() / tiny)
        return np.array(got, dtype=float)
    out["eclipse parameters"] = ask(probe)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    try:
        return bool(a == b)
    except Exception:
        return False


def diff(a, b, skip=()):
    """Names of observations that differ."""
    keys = list(a) + [k for k in b if k not in a]
    return [k for k in keys if not any(s in k for s in skip)
            and not (k in a and k in b and same(a[k], b[k]))]


def short(names, n=4):
    return ", ".join(names[:n]) + (f" (+{len(names) - n})"
                                   if len(names) > n else "")


# ------------------------------------------------------------ single objects
def observe_property(p):
    out = Seen()
    with quiet():
        p = copy.deepcopy(p)
        _property(out, "property", p, False)
        _parameters(out, "parameters", p.grid_parameters)
    return out


def observe_gradient(g):
    out = Seen()
    with quiet():
        g = copy.deepcopy(g)
        _gradient(out, "gradient", g, False)
        _parameters(out, "parameters", g.grid_parameters)
    return out


def observe_parameters(p):
    out = Seen()
    _parameters(out, "parameters", copy.deepcopy(p))
    return out


def observe_diagnostics(d, shape):
    out = Seen()
    _diagnostics(out, "diagnostics", copy.deepcopy(d), shape)
    return out


# ---------------------------------------------------------------- operations
def _r(rng, a, b, nd=3):
    v = rng.uniform(a, b)
    return v if rng.random() < 0.25 else round(v, nd)


def gen_eclipse(rng):
    return {"op": "eclipse",
            "D": rng.choice([1.0, 4.0, 20.0, 54.5, 1 + 9 * rng.random()]),
            "v": rng.choice([2.0, 3.5, 10.0, 20.0, 2 + 9 * rng.random()]),
            "u": rng.choice([0.0, 0.3, 0.8, 0.8, 1.0, rng.random()])}


def gen_add(rng, n=None):
    n = n if n is not None else rng.choice([1, 1, 2, 3, 4])
    t = []
    for _ in range(n):
        base = rng.choice([0.0, 0.1, -0.3, 0.7, _r(rng, -2, 2), 12.5, -9.0])
        if t and rng.random() < 0.35:       # close or equal positions
            base = rng.choice(t) + rng.choice([0.0, 1e-5, -1e-5, 1e-9])
        t.append(base)
    return {"op": "add", "t": t,
            "g": [_r(rng, 0, rng.choice([0, 0.1, 0.1, 0.1, 0.6, 0.6, 0.6,
                                         1.2, 1.2])) for _ in t],
            "e": [_r(rng, 0.01, 0.5) for _ in t] if rng.random() < .5
            else None,
            "c": [_r(rng, 0.35, 1) for _ in t] if rng.random() < .5
            else None}


def gen_change(rng, state):
    """One modifying operation; state["n"]: likely number of gradients."""
    n = state.get("n", 0)
    k = rng.random()
    if not state.get("ecl") and k < 0.5:
        state["ecl"] = True
        return gen_eclipse(rng)
    if k < 0.34 or (n == 0 and k < 0.5):
        op = gen_add(rng)
        if state.get("ecl"):
            state["n"] = n + len(op["t"])
        return op
    if k < 0.46 and n:
        i = [rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3]))]
        state["n"] = n - len(set(i))
        return {"op": "remove", "i": i}
    if k < 0.60:
        op = {"op": "rescale", "v": None, "u": None, "c": None}
        what = rng.choice(["v", "u", "c", "vu", "vc", "vuc", ""])
        if "v" in what:
            op["v"] = rng.choice([1.0, 2.5, 8.0, 15.0, 30.0])
        if "u" in what:
            op["u"] = rng.choice([0.0, 0.2, 0.5, 0.9])
        if "c" in what:
            op["c"] = [_r(rng, 0.3, 1) for _ in range(3)]
        return op
    if k < 0.68:
        return {"op": "hill", "h": rng.choice([0.0, 0.6, 1.0, 1.7, 2.5, 50])}
    if k < 0.78:
        return {"op": "mask", "name": rng.choice(
            ["disk_radius", "inclination", "tilt"] * 3
            + ["fx_map", "fy_map", "diagnostic_map"]),
            "seed": rng.randrange(1000), "p": rng.choice([0, .2, .5, 1])}
    if k < 0.93:
        return {"op": "fit", "w": rng.random() < 0.6}
    state["n"] = 0
    return gen_eclipse(rng)


def gen_invalid(rng, state):
    """An operation that must be rejected (whatever the state)."""
    n = state.get("n", 0)
    return rng.choice([
        {"op": "eclipse", "D": -1.0, "v": 2.0, "u": 0.5},
        {"op": "eclipse", "D": 5.0, "v": -2.0, "u": 0.5},
        {"op": "eclipse", "D": 5.0, "v": 2.5, "u": 1.5},
        {"op": "eclipse", "D": 5.0, "v": 2.5, "u": "x"},
        {"op": "eclipse", "D": "x", "v": 2.5, "u": 0.1},
        {"op": "add", "t": [0.1, 0.2], "g": [0.1], "e": None, "c": None},
        {"op": "add", "t": [0.1, 0.2], "g": [0.1, -0.1], "e": None,
         "c": None},
        {"op": "add", "t": [0.1, 0.2], "g": [0.1, 0.2], "e": [0.1],
         "c": None},
        {"op": "add", "t": [0.1, 0.2], "g": [0.1, 0.2], "e": [0.1, -0.1],
         "c": None},
        {"op": "add", "t": [0.1, 0.2], "g": [0.1, 0.2], "e": None,
         "c": [0.5, 1.5]},
        {"op": "add", "t": [0.1, 0.2], "g": [0.1, 0.2], "e": None,
         "c": [0.5]},
        {"op": "add", "t": [0.1, 0.2], "g": [0.01, 0.02], "e": None,
         "c": [0.5, 0.0]},
        {"op": "add", "t": [0.3, 0.2, 0.6], "g": [0.01, 0.02, 5e4],
         "e": None, "c": None},
        {"op": "add", "t": [[0.3, 0.2]], "g": [[0.01, 0.02]], "e": None,
         "c": None},
        {"op": "remove", "i": [0, n + 3]},
        {"op": "remove", "i": [-1]},
        {"op": "remove", "i": [0, n]},
        {"op": "rescale", "v": -1.0, "u": None, "c": None},
        {"op": "rescale", "v": 3.0, "u": 1.01, "c": None},
        {"op": "rescale", "v": 3.0, "u": None, "c": [0.5], "extra": 1},
        {"op": "rescale", "v": None, "u": 0.4, "c": [0.5, 0.9], "extra": -1},
        {"op": "rescale", "v": 3.0, "u": None, "c": [0.9, -0.5]},
        {"op": "rescale", "v": None, "u": None, "c": [0.9, 1.5]},
        {"op": "rescale", "v": 1e-6, "u": None, "c": None},
        {"op": "rescale", "v": None, "u": 0.6, "c": [1.0, 1e-7]},
        {"op": "hill", "h": -0.5},
        {"op": "hill", "h": "big"},
        {"op": "mask", "name": "tilt", "bad": "shape"},
        {"op": "mask", "name": "disk_radius", "bad": "text"},
        {"op": "fit", "w": True, "broken": True},
    ])


def gen_read(rng):
    m, p = rng.random() < 0.6, rng.random() < 0.6
    k = rng.randrange(14)
    if k == 13:
        return {"op": "small", "what": rng.choice(
            ["record", "vectors", "sorted", "scaled", "extent"]),
            "y": rng.randrange(4), "x": rng.randrange(4)}
    if k <= 1:
        return {"op": "get", "name": rng.choice(MAPS), "m": m, "p": p}
    if k == 2:
        return {"op": "gradients", "m": m, "p": p}
    if k == 3:
        return {"op": "getfit", "m": m, "p": p}
    if k == 4:
        return {"op": "combined"}
    if k <= 6:
        return {"op": "extract", "k": rng.choice([0, 1, 2, 5, None, 10**6])}
    if k == 7:
        return gen_nearest(rng)
    if k == 8:
        return gen_point(rng)
    if k == 9:
        return {"op": "repr", "what": rng.choice(["grid", "str", "tilt",
                                                  "gradient"])}
    if k == 10:
        return {"op": "slice", "name": rng.choice(MAPS),
                "axis": rng.choice([0, 1, 2, 2, 3]),
                "u": rng.choice([0.0, 0.5, 0.99, 1.2]), "m": m}
    if k == 11:
        return {"op": "cube", "name": rng.choice(MAPS),
                "axis": rng.choice([0, 1, 2]), "m": m,
                "scroll": [rng.choice(["up", "down"]) for _ in range(3)]}
    return {"op": "save", "where": rng.choice(["grid", "property",
                                               "gradient", "parameters"])}


def gen_point(rng):
    return {"op": "point", "y": rng.random(), "x": rng.random(),
            "r": rng.random(), "m": rng.random() < 0.7,
            "bad": rng.random() < 0.1}


def gen_nearest(rng):
    op = {"op": "nearest", "R": _r(rng, 0.3, 4), "i": _r(rng, 0, 90),
          "t": _r(rng, -10, 180), "b": rng.choice(
              [0.0, _r(rng, -2, 2), _r(rng, -2, 2), 0.5, 1.0]),
          "m": rng.random() < 0.7}
    if rng.random() < 0.3:              # far from every grid point
        op[rng.choice("Rtb")] = rng.choice([150.0, 170.0, 10 * rng.random()])
        op["t"] *= rng.choice([1, -1])
        op["b"] *= rng.choice([1, -1, -1, 1e-7])
        op["R"] *= rng.choice([1, 1, 30, 1e3])
    return op


def byhand_args(op, data):
    """The arguments; "tie" stands for the value of some grid point."""
    args = list(op["args"])
    if args[0] == "tie":
        known = np.sort(data[~np.isnan(data)].ravel())
        args[0] = float(known[int(op["u"] * 7919) % len(known)]) \
            if len(known) else 0.1
    return args


class Fresh:
    """Makes new input objects for every call."""

    def array(self, v):
        return None if v is None else np.array(v, dtype=float)

    def indices(self, v):
        return np.array(v)

    def mask(self, op, shape):
        return make_mask(op, shape)


def make(M, world, grid, op, inputs=Fresh()):
    """The call that op stands for, as a function without arguments."""
    k = op["op"]
    _arr = inputs.array
    if k == "eclipse":
        return lambda: grid.set_eclipse_parameters(op["D"], op["v"], op["u"])
    if k == "add":
        return lambda: grid.add_gradients(_arr(op["t"]), _arr(op["g"]),
                                          _arr(op["e"]), _arr(op["c"]))
    if k == "remove":
        return lambda: grid.remove_gradients(inputs.indices(op["i"]))
    if k == "rescale":
        c = op["c"]
        if c is not None:
            n = 0 if grid.gradients is None else len(grid.gradients)
            n += op.get("extra", 0)
            c = _arr([c[(j - n) % len(c)] for j in range(max(n, 0))])
        return lambda: grid.update_gradient_scaling(op["v"], op["u"], c)
    if k == "hill":
        return lambda: grid.generate_hill_radius_mask(op["h"])
    if k == "mask":
        mask = inputs.mask(op, grid.parameters.grid_shape)
        return lambda: getattr(grid, op["name"]).set_mask(mask)
    if k == "byhand":            # one gradient's own mask
        gs = grid.gradients
        g = gs[int(op["u"] * len(gs))] if gs else None
        args = op["args"] if g is None else \
            byhand_args(op, g.get_data(False))
        return lambda: g.determine_mask(*args)
    if k == "fit":
        if op.get("broken"):     # one gradient has an impossible scaling
            return lambda: _broken_fit(grid)
        return lambda: grid.determine_gradient_fit(op["w"])
    if k == "get":
        return lambda: getattr(grid, "get_" + op["name"])(op["m"], op["p"])
    if k == "gradients":
        return lambda: grid.get_gradients(op["m"], op["p"])
    if k == "getfit":
        return lambda: grid.get_gradient_fit(op["m"], op["p"])
    if k == "combined":
        return lambda: grid.get_combined_mask()
    if k == "extract":
        return lambda: grid.extract_solutions(op["k"])
    if k == "nearest":
        return lambda: grid.determine_closest_grid_point(
            op["R"], op["i"], op["t"], op["b"], op["m"])
    if k == "point":
        ny, nx, nr = grid.parameters.grid_shape
        y, x, r = int(op["y"] * ny), int(op["x"] * nx), int(op["r"] * nr)
        if op["bad"]:
            x = nx + 3
        return lambda: grid.get_grid_point_data(y, x, r, op["m"])
    if k == "repr":
        if op["what"] == "grid":
            return lambda: repr(grid)
        if op["what"] == "str":
            return lambda: str(grid)
        if op["what"] == "tilt":
            return lambda: str(grid.tilt)
        return lambda: str((grid.gradients or [None])[-1])
    if k == "small":
        return lambda: _small(grid, op)
    if k == "slice":
        def plot_slice():
            import matplotlib.figure
            from matplotlib.backends.backend_agg import FigureCanvasAgg
            fig = matplotlib.figure.Figure(figsize=(2, 2), dpi=30)
            FigureCanvasAgg(fig).draw = lambda *a, **k: None
            ax = fig.add_subplot()
            p = getattr(grid, op["name"])
            axis = op["axis"]
            n = p.grid_parameters.grid_shape[min(axis, 2)]
            p.plot_slice(axis, int(op["u"] * n), ax, op["m"])
        return plot_slice
    if k == "cube":
        return lambda: view_cube(M, grid, op)
    if k == "save":
        return lambda: _save(M, world, grid, op)
    raise ValueError(k)


def _small(grid, op):
    what = op["what"]
    if what == "record":
        return grid.diagnostics.get_diagnostic(op["y"], op["x"])
    if what == "vectors":
        return grid.parameters.get_vectors()
    if what == "sorted":
        return [g.position for g in sorted(grid.gradients)]
    if what == "scaled":
        return [g.get_scaled_gradient() for g in grid.gradients]
    return [g.get_data(True) for g in grid.gradients]


def _broken_fit(grid):
    """determine_gradient_fit with a gradient that can not be scaled."""
    if not grid.gradients:
        raise ValueError("nothing to fit")
    g = grid.gradients[-1]
    if not g.measured_gradient * g.orbital_scale / 1e-12 > 1:
        raise ValueError("can not be broken")
    kept = g.transmission_change
    g.transmission_change = 1e-12
    try:
        grid.determine_gradient_fit(True)
    finally:
        # of the gradient the list holds now
        grid.gradients[-1].transmission_change = kept


def make_mask(op, shape):
    if op.get("bad") == "shape":
        return np.ones((shape[0] + 1, shape[1], shape[2]), bool)
    if op.get("bad") == "text":
        return "mask"
    rs = np.random.RandomState(op["seed"])
    return rs.random_sample(shape) < op["p"]


class Event:
    def __init__(self, button):
        self.button = button


def view_cube(M, grid, op):
    import matplotlib.pyplot as plt
    show = plt.show
    draw = plt.FigureCanvasBase.draw if hasattr(plt, "FigureCanvasBase") \
        else None

    def showing(*a, **k):
        fig = plt.gcf()
        fig.canvas.draw = lambda *a, **k: None
        for button in op["scroll"]:
            ev = _scroll_event(fig, button)
            fig.canvas.callbacks.process("scroll_event", ev)
    plt.show = showing
    try:
        with plt.rc_context({"figure.figsize": (2, 2), "figure.dpi": 30}):
            p = getattr(grid, op["name"])
            p.plot_cube(op["axis"], None, op["m"])
    finally:
        plt.show = show
        plt.close("all")


def _scroll_event(fig, button):
    from matplotlib.backend_bases import MouseEvent
    return MouseEvent("scroll_event", fig.canvas, 5, 5, button,
                      step=1 if button == "up" else -1)


def _save(M, world, grid, op):
    where = op.get("to") or f"read-save-{len(os.listdir('.'))}"
    if op["where"] == "grid":
        grid.save(where)
    elif op["where"] == "property":
        grid.tilt.save(where)
    elif op["where"] == "gradient":
        if grid.gradients:
            os.mkdir(where)
            grid.gradients[-1].save_gradient(where)
    else:
        grid.parameters.save(where)


def freeze(value):
    """A comparable copy of an answer."""
    if isinstance(value, np.ndarray):
        return value.copy()
    if isinstance(value, (tuple, list)):
        return tuple(freeze(v) for v in value)
    return value


def brief(op):
    parts = []
    for k, v in op.items():
        if k in ("op", "fault") or v is None:
            continue
        parts.append(f"{k}={v}")
    return op["op"] + "(" + ", ".join(parts) + ")"


def fault_brief(f):
    return " ".join(f"{k}={f[k]}" for k in sorted(f) if k != "done")
