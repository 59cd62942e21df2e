"""C09: solution lookups answer for the current state of the grid."""
import numpy as np

from sim import grids
from sim.engine import BaseCheck
from sim.model import Model, close
from checks.c08 import Session, gen_session

READS = ("extract", "nearest", "point")


def gen_lookup(rng):
    k = rng.random()
    if k < 0.45:
        op = {"op": "extract", "k": rng.choice([None, None, 0, 1, 2, 3, 5,
                                                8, -1, 10**6, "most"])}
    elif k < 0.75:
        op = grids.gen_nearest(rng)
        if rng.random() < 0.5:     # ask for what is stored somewhere
            op["like"] = [rng.random() for _ in range(3)]
        if rng.random() < 0.08:
            op["R"] = -1.0
    else:
        op = grids.gen_point(rng)
    return op


class C09(BaseCheck):
    id = "C09"
    runs = {"quick": 3000, "thorough": 12000}
    rule = ("One evaluation = one seeded run: a session of 5-25 operations on "
            "one grid (changes valid, invalid, interrupted and under failing "
            "allocations, restarts, unrelated reads) with solution "
            "extractions, point and nearest-point lookups in between; every "
            "answer is compared with the reference model of the history.")
    nontrivial_rule = ("an operation was stopped by a fault, the grid went "
                       "through a restart, or a lookup was answered under at "
                       "least one mask.")
    lists = ("ops",)

    def gen(self, rng):
        state = {}
        ops, asked = [], []
        for _ in range(rng.choice([2, 4, 6, 8])):
            ops += gen_session(rng, state, rng.choice([1, 2, 4]), 0.1)
            if rng.random() < 0.5:
                ops.append({"op": "fit", "w": rng.random() < 0.6})
            for _ in range(rng.choice([1, 2, 3])):
                again = asked and rng.random() < 0.4
                asked.append(rng.choice(asked) if again else gen_lookup(rng))
                ops.append(dict(asked[-1]))
        return {"spec": grids.gen_spec(rng), "listing": rng.randrange(10**6),
                "ops": ops}

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            if "fault" in op:
                p = dict(plan)
                p["ops"] = list(plan["ops"])
                p["ops"][i] = {k: v for k, v in op.items() if k != "fault"}
                yield p
        if plan["spec"]["diag"]:
            yield dict(plan, spec=dict(plan["spec"], diag=False))

    def execute(self, plan, ctx):
        s = Session(ctx, plan)
        for op in plan["ops"]:
            if op["op"] == "restart":
                good = s.restart(op)
            elif hasattr(Model, "_" + op["op"]):
                good = s.change(op)
            elif op["op"] in READS:
                getattr(self, op["op"])(s, op)
                good = not ctx.violations
            else:
                s.w.run(grids.make(s.w.mod, s.w, s.grid, op),
                        label=grids.brief(op))
                good = True
            if not good:
                return

    def ask(self, s, op):
        return s.w.run(grids.make(s.w.mod, s.w, s.grid, op),
                       label=grids.brief(op))

    # ------------------------------------------------------------ extraction
    def extract(self, s, op):
        m = s.model
        total, sure = m.combined()
        if not sure.all():
            return
        op = dict(op)
        free = int(np.sum(~total))
        if op["k"] == "most":
            op["k"] = max(free - 1, 0)
        kind, value = self.ask(s, op)
        fit = s.grid.gradient_fit
        if fit is None or m.grads is None:
            s.ctx.probe("extract without a fit")
            return
        if op["k"] is not None and not 0 <= op["k"] <= free:
            if kind == "ok":
                s.fail("accepted", f"{grids.brief(op)} with {free} unmasked "
                       "points should be rejected")
            return
        n = free if op["k"] is None else op["k"]
        # which of the two fits it is was settled by C08's comparison
        want = None
        for weighted in ([m.fit] if m.fit is not None else [True, False]):
            data = m.fit_data(weighted)
            if close(fit.get_data(False), data):
                want = data
        if want is None:
            return s.fail("fit", "the gradient fit is not that of the "
                          "current gradients")
        open_ = ~total
        if np.isnan(want[open_]).any():
            # an undefined disk that nothing masks (no gradients left)
            s.ctx.probe("extract with undefined unmasked points")
            return
        if total.any():
            s.ctx.nontrivial = True
            s.ctx.probe("extract under masks")
        if kind != "ok":
            return s.fail("refused", f"{grids.brief(op)} with {free} "
                          f"unmasked points: {value!r}")
        value = [np.asarray(v) for v in value]
        if any(v.shape != (n,) for v in value):
            return s.fail("count", f"{[v.shape for v in value]} solutions "
                          f"instead of {n}")
        rms = value[0]
        if not close(np.sort(want[open_])[:n], rms):
            return s.fail("ranking", f"the {n} best fits are "
                          f"{np.sort(want[open_])[:n][:6]}, not {rms[:6]}")
        left = [tuple(i) for i in np.argwhere(open_)]
        for k in range(n):
            for y, x, r in left:
                point = [want[y, x, r], m.maps["disk_radius"][y, x, r],
                         m.maps["inclination"][y, x, r],
                         m.maps["tilt"][y, x, r],
                         m.dx.ravel()[x], m.dy.ravel()[y]]
                if close([v[k] for v in value], point):
                    left.remove((y, x, r))
                    break
            else:
                return s.fail("solution", f"solution {k} "
                              f"{[float(v[k]) for v in value]} is no unmasked"
                              " grid point, or one that was listed before")
        s.ctx.probe("extracted %d" % min(n, 3))

    # ----------------------------------------------------------------- point
    def point(self, s, op):
        m = s.model
        kind, value = self.ask(s, op)
        if op["bad"]:
            if kind == "ok":
                s.fail("accepted", f"{grids.brief(op)}: index outside")
            return
        if kind != "ok":
            return s.fail("refused", f"{grids.brief(op)}: {value!r}")
        ny, nx, nr = m.shape
        at = (int(op["y"] * ny), int(op["x"] * nx), int(op["r"] * nr))
        total, sure = m.combined()
        hidden = bool(total[at])
        (R, i, t, dx, dy), (rf, fx, fy, d), (pos, grads) = value
        if not close([dx, dy, rf], [m.dx.ravel()[at[1]], m.dy.ravel()[at[0]],
                                    m.rf.ravel()[at[2]]]):
            return s.fail("point", f"{grids.brief(op)}: coordinates "
                          f"{dx, dy, rf}")
        if op["m"] and not sure[at]:
            return
        if hidden and op["m"]:
            s.ctx.nontrivial = True
        for name, got in (("disk_radius", R), ("inclination", i),
                          ("tilt", t), ("fx_map", fx), ("fy_map", fy),
                          ("diagnostic_map", d)):
            stored = m.maps[name][at]
            own = m.masks.get(name)
            if op["m"]:
                good = close(got, np.nan if hidden or own is not None
                             and own[at] else stored)
            elif own is not None and own[at]:
                good = close(got, np.nan) or close(got, stored)
            else:
                good = close(got, stored)
            if not good:
                return s.fail("point", f"{grids.brief(op)}: {name} is {got}; "
                              f"stored {stored}, "
                              + ("masked" if hidden else "not masked"))
        n = len(m.grads or [])
        if len(pos if pos is not None else []) != n or \
                len(grads if grads is not None else []) != n:
            return s.fail("point", f"{grids.brief(op)}: {pos} {grads} for "
                          f"{n} gradients")
        for k, g in enumerate(m.grads or []):
            if not close(pos[k], g["pos"]):
                return s.fail("point", f"gradient {k} is at {pos[k]}")
            stored = m.tangent(g["pos"])[at]
            mask, certain = m.gradient_mask(g)
            if op["m"] and not certain[at]:
                continue
            if op["m"] and mask[at]:
                good = close(grads[k], np.nan)
            elif op["m"] and hidden:
                good = close(grads[k], stored) or close(grads[k], np.nan)
            else:
                good = close(grads[k], stored)
            if not good:
                return s.fail("point", f"{grids.brief(op)}: gradient {k} is "
                              f"{grads[k]}; stored {stored}")
        s.ctx.probe("point, " + ("hidden" if hidden and op["m"] else "shown"))

    # --------------------------------------------------------------- nearest
    def nearest(self, s, op):
        m = s.model
        maps = [m.maps[n] for n in ("disk_radius", "inclination", "tilt")]
        op = dict(op)
        if "like" in op:
            at = tuple(int(u * n) for u, n in zip(op["like"], m.shape))
            found = [float(a[at]) for a in maps]
            if not np.isnan(found).any():
                op["R"], op["i"], op["t"] = found
                op["b"] = float(m.dy.ravel()[at[0]])
        kind, value = self.ask(s, op)
        if op["R"] < 0:
            if kind == "ok":
                s.fail("accepted", f"{grids.brief(op)} should be rejected")
            return
        total, sure = m.combined()
        own = np.zeros(m.shape, bool)
        for name in ("disk_radius", "inclination", "tilt"):
            if m.masks[name] is not None:
                own |= m.masks[name]
        banned = ~sure | (total if op["m"] else own)
        dy = np.broadcast_to(m.dy.ravel()[:, None, None], m.shape)
        side = np.ones(m.shape, bool)
        if op["b"]:
            side = dy >= 0 if op["b"] > 0 else dy <= 0
        R, i, t = maps
        distance = np.sqrt((R - op["R"])**2 + (i - op["i"])**2
                           + (t - op["t"])**2 + (dy - op["b"])**2)
        allowed = ~banned & side & ~np.isnan(distance)
        if not allowed.any():
            s.ctx.probe("nearest without an allowed point")
            return
        if op["m"] and total.any():
            s.ctx.nontrivial = True
            s.ctx.probe("nearest under masks")
        if kind != "ok":
            return s.fail("refused", f"{grids.brief(op)}: {value!r}")
        coordinates, at, least = value
        at = tuple(int(k) for k in at)
        if not close(coordinates, [m.dy.ravel()[at[0]], m.dx.ravel()[at[1]],
                                   m.rf.ravel()[at[2]]]):
            return s.fail("nearest", f"{grids.brief(op)}: coordinates "
                          f"{coordinates} are not those of {at}")
        if op["m"] and total[at] and sure[at]:
            return s.fail("nearest", f"{grids.brief(op)}: point {at} is "
                          "masked")
        if not abs(distance[at] - least) <= 1e-7 * max(1, least):
            return s.fail("nearest", f"{grids.brief(op)}: point {at} has "
                          f"distance {distance[at]}, not {least}")
        best = distance[allowed].min()
        # a point whose mask is a matter of rounding may come first
        if least > best + 1e-7 * max(1, best):
            return s.fail("nearest", f"{grids.brief(op)}: the answer has "
                          f"distance {least}, another point {best}")
        if op["b"] and not side[at]:
            return s.fail("nearest", f"{grids.brief(op)}: point {at} lies on "
                          "the other side")
        s.ctx.probe("nearest")


CHECK = C09()
