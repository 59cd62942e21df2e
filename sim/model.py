"""A small reference model of what a grid holds: measurements, masks, fit.

Written from the documentation: the theoretical gradients and the maps
themselves are taken from a pristine copy of the freshly built grid, so the
model answers for *which* of them must be there, scaled and masked how.
"""
import copy

import numpy as np

from sim import grids

RTOL = 1e-9


def orbital(v, u):
    return (6 - 2 * u) / (12 - 12 * u + 3 * np.pi * u) * np.pi / v


class Model:
    def __init__(self, grid):
        self.pristine = copy.deepcopy(grid)
        self.shape = tuple(grid.parameters.grid_shape)
        self.maps = {n: np.array(getattr(grid, n).get_data(False))
                     for n in grids.MAPS}
        dy, dx, rf = grid.parameters.get_vectors()
        self.dy, self.dx, self.rf = dy.copy(), dx.copy(), rf.copy()
        self.ecl = None                 # (D, v, u)
        self.grads = None
        self.masks = {n: None for n in grids.MAPS}
        self.fit = None                 # weighted or not
        self.tangents = {}

    def clone(self):
        m = copy.copy(self)             # shares the pristine grid and maps
        m.grads = (None if self.grads is None
                   else [dict(g) for g in self.grads])
        m.masks = dict(self.masks)
        return m

    # ------------------------------------------------------------ references
    def tangent(self, position):
        """The theoretical gradients at a position, from the pristine grid."""
        key = float(position)
        if key not in self.tangents:
            g = self.pristine
            with grids.quiet():
                g.set_eclipse_parameters(1.0, 1000.0, 0.5)
                g.add_gradients(np.array([-key]), np.array([0.0]))
            self.tangents[key] = np.array(g.gradients[0].get_data(False))
        return self.tangents[key]

    @staticmethod
    def scaled(g):
        return g["meas"] * g["orb"] / g["trans"]

    # ------------------------------------------------------------ operations
    def predict(self, op):
        """-> ("ok" | "reject" | "either", model afterwards)"""
        m = self.clone()
        return getattr(m, "_" + op["op"])(op), m

    def _eclipse(self, op):
        D, v, u = op["D"], op["v"], op["u"]
        if not all(isinstance(x, (int, float)) for x in (D, v, u)):
            return "reject"
        if D < 0 or v < 0 or not 0 <= u <= 1:
            return "reject"
        self.ecl = (D, v, u)
        if self.grads is not None:
            self.grads, self.fit = None, None
        return "ok"

    def _add(self, op):
        if self.ecl is None:
            return "ok"                  # says so and does nothing
        arrays = [np.array(op[k], float) for k in "tgec"
                  if op[k] is not None]
        if any(a.ndim != 1 for a in arrays):
            return "reject"
        n = len(op["t"])
        if any(len(a) != n for a in arrays):
            return "reject"
        e = op["e"] or [1.0] * n
        c = op["c"] or [1.0] * n
        D, v, u = self.ecl
        new = []
        for t, g, err, tr in zip(op["t"], op["g"], e, c):
            if g == 0 and tr == 0:
                return "unclear"
            if g < 0 or err < 0 or not 0 < tr <= 1:
                return "reject"
            one = {"pos": -t / D, "meas": g, "err": err, "trans": tr,
                   "orb": orbital(v, u)}
            if self.edge(self.scaled(one)):
                return "unclear"
            if self.scaled(one) > 1:
                return "reject"
            new.append(one)
        self.grads = (self.grads or []) + new
        self.fit = None
        return "ok"

    @staticmethod
    def edge(s):
        return abs(s - 1) < 1e-9

    def _remove(self, op):
        if self.grads is None:
            return "ok"
        n = len(self.grads)
        if any(not 0 <= i < n for i in op["i"]):
            return "reject"
        self.grads = [g for i, g in enumerate(self.grads)
                      if i not in op["i"]]
        self.fit = None
        return "ok"

    def _rescale(self, op):
        v, u, c = op["v"], op["u"], op["c"]
        n = 0 if self.grads is None else len(self.grads)
        if c is not None:
            count = max(n + op.get("extra", 0), 0)
            # as in grids.make
            c = [c[(j - count) % len(c)] for j in range(count)]
        if (v is not None and v < 0) or (u is not None and not 0 <= u <= 1):
            return "reject"
        if self.grads is None or (n == 0 and c is not None):
            # nothing to rescale: unspecified whether this is an error
            if self.ecl is not None:
                D, v0, u0 = self.ecl
                self.ecl = (D, v0 if v is None else v, u0 if u is None else u)
                return "either"
            if v is None and u is None and c is None:
                return "either"
            return "skip"
        if c is not None and len(c) != n:
            return "reject"
        if v is None and u is None and c is None:
            return "ok"
        D, v0, u0 = self.ecl
        v1, u1 = v0 if v is None else v, u0 if u is None else u
        for k, g in enumerate(self.grads):
            if v is not None or u is not None:
                g["orb"] = orbital(v1, u1)
            if c is not None:
                if not 0 < c[k] <= 1:
                    return "reject"
                g["trans"] = c[k]
            if self.edge(self.scaled(g)):
                return "unclear"
            if self.scaled(g) > 1:
                return "reject"
        self.ecl = (D, v1, u1)
        self.fit = None
        return "ok"

    def _hill(self, op):
        h = op["h"]
        if not isinstance(h, (int, float)) or h < 0:
            return "reject"
        R = self.maps["disk_radius"]
        self.masks["disk_radius"] = np.isnan(R) | (R > h)
        return "ok"

    def _mask(self, op):
        if op.get("bad"):
            return "reject"
        self.masks[op["name"]] = grids.make_mask(op, self.shape)
        return "ok"

    def _byhand(self, op):
        if not self.grads or self.fit is not None:
            return "skip"           # the fit can not know of this one
        g = self.grads[int(op["u"] * len(self.grads))]
        meas, orb, trans, err = (grids.byhand_args(op, self.tangent(g["pos"]))
                                 + [1.0, 1.0])[:4]
        if meas == 0 and trans == 0:
            return "unclear"
        if meas < 0 or orb < 0 or not 0 < trans <= 1 or err < 0:
            return "reject"
        g.update(meas=meas, orb=orb, trans=trans, err=err)
        if self.edge(self.scaled(g)):
            return "unclear"
        return "ok" if self.scaled(g) < 1 else "reject"

    def _fit(self, op):
        if op.get("broken"):
            return "reject"
        if self.grads is None:
            return "ok"
        self.fit = bool(op["w"])
        return "ok"

    # ------------------------------------------------------------- judgement
    def gradient_mask(self, g):
        """-> (mask, where it is certain)"""
        t, s = self.tangent(g["pos"]), self.scaled(g)
        with np.errstate(invalid="ignore"):
            mask = np.isnan(t) | (t < s)
            near = np.abs(t - s) <= RTOL * max(1.0, s)
            if s == 0 or (g["orb"] == 1 and g["trans"] == 1):
                near &= t != s          # no rounding: exactly as steep
        return mask, ~near

    def combined(self):
        total = np.zeros(self.shape, bool)
        sure = np.ones(self.shape, bool)
        for n in ("disk_radius", "inclination", "tilt"):
            if self.masks[n] is not None:
                total |= self.masks[n]
        for g in self.grads or []:
            m, s = self.gradient_mask(g)
            sure &= s | total
            total |= m
        return total, sure

    def fit_data(self, weighted=None):
        data = np.zeros(self.shape)
        w = self.fit if weighted is None else weighted
        for g in self.grads:
            data = data + ((self.tangent(g["pos"]) - self.scaled(g))**2
                           / (g["err"]**2 if w else 1))
        return data

    def mismatch(self, grid):
        """What the grid gets wrong, or None. Looks at a copy."""
        g = copy.deepcopy(grid)
        with grids.quiet():
            return self._mismatch(g)

    def _mismatch(self, g):
        for n, data in self.maps.items():
            if not close(getattr(g, n).get_data(False), data):
                return f"the stored {n} map changed"
        n = None if self.grads is None else len(self.grads)
        have = None if g.gradients is None else len(g.gradients)
        if (n or 0) != (have or 0):
            return f"{have} gradients instead of {n}"
        for name, mask in self.masks.items():
            got = getattr(g, name).mask
            if (got is None) != (mask is None) and not (
                    mask is None and not np.any(got)
                    or got is None and not np.any(mask)):
                return f"{name} mask is " + ("missing" if got is None else
                                             "there without a reason")
            if got is not None and mask is not None \
                    and not np.array_equal(np.asarray(got, bool), mask):
                return f"{name} mask is wrong"
        if n:
            pos, scaled, err, data = g.get_gradients(False, False)
            for k, one in enumerate(self.grads):
                if not close(pos[k], one["pos"]):
                    return (f"gradient {k} is at {pos[k]} instead of "
                            f"{one['pos']}")
                if not close(err[k], one["err"]):
                    return f"gradient {k} has error {err[k]}, not {one['err']}"
                if not close(scaled[k], self.scaled(one)):
                    return (f"gradient {k} is scaled to {scaled[k]} instead "
                            f"of {self.scaled(one)}")
                if not close(data[k], self.tangent(one["pos"])):
                    return f"gradient {k} has other theoretical values"
                mask, sure = self.gradient_mask(one)
                got = np.asarray(g.gradients[k].mask, bool)
                if got.shape != mask.shape or \
                        not np.array_equal(got[sure], mask[sure]):
                    return f"the mask of gradient {k} is wrong"
                shown = g.gradients[k].get_data(True)
                if np.shape(shown) != mask.shape or not np.array_equal(np.isnan(shown)[sure], mask[sure]):
                    return f"gradient {k} is not shown as masked"
        total, sure = self.combined()
        got = np.asarray(g.get_combined_mask(), bool)
        if got.shape != total.shape or \
                not np.array_equal(got[sure], total[sure]):
            return "the combined mask is wrong"
        for name in grids.MAPS:
            shown = getattr(g, "get_" + name)(True, False)
            want = np.where(total, np.nan, self.maps[name])
            if np.shape(shown) != want.shape or \
                    not close(shown[sure], want[sure]):
                return f"the masked {name} map is wrong"
            shown = getattr(g, "get_" + name)(False, True)
            want = self.maps[name]
            if self.masks[name] is not None:
                want = np.where(self.masks[name], np.nan, want)
            if np.shape(shown) != want.shape or not close(shown, want):
                return f"the {name} map is not shown as masked"
        fit = g.get_gradient_fit(False, False)
        if fit is not None:
            if self.grads is None:
                return "there is a gradient fit without gradients"
            if not close(fit, self.fit_data(
                    self.fit if self.fit is not None else True)) and \
                    not (self.fit is None
                         and close(fit, self.fit_data(False))):
                return "the gradient fit is not that of the current gradients"
            shown = g.get_gradient_fit(True, True)
            want = np.where(total, np.nan, fit)
            if np.shape(shown) != want.shape or \
                    not close(shown[sure], want[sure]):
                return "the masked gradient fit is wrong"
        probe = {}
        grids._eclipse(probe, g)
        probe = probe["eclipse parameters"]
        if self.ecl is None:
            if isinstance(probe, np.ndarray):
                return "eclipse parameters are set"
        else:
            D, v, u = self.ecl
            want = [-1 / D, orbital(v, u), orbital(1.0, u), orbital(v, 0.5)]
            if not isinstance(probe, np.ndarray) or not close(probe, want):
                return f"eclipse parameters are not {self.ecl}: {probe}"
        return None

    def fit_present(self, grid):
        return grid.gradient_fit is not None


def close(a, b):
    return np.shape(a) == np.shape(b) and bool(
        np.allclose(a, b, rtol=RTOL, atol=1e-12, equal_nan=True))
