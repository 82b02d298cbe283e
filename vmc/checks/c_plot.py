"""Plots of fields and lines"""
import itertools
import os

import numpy as np

from vmc.core import Check, Fail, require

XS = {"n": ([0.5, 1.0, 3.0, 4.0, 7.0], [-1.0, 0.0, 0.5, 3.0]), "u": ([1.0, 2.0, 3.0, 4.0, 5.0], [-1.0, -0.5, 0.0, 0.5]),
      "p": ([0.5, 1.0, 3.0, 4.0, 7.0], [1.0, 2.0, 2.5, 6.0])}
STYLES = ("pcolormesh", "pcolor", "contour", "contourf")
NORMS = [{}, {"vmin": -3.25}, {"vmax": 4.5}, {"vmin": -3.25, "vmax": 4.5}, {"clim": (-3.25, 4.5)}, {"clim": (-3.25,)}, {"clim": -3.25}, {"clim": (None, 4.5)},
         {"lin": (-3.25, 4.5)}, {"lin": 0}, {"lin": -3.25}, {"lin": True}, {"log": True}, {"log": (0.5, 8.0)}, {"log": 0.5}, {"logscale": True},
         {"symmetric": True}, {"sym": True}, {"symmetric": True, "vmin": -30.0}, {"logscale": True, "vmax": 8.0}, {"norescale": True}, {"loglog": True},
         {"loglog": (0.5, 8.0)}]
GEO = [{}, {"scale": 2.0}, {"scale": -1.5}, {"mod": (2.0, 3.0)}, {"flip_plot": True}, {"flipplot": True, "mod": (2.0, 3.0)}, {"x": (1.0, 4.0)}, {"y": (0.0, 2.0)},
       {"tightlim": False}, {"scale": 2.0, "flip_plot": True}, {"x": (4.0, 1.0), "y": (-3.0, 5.0), "flip_plot": True}, {"axis": "equal"}, {"axis": "none", "scale": 0.5},
       {"masknan": False}, {"scale": 3}]
LINES = {"one": (4,), "two": (5, 2), "three": (2, 6, 5), "dot": (5, 1), "many": (2, 2, 3, 5, 1), "pair": (2,), "short": (3,)}
SCAL = (None, "hex", "name", "hexes", "names", "rgb", "rgbs", "vals", "valsarr", "each", "field", "rgbv", "rgbvT", "six", "rgbas")
OPTS = [("a_1", {"a": 1}), ("a=1", {"a": 1}), ("lin_-1.0_1.0", {"lin": [-1.0, 1.0]}), ("lin=-1.0_1.0, gridec=k", {"lin": [-1.0, 1.0], "gridec": "k"}), ("log", {"log": True}),
        (" log ,  g_r", {"log": True, "g": "r"}), ("cmap_RdBu_r", {"cmap": "RdBu_r"}), ("cmap=RdBu_r,log", {"cmap": "RdBu_r", "log": True}), ("x_-1_2.5", {"x": [-1, 2.5]}),
        ("clim_None_2", {"clim": [None, 2]}), ("log=false", {"log": False}), ("title_true", {"title": True}), ("cmap_a_b_c", {"cmap": "a_b_c"}), ("", {}), (None, {}),
        ("{lin: [-1.0, 1.0], gridec: k}", {"lin": [-1.0, 1.0], "gridec": "k"}), ("{log: , cmap: RdBu_r}", {"log": True, "cmap": "RdBu_r"}), (" {x: [1, 2]} ", {"x": [1, 2]}),
        ("vmin_1e-3", {"vmin": 1e-3}), ("style=contour,levels=5", {"style": "contour", "levels": 5})]


def centers(x):
    return 0.5 * (x[1:] + x[:-1])


def edges(x):
    m = centers(x)
    return np.concatenate([[2 * x[0] - m[0]], m, [2 * x[-1] - m[-1]]])


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype="f8"), np.asarray(b, dtype="f8")
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


class Plot(Check):
    pid = "V35"
    rule = ("every combination of options for the scale of values with those for geometry, in every style, on fields of every centering, axes, "
            "coordinates, type and number of patches; lines with every kind of scalars; arrows, streamlines, points and maps; drawn without a screen, and "
            "what was drawn compared with the values and their places")
    bounds = {"axes": "4 or 5 points", "norm options": "%d" % len(NORMS), "geometry options": "%d" % len(GEO), "lines": "1..5 of 1..6 points"}
    assumptions = ("equal to 1e-9", "what is drawn is taken from matplotlib's own objects, not from pixels")

    def setup(self):
        os.environ["MPLBACKEND"] = "Agg"
        import matplotlib
        matplotlib.use("Agg")
        import viscid
        from viscid.plot import vpyplot
        from viscid import vutil
        from matplotlib import pyplot, colors, collections
        viscid.logger.setLevel(60)
        self.v, self.vlt, self.plt, self.mc, self.u, self.col = viscid, vpyplot, pyplot, colors, vutil, collections

    def shards(self, tier):
        return [("opts", s, c) for s in STYLES for c in ("node", "cell")] + [("fields", s) for s in STYLES] + [("labels",), ("one",), ("amr",), ("time",), ("str",), ("lines", 2), ("lines", 3), ("arrows",),
                                                                                                          ("points",), ("map", 0), ("map", 1)]

    def cases(self, shard, tier):
        kind = shard[0]
        if kind == "opts":
            _, style, center = shard
            for i, nrm in enumerate(NORMS):
                for j, geo in enumerate(GEO):
                    for sign in ("mixed", "pos"):
                        log = any(k.startswith("log") for k in nrm)
                        if log and sign == "mixed" and (style.startswith("contour") or geo.get("scale", 1) < 0):
                            continue
                        if log and geo.get("scale", 1) < 0 or (nrm.get("lin", 1) is True and sign == "pos"):
                            continue
                        if sign == "pos" and not log and (i + j) % 3:
                            continue
                        yield ["field2", dict(center=center, crds="p" if "loglog" in nrm else "n", style=style, sign=sign, dtype="f8", nan=0, dims="xy"), dict(nrm, **geo)]
        elif kind == "fields":
            for center, crds, dtype, nan, flip in itertools.product(("node", "cell"), "nu", ("f8", "f4", "i8"), (0, 1, 5), (False, True)):
                if nan and (dtype == "i8" or shard[1].startswith("contour")):
                    continue
                for dims in ("xy", "yx", "zy", "x:z=1", "x:y=0.5f", "xy,z=-1", "yz:x=2"):
                    yield ["field2", dict(center=center, crds=crds, style=shard[1], sign="mixed", dtype=dtype, nan=nan, dims=dims), {"flip_plot": True} if flip else {}]
        elif kind == "labels":
            for cb, cbl, title, nol, xl, yl, flip in itertools.product((True, False), (None, "CB"), (None, True, "T"), (False, True), (None, "XL"), (None, "YL"), (False, True)):
                opts = dict(colorbar=cb, cbarlabel=cbl, title=title, nolabels=nol, xlabel=xl, ylabel=yl, flip_plot=flip)
                yield ["label", {k: x for k, x in opts.items() if x not in (None, False) or k == "colorbar"}]
        elif kind == "one":
            for center, crds, dtype, nan in itertools.product(("node", "cell"), "nu", ("f8", "f4", "i8"), (0, 1, 2, 3, 4)):
                if dtype == "i8" and nan:
                    continue
                for npatch in (1, 2):
                    for nrm in ({}, {"log": True}, {"symmetric": True}, {"lin": (-1.0, 2.0)}, {"vmin": -1.5}, {"vmax": 4.0}, {"loglog": True}, {"norescale": True}, {"lin": 0}, {"clim": 1.5}):
                        for geo in ({}, {"scale": 2.5}, {"scale": -2}, {"mod": 2.0}, {"x": (0.0, 2.0)}, {"label": "L"}, {"xlabel": "XL", "ylabel": "YL"}, {"nolabels": True},
                                    {"legend": True}, {"masknan": False}, {"legend": 3, "scale": 0.5, "mod": 3}):
                            if len(nrm) and len(geo) and (npatch == 2 or dtype != "f8" or nan > 2):
                                continue
                            yield ["line1", dict(center=center, crds=crds, dtype=dtype, nan=nan, npatch=npatch), dict(nrm, **geo)]
        elif kind == "amr":
            for center, style, flip, npatch in itertools.product(("node", "cell"), STYLES[:2], (False, True), (2, 3, 4)):
                for o in ({}, {"scale": 2.0}, {"symmetric": True}, {"lin": 0}, {"vmin": -2.0}, {"mod": (2.0, 0.5)}, {"scale": -0.5}, {"p": True}, {"tightlim": False}):
                    yield ["amr", center, style, npatch, dict(o, flip_plot=True) if flip else o]
        elif kind == "time":
            for center, style, flip, o in itertools.product(("node", "cell"), STYLES[:2] + ("line",), (False, True), ({}, {"scale": 2.0}, {"x": (1, 2)})):
                if style == "line" and flip:
                    continue
                yield ["time", center, style, flip, o]
        elif kind == "str":
            for s, d in OPTS:
                for base in ({}, {"a": 5, "q": "r"}):
                    yield ["string", s, d, base]
        elif kind == "lines":
            for n, sc, sub, mark in itertools.product(LINES, SCAL, (0, 1, 2, 3, 2.5), (None, "o")):
                if shard[1] == 3:
                    yield ["lines", 3, n, sc, sub, mark, "", False]
                    continue
                for sym, flip in (("", False), ("x", False), ("y", True), ("z", False), ("", True)):
                    if (mark or sub == 3) and sym in "yz" and sym:
                        continue
                    yield ["lines", 2, n, sc, sub, mark, sym, flip]
            if shard[1] == 2:
                for n, sub, sym in itertools.product(LINES, (0, 2), "xyz"):
                    yield ["lines", 2, n, "zloc", sub, "o", sym, False]
                # lines within a plane find it
                for n, sub, flat, how, flip in itertools.product(LINES, (0, 2), ("x", "y", "z", "xy", "yz", "xz"), (None, "zloc", "each"), (False, True)):
                    if n == "many" and how == "each":
                        continue
                    yield ["lines", 2, n + " " + flat, how, sub, None, "", flip]
        elif kind == "arrows":
            for center, lay, dims, crds in itertools.product(("node", "cell"), ("flat", "interlaced"), ("xy", "yz", "xz"), "nu"):
                for step in (1, 2, 3, [1, 2], [2, 1]):
                    yield ["quiver", center, lay, dims, crds, step]
                for o in ({}, {"density": 0.5}, {"color": "field"}, {"linewidth": "field"}):
                    yield ["stream", center, lay, dims, crds, o]
        elif kind == "points":
            for sym, flip, c, nd, n, flat in itertools.product(("", "x", "y", "z"), (False, True), ("k", "zloc", "vals"), (2, 3), (1, 4), ("", "x", "y", "z", "xz")):
                if nd == 2 and (sym or c == "zloc" or flat):
                    continue
                yield ["points", sym, flip, c, nd, n, flat]
            for c, n in itertools.product(("k", "zloc"), (1, 5)):
                yield ["points3", c, n]
        else:
            for center, kind_, units, hem, blat, style in itertools.product(("node", "cell"), ("map", "sphere"), ("deg", "rad"), (None, "north", "south", "s"), (None, 40.0, 61.0),
                                                                            ("pcolormesh", "iono")):
                for part in ("full", "north", "south"):
                    if (hem or part)[:1] != part[:1] and part != "full" or (shard[1] == 0) != (center == "node"):
                        continue
                    yield ["map", center, kind_, units, hem, blat, style, part]

    def run_case(self, case, rec):
        rec.step()
        rec.state(repr(case))
        import warnings
        self.plt.figure(1).clf()
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return getattr(self, "run_" + case[0])(case[1:], rec)
            finally:
                self.plt.close("all")

    # ------------------------------------------------------------------ 2-D
    @staticmethod
    def values(shape, sign, dtype, nan):
        n = int(np.prod(shape))
        a = ((np.arange(n) * 7 + 3) % 23) - 11.0
        a = a + 0.25 if sign == "mixed" else abs(a) + 0.25
        if dtype == "i8":
            a = np.floor(a)
        a = a.astype(dtype).reshape(shape)
        if nan == 1:
            a.flat[0] = np.nan
        elif nan:
            a.flat[1::nan] = np.nan
        return a

    def make2(self, d):
        """-> (field for plot, selection, the two axes (names), nodes, values, field whose arrays must stay)"""
        dims, _, sel = d["dims"].partition(":")
        comma = dims.partition(",")
        dims, sel = comma[0], sel or comma[2]
        nc = [np.array(x) for x in XS[d["crds"]]]
        uniform = d["crds"] == "u"
        nm = list(dims)
        if sel:
            ax3 = sel.split("=")[0]
            nm = [a for a in "xyz" if a != ax3]
        cr = list(zip(nm, nc))
        if sel:
            cr.append((ax3, np.array([-1.0, 0.25, 1.0, 2.0] if not uniform else [-1.0, 0.0, 1.0, 2.0])))
            cr.sort()
        shape = [len(x) - (d["center"] == "cell") for _, x in cr]
        crds = self.v.wrap_crds("uniform_cartesian" if uniform else "nonuniform_cartesian", [(a, [x[0], x[-1], len(x)] if uniform else x.copy()) for a, x in cr])
        arr = self.values(shape, d["sign"], d["dtype"], d["nan"])
        f = self.v.wrap_field(arr.copy(), crds, name="f", center=d["center"], pretty_name="Pretty")
        val = arr
        if sel:
            i3 = [a for a, _ in cr].index(ax3)
            x3 = cr[i3][1] if d["center"] == "node" else centers(cr[i3][1])
            e = sel.split("=")[1]
            i = int(np.argmin(abs(x3 - float(e[:-1])))) if e.endswith("f") else int(e)
            val = np.take(arr, i, axis=i3)
        return f, sel, nm, nc, val

    @staticmethod
    def snap(f):
        out = []
        for p in f.patches:
            out += [np.array(p.data)] + [np.array(c) for c in p.get_crds_nc()] + [np.array(c) for c in p.get_crds_cc()]
        return out

    def same(self, f, was, o):
        for a, b in zip(self.snap(f), was):
            require(a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), "the plot ({0}) changed the field from {1} to {2}", o, b.tolist(), a.tolist())

    @staticmethod
    def quads(p):
        """{(xlo, xhi, ylo, yhi): value}; masked values are None"""
        out = {}
        if hasattr(p, "_coordinates"):
            c = np.asarray(p._coordinates, dtype="f8")
            a = np.ma.asarray(p.get_array()).reshape(c.shape[0] - 1, c.shape[1] - 1)
            for j, i in itertools.product(range(a.shape[0]), range(a.shape[1])):
                q = c[j:j + 2, i:i + 2].reshape(4, 2)
                key = tuple(np.round([q[:, 0].min(), q[:, 0].max(), q[:, 1].min(), q[:, 1].max()], 7))
                require(len(set(np.round(q[:, 0], 9))) == 2 and len(set(np.round(q[:, 1], 9))) == 2 and key not in out, "cells drawn: {0}", q.tolist())
                out[key] = None if np.ma.is_masked(a[j, i]) else float(a[j, i])
        else:
            a = np.ma.asarray(p.get_array()).ravel()
            paths = p.get_paths()
            require(len(a) == len(paths), "pcolor draws {0} cells and {1} values", len(paths), len(a))
            for path, v in zip(paths, a):
                q = np.asarray(path.vertices)
                out[tuple(np.round([q[:, 0].min(), q[:, 0].max(), q[:, 1].min(), q[:, 1].max()], 7))] = None if np.ma.is_masked(v) else float(v)
        return {k: v for k, v in out.items() if v is not None and np.isfinite(v)}

    def cells(self, ex, ey, val):
        """what should be drawn"""
        out = {}
        for i, j in itertools.product(range(len(ex) - 1), range(len(ey) - 1)):
            if np.isfinite(val[i, j]):
                k = tuple(np.round(sorted(ex[i:i + 2]) + sorted(ey[j:j + 2]), 7))
                out[k] = float(val[i, j])
        return out

    @staticmethod
    def same_cells(got, want, o, positive=False):
        if positive:
            got = {k: v for k, v in got.items() if v > 0}
            want = {k: v for k, v in want.items() if v > 0}
        require(set(got) == set(want), "cells drawn ({0}): {1}, want {2}", o, sorted(set(got) - set(want))[:3], sorted(set(want) - set(got))[:3])
        for k in want:
            require(abs(got[k] - want[k]) <= 1e-6 * (1 + abs(want[k])), "{0}: value drawn at {1} is {2}, want {3}", o, k, got[k], want[k])

    @staticmethod
    def norm(o, data):
        """(kind, vmin, vmax) or None"""
        if o.get("norescale"):
            return None
        lim = [None, None]
        sym = bool(o.get("symmetric") or o.get("sym"))
        log = bool(o.get("logscale"))
        if "clim" in o:
            c = o["clim"] if isinstance(o["clim"], (tuple, list)) else [o["clim"]]
            lim[:len(c)] = c
        for i, k in enumerate(("vmin", "vmax")):
            if k in o:
                lim[i] = o[k]
        for k in ("lin", "log", "loglog"):
            if k in o:
                log = k != "lin"
                if o[k] is True:
                    pass
                elif k == "lin" and o[k] == 0:
                    sym = True
                else:
                    c = o[k] if isinstance(o[k], (tuple, list)) else [o[k]]
                    lim[:len(c)] = c
        data = data[np.isfinite(data)]
        vmin = data.min() if lim[0] is None else lim[0]
        vmax = data.max() if lim[1] is None else lim[1]
        if sym:
            m = max(abs(vmin), abs(vmax))
            vmin, vmax = -m, m
        if log and vmin <= 0:
            vmin = vmax / 1e4
        return "log" if log else "lin", float(vmin), float(vmax)

    def check_norm(self, p, want, o):
        if want is None:
            return
        n = p.norm
        require(isinstance(n, self.mc.LogNorm) == (want[0] == "log"), "{0}: norm is {1}", o, type(n).__name__)
        require(near([n.vmin, n.vmax], want[1:], 1e-6), "{0}: colors from {1} to {2}, want {3}", o, n.vmin, n.vmax, want[1:])

    def contours(self, p, x, y, z, levels, o):
        """every vertex is where it should be, and there is one wherever a line of the grid crosses a level"""
        require(near(p.levels, levels, 1e-6), "{0}: levels {1}, want {2}", o, p.levels, levels)
        pts = [np.asarray(s).reshape(-1, 2) for segs in p.allsegs for s in segs]
        pts = np.concatenate(pts) if pts else np.zeros((0, 2))
        cross = []
        for axis in (0, 1):
            zz, xx, yy = (z, x, y) if axis == 0 else (z.T, y, x)
            for i, j in itertools.product(range(len(xx) - 1), range(len(yy))):
                a, b = zz[i, j], zz[i + 1, j]
                for lev in levels[1:-1] if p.filled else levels:
                    if (a - lev) * (b - lev) < 0 and min(abs(a - lev), abs(b - lev)) > 1e-6:
                        q = xx[i] + (lev - a) / (b - a) * (xx[i + 1] - xx[i])
                        cross.append((q, yy[j]) if axis == 0 else (yy[j], q))
        cross = np.array(cross).reshape(-1, 2)
        nodes = np.array(list(itertools.product(x, y)))
        scale = max(np.ptp(x), np.ptp(y))
        if len(cross):
            d = np.abs(cross[:, None, :] - pts[None, :, :]).max(axis=2).min(axis=1) if len(pts) else np.full(len(cross), 9e9)
            require(d.max() < 1e-5 * scale, "{0}: no contour through {1}", o, cross[d.argmax()].tolist())
        good = np.concatenate([cross, nodes])
        if len(pts):
            d = np.abs(pts[:, None, :] - good[None, :, :]).max(axis=2).min(axis=1)
            if p.filled:   # filled areas may also begin and end on the outermost levels
                edge = [k for k in range(len(pts)) if d[k] > 1e-5 * scale]
                for k in edge:
                    v = self.on_edge(pts[k], x, y, z)
                    require(v is not None and min(abs(v - levels)) < 1e-4 * (1 + abs(v)), "{0}: contour at {1} where the value is {2}", o, pts[k].tolist(), v)
            else:
                require(d.max() < 1e-5 * scale, "{0}: contour at {1}, where no level is crossed", o, pts[d.argmax()].tolist())

    @staticmethod
    def on_edge(q, x, y, z):
        for xx, yy, zz, a, b in ((x, y, z, q[0], q[1]), (y, x, z.T, q[1], q[0])):
            j = np.argmin(abs(yy - b))
            if abs(yy[j] - b) < 1e-6:
                return float(np.interp(a, xx, zz[:, j]))
        return None

    def run_field2(self, case, rec):
        d, o = case
        f, sel, nm, nc, val = self.make2(d)
        ftest = f
        was = self.snap(f)
        kw = dict(o, style=d["style"])
        kw.setdefault("colorbar", False)
        ax = self.plt.gca()
        if sel:
            p, cb = self.vlt.plot(f, sel, **kw)
        elif len(o) % 2:
            p, cb = self.vlt.plot2d_field(f, ax=ax, **kw)
        else:
            p, cb = self.vlt.plot(f, ax=ax, **kw)
        self.same(ftest, was, o)
        require(self.plt.gca() is ax, "{0}: drawn on other axes", o)
        require(cb is None, "a color bar without asking")
        s = o.get("scale", 1)
        mod = o.get("mod", (1, 1))
        flip = o.get("flip_plot") or o.get("flipplot")
        data = np.array(val, dtype="f8") * s
        norm = self.norm(o, data)
        self.check_norm(p, norm, o)
        log = norm is not None and norm[0] == "log"
        if d["style"].startswith("pcolor"):
            ex, ey = [(edges(x) if d["center"] == "node" else x) * m for x, m in zip(nc, mod)]
            want = self.cells(ey, ex, data.T) if flip else self.cells(ex, ey, data)
            self.same_cells(self.quads(p), want, o, positive=log)
        else:
            x, y = [x * m for x, m in zip(nc, mod)]
            if d["center"] == "cell":
                x, y = [np.concatenate([q[:1], centers(q)[1:-1], q[-1:]]) for q in (x, y)]
            if norm is not None:
                lev = np.linspace(norm[1], norm[2], 10) if not log else np.logspace(np.log10(norm[1]), np.log10(norm[2]), 10)
                if flip:
                    self.contours(p, y, x, data.T, lev, o)
                else:
                    self.contours(p, x, y, data, lev, o)
        # what is seen
        if o.get("tightlim", True) and "axis" not in o and "loglog" not in o:
            out = nc if d["center"] == "cell" else nc
            lims = [(q[0] * m, q[-1] * m) for q, m in zip(out, mod)]
            if flip:
                lims.reverse()
            lims = [o.get(k, l) for k, l in zip("xy", lims)]
            got = [ax.get_xlim(), ax.get_ylim()]
            require(near(got, lims), "{0}: axes show {1}, want {2}", o, got, lims)
        if "loglog" in o:
            require((ax.get_xscale(), ax.get_yscale()) == ("log", "log"), "{0}: scales {1} {2}", o, ax.get_xscale(), ax.get_yscale())
        a, b = nm[::-1] if flip else nm
        require((ax.get_xlabel(), ax.get_ylabel()) == (a, b), "{0}: labels {1} {2}", o, ax.get_xlabel(), ax.get_ylabel())
        return d["style"]

    def run_label(self, case, rec):
        o, = case
        d = dict(center="cell", crds="n", style="pcolormesh", sign="mixed", dtype="f8", nan=0, dims="xy")
        f, _, nm, nc, val = self.make2(d)
        was = self.snap(f)
        p, cb = self.vlt.plot(f, **o)
        self.same(f, was, o)
        ax = p.axes
        require(self.plt.gca() is ax, "{0}: the current axes are others", o)
        require((cb is not None) == o["colorbar"], "{0}: color bar {1}", o, cb)
        lab = nm[::-1] if o.get("flip_plot") else nm
        nol = o.get("nolabels", False)
        want = ["", ""] if nol else [o.get("xlabel", lab[0]), o.get("ylabel", lab[1])]
        require([ax.get_xlabel(), ax.get_ylabel()] == want, "{0}: labels {1}, want {2}", o, [ax.get_xlabel(), ax.get_ylabel()], want)
        t = o.get("title")
        tw = "" if nol or not t else "Pretty" if t is True else t
        require(ax.get_title() == tw, "{0}: title {1}, want {2}", o, ax.get_title(), tw)
        if cb is not None:
            cw = "" if nol or (t is True and "cbarlabel" not in o) else o.get("cbarlabel", "Pretty")
            require(cb.ax.get_ylabel() == cw, "{0}: label of the color bar {1}, want {2}", o, cb.ax.get_ylabel(), cw)
            require(near([cb.vmin, cb.vmax], [val.min(), val.max()]) and cb.mappable is p, "{0}: color bar from {1} to {2}", o, cb.vmin, cb.vmax)
        return "labels"

    def run_amr(self, case, rec):
        center, style, npatch, o = case
        v = self.v
        from viscid import grid, amr_grid
        gs, want, datas = [], {}, []
        s, mod, flip = o.get("scale", 1), o.get("mod", (1, 1)), o.get("flip_plot")
        boxes = [((0, 2), (0, 2)), ((2, 4), (0, 2)), ((0, 2), (2, 4)), ((2, 4), (2, 4))][:npatch]
        for k, b in enumerate(boxes):
            nc = [np.linspace(lo, hi, 5) for lo, hi in b]
            shape = [4 + (center == "node")] * 2
            arr = self.values(shape, "mixed", "f8", 0) + 0.5 * k
            crds = v.wrap_crds("nonuniform_cartesian", [(a, x.copy()) for a, x in zip("xyz", nc + [np.array([0.0, 1.0])])])
            g = grid.Grid()
            g.set_crds(crds)
            g.add_field(v.wrap_field(np.repeat(arr[:, :, None], 1 + (center == "node"), axis=2), crds, name="f", center=center))
            gs.append(g)
            e = [(edges(x) if center == "node" else x) * m for x, m in zip(nc, mod)]
            want[k] = self.cells(e[1], e[0], arr.T * s) if flip else self.cells(e[0], e[1], arr * s)
            datas.append(arr * s)
        f = amr_grid.AMRGrid(gs)["f"].slice_reduce("z=0.1f")
        was = self.snap(f)
        ax = self.plt.gca()
        p, _ = self.vlt.plot(f, style=style, colorbar=False, **o)
        self.same(f, was, o)
        arts = [c for c in ax.collections if isinstance(c, (self.col.QuadMesh, self.col.PolyCollection))]
        require(len(arts) == npatch, "{0} of {1} patches drawn", len(arts), npatch)
        norm = self.norm(o, np.concatenate([x.ravel() for x in datas]))
        for k, a in enumerate(arts):
            self.check_norm(a, norm, o)
            self.same_cells(self.quads(a), want[k], o)
        hi = [max(b[d][1] for b in boxes) * mod[d] for d in (0, 1)]
        if flip:
            hi.reverse()
        if o.get("tightlim", True):
            require(near([ax.get_xlim(), ax.get_ylim()], [(0, hi[0]), (0, hi[1])]), "{0}: axes show {1} {2}", o, ax.get_xlim(), ax.get_ylim())
        if o.get("p"):
            rects = sorted(tuple(np.round(r.get_bbox().extents, 6)) for r in ax.patches + list(ax.artists) if hasattr(r, "get_bbox"))
            wr = sorted(((b[0][0], b[1][0], b[0][1], b[1][1]) if not flip else (b[1][0], b[0][0], b[1][1], b[0][1])) for b in boxes)
            if center == "cell":
                require(near(rects, wr), "{0}: outlines {1}, want {2}", o, rects, wr)
        return "amr"

    def run_time(self, case, rec):
        center, style, flip, o = case
        import matplotlib.dates as md
        t = np.array(["2001-01-01T00:00:00", "2001-01-01T01:00:00", "2001-01-01T03:00:00", "2001-01-01T04:00:00", "2001-01-02T00:00:00"], dtype="M8[us]")
        tn = md.date2num(t)
        y = np.array(XS["n"][1])
        crds = self.v.wrap_crds("nonuniform_cartesian", [("t", t.copy()), ("y", y.copy())])
        shape = [len(t) - (center == "cell"), len(y) - (center == "cell")]
        arr = self.values(shape, "mixed", "f8", 0)
        f = self.v.wrap_field(arr.copy(), crds, name="f", center=center)
        kw = dict(o)
        if "x" in kw:
            kw["x"] = (t[1], t[3]) if not flip else (-0.5, 1.0)
        ax = self.plt.gca()
        s = o.get("scale", 1)
        if style == "line":
            f = f.slice_reduce("y=1")
            p, _ = self.vlt.plot(f, **kw)
            x = tn if center == "node" else centers(tn)
            got = np.array(p[0].get_xdata(orig=False), dtype="f8")
            require(near(got, x, 1e-8), "times drawn {0}, want {1}", got, x)
            require(near(p[0].get_ydata(orig=False), arr[:, 1] * s), "values drawn {0}", p[0].get_ydata())
        else:
            p, _ = self.vlt.plot(f, style=style, colorbar=False, flip_plot=flip, **kw)
            ex, ey = [edges(x) if center == "node" else x for x in (tn, y)]
            want = self.cells(ey, ex, arr.T * s) if flip else self.cells(ex, ey, arr * s)
            self.same_cells({tuple(np.round(k, 5)): q for k, q in self.quads(p).items()}, {tuple(np.round(k, 5)): q for k, q in want.items()}, o)
        if "x" in kw and not flip:
            require(near(ax.get_xlim(), [tn[1], tn[3]], 1e-8), "{0}: axes show {1}", o, ax.get_xlim())
        return "time"

    # ------------------------------------------------------------------ 1-D
    def run_line1(self, case, rec):
        d, o = case
        v = self.v
        nc = np.array(XS["p" if d["crds"] == "n" else "u"][0])
        arr = self.values([len(nc) - (d["center"] == "cell")], "mixed", d["dtype"], 0)
        if d["nan"] and d["nan"] < 4:
            arr[d["nan"] - 1] = np.nan
        elif d["nan"]:
            arr[-1] = np.nan
        uni = d["crds"] == "u"
        crds = v.wrap_crds("uniform_cartesian" if uni else "nonuniform_cartesian", [("x", [nc[0], nc[-1], len(nc)] if uni else nc.copy())])
        f = v.wrap_field(arr.copy(), crds, name="f", center=d["center"], pretty_name="Pretty")
        x = nc if d["center"] == "node" else centers(nc)
        val = np.array(arr, dtype="f8")
        if d["npatch"] == 2:
            from viscid import grid, amr_grid
            gs = []
            for k in (0, 1):
                c2 = v.wrap_crds("nonuniform_cartesian", [("x", nc + k * 10.0), ("y", np.array([0.0, 1.0])), ("z", np.array([0.0, 1.0]))])
                g = grid.Grid()
                g.set_crds(c2)
                a2 = np.repeat((arr + k)[:, None], 1 + (d["center"] == "node"), axis=1)
                a2 = np.repeat(a2[:, :, None], 1 + (d["center"] == "node"), axis=2)
                g.add_field(v.wrap_field(a2, c2, name="f", center=d["center"], pretty_name="Pretty"))
                gs.append(g)
            f = amr_grid.AMRGrid(gs)["f"].slice_reduce("y=0.1f,z=0.1f")
            x = np.concatenate([x, x + 10.0])
            val = np.concatenate([val, val + 1])
        was = self.snap(f)
        ax = self.plt.gca()
        p, cb = self.vlt.plot(f, **o)
        self.same(f, was, o)
        line = p[0]
        s = o.get("scale", 1)
        y = np.ma.filled(np.ma.asarray(line.get_ydata(orig=True)).astype("f8"), np.nan)
        xd = np.asarray(line.get_xdata(orig=True), dtype="f8")
        require(near(xd, x * o.get("mod", 1)), "{0}: drawn at {1}, want {2}", o, xd, x * o.get("mod", 1))
        require(len(y) == len(val) and np.allclose(y, val * s, rtol=1e-6, equal_nan=True), "{0}: values drawn {1}, want {2}", o, y, val * s)
        log = "log" in o or "loglog" in o
        require(ax.get_yscale() == ("log" if log else "linear") and ax.get_xscale() == ("log" if "loglog" in o else "linear"), "{0}: scales {1} {2}", o, ax.get_xscale(), ax.get_yscale())
        lim = ax.get_ylim()
        fin = (val * s)[np.isfinite(val)]
        if o.get("symmetric") or o.get("lin", 1) == 0:
            require(abs(lim[0] + lim[1]) < 1e-6 * lim[1] and abs(lim[1] - max(abs(fin)) - 0.05 * np.ptp(fin)) < 1e-5 * lim[1], "{0}: axis shows {1}", o, lim)
        elif "lin" in o:
            require(near(lim, (-1.0, 2.0)), "{0}: axis shows {1}", o, lim)
        elif "vmin" in o or "clim" in o:
            require(near(lim[0], o.get("vmin", o.get("clim"))), "{0}: axis shows {1}", o, lim)
        elif "vmax" in o:
            require(near(lim[1], 4.0), "{0}: axis shows {1}", o, lim)
        if "x" in o:
            require(near(ax.get_xlim(), o["x"]), "{0}: axis shows {1}", o, ax.get_xlim())
        lab = o.get("label", "Pretty")
        require(line.get_label() == lab, "{0}: label {1}", o, line.get_label())
        want = ("", "") if o.get("nolabels") else (o.get("xlabel", "x"), o.get("ylabel", lab))
        require((ax.get_xlabel(), ax.get_ylabel()) == want, "{0}: labels {1}, want {2}", o, (ax.get_xlabel(), ax.get_ylabel()), want)
        leg = ax.get_legend()
        require((leg is not None) == ("legend" in o), "{0}: legend {1}", o, leg)
        if leg is not None:
            require([t.get_text() for t in leg.get_texts()] == [lab], "{0}: legend {1}", o, [t.get_text() for t in leg.get_texts()])
            require(leg._loc_real == (0 if o["legend"] is True else o["legend"]), "{0}: the legend is at {1}", o, leg._loc_real)
        return "1d"

    def run_string(self, case, rec):
        s, d, base = case
        given = dict(base)
        got = self.vlt.plot_opts_to_kwargs(s, given)
        want = dict(base, **d)
        require(got == want and all(type(got[k]) is type(want[k]) for k in want), "{0!r} gives {1}, want {2}", s, got, want)
        require(given == base, "{0!r} changed the caller's options to {1}", s, given)
        return "string"

    # ---------------------------------------------------------------- lines
    def mklines(self, n):
        out = []
        n, _, flat = n.partition(" ")
        for k, m in enumerate(LINES[n]):
            t = np.arange(m) * 1.0
            out.append(np.array([0.5 * t + k, 0.25 * t * t - k, 1.0 - 0.5 * t * (k + 1) + 0.125 * t * t]))
            for c in flat:
                out[-1]["xyz".index(c)] = 0.75
        return out

    @staticmethod
    def plane(pts):
        """the last of the axes along which all points are the same"""
        pts = np.concatenate(pts, axis=1) if isinstance(pts, list) else pts
        same = [a for a, c in zip("xyz", pts) if np.allclose(c, c[0])]
        return same[-1] if same else ""

    def scal(self, how, lines, rng=255.0):
        """-> (argument, values per vertex | colors per vertex (n, 3|4) in 0..1, None)"""
        npts = [l.shape[1] for l in lines]
        N, nl = sum(npts), len(lines)
        hexes = ["#ff8000", "#0040c0", "#102030", "#ffffff", "#00ff7f"][:nl]
        rgb = np.array([[int(h[i:i + 2], 16) for i in (1, 3, 5)] for h in ["#ff8000", "#0040c0", "#102030", "#ffffff", "#00ff7f"]]) / 255.0
        rep = lambda a: np.repeat(np.asarray(a), npts, axis=0)
        per = (np.arange(3 * N).reshape(N, 3) * 5 % 64) * 4 / 255.0
        if how == "hex":
            return "#ff8000", None, np.repeat(rgb[:1], N, axis=0)
        if how == "name":
            return "blue", None, np.repeat([[0.0, 0.0, 1.0, 1.0]], N, axis=0)
        if how == "hexes":
            return hexes, None, rep(rgb[:nl])
        if how == "names":
            return ["r", "blue", "lime", "k", "w"][:nl], None, rep(np.array([[1, 0, 0, 1], [0, 0, 1, 1], [0, 1, 0, 1], [0, 0, 0, 1], [1, 1, 1, 1.0]])[:nl])
        if how == "rgb":
            return (1.0, 128 / 255.0, 0.0), None, np.repeat([[1.0, 128 / 255.0, 0.0]], N, axis=0)
        if how == "rgbs":
            return [tuple(c) for c in rgb[:nl]], None, rep(rgb[:nl])
        if how == "rgbas":
            a = np.concatenate([rgb[:nl], np.full((nl, 1), 51 / 255.0)], axis=1)
            return [list(c) for c in a], None, rep(a)
        if how == "vals":
            return [1.5 * k - 1 for k in range(nl)], rep([1.5 * k - 1 for k in range(nl)]), None
        if how == "valsarr":
            return np.arange(N) * 0.5 - 1, np.arange(N) * 0.5 - 1, None
        if how == "each":
            s = np.split(np.arange(N) * 2.0 + 3, np.cumsum(npts)[:-1])
            return s, np.arange(N) * 2.0 + 3, None
        if how == "rgbv":
            return per.copy(), None, per
        if how == "rgbvT":
            return np.ascontiguousarray(per.T), None, per
        if how == "field":
            x = np.linspace(-40, 40, 9)
            f = self.v.zeros(self.v.wrap_crds("uniform_cartesian", [(a, [-40, 40, 9]) for a in "xyz"]), center="node")
            X, Y, Z = f.get_crds(shaped=True)
            f.data[...] = 1.0 + X - 2 * Y + 0.5 * Z
            v = np.concatenate(lines, axis=1)
            return f, 1.0 + v[0] - 2 * v[1] + 0.5 * v[2], None
        raise KeyError(how)

    def run_lines(self, case, rec):
        nd, n, how, sub, mark, sym, flip = case
        lines = self.mklines(n)
        npts = [l.shape[1] for l in lines]
        N, nl = sum(npts), len(lines)
        kw = {}
        arg, vals, cols = None, None, None
        xi, yi, zi = {"x": (1, 2, 0), "y": (0, 2, 1), "z": (0, 1, 2), "": (0, 1, 2)}[sym or self.plane(lines)]
        if how == "six":
            _, _, cols = self.scal("rgbv", lines)
            cs = np.split(cols.T, np.cumsum(npts)[:-1], axis=1)
            given = [np.concatenate([l, c]) for l, c in zip(lines, cs)]
        else:
            given = [l.copy() for l in lines]
            if how == "zloc":
                kw["colors"] = "zloc"
                arg, vals = None, np.concatenate(lines, axis=1)[zi]
            elif how:
                arg, vals, cols = self.scal(how, lines)
        if cols is not None and (nl in (3, 4) or N in (3, 4)) and how in ("rgb", "rgbv", "rgbvT", "six", "rgbs", "rgbas") and not (how in ("rgbs",) and nl == 3):
            return "ambiguous"
        if how in ("rgbs", "rgbas") and N == nl:
            return "ambiguous"
        keep = [a.copy() for a in given]
        karg = [np.array(a) for a in arg] if isinstance(arg, list) else arg.copy() if isinstance(arg, np.ndarray) else None
        types = [type(a) for a in arg] if isinstance(arg, list) else None
        if mark:
            kw["marker"] = mark
        # the lines as prepared
        if how != "zloc":
            verts, sc, con, _ = self.u.prepare_lines(given, arg, do_connections=True)
            require(near(verts, np.concatenate(lines, axis=1)), "prepare_lines: vertices {0}", verts.tolist())
            wc = [(i, i + 1) for f0, m in zip(np.cumsum([0] + npts[:-1]), npts) for i in range(f0, f0 + m - 1)]
            require([tuple(c) for c in np.asarray(con).reshape(-1, 2)] == wc, "prepare_lines: connections {0}, want {1}", np.asarray(con).tolist(), wc)
            if vals is not None:
                require(near(sc, vals), "prepare_lines: scalars {0}, want {1}", sc, vals)
            elif cols is not None:
                require(sc.dtype == np.dtype("u1") and sc.shape[1] == N and near(sc.T[:, :3] / 255.0, cols[:, :3], 1e-6), "prepare_lines: colors {0}, want {1}", sc.tolist(), (cols.T * 255).tolist())
            else:
                require(sc is None, "prepare_lines: scalars {0}", sc)
        if nd == 2:
            ax = self.plt.gca()
            r = self.vlt.plot2d_lines(given, scalars=arg, symdir=sym, flip_plot=flip, subsample=sub, **kw)
            segs = np.array([np.asarray(s) for s in r.get_segments()])
            inds = (yi, xi) if flip else (xi, yi)
        else:
            r = self.vlt.plot3d_lines(given, scalars=arg, subsample=sub, **kw)
            ax = self.plt.gca()
            segs = np.array([np.asarray(s) for s in r._segments3d])
            inds = (0, 1, 2)
        for a, b in zip(given, keep):
            require(np.array_equal(a, b), "the caller's lines were changed")
        if karg is not None:
            require(all(np.array_equal(a, b) for a, b in zip(karg, arg)) and (types is None or [type(a) for a in arg] == types), "the caller's scalars were changed to {0}", arg)
        want, wv, wcol, pts, pv = [], [], [], [], []
        at = 0
        for l, m in zip(lines, npts):
            mf = m if not sub else int(np.ceil(sub * (m - 1))) + 1
            tc, tf = np.linspace(0, 1, m), np.linspace(0, 1, mf) if m > 1 else np.zeros(1)
            fine = np.array([np.interp(tf, tc, l[i]) for i in inds]) if m > 1 else l[list(inds)]
            pts.append(fine)
            for k in range(mf - 1):
                want.append(fine[:, k:k + 2].T)
            for src, dst in ((vals, wv), (cols, wcol)):
                if src is not None:
                    q = np.asarray(src)[at:at + m]
                    if m > 1:
                        q = np.array([np.interp(tf, tc, c) for c in q.reshape(m, -1).T]).T.reshape([mf] + list(q.shape[1:]))
                    dst.append(q[:-1])
                    if dst is wv:
                        pv.append(q)
            at += m
        require(near(segs, np.array(want)), "{0}: segments {1}, want {2}", case, segs.tolist()[:4], np.array(want).tolist()[:4])
        if wv:
            require(r.get_array() is not None and near(r.get_array(), np.concatenate(wv)), "{0}: values {1}, want {2}", case, r.get_array(), np.concatenate(wv))
        elif wcol:
            got = np.asarray(r.get_edgecolor())
            w = np.concatenate(wcol)
            require(got.shape[0] == len(w) and np.abs(got[:, :w.shape[1]] - w).max() < 0.51 / 255 + 1e-9 if w.shape[1] == got.shape[1] or True else False,
                    "{0}: colors {1}, want {2}", case, got.tolist(), w.tolist())
        pts = np.concatenate(pts, axis=1)
        lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if nd == 3 else [])
        for c, lim in zip(pts, lims):
            require(lim[0] <= c.min() + 1e-9 and c.max() - 1e-9 <= lim[1], "{0}: axes show {1}, vertices from {2} to {3}", case, lim, c.min(), c.max())
        if mark and nd == 2:
            sc = [c for c in ax.collections if isinstance(c, self.col.PathCollection)][0]
            require(near(np.asarray(sc.get_offsets()), pts.T), "{0}: markers {1}, want {2}", case, np.asarray(sc.get_offsets()).tolist(), pts.T.tolist())
            if pv:
                require(near(sc.get_array(), np.concatenate(pv)), "{0}: values of markers {1}", case, sc.get_array())
        return "lines"

    # --------------------------------------------------------------- arrows
    def vec(self, center, lay, dims, crds, lin=False):
        nc = dict(zip(dims, [np.array(x) for x in XS[crds]]))
        other = [a for a in "xyz" if a not in dims][0]
        nc[other] = np.array([0.0, 1.0, 2.0, 4.0])
        axes = sorted(nc)
        uni = False
        c = self.v.wrap_crds("nonuniform_cartesian", [(a, nc[a].copy()) for a in axes])
        f = self.v.zeros(c, center=center, nr_comps=3, layout=lay)
        g = np.meshgrid(*[nc[a] if center == "node" else centers(nc[a]) for a in axes], indexing="ij")
        f["x"] = 1.0 + g[0] - 2 * g[1] + g[2]
        f["y"] = -2.0 + 0.5 * g[0] + g[1] + 3 * g[2]
        f["z"] = 0.25 - g[0] + 0.5 * g[1] - g[2]
        val = {"x": lambda x, y, z: 1.0 + x - 2 * y + z, "y": lambda x, y, z: -2.0 + 0.5 * x + y + 3 * z, "z": lambda x, y, z: 0.25 - x + 0.5 * y - z}
        f = f["%s=1" % other]
        pos = (nc[other] if center == "node" else centers(nc[other]))[1]
        pl = [nc[a] if center == "node" else centers(nc[a]) for a in dims]

        def at(comp, a, b):
            q = dict(zip(dims, (a, b)))
            q[other] = pos
            return val[comp](q["x"], q["y"], q["z"])
        return f, pl, at

    def run_quiver(self, case, rec):
        center, lay, dims, crds, step = case
        f, pl, at = self.vec(center, lay, dims, crds)
        was = self.snap(f)
        q = self.vlt.plot2d_quiver(f, step=step)
        self.same(f, was, step)
        X, Y, U, V = [np.ravel(a) for a in (q.X, q.Y, q.U, q.V)]
        st = step if isinstance(step, list) else [step, step]
        places = []
        for d, (got, x) in enumerate(zip((X, Y), pl)):
            ind = sorted(set(int(np.argmin(abs(x - g))) for g in got))
            require(all(min(abs(x - g)) < 1e-9 for g in got), "arrows at {0}, not among {1}", got, x)
            require(ind[0] < st[d] and all(b - a == st[d] for a, b in zip(ind[:-1], ind[1:])) and ind[-1] + st[d] >= len(x), "arrows at the points {0} of {1} for step {2}", ind, len(x), step)
            places.append(ind)
        require(len(X) == len(places[0]) * len(places[1]) and len(set(zip(X, Y))) == len(X), "{0} arrows", len(X))
        for a, b, u, w in zip(X, Y, U, V):
            require(near([u, w], [at(dims[0], a, b), at(dims[1], a, b)]), "arrow at {0} {1}: {2}, want {3}", a, b, [u, w], [at(dims[0], a, b), at(dims[1], a, b)])
        return "quiver"

    def run_stream(self, case, rec):
        center, lay, dims, crds, o = case
        f, pl, at = self.vec(center, lay, dims, crds)
        was = self.snap(f)
        kw = {}
        for k, x in o.items():
            kw[k] = x if x != "field" else f["x"]
        ax = self.plt.gca()
        seen = []
        orig = ax.streamplot

        def record(x, y, u, v, **k):
            seen.append([np.array(q, dtype="f8") for q in (x, y, u, v)] + [k])
            return orig(x, y, u, v, **k)
        ax.streamplot = record
        try:
            self.vlt.streamplot(f, **kw)
        finally:
            del ax.streamplot
        self.same(f, was, o)
        require(len(seen) == 1, "streamplot was called {0} times", len(seen))
        x, y, u, v, k = seen[0]
        x = x[0] if x.ndim == 2 else x
        y = y[:, 0] if y.ndim == 2 else y
        for q, p in ((x, pl[0]), (y, pl[1])):
            require(np.allclose(np.diff(q), np.diff(q)[0]), "places {0} are not even", q)
            require(q[0] <= p[0] + 1e-9 and q[-1] >= p[-1] - 1e-9, "places {0} do not reach over {1}", q, p)
        require(u.shape == v.shape == (len(y), len(x)), "shape {0}", u.shape)
        lines = {dims[0]: u, dims[1]: v}
        extra = [q for q in ("color", "linewidth") if q in o]
        for comp, g in list(lines.items()) + [("x", np.array(k[q])) for q in extra]:
            for i, j in itertools.product(range(len(y)), range(len(x))):
                w = at(comp, min(max(x[j], pl[0][0]), pl[0][-1]), min(max(y[i], pl[1][0]), pl[1][-1]))
                require(abs(g[i, j] - w) < 1e-9, "{0} at {1} {2}: {3}, want {4}", comp, x[j], y[i], g[i, j], w)
        return "stream"

    def run_points(self, case, rec):
        sym, flip, c, nd, n, flat = case
        t = np.arange(n) * 1.0
        pts = np.array([0.5 * t + 1, t * t - 1, 3 - t])[:nd]
        for a in flat:
            pts["xyz".index(a)] = 0.75
        keep = pts.copy()
        xi, yi, zi = {"x": (1, 2, 0), "y": (0, 2, 1), "z": (0, 1, 2), "": (0, 1, 2)}[sym or (self.plane(pts) if nd == 3 else "")]
        arg = c if c != "vals" else list(t * 2)
        p, _ = self.vlt.scatter_2d(pts, c=arg, symdir=sym, flip_plot=flip)
        require(np.array_equal(pts, keep), "points changed")
        if flip:
            xi, yi = yi, xi
        require(near(np.asarray(p.get_offsets()), pts[[xi, yi]].T), "points drawn at {0}, want {1}", np.asarray(p.get_offsets()).tolist(), pts[[xi, yi]].T.tolist())
        if c == "zloc":
            require(near(p.get_array(), pts[zi]), "colored by {0}, want {1}", p.get_array(), pts[zi])
        elif c == "vals":
            require(near(p.get_array(), t * 2), "colored by {0}", p.get_array())
        ax = self.plt.gca()
        require((ax.get_xlabel(), ax.get_ylabel()) == ("xyz"[xi], "xyz"[yi]), "labels {0} {1}", ax.get_xlabel(), ax.get_ylabel())
        return "points"

    def run_points3(self, case, rec):
        c, n = case
        t = np.arange(n) * 1.0
        pts = np.array([0.5 * t + 1, t * t - 1, 3 - t])
        ax = self.plt.figure(1).add_subplot(projection="3d")
        p, _ = self.vlt.scatter_3d(pts, c=c, ax=ax)
        require(near(np.array([np.asarray(q) for q in p._offsets3d]), pts), "points drawn at {0}", p._offsets3d)
        if c == "zloc":
            require(near(p.get_array(), pts[2]), "colored by {0}", p.get_array())
        return "points"

    # ----------------------------------------------------------------- maps
    def run_map(self, case, rec):
        center, kind, units, hem, blat, style, part = case
        v = self.v
        lat = {"full": np.linspace(-90, 90, 13), "north": np.linspace(0, 90, 7), "south": np.linspace(-90, 0, 7)}[part]
        lon = np.linspace(0, 360, 9)
        k = np.pi / 180 if units == "rad" else 1.0
        if kind == "map":
            cr = [("lon", lon * k), ("lat", lat * k)]
        else:
            cr = [("phi", lon * k), ("theta", (90 - lat)[::-1] * k)]
        crds = v.wrap_crds("nonuniform_spherical", [(a, x.copy()) for a, x in cr], units=units)
        shape = [len(x) - (center == "cell") for _, x in cr]
        arr = (np.arange(np.prod(shape)) * 1.0 + 100.0).reshape(shape)
        f = v.wrap_field(arr.copy(), crds, name="f", center=center, pretty_name="Pretty")
        was = self.snap(f)
        kw = {"hemisphere": hem} if hem else {}
        if blat:
            kw["bounding_lat"] = blat
        s = 1.0
        if style == "iono":
            s = 2.0
            p, cb = self.vlt.plot_iono(f, scale=s, units="kV", colorbar=False, **kw)
        else:
            p, cb = self.vlt.plot(f, colorbar=False, **kw)
        self.same(f, was, kw)
        ax = p.axes
        la, lo = (lat, lon) if center == "node" else (centers(lat), centers(lon))
        if kind == "sphere":
            arr = arr[:, ::-1]
        south = (hem or ("south" if part == "south" else "north"))[0] == "s"
        full = part == "full" and center == "node" or abs(la[-1] - la[0]) >= 90.01
        lim = blat if blat else 40.0 if full else 90.0
        got = {}
        for (x0, x1, y0, y1), q in self.quads(p).items():
            got[round(q / s, 6)] = (0.5 * (x0 + x1), 0.5 * (y0 + y1))
        for (i, j) in itertools.product(range(len(lo)), range(len(la))):
            r = np.radians(90 + la[j] if south else 90 - la[j])
            val = round(float(arr[i, j]), 6)
            if val in got:
                q = got.pop(val)
                require(abs(q[1] - r) < 1e-6 and abs(q[0] - np.radians(lo[i])) < 1e-6, "{0}: the value at longitude {1} and latitude {2} is drawn at {3}", case, lo[i], la[j], q)
            else:
                require(r > np.radians(lim) - 1e-6 or (center == "cell" and r > np.radians(lim) - np.radians(15)), "{0}: the value at longitude {1} and latitude {2} is not drawn", case, lo[i], la[j])
        require(not got, "{0}: drawn {1}, which are no values of the field", case, list(got.items())[:3])
        if blat:
            require(abs(ax.get_rmax() - np.radians(lim)) < 1e-6, "{0}: the map reaches to {1}", case, np.degrees(ax.get_rmax()))
        require(abs(ax.get_theta_offset() + np.pi / 2) < 1e-9, "{0}: noon is turned by {1}", case, ax.get_theta_offset())
        if style == "iono":
            side = [s * arr[i, j] for i, j in itertools.product(range(len(lo)), range(len(la))) if (la[j] <= -10 if south else la[j] >= 10)]
            mn, mx = min(side), max(side)
            want = ["Min: %.1f kV" % mn, "Max: %.1f kV" % mx, "CPCP: %.1f kV" % (mx - mn)]
            txt = [t.get_text() for t in ax.texts]
            require(all(w in txt for w in want), "{0}: says {1}, want {2}", case, txt, want)
            require(ax.get_title().strip() == "Pretty", "title {0}", ax.get_title())
        else:
            require(ax.get_title() == "Pretty", "title {0}", ax.get_title())
        return "map"
