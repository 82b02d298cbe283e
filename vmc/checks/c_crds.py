"""Coordinates: every way of asking gives the same answer"""
import itertools

import numpy as np

from vmc import fld
from vmc.core import Check, Fail, require

AXES = {1: ["x", "z", "t"], 2: ["xy", "zx", "ab"], 3: ["xyz", "zyx", "rab"]}


def mid(x):
    return x if len(x) == 1 else x[:-1] + 0.5 * (x[1:] - x[:-1])


class Crds(Check):
    pid = "V20"
    rule = ("exhaustive over 1 to 3 axes, 1 to 4 points each, uniform, uneven, tiny, huge, shifted, descending, date and "
            "duration axes, axis names in any order, mirrored axes, and ways of building; every accessor")
    bounds = {"points per axis": "1..4 (3-D: 1..3)", "dims": "1..3"}
    assumptions = ("uniform axes of one point have no cells",)

    def setup(self):
        import viscid
        self.v = viscid

    def shards(self, tier):
        return [(nd, b) for nd in (1, 2, 3) for b in ("uniform", "uniform_full", "nonuniform", "auto", "reflect", "reflectu",
                                                      "field")]

    def cases(self, shard, tier):
        nd, build = shard
        kinds = {"uniform": "uvoU", "uniform_full": "uoU", "nonuniform": "nuNwpdt", "auto": "unNUdt", "reflect": "nuN",
                 "reflectu": "uU", "field": "nuN"}[build]
        lens = (1, 2, 3, 4) if nd < 3 else (1, 2, 3)
        if nd == 3 and tier == "quick":
            kinds = "nd" if build == "nonuniform" else kinds[:2]
        for ks in itertools.product(kinds, repeat=nd):
            if "d" in ks and "t" in ks:
                continue
            for shape in itertools.product(lens, repeat=nd):
                for i, axes in enumerate(AXES[nd]):
                    if i and (nd == 3 or build == "field") and len(set(shape)) != nd:
                        continue
                    flips = itertools.product((0, 1), repeat=nd) if build.startswith("reflect") else [()]
                    for fl in flips:
                        yield dict(build=build, kinds="".join(ks), shape=list(shape), axes=axes, flip=list(fl))

    def arr(self, k, n, i):
        x = fld.nodes(k.lower(), n, shift=0.0 if k in "dt" else -1.0 - i)
        return x[::-1].copy() if k.isupper() else x

    def crds(self, case):
        v = self.v
        xs = [self.arr(k, n, i) for i, (k, n) in enumerate(zip(case["kinds"], case["shape"]))]
        clist = [(a, x.copy()) for a, x in zip(case["axes"], xs)]
        b = case["build"]
        kw = {}
        units = ["u" + a for a in case["axes"]]
        if b.startswith("reflect"):
            kw["reflect_axes"] = [a for a, f in zip(case["axes"], case["flip"]) if f]
        if b in ("uniform", "reflectu"):
            c = v.wrap_crds("uniform_cartesian", [(a, [x[0], x[-1], len(x)]) for a, x in clist], units=units, **kw)
        elif b == "uniform_full":
            c = v.wrap_crds("uniform_cartesian", clist, full_arrays=True, quiet_init=True, units=units)
        elif b == "auto":
            c = v.arrays2crds([x for _, x in clist], crd_names=case["axes"], units=units)
            want = all(k in "uU" or (n <= 2 and k not in "dt") for k, n in zip(case["kinds"], case["shape"]))
            require(c.is_uniform() == want, "{0}: uniform is {1}", c.crdtype, c.is_uniform())
        else:
            c = v.wrap_crds("nonuniform_cartesian", clist, units=units, **kw)
        if kw:
            xs = [-x[::-1] if f else x for x, f in zip(xs, case["flip"])]
        return c, xs

    def accessors(self, c, xs, axes, reflected):
        nd = len(xs)
        tol = 1e-12
        ccs = [mid(x) for x in xs]
        for what, arrs, sfxs in (("node", xs, ("", "nc")), ("cell", ccs, ("cc",))):
            for i, (a, w) in enumerate(zip(axes, arrs)):
                shp = [1] * nd
                shp[i] = len(w)
                gets = [c.get_crd(a, center=what), c.get_crd(i, center=what), c.get_crds(center=what)[i],
                        c.get_crds([a], center=what)[0], c.get_crds([i], center=what.upper())[0]]
                gets += [c[a + s] for s in sfxs]
                gets += [c.get_nc(a), c.get_crds_nc()[i], c.get_crds_nc([a])[0]] if what == "node" else \
                    [c.get_cc(a), c.get_crds_cc()[i], c.get_crds_cc([i])[0]]
                if what == "node":
                    gets += [c.get_crd(a), c.get_crds()[i]]
                for j, g in enumerate(gets):
                    require(self.same(g, w, tol), "{0} {1} ({2}): {3}, want {4}", what, a, j, fld.short(g), fld.short(w))
                shaped = [c.get_crd(a, shaped=True, center=what), c.get_crds(shaped=True, center=what)[i]]
                shaped += [c[a.upper() + s] for s in sfxs]
                for j, g in enumerate(shaped):
                    require(self.same(g, w.reshape(shp), tol), "shaped {0} {1} ({2}): {3}, want {4}", what, a, j, g, w)
        for j, d in enumerate(axes):
            for i, a in enumerate(axes):
                w = ccs[i] if i != j else xs[i][:-1]
                g = c.get_crds_fc()[i][j]
                require(self.same(g, w, tol), "faces: {0} of component {1} {2}, want {3}", a, d, g, w)
                shp = [1] * nd
                shp[i] = -1
                if len(xs[i]) > 1:
                    g = c.get_crds_fc(shaped=True)[i][j]
                    require(self.same(g, w.reshape(shp), tol), "shaped faces: {0} of component {1} {2}, want {3}", a, d, g, w)
                w = ccs[i] if i == j else xs[i][:-1]
                g = c.get_crds_ec()[i][j]
                require(self.same(g, w, tol), "edges: {0} of component {1} {2}, want {3}", a, d, g, w)
                if len(xs[i]) > 1:
                    g = c.get_crds_ec(shaped=True)[i][j]
                    require(self.same(g, w.reshape(shp), tol), "shaped edges: {0} of component {1} {2}, want {3}", a, d, g, w)
        return ccs

    @staticmethod
    def same(g, w, tol):
        g = np.asarray(g)
        if g.shape != w.shape:
            return False
        if w.dtype.kind in "mM":
            return fld.same(g, w)
        return bool(np.all(np.abs(g - w) <= tol * np.max(np.abs(w)))) if w.size else True

    def run_case(self, case, rec):
        v = self.v
        rec.step()
        rec.state(sorted((k, repr(x)) for k, x in case.items()))
        c, xs = self.crds(case)
        axes = list(case["axes"])
        nd = len(axes)
        if case["build"] == "field":
            return self.field_case(c, xs, axes)
        uni = c.is_uniform()
        dates = any(x.dtype.kind in "mM" for x in xs)
        require(list(c.axes) == axes and len(c) == c.nr_dims == nd, "axes {0}", c.axes)
        ccs = self.accessors(c, xs, axes, any(case["flip"]))
        if any(case["flip"]):
            r = c.apply_reflections()
            self.accessors(r, xs, axes, False)
            require(r.reflect_axes == [], "mirrored twice: {0}", r.reflect_axes)
            c = r
        else:
            require(c.get_units(axes) == ["u" + a for a in axes], "units {0}", c.get_units(axes))
        has_cells = not uni or min(case["shape"]) > 1
        shape = [len(x) for x in xs]
        require(list(c.shape) == list(c.shape_nc) == shape, "shape {0}, want {1}", c.shape, shape)
        require(c.size == c.size_nc == np.prod(shape), "size {0}", c.size)
        cshape = [len(x) for x in ccs]
        if has_cells:
            require(list(c.shape_cc) == cshape and c.size_cc == np.prod(cshape), "cells {0}, want {1}", c.shape_cc, cshape)
        for i, a in enumerate(axes):
            require(c.ind(a) == i and c.ind(i) == i and a in c and a.upper() + "cc" in c, "axis {0}", a)
            require(list(c.get_culled_axes(i)) == [b for b, n in zip(axes, shape) if n > i], "culled axes")
        for center, arrs in (("node", xs), ("cell", ccs)):
            if center == "cell" and not has_cells:
                continue
            sfx = "_nc" if center == "node" else "_cc"
            for sub in [None] + [list(s) for n in range(1, nd + 1) for s in itertools.permutations(range(nd), n)]:
                idx = list(range(nd)) if sub is None else sub
                for names in ([None] if sub is None else [sub, [axes[i] for i in sub]]):
                    lo = [arrs[i][0] for i in idx]
                    hi = [arrs[i][-1] for i in idx]
                    self.cmp("lowest " + center, c.get_xl(names, center=center), lo, arrs, idx)
                    self.cmp("highest " + center, c.get_xh(names, center=center), hi, arrs, idx)
                    if not dates:
                        self.cmp("length " + center, c.get_L(names, center=center), [h - l for h, l in zip(hi, lo)], arrs, idx)
                        if all(len(arrs[i]) > 1 for i in idx):
                            self.cmp("smallest step " + center, c.get_min_dx(names, center=center),
                                     [np.min(np.diff(arrs[i])) for i in idx], arrs, idx)
            self.cmp("xl" + sfx, getattr(c, "xl" + sfx), [x[0] for x in arrs], arrs, range(nd))
            self.cmp("xh" + sfx, getattr(c, "xh" + sfx), [x[-1] for x in arrs], arrs, range(nd))
            if not dates:
                self.cmp("L" + sfx, getattr(c, "L" + sfx), [x[-1] - x[0] for x in arrs], arrs, range(nd))
            for full in ([True, False] if uni else [True]):
                cl = c.get_clist(full_arrays=full, center=center)
                require([a for a, _ in cl] == axes, "clist axes {0}", [a for a, _ in cl])
                for (a, x), w in zip(cl, arrs):
                    x = np.linspace(*x) if not full else x
                    require(self.same(x, w, 1e-12), "clist {0} {1}: {2}, want {3}", center, a, x, w)
            sub = c.get_clist(axes[::-1], full_arrays=True, center=center)
            require([a for a, _ in sub] == axes[::-1] and all(self.same(x, w, 1e-12) for (_, x), w in zip(sub, arrs[::-1])),
                    "clist of chosen axes {0}", sub)
            require(c.get_nr_points(center=center) == np.prod([len(x) for x in arrs]), "nr_points {0}",
                    c.get_nr_points(center=center))
            for (a, x), dx in zip(c.get_clist(full_arrays=True, center=center), c.get_dx(center=center)):
                if len(x) > 1:
                    require(self.same(dx, np.diff(x), 1e-12), "steps {0}: {1}", a, dx)
            if not dates:
                want = np.array(list(itertools.product(*arrs))).T
                require(self.same(np.array(list(c.iter_points(center=center))).T, want, 1e-12), "iter_points {0}", center)
                for g in (c.get_points(center=center), c.points(center=center)):
                    require(self.same(g, want, 1e-12), "points {0}: {1}, want {2}", center, g.tolist(), want.tolist())
        if not dates and all(n > 1 for n in shape) or not dates and uni:
            self.convert(c, xs, axes)
        return "%dd %s" % (nd, "uniform" if uni else "uneven")

    def cmp(self, what, g, w, arrs, idx):
        """up to rounding on the scale of the coordinates"""
        require(len(g) == len(w), "{0}: {1}, want {2}", what, g, w)
        for a, b, i in zip(g, w, idx):
            if arrs[i].dtype.kind in "mM":
                require(a == b, "{0}: {1}, want {2}", what, a, b)
            else:
                tol = 1e-12 * np.max(np.abs(arrs[i]))
                require(not np.ma.is_masked(a) and abs(a - b) <= tol or abs(b) <= tol and np.ma.is_masked(a),
                        "{0}: {1}, want {2}", what, g, w)

    def convert(self, c, xs, axes):
        """turning points into cells, and back"""
        w = 1e-3
        d = c.nc2cc(default_width=w)
        require(list(d.axes) == axes, "axes in cells: {0}", d.axes)
        for i, x in enumerate(xs):
            e = d.get_nc(axes[i])
            if len(x) == 1:
                want = np.array([x[0] - 0.5 * w, x[0] + 0.5 * w])
            else:
                m = mid(x)
                want = np.concatenate([[m[0] - (x[1] - x[0])], m, [m[-1] + (x[-1] - x[-2])]])
            require(self.same(e, want, 1e-9), "edges of cells around points {0}: {1}, want {2}", x, e, want)
        if len(axes) < 3 and all(a in "xyz" for a in axes) and axes == sorted(axes):
            q = c.atleast_3d(-2.0, 4.0)
            require(list(q.axes) == ["x", "y", "z"], "three axes: {0}", q.axes)
            for a in "xyz":
                want = xs[axes.index(a)] if a in axes else np.array([1.0])
                require(self.same(q.get_nc(a), want, 1e-12), "three axes, {0}: {1}, want {2}", a, q.get_nc(a), want)
            q = c.atleast_3d(-2.0, 4.0, cc=True)
            for a in "xyz":
                want = xs[axes.index(a)] if a in axes else np.array([-2.0, 4.0])
                require(self.same(q.get_nc(a), want, 1e-12), "three axes of cells, {0}: {1}, want {2}", a, q.get_nc(a), want)

    def field_case(self, c, xs, axes):
        """the same, asked of a field"""
        v = self.v
        nd = len(axes)
        ccs = [mid(x) for x in xs]
        for center in ("node", "cell"):
            if center == "cell" and min(len(x) for x in xs) < 2:
                continue
            arrs = xs if center == "node" else ccs
            shape = [len(x) for x in arrs]
            for layout in (None, "flat", "interlaced"):
                full = shape if layout is None else [3] + shape if layout == "flat" else shape + [3]
                f = v.wrap_field(np.arange(float(np.prod(full))).reshape(full), c, center=center,
                                 fldtype="scalar" if layout is None else "vector")
                self.field_accessors(f, c, xs, ccs, arrs, axes, center, shape)
        return "field"

    def field_accessors(self, f, c, xs, ccs, arrs, axes, center, shape):
        nd = len(axes)
        require(list(f.sshape) == shape and f.nr_sdims == nd and f.ssize == np.prod(shape), "field shape {0}", f.sshape)
        for i, a in enumerate(axes):
            shp = [1] * nd
            shp[i] = -1
            for g, w in ((f.get_crd(a), arrs[i]), (f.get_crd(i), arrs[i]), (f.get_crds()[i], arrs[i]),
                         (f.get_crds([a])[0], arrs[i]), (f.get_crd_nc(a), xs[i]), (f.get_crd_cc(a), ccs[i]),
                         (f.get_crds_nc()[i], xs[i]), (f.get_crds_cc()[i], ccs[i]),
                         (f.get_crds_vector()[i][1], arrs[i]),
                         (f.get_crd(a, shaped=True), arrs[i].reshape(shp)),
                         (f.get_crds(shaped=True)[i], arrs[i].reshape(shp)),
                         (f.get_crds_nc(shaped=True)[i], xs[i].reshape(shp))):
                require(self.same(g, w, 1e-12), "field {0} {1}: {2}, want {3}", center, a, g, w)
        mesh = np.meshgrid(*arrs, indexing="ij")
        for g, h, w in zip(f.meshgrid(), f.meshgrid_flat(), mesh):
            require(self.same(g, w, 1e-12) and self.same(h, w.ravel(), 1e-12), "meshgrid {0}, want {1}", g, w)
        keep = [i for i, n in enumerate(shape) if n > 1]
        if keep:
            got = f.meshgrid(prune=True)
            want = [m.reshape([shape[i] for i in keep]) for m in (mesh[i] for i in keep)]
            require(len(got) == len(want) and all(self.same(g, w, 1e-12) for g, w in zip(got, want)),
                    "pruned meshgrid {0}, want {1}", [g.tolist() for g in got], [w.tolist() for w in want])
        pts = np.array(list(itertools.product(*arrs))).T
        require(self.same(f.get_points(), pts, 1e-12) and self.same(f.points(), pts, 1e-12), "points of the field")
        require(f.nr_points == f.get_nr_points() == pts.shape[1], "number of points {0}", f.nr_points)
        require(self.same(np.array(list(f.iter_points())).T, pts, 1e-12), "points of the field, one by one")
        for other, w in (("node", xs), ("cell", ccs)):
            p = np.array(list(itertools.product(*w))).T
            require(self.same(f.get_points(center=other), p, 1e-12), "points of the field at {0}s", other)
        require(all(abs(a - x[0]) < 1e-12 for a, x in zip(f.xl, xs)) and all(abs(a - x[-1]) < 1e-12 for a, x in zip(f.xh, xs)),
                "extent {0} {1}", f.xl, f.xh)
        if nd == 3 and sorted(shape)[0] == 1:
            two = [n for n in shape if n > 1]
            two = two if len(two) == 2 else None
            if two:
                require(self.same(f.as_mesh(), pts.reshape([3] + two), 1e-12), "mesh {0}", f.as_mesh())
