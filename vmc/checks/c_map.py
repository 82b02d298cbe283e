"""Fields on spheres: latitudes and longitudes, theta and phi, degrees and radians; points on spheres"""
import itertools

import numpy as np

from vmc.core import Check, require

DEG = np.pi / 180


def val(i, j, c=0):
    """the value of the place (i-th phi from the west, j-th theta from the north)"""
    return float((i * 29 + j * 53 + c * 17) % 97 - 48)


class SphereMap(Check):
    pid = "V29"
    rule = ("all fields on parts of a sphere of the shapes, axes, units, centerings and layouts in the bounds, through every "
            "conversion and pair of conversions; all points of a menu and all their rows and units")
    bounds = {"axes": "lat or theta, lon or phi, either order", "values per axis": "2..4", "points": "all of {-2,-1,0,1,3}^3"}

    def setup(self):
        pass

    TARGETS = [(fn, order, units) for fn in ("as_mapfield", "as_spherefield") for order in (None, 0, 1)
               for units in ("", "deg", "rad", ("deg", "rad"), ["rad", ""], ["rad"])]

    def shards(self, tier):
        return [("conv", u, l) for u in ("", "deg", "rad", "mix") for l in range(4)] + [("polar",), ("pts",), ("pts2",), ("gc",), ("one",)]

    def fields(self, units, tier):
        for a in ("lat", "theta"):
            for o in ("lon", "phi"):
                for first in (0, 1):
                    for shape in ((2, 3), (3, 2), (4, 4)) + (((2, 2), (3, 4), (4, 3)) if tier == "thorough" else ()):
                        for center in ("node", "cell"):
                            for uni in (True, False):
                                yield dict(a=a, o=o, first=first, shape=list(shape), center=center, uniform=uni, units=units)

    LAYOUTS = [(0, "flat"), (3, "flat"), (3, "interlaced"), (2, "interlaced")]

    def cases(self, shard, tier):
        kind = shard[0]
        if kind == "conv":
            ncomp, layout = self.LAYOUTS[shard[2]]
            for f in self.fields(shard[1], tier):
                f.update(ncomp=ncomp, layout=layout)
                for i in range(len(self.TARGETS)):
                    yield dict(kind="conv", fld=f, seq=[i])
                if shard[1] != "" and ncomp != 2 and f["shape"] != [3, 2]:
                    for i in (0, 4, 7, 9):
                        for j in range(18, 36) if i < 18 else range(18):
                            if self.TARGETS[j][2] in ("", "deg", "rad"):
                                yield dict(kind="conv", fld=f, seq=[i, j])
        elif kind == "polar":
            for units in ("deg", "rad"):
                for f in list(self.fields(units, tier)) + [dict(a="theta", o=o, first=i, shape=[6, n], center=c, uniform=u, units=units)
                                                            for o in ("lon", "phi") for i in (0, 1) for n in (37, 200) for c in ("node", "cell")
                                                            for u in (True, False)]:
                    for ncomp, layout in self.LAYOUTS[:3]:
                        for hemi in ("north", "south", " N", "s"):
                            for bound in (None, 40.0, 70.0, -50.0):
                                if f["shape"][1] > 5 and (ncomp or bound not in (None, 70.0) or hemi not in ("north", "s")):
                                    continue
                                for span in ("full", "half", "part"):
                                    if f["shape"] == [2, 3] and span != "full":
                                        continue
                                    for per in (False, True):
                                        yield dict(kind="polar", fld=dict(f, ncomp=ncomp, layout=layout, span=span), hemi=hemi,
                                                   bound=bound, per=per)
        elif kind == "pts":
            pts = list(itertools.product((-2, -1, 0, 1, 3), repeat=3))
            for dt in ("int", "float", "f4"):
                for deg in (False, True):
                    for i in range(0, len(pts), 5):
                        yield dict(kind="pts", pts=[list(p) for p in pts[i:i + 5]], dt=dt, deg=deg, single=False)
                    for p in pts:
                        yield dict(kind="pts", pts=[list(p)], dt=dt, deg=deg, single=True)
        elif kind == "pts2":
            for ax in itertools.permutations(("lat", "theta", "lon", "phi"), 2):
                for unit in ("deg", "rad"):
                    for hemi in ("north", "n", "south", "S"):
                        yield dict(kind="pts2", axes=list(ax), unit=unit, hemi=hemi)
        elif kind == "gc":
            menu = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -2, 0), (0, 0, -1), (1, 1, 0), (1, -1, 2), (-1, 2, 3), (-1, -1, -1)]
            for p1 in menu:
                for p2 in menu:
                    for org in ((0, 0, 0), (1, -2, 3)):
                        for n in (2, 3, 7) if tier == "thorough" else (2, 5):
                            for dt in ("int", "float"):
                                yield dict(kind="gc", p1=list(p1), p2=list(p2), org=list(org), n=n, dt=dt)
        elif kind == "one":
            for unit in ("deg", "rad"):
                for v in (-10, 0, 30, 45, 90, 120, 180, 190, -90, -100):
                    yield dict(kind="one", unit=unit, v=v)

    def run_case(self, case, rec):
        rec.state(repr(sorted((k, repr(v)) for k, v in case.items())))
        return getattr(self, "run_" + case["kind"])(case, rec)

    # ------------------------------------------------------------- fields
    @staticmethod
    def unit_of(units, which):
        if units == "mix":
            return "rad" if which == "a" else "deg"
        return units

    def make(self, f):
        """-> field, expected places: dict (phi in degrees, theta in degrees) -> value of each component, nodes"""
        import viscid
        na, no = f["shape"][0], f["shape"][1]
        span = f.get("span", "part")
        cell = f["center"] == "cell"
        # nodes in degrees
        ka, ko = na + cell, no + cell
        if span == "full":
            th = np.linspace(0.0, 180.0, ka)
        elif span == "half":
            th = np.linspace(0.0, 90.0, ka) + (0.0 if f.get("hemi_n", True) else 90.0)
        else:
            th = np.linspace(8.0, 172.0, ka)
        ph = np.linspace(-180.0, 180.0, ko) if span != "part" else np.linspace(-150.0, -150.0 + 360.0 * (ko - 1) / ko, ko)
        if not f["uniform"]:
            if ka > 2:
                th[1:-1] += 3.0 + np.arange(ka - 2)
            if ko > 2:
                ph[1:-1] -= 5.0 + 2.0 * np.arange(ko - 2) if ko < 10 else 0.3 * (ph[1] - ph[0]) * (np.arange(ko - 2) % 3)
        thc = 0.5 * (th[1:] + th[:-1]) if cell else th
        phc = 0.5 * (ph[1:] + ph[:-1]) if cell else ph
        comps = max(f["ncomp"], 1)
        want = {}
        for i in range(no):
            for j in range(na):
                want[(i, j)] = [val(i, j, c) for c in range(comps)]
        # the axes of the field
        A = th if f["a"] == "theta" else (90.0 - th)[::-1]
        dat = np.array([[[val(i, j, c) for j in range(na)] for i in range(no)] for c in range(comps)])   # comp, phi, theta
        if f["a"] == "lat":
            dat = dat[:, :, ::-1]
        ua, uo = self.unit_of(f["units"], "a"), self.unit_of(f["units"], "o")
        A = A * (DEG if ua == "rad" else 1.0)
        O = ph * (DEG if uo == "rad" else 1.0)
        if f["first"] == 0:
            arrs, names, units = [O, A], [f["o"], f["a"]], [uo, ua]
        else:
            arrs, names, units = [A, O], [f["a"], f["o"]], [ua, uo]
            dat = dat.transpose(0, 2, 1)
        if f["ncomp"] == 0:
            dat = dat[0]
        elif f["layout"] == "interlaced":
            dat = np.moveaxis(dat, 0, -1)
        typ = "uniform_spherical" if f["uniform"] else "nonuniform_spherical"
        if f["uniform"]:
            cl = [(nm, [x[0], x[-1], len(x)]) for nm, x in zip(names, arrs)]
        else:
            cl = [(nm, x) for nm, x in zip(names, arrs)]
        crds = viscid.wrap_crds(typ, cl, units=units)
        kw = dict(layout=f["layout"]) if f["ncomp"] else {}
        fld = viscid.wrap_field(np.ascontiguousarray(dat), crds, name="f", center=f["center"], fldtype="vector" if f["ncomp"] else "scalar", **kw)
        return fld, thc, phc, th, ph, want

    def look(self, what, fld, aname, oname, ua, uo, thc, phc, th, ph, want, ncomp, order):
        """compare a field with the sphere it stands for"""
        require(list(fld.crds.axes) == list(order), "{0}: axes {1}, want {2}", what, fld.crds.axes, order)
        A, O = np.asarray(fld.get_crd(aname)), np.asarray(fld.get_crd(oname))
        An, On = np.asarray(fld.get_crd_nc(aname)), np.asarray(fld.get_crd_nc(oname))
        fa, fo = (DEG if ua == "rad" else 1.0), (DEG if uo == "rad" else 1.0)

        def tolat(t):
            return (90.0 - t)[::-1] if aname == "lat" else t
        for got, w, nm in ((A, tolat(thc) * fa, aname), (O, phc * fo, oname), (An, tolat(th) * fa, aname + " nodes"), (On, ph * fo, oname + " nodes")):
            require(got.shape == w.shape and np.allclose(got, w, rtol=1e-9, atol=1e-9), "{0}: {1} is {2}, want {3}", what, nm, got, w)
        comps = [fld.data] if not ncomp else [np.asarray(v) for v in fld.component_views()]
        require(len(comps) == max(ncomp, 1), "{0}: {1} components", what, len(comps))
        na = len(thc)
        for (i, j), w in want.items():
            jj = na - 1 - j if aname == "lat" else j
            at = (i, jj) if order[0] == oname else (jj, i)
            for c in range(len(comps)):
                require(comps[c][at] == w[c], "{0}: component {1} at {2} is {3}, want {4}", what, c, at, comps[c][at], w[c])

    def target(self, t):
        fn, order, units = self.TARGETS[t]
        names = ("lon", "lat") if fn == "as_mapfield" else ("phi", "theta")
        if order == 1:
            names = names[::-1]
        kw = {}
        if order is not None:
            kw["order"] = names
        if units != "":
            kw["units"] = list(units) if isinstance(units, list) else units
        return fn, names, kw

    def run_conv(self, case, rec):
        import viscid
        f = case["fld"]
        if f["ncomp"] and self.ambiguous(f):
            return "layout cannot be told"
        fld, thc, phc, th, ph, want = self.make(f)
        units = {"o": self.unit_of(f["units"], "o"), "a": self.unit_of(f["units"], "a")}
        keep = fld.get_clist(), np.array(fld.data), list(fld.crds.units)
        cur = fld
        for t in case["seq"]:
            fn, names, kw = self.target(t)
            u = kw.get("units", "")
            us = list(u) if isinstance(u, (list, tuple)) else [u] * 2
            us += [""] * (2 - len(us))
            bad = False
            for nm, x in zip(names, us):
                which = "a" if nm in ("lat", "theta") else "o"
                if x and not units[which]:
                    bad = True
                elif x:
                    units[which] = x
            rec.step()
            arg = kw.get("units")
            copy = list(arg) if isinstance(arg, list) else arg
            try:
                cur = getattr(viscid, fn)(cur, **kw)
            except ValueError:
                require(bad, "{0} of {1}: ValueError", fn, f)
                return "no units"
            require(not bad, "{0}: units {1} of a field without units are not refused", fn, u)
            require(arg == copy, "{0} changes the units it is given", fn)
            an = "lat" if "lat" in names else "theta"
            on = "lon" if "lon" in names else "phi"
            self.look("%s(%s)" % (fn, kw), cur, an, on, units["a"] or "deg", units["o"] or "deg", thc, phc, th, ph, want,
                      f["ncomp"], names)
            require([x for x in cur.crds.units] == [units["a" if nm == an else "o"] for nm in names],
                    "{0}: the units are {1}, want {2}", fn, cur.crds.units, units)
            require(cur.center.lower() == f["center"] and cur.crds.is_spherical() and cur.crds.is_uniform() == f["uniform"],
                    "{0}: center {1}, type {2}", fn, cur.center, cur.crds.crdtype)
        rec.step()
        require(np.array_equal(fld.data, keep[1]) and list(fld.crds.units) == keep[2] and
                all(a[0] == b[0] and np.array_equal(a[1], b[1]) for a, b in zip(fld.get_clist(), keep[0])),
                "a conversion changes the field it is given")
        return "conv"

    @staticmethod
    def ambiguous(f):
        """the layout of data is told from its shape"""
        n0 = f["shape"][1] if f["first"] == 0 else f["shape"][0]
        n1 = f["shape"][0] if f["first"] == 0 else f["shape"][1]
        n = f["ncomp"]
        return n in (n0, n1)

    # ------------------------------------------------------------- polar
    def run_polar(self, case, rec):
        import viscid
        f = dict(case["fld"])
        if f["ncomp"] and self.ambiguous(f):
            return "layout cannot be told"
        north = case["hemi"].strip().lower() in ("north", "n")
        f["hemi_n"] = north
        fld, thc, phc, th, ph, want = self.make(f)
        full = abs(th[-1] - th[0]) >= 1.01 * 180.0
        del full
        bound = case["bound"]
        if bound is None:
            # the whole extent that nodes span
            bound = 40.0 if th[-1] - th[0] >= 1.01 * 180.0 else 90.0
        b = abs(bound)
        sel = [j for j, t in enumerate(thc) if (t <= b + 1e-9 if north else t >= 180.0 - b - 1e-9)]
        on_edge = any(abs((t if north else 180.0 - t) - b) < 1e-6 for t in thc)
        if on_edge or len(sel) < 2:
            return "edge"
        ref = all(90.0 - t < b for t in thc) if north else all(90.0 - t > -b for t in thc)
        try:
            r = viscid.as_polar_mapfield(fld, bounding_lat=case["bound"], hemisphere=case["hemi"], make_periodic=case["per"])
        except ValueError:
            require(ref, "as_polar_mapfield: ValueError")
            return "refused"
        rec.step()
        wl = np.array([(t if north else 180.0 - t) for t in thc])[sel]
        vals = {}
        order = list(np.argsort(wl))
        close = ph[-1] - ph[0] < 360.0 - 1e-3
        wo = list(phc)
        cols = list(range(len(phc)))
        if case["per"] and close:
            wo.append(wo[0] + 360.0 if f["center"] == "node" else 0.5 * (ph[-1] + ph[0] + 360.0))
            cols.append(0)
        require(list(r.crds.axes) == ["lon", "lat"], "axes {0}", r.crds.axes)
        require(np.allclose(np.asarray(r.get_crd("lon")) / DEG, wo, atol=1e-7), "longitudes {0}, want {1}", np.asarray(r.get_crd("lon")) / DEG, wo)
        gl = np.asarray(r.get_crd("lat")) / DEG
        require(np.allclose(gl, wl[order], atol=1e-7), "angles from the pole {0}, want {1}", gl, wl[order])
        comps = [r.data] if not f["ncomp"] else [np.asarray(v) for v in r.component_views()]
        for i, ic in enumerate(cols):
            for k, o in enumerate(order):
                for c in range(len(comps)):
                    require(comps[c][i, k] == want[(ic, sel[o])][c], "value at {0} is {1}, want {2}", (i, k), comps[c][i, k], want[(ic, sel[o])][c])
        return "polar"

    # ------------------------------------------------------------- points
    def run_pts(self, case, rec):
        import viscid
        arr = np.array(case["pts"], dtype=case["dt"]).T
        if case["single"]:
            arr = arr[:, 0]
        keep = arr.copy()
        P = np.array(case["pts"], dtype=float).T
        r = np.sqrt((P ** 2).sum(axis=0))
        tol = 1e-5 if case["dt"] == "f4" else 1e-9
        deg = case["deg"]
        with np.errstate(all="ignore"):
            s = viscid.cart2sph(arr, deg=deg)
            ll = viscid.cart2latlon(arr, deg=deg)
        rec.step(2)
        require(np.array_equal(arr, keep), "cart2sph changes its argument")
        require(np.asarray(s).shape == arr.shape and np.asarray(ll).shape == ((2,) if case["single"] else (2, arr.shape[1])), "shapes {0} {1}", np.asarray(s).shape,
                np.asarray(ll).shape)
        S = np.asarray(s, dtype=float).reshape(3, -1)
        L = np.asarray(ll, dtype=float).reshape(2, -1)
        k = 1.0 if not deg else DEG
        for n in range(P.shape[1]):
            require(abs(S[0, n] - r[n]) < tol * 10, "r of {0} is {1}", case["pts"][n], S[0, n])
            if r[n] == 0:
                continue
            x, y, z = P[:, n]
            th, ph = np.arctan2(np.hypot(x, y), z), np.arctan2(y, x)
            require(abs(S[1, n] * k - th) < tol * 200, "theta of {0} is {1}, want {2}", case["pts"][n], S[1, n] * k, th)
            require(abs(S[2, n] * k - ph) < tol * 10, "phi of {0} is {1}, want {2}", case["pts"][n], S[2, n] * k, ph)
            require(abs(L[0, n] * k - (np.pi / 2 - th)) < tol * 200 and abs(L[1, n] * k - (ph - np.pi)) < tol * 10, "latlon of {0} is {1}", case["pts"][n], L[:, n] * k)
        ok = r > 0
        if not np.all(ok):
            return "origin"
        for what, g in (("sph2cart", viscid.sph2cart(s, deg=deg)), ):
            require(np.allclose(np.asarray(g, dtype=float).reshape(3, -1), P, atol=tol * 100), "{0} of {1} is {2}, want {3}", what, s, g, P)
        for kw in (dict(r=1.0), dict(r=2.5), {}):
            lk = np.array(ll)
            g = viscid.latlon2cart(ll, deg=deg, **kw)
            require(np.allclose(np.asarray(g, dtype=float).reshape(3, -1), P / r * kw.get("r", 1.0), atol=tol * 100), "latlon2cart of {0} is {1}", ll, g)
            require(np.array_equal(lk, ll), "latlon2cart changes its argument")
        # whole numbers of degrees
        if deg:
            ii = np.array(np.round(L), dtype=int)
            g = viscid.latlon2cart(ii if not case["single"] else ii[:, 0], deg=True)
            w = viscid.latlon2cart(ii.astype(float), deg=True)
            require(np.allclose(np.asarray(g).reshape(3, -1), w, atol=1e-12), "latlon2cart of whole degrees {0} is {1}, want {2}", ii.tolist(), g, w)
            jj = np.vstack([[2] * ii.shape[1], 90 - ii[0], ii[1]])
            g = viscid.sph2cart(jj, deg=True)
            t, p = (90 - ii[0]) * DEG, ii[1] * DEG
            require(np.allclose(g, [2 * np.sin(t) * np.cos(p), 2 * np.sin(t) * np.sin(p), 2 * np.cos(t)], atol=1e-12), "sph2cart of whole degrees {0} is {1}", jj.tolist(), g)
        return "points"

    def run_pts2(self, case, rec):
        import viscid
        lat = np.array([-90.0, -35.0, 0.0, 20.0, 90.0])
        lon = np.array([-170.0, 0.0, 10.0, 95.0, 180.0])
        src = {"lat": lat, "theta": 90.0 - lat, "lon": lon, "phi": lon}
        k = DEG if case["unit"] == "rad" else 1.0
        pts = np.array([src[a] * k for a in case["axes"]])
        keep = pts.copy()
        kinds = {("a" if a in ("lat", "theta") else "o") for a in case["axes"]}
        rec.step()
        try:
            r = viscid.pts2polar_mapfield(pts, case["axes"], pts_unit=case["unit"], hemisphere=case["hemi"])
        except ValueError:
            require(len(kinds) == 1, "pts2polar_mapfield: ValueError for {0}", case["axes"])
            return "refused"
        require(len(kinds) == 2, "pts2polar_mapfield accepts {0}", case["axes"])
        require(np.array_equal(pts, keep), "pts2polar_mapfield changes its argument")
        north = case["hemi"].lower() in ("north", "n")
        require(np.allclose(r, [lon * DEG, (90.0 - lat if north else 90.0 + lat) * DEG], atol=1e-12), "pts2polar_mapfield: {0}", r)
        return "polar points"

    def run_gc(self, case, rec):
        import viscid
        p1, p2, org = [np.array(case[k], dtype=case["dt"]) for k in ("p1", "p2", "org")]
        a, b = p1.astype(float), p2.astype(float)
        c = viscid.great_circle(p1 + org, p2 + org, origin=org, n=case["n"]) - org.reshape(3, 1)
        rec.step()
        require(c.shape == (3, case["n"]), "great_circle: shape {0}", c.shape)
        require(np.allclose(c[:, 0], a, atol=1e-7) and np.allclose(c[:, -1], b, atol=1e-7), "great_circle from {0} to {1}, want {2} to {3}", c[:, 0], c[:, -1], a, b)
        ra, rb = np.linalg.norm(a), np.linalg.norm(b)
        require(np.allclose(np.linalg.norm(c, axis=0), np.linspace(ra, rb, case["n"]), atol=1e-9), "great_circle: radii {0}", np.linalg.norm(c, axis=0))
        u = c / np.linalg.norm(c, axis=0)
        total = np.arctan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b))
        steps = [np.arctan2(np.linalg.norm(np.cross(u[:, i], u[:, i + 1])), np.dot(u[:, i], u[:, i + 1])) for i in range(case["n"] - 1)]
        require(np.allclose(steps, total / (case["n"] - 1), atol=1e-7), "great_circle: steps {0}, want {1}", steps, total / (case["n"] - 1))
        return "great circle"

    def run_one(self, case, rec):
        import viscid
        v = case["v"]
        k = DEG if case["unit"] == "rad" else 1.0
        for fn, ok in ((viscid.theta2lat, 0 <= v <= 180), (viscid.lat2theta, -90 <= v <= 90)):
            for x in (v * k, [v * k, (30 if ok else v) * k]):
                rec.step()
                try:
                    r = fn(x, unit=case["unit"])
                except ValueError:
                    require(not ok, "{0}({1}): ValueError", fn.__name__, x)
                    continue
                require(ok and np.allclose(r, 90 * k - np.asarray(x), atol=1e-12), "{0}({1}) is {2}", fn.__name__, x, r)
        for fn in (viscid.phi2lon, viscid.lon2phi):
            require(fn(v * k, unit=case["unit"]) == v * k, "{0} changes the angle", fn.__name__)
        return "angles"
