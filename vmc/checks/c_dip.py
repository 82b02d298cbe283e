"""Dipoles: the field, masks and regions, and the mapping along its lines"""
import itertools

import numpy as np

from vmc.core import Check, require

NODES = {"x": [-4.0, -2.5, -1.0, 1.5, 3.0], "y": [-3.0, 0.5, 2.0, 4.0], "z": [-2.0, -0.5, 1.0, 2.5, 6.0]}


def dip(p, m):
    p, m = np.asarray(p, dtype=float), np.asarray(m, dtype=float)
    r = np.sqrt((p ** 2).sum())
    return 3 * p * np.dot(m, p) / r ** 5 - m / r ** 3


class Dipole(Check):
    pid = "V34"
    rule = ("all grids, centerings, layouts, moments, forms and masks in the bounds, each compared with the formula place by "
            "place; all points of a menu, singly and in all set sizes, mapped to every radius")
    bounds = {"nodes": "2..5 per axis", "moments": "unit vectors and all of {-1,2}^3", "points": "all of {-2,-1,0,1.5}^3 but the origin"}
    assumptions = ("numbers are compared to rounding (1e-5 in single precision)",)

    MOM = [(0.0, 0.0, -1.0), (1.0, 0.0, 0.0), (0.0, 2.0, 0.0)] + list(itertools.product((-1.0, 2.0), repeat=3))
    PTS = [p for p in itertools.product((-2.0, -1.0, 0.0, 1.5), repeat=3) if any(p)]

    def setup(self):
        pass

    def shards(self, tier):
        return [("fill", c) for c in ("node", "cell", "face", "edge")] + [("calc",), ("mask",), ("region",), ("make",), ("map", 0), ("map", 1), ("value",)]

    def cases(self, shard, tier):
        kind = shard[0]
        if kind == "fill":
            for shape in ((2, 3, 4), (4, 4, 2), (3, 2, 5)) + (((5, 4, 4), (2, 2, 2)) if tier == "thorough" else ()):
                for layout in ("flat", "interlaced"):
                    for m in self.MOM:
                        for st in (None, 5.0):
                            for dt in ("f4", "f8"):
                                for ne in (False, True):
                                    for mask in (None, "shell", "vector"):
                                        if mask and (m != self.MOM[4] or dt == "f4"):
                                            continue
                                        yield dict(kind="fill", center=shard[1], shape=list(shape), layout=layout, m=list(m), st=st,
                                                   dt=dt, ne=ne, mask=mask)
        elif kind == "calc":
            for n in (0, 1, 2, 3, 4, 7):
                for i in range(0, 63, max(n, 1)):
                    for m in (self.MOM if n in (0, 3) else self.MOM[3:6]):
                        for st in (None, 4.0):
                            for ne in (False, True):
                                for dt in (None, "f4", "f8"):
                                    yield dict(kind="calc", n=n, i=i, m=list(m), st=st, ne=ne, dt=dt)
        elif kind == "mask":
            for center in ("node", "cell", "face", "edge"):
                for shape in ((2, 3, 4), (4, 4, 2), (4, 3)):
                    for ncomp, layout in ((0, "flat"), (3, "flat"), (3, "interlaced")):
                        if len(shape) == 2 and center in ("face", "edge"):
                            continue
                        for rmin in (0.0, 2.0, 3.0):
                            for rmax in (None, 3.0, 5.0):
                                yield dict(kind="mask", center=center, shape=list(shape), ncomp=ncomp, layout=layout, rmin=rmin, rmax=rmax)
        elif kind == "region":
            for center in ("node", "cell", "face"):
                for shape in ((2, 3, 4), (4, 4, 2)):
                    for ncomp, layout in ((0, "flat"), (3, "flat"), (3, "interlaced")):
                        for mask in (None, "scalar", "vector"):
                            for out in ("none", "new", "a", "b"):
                                for al, be in ((1.0, 1.0), (0.5, -2.0), (0.0, 1.0)):
                                    for b in ("field", "array"):
                                        for ne in (False, True):
                                            if mask and out == "none":
                                                continue    # the rest is not said
                                            if mask == "vector" and not ncomp:
                                                continue
                                            if out == "b" and b == "array":
                                                continue
                                            yield dict(kind="region", center=center, shape=list(shape), ncomp=ncomp, layout=layout,
                                                       mask=mask, out=out, al=al, be=be, b=b, ne=ne)
        elif kind == "make":
            for center in ("node", "cell"):
                for n in (None, [4, 5, 6], [3, 3, 3]):
                    if n is None and tier != "thorough":
                        continue
                    for lh in (None, ([-3, -4, -5], [6, 5, 4])):
                        for twod in (False, True):
                            for non in (False, True):
                                for m in self.MOM[:5]:
                                    for crd in ("gse", "mhd"):
                                        yield dict(kind="make", center=center, n=n, lh=lh, twod=twod, non=non, m=list(m), crd=crd)
        elif kind == "map":
            for n in (0, 1, 3, 5) if shard[1] else (63,):
                for i in range(0, 63, max(n, 1)):
                    for r in (0.5, 1.0, 0.25):
                        for crd in ("sm", "gse", "mhd"):
                            for cotr in (None, (20.0, 10.0)):
                                for sph in (False, True):
                                    yield dict(kind="map", n=n, i=i, r=r, crd=crd, cotr=cotr, sph=sph)
        elif kind == "value":
            for sph in (False, True):
                for n in (2, 5):
                    for i in range(0, 60, n):
                        for fill in (None, -7.0):
                            for r in (0.9, 1.3):
                                yield dict(kind="value", sph=sph, n=n, i=i, fill=fill, r=r)
            for n in (1, 3):
                for i in range(0, 40, 3):
                    for r in (0.5, 1.0, 1.9):
                        for crd, of in [(c, w) for c in ("sm", "gse", "gsm", "mhd") for w in ("arg", "info")] + [("gse", "none")]:
                            yield dict(kind="value", sph=sph, n=n, i=i, fill=None, r=r, crd=crd, of=of)

    def run_case(self, case, rec):
        rec.state(repr(sorted((k, repr(v)) for k, v in case.items())))
        import importlib
        self.mod = importlib.import_module("viscid.dipole")
        saved = self.mod._HAS_NUMEXPR
        try:
            if "ne" in case:
                self.mod._HAS_NUMEXPR = saved and case["ne"]
            return getattr(self, "run_" + case["kind"])(case, rec)
        finally:
            self.mod._HAS_NUMEXPR = saved

    # ----------------------------------------------------------------- grids
    def crds(self, shape, center):
        return [np.array(NODES[a][:n]) if center == "node" else np.array(NODES[a] + [9.0])[:n + 1] for a, n in zip("xyz", shape)]

    @staticmethod
    def ambiguous(shape, ncomp, layout):
        return ncomp and (shape[0] == ncomp or shape[-1] == ncomp)

    def places(self, shape, center, ncomp):
        """component, index -> place"""
        crds = self.crds(shape, center)
        mid = [0.5 * (c[1:] + c[:-1]) for c in crds]
        ret = {}
        for c in range(max(ncomp, 1)):
            for ijk in itertools.product(*[range(n) for n in shape]):
                p = []
                for a, i in enumerate(ijk):
                    if center == "node":
                        p.append(crds[a][i])
                    elif center == "face" and ncomp and a == c or center == "edge" and ncomp and a != c:
                        p.append(crds[a][i])
                    else:
                        p.append(mid[a][i])
                ret[(c, ijk)] = p
        return ret

    def zeros(self, shape, center, ncomp, layout, dtype="f8"):
        import viscid
        return viscid.zeros(self.crds(shape, center), crd_names="xyz", center=center, nr_comps=ncomp, layout=layout, dtype=dtype)

    @staticmethod
    def comps(f):
        return [f.data] if not f.nr_comps else [np.asarray(v) for v in f.component_views()]

    # ----------------------------------------------------------------- fields
    def run_fill(self, case, rec):
        import viscid
        shape, center, m = case["shape"], case["center"], case["m"]
        if self.ambiguous(shape, 3, case["layout"]):
            return "layout cannot be told"
        B = self.zeros(shape, center, 3, case["layout"], case["dt"])
        B.data[...] = 77.0
        pl = self.places(shape, center, 3)
        mask, inside = None, None
        if case["mask"]:
            mask = viscid.make_spherical_mask(B if case["mask"] == "vector" else self.zeros(shape, center, 0, "flat"), rmin=2.5)
            off = {k: sum(x * x for x in v) for k, v in (pl if case["mask"] == "vector" else {(c, i): p for (d, i), p in
                                                                                             self.places(shape, center, 0).items()
                                                                                             for c in range(3)}).items()}
            inside = {k: v >= 2.5 ** 2 for k, v in off.items()}
        r = viscid.fill_dipole(B, m=m, strength=case["st"], mask=mask)
        rec.step()
        require(r is B, "fill_dipole returns another field")
        mm = np.array(m) if case["st"] is None else np.array(m) * case["st"] / np.linalg.norm(m)
        tol = 1e-5 if case["dt"] == "f4" else 1e-11
        comps = self.comps(B)
        require(B.dtype == np.dtype(case["dt"]), "fill_dipole changes the type to {0}", B.dtype)
        for (c, ijk), p in pl.items():
            w = dip(p, mm)[c]
            if inside is not None and not inside[(c, ijk)]:
                w = 77.0
            require(abs(comps[c][ijk] - w) <= tol * (1 + abs(w)), "component {0} at {1} is {2}, want {3}", c, p, comps[c][ijk], w)
        return "fill"

    def run_calc(self, case, rec):
        import viscid
        n, i = case["n"], case["i"]
        pts = np.array(self.PTS[i] if n == 0 else self.PTS[i:i + n])
        if case["dt"] is None and case["i"] % 2:
            pts = np.round(pts * 2).astype(int)
            if case["m"] != [0.0, 0.0, -1.0]:
                pts = pts.astype(float)
        keep = pts.copy()
        mm = np.array(case["m"]) if case["st"] is None else np.array(case["m"]) * case["st"] / np.linalg.norm(case["m"])
        if pts.dtype.kind == "i":
            pts = pts.astype(float)
        r = viscid.calc_dip(pts, m=case["m"], strength=case["st"], dtype=case["dt"])
        rec.step()
        require(np.array_equal(keep, pts), "calc_dip changes its argument")
        w = np.array([dip(p, mm) for p in np.atleast_2d(pts)]).reshape(pts.shape)
        require(np.shape(r) == pts.shape and np.allclose(r, w, rtol=1e-5 if case["dt"] == "f4" else 1e-11, atol=1e-6 if case["dt"] == "f4" else 1e-12),
                "calc_dip at {0} is {1}, want {2}", pts.tolist(), np.asarray(r).tolist(), w.tolist())
        if case["dt"]:
            require(np.asarray(r).dtype == np.dtype(case["dt"]), "calc_dip: type {0}", np.asarray(r).dtype)
        return "points"

    def run_mask(self, case, rec):
        import viscid
        shape, center, ncomp = case["shape"], case["center"], case["ncomp"]
        if self.ambiguous(shape, ncomp, case["layout"]):
            return "layout cannot be told"
        f = self.zeros(shape, center, ncomp, case["layout"])
        m = viscid.make_spherical_mask(f, rmin=case["rmin"], rmax=case["rmax"])
        rec.step()
        own = ncomp and center in ("face", "edge")
        require(m.dtype == bool and m.center.lower() == center and bool(m.nr_comps) == bool(own) and tuple(m.sshape) == tuple(shape),
                "mask of {0}-centered field: {1}-centered, {2} components, type {3}, shape {4}", center, m.center, m.nr_comps, m.dtype, m.shape)
        comps = self.comps(m)
        for (c, ijk), p in self.places(shape, center, 3 if own else 0).items():
            rr = sum(x * x for x in p)
            w = rr >= case["rmin"] ** 2 and (case["rmax"] is None or rr < case["rmax"] ** 2)
            require(bool(comps[c][ijk]) == w, "mask at {0} is {1}", p, comps[c][ijk])
        return "mask"

    def run_region(self, case, rec):
        import viscid
        shape, center, ncomp = case["shape"], case["center"], case["ncomp"]
        if self.ambiguous(shape, ncomp, case["layout"]):
            return "layout cannot be told"
        fs = []
        for k in range(3):
            f = self.zeros(shape, center, ncomp, case["layout"])
            f.data[...] = (np.arange(f.data.size) * (3 * k + 2) % (29 + k)).reshape(f.data.shape) - 9.0
            fs.append(f)
        a, b, other = fs
        out = dict(none=None, new=other, a=a, b=b)[case["out"]]
        A, Bd, O = np.array(a.data), np.array(b.data), None if out is None else np.array(out.data)
        mask = None
        M = np.ones(A.shape, dtype=bool)
        if case["mask"] == "scalar":
            mask = viscid.make_spherical_mask(self.zeros(shape, center, 0, "flat"), rmin=2.5)
            md = np.array(mask.data)
            if ncomp:
                md = md[None] if case["layout"] == "flat" else md[..., None]
            M = np.broadcast_to(md, A.shape)
        elif case["mask"] == "vector":
            mask = self.zeros(shape, center, 3, "interlaced" if case["layout"] == "flat" else "flat").astype("bool")
            for c, v in enumerate(mask.component_views()):
                v[...] = (np.arange(v.size).reshape(v.shape) + c) % 3 == 0
            mc = self.comps(mask)
            M = np.stack(mc, axis=0 if case["layout"] == "flat" else -1)
        r = viscid.set_in_region(a, b if case["b"] == "field" else Bd.copy(), alpha=case["al"], beta=case["be"], mask=mask, out=out)
        rec.step()
        w = case["al"] * A + case["be"] * Bd
        if O is not None:
            w = np.where(M, w, O)
            require(r is out, "set_in_region does not return out")
        require(r.shape == a.shape and np.array_equal(np.asarray(r.data), w), "set_in_region: {0}, want {1}", np.asarray(r.data).tolist(), w.tolist())
        for f, k, nm in ((a, A, "a"), (b, Bd, "b")):
            require(f is r or np.array_equal(f.data, k), "set_in_region changes {0}", nm)
        return "region"

    def run_make(self, case, rec):
        import viscid
        kw = dict(m=case["m"], center=case["center"], twod=case["twod"], nonuniform=case["non"], crd_system=case["crd"])
        if case["n"]:
            kw["n"] = list(case["n"])
        if case["lh"]:
            kw.update(l=case["lh"][0], h=case["lh"][1])
        B = viscid.make_dipole(**kw)
        rec.step()
        n = case["n"] or [256] * 3
        l, h = case["lh"] or ([-5] * 3, [5] * 3)
        cell = case["center"] == "cell"
        want = [np.linspace(a, b, k + cell) for a, b, k in zip(l, h, n)]
        if case["twod"]:
            want[1] = np.array([-0.1, 0.1])
        require(B.center == case["center"] and B.nr_comps == 3, "make_dipole: center {0}", B.center)
        for i, a in enumerate("xyz"):
            got = B.get_crd_nc(a)
            if case["non"] and a == "z":
                require(len(got) == len(want[i]) and abs(got[0] - l[2]) < 1e-9 and abs(got[-1] - h[2]) < 1e-9 and np.all(np.diff(got) > 0), "make_dipole: z is {0}", got)
            else:
                require(np.allclose(got, want[i]) and len(got) == len(want[i]), "make_dipole: {0} is {1}, want {2}", a, got, want[i])
        require(B.find_info("crd_system") == case["crd"], "make_dipole: system {0}", B.find_info("crd_system"))
        if np.prod(B.sshape) > 1000:
            return "big"
        X = [np.asarray(c) for c in B.get_crds(shaped=False)]
        comps = [v for v in self.comps(B)]
        for ijk in itertools.product(*[range(k) for k in B.sshape]):
            p = [x[i] for x, i in zip(X, ijk)]
            if sum(x * x for x in p) < 1e-9:
                continue
            w = dip(p, case["m"])
            require(all(abs(comps[c][ijk] - w[c]) < 1e-10 * (1 + abs(w[c])) for c in range(3)), "make_dipole at {0}", p)
        # the dipole that it says it has
        mom = viscid.as_cotr(B).get_dipole_moment(crd_system=case["crd"], strength=np.linalg.norm(case["m"]))
        require(np.allclose(mom, case["m"], atol=1e-9), "the dipole of make_dipole({0}) is {1}", case["m"], mom)
        return "make"

    # ----------------------------------------------------------------- mapping
    def run_map(self, case, rec):
        import viscid
        n, i = case["n"], case["i"]
        P = np.array(self.PTS[i:i + max(n, 1)]).T
        pts = P[:, 0] if n == 0 else P
        keep = pts.copy()
        cotr = viscid.Cotr(dip_tilt=case["cotr"][0], dip_gsm=case["cotr"][1]) if case["cotr"] else None
        co = viscid.as_cotr(cotr)
        S = np.asarray(co.transform(case["crd"], "sm", P))
        with np.errstate(all="ignore"):
            q = viscid.xyz2lsrlp(pts, cotr=cotr, crd_system=case["crd"])
            g = viscid.dipole_map(pts, r=case["r"], cotr=cotr, crd_system=case["crd"], as_spherical=case["sph"])
        rec.step(2)
        require(np.array_equal(keep, pts), "dipole_map changes its argument")
        require(q.shape == (4, P.shape[1]) and g.shape == (3, P.shape[1]), "shapes {0}, {1}", q.shape, g.shape)
        for k in range(P.shape[1]):
            x, y, z = S[:, k]
            r = np.sqrt(x * x + y * y + z * z)
            rho2 = x * x + y * y
            lam, phi = np.arctan2(z, np.sqrt(rho2)), np.arctan2(y, x)
            require(abs(q[1, k] - r) < 1e-9 and abs(q[2, k] - lam) < 1e-7, "radius and latitude of {0}: {1}", P[:, k], q[:, k])
            if rho2 < 1e-9:
                continue
            L = r ** 3 / rho2
            d = (q[3, k] - phi) % (2 * np.pi)
            require(abs(q[0, k] - L) < 1e-6 * L and min(d, 2 * np.pi - d) < 1e-9, "shell and longitude of {0}: {1}", P[:, k], q[:, k])
            if abs(z) < 1e-9:
                continue    # which hemisphere is not said
            if case["r"] > L:
                require(np.isnan(g[1:, k]).any() or np.isnan(g[:, k]).any(), "{0} is mapped beyond the top of its line", P[:, k])
                continue
            lm = np.sign(z) * np.arccos(np.sqrt(case["r"] / L))
            if case["sph"]:
                w = [case["r"], 90 - np.rad2deg(lm), np.rad2deg(phi) % 360.0]
                d = (g[2, k] - w[2]) % 360.0
                require(0 <= g[2, k] <= 360 and min(d, 360 - d) < 1e-6 and np.allclose(g[:2, k], w[:2], atol=1e-5), "{0} is mapped to {1}, want {2}", P[:, k], g[:, k], w)
            else:
                w = np.array([np.cos(lm) * np.cos(phi), np.cos(lm) * np.sin(phi), np.sin(lm)]) * case["r"]
                w = np.asarray(co.transform("sm", case["crd"], w.reshape(3, 1)))[:, 0]
                require(np.allclose(g[:, k], w, atol=1e-6), "{0} is mapped to {1}, want {2}", P[:, k], g[:, k], w)
        return "map"

    def run_value(self, case, rec):
        import viscid
        n, i, r = case["n"], case["i"], case["r"]
        P = np.array([p for p in self.PTS if p[0] ** 2 + p[1] ** 2 > 0 and p[2] != 0][i % 40:][:n]).T
        if P.shape[1] == 0:
            return "none"
        crd, of = case.get("crd", "sm"), case.get("of", "arg")
        co = viscid.Cotr("2010-06-21T12:00:00") if "crd" in case else None
        with np.errstate(all="ignore"):
            M = viscid.dipole_map(P, r=r, cotr=co, crd_system=crd, as_spherical=case["sph"])
        # linear functions are interpolated exactly
        if case["sph"]:
            phi, th = np.linspace(0, 360, 13), np.linspace(0, 180, 7)
            f = viscid.wrap_field(phi[:, None] + 2 * th[None, :], viscid.wrap_crds("nonuniform_spherical", [("phi", phi), ("theta", th)], units=["deg", "deg"]),
                                  name="f", center="node")
            W = M[2] + 2 * M[1]
        else:
            c = [np.linspace(-2, 2, 5)] * 3
            f = viscid.zeros(c, crd_names="xyz", center="node")
            X, Y, Z = f.get_crds(shaped=True)
            f.data[...] = X + 2 * Y + 4 * Z
            W = M[0] + 2 * M[1] + 4 * M[2]
        with np.errstate(all="ignore"):
            if of == "arg":
                got = np.asarray(viscid.dipole_map_value(f, P, r=r, cotr=co, crd_system=crd, fillna=case["fill"]))
            else:
                if of == "info":
                    f.set_info("crd_system", crd)
                got = np.asarray(viscid.dipole_map_value(f, P, r=r, cotr=co, fillna=case["fill"]))
        rec.step()
        if case["fill"] is not None:
            W = np.where(np.isnan(W), case["fill"], W)
        ok = ~np.isnan(W)
        require(got.shape == W.shape and np.allclose(got[ok], W[ok], atol=1e-6), "dipole_map_value: {0}, want {1}", got, W)
        return "value"
