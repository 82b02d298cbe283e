"""Seed generators: their points, parametrizations, and meshes"""
import itertools

import numpy as np

from vmc.core import Check, Fail, require

TOL = 1e-9


def lin(x):
    return 2.0 * x[0] - 3.0 * x[1] + 5.0 * x[2] + 1.0


class Seeds(Check):
    pid = "V24"
    rule = ("every generator, with every choice of its arguments from a menu, and every sequence of up to three requests to one object, "
            "against points computed from the arguments")
    bounds = {"generators": 9, "points per axis": "1..5", "requests per object": "up to 3"}
    assumptions = ("where phi=0 is on a sphere whose pole is not along z is not judged, only angles from one longitude to the next",
                   "local coordinates of a set of points are not judged")

    KINDS = ("point", "mesh", "line", "spline", "plane", "volume", "sphere", "cap", "circle", "patch")
    REQ = ("points", "again", "iter", "array", "mesh", "values", "wrap", "uv", "interp", "extent", "to3d")

    def setup(self):
        import viscid
        self.v = viscid
        viscid.logger.setLevel(60)
        x = np.array([-50.0, -20.0, 3.0, 50.0])
        g = np.meshgrid(x, x, x, indexing="ij")
        self.fld = viscid.wrap_field(lin(g), viscid.wrap_crds("nonuniform_cartesian", [(a, x.copy()) for a in "xyz"]), name="lin", center="node")

    def shards(self, tier):
        out = []
        for k in self.KINDS:
            for i in range(dict(plane=9, sphere=14, cap=6, patch=4).get(k, 1)):
                out.append((k, i))
        return out

    # ------------------------------------------------------------ menus
    def confs(self, kind, part, big):
        P = [(0, 0, 0), (1.0, -2.0, 0.5)]
        D = [(0, 0, 1), (0, 0, -2.0), (1, 0, 0), (0, -1, 0), (1, 1, 0), (1.0, -2.0, 3.0), (-1, 0, -1), (1e-3, 0, 1.0), (0.3, 0.2, -0.1)]
        if kind == "point":
            return [(n, form, tail, lc) for n in (1, 2, 3, 4, 5, 6) for form in ("list", "array", "rows", "rowlist", "int", "tuple")
                    for tail in ((), (2,)) for lc in (None, "crds") if not (form in ("rows", "rowlist") and (n == 3 or tail)) and not (tail and n % 2)]
        if kind == "mesh":
            return [(nu, nv, ax) for nu in (1, 2, 3, 4) for nv in (1, 2, 3) for ax in (None, "xy", "yx")]
        if kind == "line":
            return [(a, b, n, dt) for a in P for b in D + [a] for n in (1, 2, 3, 4, 5, 10) for dt in (None, "f8", "f4")]
        if kind == "spline":
            K = [[[0, 1], [0, 2], [0, 3]], [[0, 1, 3], [0, 2, 0], [0, 0, 1.0]], [[0, 1, 3, 4], [0, 2, 0, 1], [0, 0, 1.0, 5]],
                 [[0, 1, 1, 0, -2], [0, 0, 1, 1, 3], [0, 0.5, 1, 2, 2]]]
            return [(k, n, o, dt) for k in K for n in (1, 2, 3, 5, 8, -1, -2, -5) for o in (None, 1, 2) for dt in (None, "f8") if o is None or o < len(k[0])]
        Q = list(itertools.product(P, (0.0, 2.0))) if big else [(P[0], 0.0), (P[1], 2.0)]
        E = D if big else [D[0], D[1], D[5], D[6]]
        if kind == "plane":
            return [(p, D[part], d, ll, lm, nl, nm, vec) for p in P[0 if big else 1:] for d in D for ll in (2, [-1.0, 3.0], (2.0, 1.0)) for lm in (1.0, [0.5, 2.5])
                    for nl, nm in (((1, 1), (2, 3), (3, 2), (4, 1), (2, 2)) if big else ((2, 3), (4, 1))) for vec in (True, False)]
        if kind == "volume":
            return [(a, b, n) for a, b in (((-1, -1, -1), (1, 1, 1)), ((0, 1.5, -2), (3, 1.5, 4)), ((2.0, 1.0, 0.0), (1.0, -1.0, 3.0)))
                    for n in itertools.product((1, 2, 3), repeat=3)] + [((-1.0, 0.0, 1.0), (0.0, 1.0, 2.0), n) for n in (2, 4)]
        if kind == "sphere":
            T = [(0, 180), (180, 0), (0, 90), (90, 0), (90, 180), (30, 150), (20.0, 20.0)]
            th, pv = T[part // 2], bool(part % 2)
            return [(p, r, d, nt, np_, th, ph, roll, cs, te, pe, pv, tp, fill) for p, r in Q for d in E for nt, np_ in (((1, 1), (1, 4), (3, 4), (4, 3), (2, 5)) if big else ((1, 4), (3, 2)))
                    for ph in ((0, 360), (10.0, 100.0)) for roll, cs in (((0.0, None), (40.0, None), (0.0, "gse"), (30, "mhd")) if big else ((0.0, None), (40.0, "gse")))
                    for te, pe in (("auto", "auto"), (True, False), ([False, True], True), (False, "auto"))
                    for tp in (False, True) for fill in (True, False) if not (cs and fill is False)]
        if kind == "cap":
            A = [(0.0, 90.0), (0.0, 40.0), (20.0, 60.0), (180.0, 100.0), (100.0, 180.0), (None, None)][part]
            return [(p, r, d, nt, np_, A, te, pe, roll, tp) for p, r in Q for d in E for nt, np_ in ((1, 1), (2, 4), (3, 3)) for te in (None, "auto", True, False, [False, True], [True, False])
                    for pe in ("auto", True) for roll in (0.0, 25.0) for tp in (False, True)]
        if kind == "circle":
            return [(p, r, d, n, e, roll) for p, r in Q for d in D for n in (1, 2, 3, 5, 8) for e in (None, True, False) for roll in (0.0, 90.0)]
        if kind == "patch":
            return [(p, r, d, ma, mb, na, nb, roll, vec) for p, r in Q for d in E for ma, mb in ((45, 45), (10.0, 70.0), (60, 50), (90, 0))
                    for na, nb in ((1, 1), (2, 3), (3, 2), (4, 1)) for roll in ((0.0,), (30.0,), (180,), (-45.0,))[part] for vec in (True, False)]

    def cases(self, shard, tier):
        kind, part = shard
        big = tier != "quick"
        confs = self.confs(kind, part, big)
        for c in confs:
            yield (kind, c, self.REQ, False)
            if big:
                yield (kind, c, self.REQ[::-1], True)
        for c in ([confs[0], confs[len(confs) // 2], confs[-1]] if big else confs[len(confs) // 2:][:1]):
            yield (kind, c, self.REQ[::-1], True)
            for n in ((2, 3) if big else (2,)):
                for req in itertools.product(self.REQ, repeat=n):
                    for cache in (False, True):
                        yield (kind, c, req, cache)

    # ------------------------------------------------------------ models
    def unit(self, x):
        x = np.array(x, dtype="f8")
        return x / np.sqrt(np.sum(x * x))

    def build(self, kind, c, cache):
        """the generator, and a dict that has what it should be"""
        v = self.v
        kw = dict(cache=cache)
        m = dict(tol=TOL, uv=None, shape=None, mesh=True, axes=None, axn=None)
        if kind == "point":
            n, form, tail, lc = c
            tot = n
            pts = ((np.arange(3 * n) * 7) % 11 - 4.0).reshape(3, n)
            arg = pts.reshape((3, -1) + tail) if tail else pts
            arg = {"list": arg.tolist(), "array": arg.copy(), "rows": arg.T.copy(), "rowlist": arg.T.tolist(), "int": arg.astype(int), "tuple": tuple(tuple(x) if arg.ndim == 2 else x for x in arg.tolist())}[form]
            crds = (np.arange(n) ** 2 + 1.0) if lc else None
            m.update(pts=pts, mesh=False, shape=(n,), axes=[crds if lc else np.arange(n)], axn=["x"])
            return v.Point(arg, local_crds=crds, **kw), m
        if kind == "mesh":
            nu, nv, ax = c
            arr = ((np.arange(3 * nu * nv) * 5) % 13 - 3.0).reshape(3, nu, nv)
            uax = [np.arange(nu), np.arange(nv)]
            if ax is not None:
                i, j = "xy".index(ax[0]), "xy".index(ax[1])
                arr[i] = (np.arange(nu) ** 2.0 - 1.0)[:, None]
                arr[j] = (np.arange(nv) * 2.0 + 1.0)[None, :]
                uax = [np.arange(nu) ** 2.0 - 1.0, np.arange(nv) * 2.0 + 1.0]
            m.update(pts=arr.reshape(3, -1).copy(), shape=(nu, nv), axes=uax, axn=["x", "y"])
            g = v.MeshPoints(arr, **kw) if ax is None else v.RectilinearMeshPoints(arr, mesh_axes=ax, **kw)
            return g, m
        if kind == "line":
            a, b, n, dt = c
            t = np.linspace(0, 1, n)
            a_, b_ = np.array(a, "f8"), np.array(b, "f8")
            m.update(pts=a_[:, None] + (b_ - a_)[:, None] * t, shape=(n,), axes=[t * np.sqrt(np.sum((b_ - a_) ** 2))], axn=["x"], uv=(t, np.array([0.0])), uvs=(n, 1), tol=1e-5 if dt == "f4" else TOL)
            return v.Line(a, b, n=n, dtype=dt, **kw), m
        if kind == "spline":
            k, n, o, dt = c
            K = np.array(k, "f8")
            N = n if n > 0 else -n * K.shape[1]
            t = np.linspace(0, 1, N)
            if o is None:
                d = np.sqrt(np.sum(np.diff(K, axis=1) ** 2, axis=0))
                u = np.concatenate([[0], np.cumsum(d)]) / d.sum()
                pts = np.zeros((3, N))
                for i in range(K.shape[1]):
                    L = np.ones(N)
                    for j in range(K.shape[1]):
                        if i != j:
                            L = L * (t - u[j]) / (u[i] - u[j])
                    pts += K[:, i, None] * L
            else:
                import scipy.interpolate
                pts = np.array(scipy.interpolate.splev(t, scipy.interpolate.splprep(K, k=o)[0]))
            s = np.concatenate([[0], np.cumsum(np.sqrt(np.sum(np.diff(pts, axis=1) ** 2, axis=0)))])
            m.update(pts=pts, shape=(N,), axes=[s], axn=["s"], uv=(t, np.array([0.0])), uvs=(N, 1), tol=1e-7)
            opts = None if o is None else {"k": o}
            m["opts"] = opts
            return v.Spline(k if dt else np.array(k, dtype="f8"), n=n, splprep_kw=opts, dtype=dt, **kw), m
        if kind == "plane":
            p, N, L, ll, lm, nl, nm, vec = c
            p_, N_, L_ = np.array(p, "f8"), np.array(N, "f8"), np.array(L, "f8")
            par = np.linalg.norm(np.cross(N_, L_)) < 1e-9
            if not vec:
                N, L = tuple(N_ + p_), tuple(L_ + p_)
            try:
                g = v.Plane(p0=p, pN=N, pL=L, len_l=ll, len_m=lm, nl=nl, nm=nm, NL_are_vectors=vec, **kw)
            except RuntimeError:
                require(par, "a plane with N={0} and L={1} is refused", N, L)
                return None, None
            require(not par, "a plane with N={0} and L={1} is not refused", N, L)
            n1 = self.unit(N_)
            l1 = self.unit(L_ - np.dot(L_, n1) * n1)
            m1 = np.cross(n1, l1)
            la, ma = [np.linspace(*((-0.5 * e, 0.5 * e) if np.isscalar(e) else e), num=k) for e, k in ((ll, nl), (lm, nm))]
            pts = p_[:, None, None] + l1[:, None, None] * la[None, :, None] + m1[:, None, None] * ma[None, None, :]
            m.update(pts=pts.reshape(3, -1), shape=(nl, nm, 1), axes=[la, ma, np.array([0.0])], axn=["x", "y", "z"], uv=(la, ma), uvs=(nl, nm), uvc=("x", "y"),
                     rot=np.array([l1, m1, n1]).T, local=np.array([np.repeat(la, nm), np.tile(ma, nl), np.zeros(nl * nm)]))
            return g, m
        if kind == "volume":
            a, b, n = c
            n3 = (n,) * 3 if np.isscalar(n) else n
            ax = [np.linspace(a[i], b[i], n3[i]) for i in range(3)]
            pts = np.array(list(itertools.product(*ax))).T
            m.update(pts=pts, shape=tuple(n3), axes=ax, axn=["x", "y", "z"])
            if 1 in n3:
                i = list(n3).index(1)
                keep = [j for j in range(3) if j != i]
                m.update(uv=[ax[j] for j in keep], uvs=tuple(n3[j] for j in keep), uvc=("x", "y"))
            else:
                m["mesh"] = False
            m["local"] = pts
            return v.Volume(a, b, n, **kw), m
        if kind == "patch":
            p, r, d, ma, mb, na, nb, roll, vec = c
            p_, d_ = np.array(p, "f8"), np.array(d, "f8")
            bad = np.sin(np.deg2rad(ma)) ** 2 + np.sin(np.deg2rad(mb)) ** 2
            try:
                g = v.SphericalPatch(p0=p_, p1=d_ if vec else p_ + d_, max_alpha=ma, max_beta=mb, nalpha=na, nbeta=nb, roll=roll, r=r, p1_is_vector=vec, **kw)
            except ValueError:
                require(bad > 1 - 1e-9, "a patch of {0}x{1} degrees is refused", ma, mb)
                return None, None
            require(bad < 1 + 1e-9, "a patch of {0}x{1} degrees is not refused", ma, mb)
            R = r or np.linalg.norm(d_)
            al, be = [np.deg2rad(np.linspace(-e, e, k)) for e, k in ((ma, na), (mb, nb))]
            A, B = [x.reshape(-1) for x in np.meshgrid(al, be, indexing="ij")]
            x, y = R * np.sin(A), R * np.sin(B)
            m.update(patch=(p_, self.unit(d_), R, x, y, roll), n=na * nb, shape=(na, nb), axes=[al, be], axn=["x", "y"], uv=(al, be), uvs=(na, nb), uvc=("x", "y"))
            return g, m
        # spheres
        te, pe, cs, fill, pv = "auto", "auto", None, True, True
        if kind == "sphere":
            p, r, d, nt, nph, th, ph, roll, cs, te, pe, pv, tp, fill = c
            cls, args = v.Sphere, dict(thetalim=th, philim=ph, ntheta=nt, nphi=nph, theta_endpoint=te, phi_endpoint=pe, pole_is_vector=pv, theta_phi=tp, fill_holes=fill, roll=roll)
            if cs:
                args["crd_system"] = cs
        elif kind == "cap":
            p, r, d, nt, nph, A, te, pe, roll, tp = c
            ph = (0, 360)
            cls, args = v.SphericalCap, dict(ntheta=nt, nphi=nph, phi_endpoint=pe, roll=roll, theta_phi=tp)
            th = (0.0, 90.0) if A[0] is None else A
            if A[0] is not None:
                args.update(angle0=A[0], angle=A[1])
            if te is None:
                te = [True, False]
            else:
                args["theta_endpoint"] = te
                te = [True, False] if te == "auto" else te
        else:
            p, r, d, nph, pe, roll = c
            nt, tp, th, ph, te = 1, False, (90.0, 90.0), (0, 360), True
            cls, args = v.Circle, dict(n=nph, endpoint=pe, roll=roll)
            pe = "auto" if pe is None else pe
        p_, d_ = np.array(p, "f8"), np.array(d, "f8")
        g = cls(p0=p if pv else p_, r=r, pole=d if pv else p_ + d_, **dict(args, **kw))
        pole = [th[i] in (0, 180) for i in range(2)]
        e = [not q for q in pole] if te == "auto" else list(te) if isinstance(te, (list, tuple)) else [te] * 2
        if all(e):
            t = np.linspace(th[0], th[1], nt)
        elif e[0]:
            t = np.linspace(th[0], th[1], nt + 1)[:-1]
        elif e[1]:
            t = np.linspace(th[0], th[1], nt + 1)[1:]
        else:
            t = np.linspace(th[0], th[1], 2 * nt + 1)[1::2]
        full = ph[1] - ph[0] == 360
        pe = (not full) if pe == "auto" else pe
        f = np.linspace(ph[0], ph[1], nph) if pe else np.linspace(ph[0], ph[1], nph + 1)[:-1]
        t, f = np.deg2rad(t), np.deg2rad(f)
        R = r or np.linalg.norm(d_)
        T, F = np.meshgrid(t, f, indexing="ij")
        if not tp:
            T, F = T.T, F.T
        m.update(sphere=(p_, self.unit(d_), R, T.reshape(-1), F.reshape(-1), roll + (180.0 if cs == "gse" else 0.0)), n=nt * nph, shape=T.shape, tp=tp, fill=fill,
                 axes=[t, f] if tp else [f, t], axn=["theta", "phi"] if tp else ["phi", "theta"], th=th, skip=[pole[i] and not e[i] for i in range(2)], close=full and not pe)
        m.update(uv=m["axes"], uvs=m["shape"], uvc=tuple(m["axn"]))
        if kind == "cap":
            require(abs(g.angle0 - th[0]) < 1e-9 and abs(g.angle - th[1]) < 1e-9, "a cap from {0} to {1} degrees says {2} to {3}", th[0], th[1], g.angle0, g.angle)
        if kind == "circle":
            require(g.n == nph, "a circle of {0} points says {1}", nph, g.n)
        return g, m

    def check_points(self, kind, g, m, pts, what):
        require(isinstance(pts, np.ndarray) and pts.ndim == 2, "{0}: {1}", what, type(pts))
        if "pts" in m:
            require(pts.shape == m["pts"].shape, "{0} have shape {1}, not {2}", what, pts.shape, m["pts"].shape)
            require(np.allclose(pts, m["pts"], rtol=m["tol"], atol=m["tol"]), "{0}: {1}, not {2}", what, pts.tolist(), m["pts"].tolist())
            return
        require(pts.shape == (3, m["n"]), "{0} have shape {1}, not {2}", what, pts.shape, (3, m["n"]))
        if "patch" in m:
            p, d, R, x, y, roll = m["patch"]
            q = pts - p[:, None]
            z = np.sqrt(np.maximum(R * R - x * x - y * y, 0))
            require(np.allclose(np.dot(d, q), z, atol=1e-7 * R), "{0} are {1} along the axis of the patch, not {2}", what, np.dot(d, q), z)
            require(np.allclose(np.sqrt(np.sum(q * q, axis=0)), R), "{0}: radius {1}, not {2}", what, np.sqrt(np.sum(q * q, axis=0)), R)
            G, W = np.dot(q.T, q), np.outer(x, x) + np.outer(y, y) + np.outer(z, z)
            require(np.allclose(G, W, atol=1e-6 * R * R), "{0}: products {1}, not {2}", what, G.tolist(), W.tolist())
            if len(x) > 1:     # right handed about the axis
                for i, j in itertools.combinations(range(len(x)), 2):
                    require(abs(np.dot(d, np.cross(q[:, i], q[:, j])) - (x[i] * y[j] - y[i] * x[j])) < 1e-6 * R * R, "{0}: handedness", what)
            if abs(abs(d[2]) - 1) < 1e-12 and d[2] > 0:
                a = np.deg2rad(roll)
                require(np.allclose(q[0], x * np.cos(a) - y * np.sin(a), atol=1e-9) and np.allclose(q[1], x * np.sin(a) + y * np.cos(a), atol=1e-9), "{0}: roll by {1}", what, roll)
            return
        p, d, R, T, F, roll = m["sphere"]
        q = pts - p[:, None]
        require(np.allclose(np.sqrt(np.sum(q * q, axis=0)), R), "{0}: radius {1}, not {2}", what, np.sqrt(np.sum(q * q, axis=0)), R)
        require(np.allclose(np.dot(d, q), R * np.cos(T), atol=1e-9), "{0}: along the pole {1}, not {2}", what, np.dot(d, q), R * np.cos(T))
        e = q - d[:, None] * np.dot(d, q)
        s = R * np.sin(T)
        if d[2] > 1 - 1e-12:
            a = F + np.deg2rad(roll)
            require(np.allclose(e[0], s * np.cos(a), atol=1e-9) and np.allclose(e[1], s * np.sin(a), atol=1e-9), "{0}: longitudes, roll {1}", what, roll)
        dF = F[None, :] - F[:, None]
        require(np.allclose(np.dot(e.T, e), np.outer(s, s) * np.cos(dF), atol=1e-8), "{0}: longitudes from one to the next", what)
        cr = np.einsum("k,kij->ij", d, np.cross(e[:, :, None], e[:, None, :], axis=0))
        require(np.allclose(cr, np.outer(s, s) * np.sin(dF), atol=1e-8), "{0}: longitudes turn the wrong way", what)

    # ------------------------------------------------------------ requests
    def run_case(self, case, rec):
        kind, c, reqs, cache = case
        g, m = self.build(kind, c, cache)
        if g is None:
            return "refused"
        n = m["pts"].shape[1] if "pts" in m else m["n"]
        P = None
        for r in reqs:
            rec.step()
            if P is None and r in ("mesh", "values", "wrap", "uv", "interp", "again", "iter"):
                P = np.array(self.build(kind, c, False)[0].get_points())
            getattr(self, "req_" + r)(kind, g, m, n, P, c)
        require(g.nr_points == n, "{0} points, not {1}", g.nr_points, n)
        rec.state((kind, n, m["shape"], m.get("skip"), m.get("close")))
        return kind

    def req_points(self, kind, g, m, n, P, c):
        self.check_points(kind, g, m, g.get_points(), "points")
        if kind not in ("point",):
            require(int(np.prod(g.local_shape)) in (n, 3 * n), "local shape {0} for {1} points", g.local_shape, n)

    def req_again(self, kind, g, m, n, P, c):
        a, b = g.get_points(), g.points()
        require(np.array_equal(a, b), "points differ the second time: {0}, {1}", a.tolist(), b.tolist())
        require(np.allclose(a, P, rtol=1e-12), "points change from {0} to {1}", P.tolist(), a.tolist())
        s = self.v.to_seeds(g)
        require(s is g, "to_seeds makes another generator")

    def req_iter(self, kind, g, m, n, P, c):
        got = np.array([list(x) for x in g.iter_points()]).T
        require(got.shape == (3, n) and np.allclose(got, P, rtol=m["tol"], atol=m["tol"]), "one by one: {0}, not {1}", got.tolist(), P.tolist())

    def req_array(self, kind, g, m, n, P, c):
        self.check_points(kind, g, m, np.array(g), "array of the seeds")
        self.check_points(kind, self.v.to_seeds(g.get_points()), m, self.v.to_seeds(g.get_points()).get_points(), "points of points") if n != 3 else None

    def req_to3d(self, kind, g, m, n, P, c):
        if "local" in m:
            a = g.to_3d(m["local"].copy())
            self.check_points(kind, g, m, a, "points from local points")
            b = g.to_local(a)
            require(np.allclose(b, m["local"], atol=1e-9), "to_local gives {0}, not {1}", b.tolist(), m["local"].tolist())
        if "rot" in m:
            require(np.allclose(g.get_rotation(), m["rot"]), "rotation {0}, not {1}", g.get_rotation().tolist(), m["rot"].tolist())
            off = m["local"] + np.array([[0.25], [-1.5], [2.0]])
            a = g.to_3d(off.copy())
            require(np.allclose(a, np.array(c[0], "f8").reshape(3, 1) + np.dot(m["rot"], off)), "local points off the plane")
            require(np.allclose(g.to_local(a), off), "to_local off the plane")

    def req_uv(self, kind, g, m, n, P, c):
        if m["uv"] is None:
            return
        require(tuple(g.uv_shape) == tuple(m["uvs"]), "uv shape {0}, not {1}", g.uv_shape, m["uvs"])
        uv = np.array([x.reshape(-1) for x in np.meshgrid(*m["uv"], indexing="ij")])
        a = g.uv_to_3d(uv)
        self.check_points(kind, g, m, np.asarray(a), "points from uv points")
        if "uvc" in m:
            crds = g.as_uv_coordinates()
            require(tuple(crds.axes) == m["uvc"], "uv axes {0}", crds.axes)
            for ax, w in zip(m["uvc"], m["uv"]):
                require(np.allclose(crds[ax], w, atol=1e-12), "uv axis {0}: {1}, not {2}", ax, crds[ax], w)

    def req_extent(self, kind, g, m, n, P, c):
        if "uvc" in m:
            got = g.uv_extent
            for i, w in enumerate(m["uv"]):
                require(np.allclose(got[i], [w[0], w[-1]]) or np.allclose(got[i], [min(w), max(w)]), "uv extent {0}, not {1}", got[i], [w[0], w[-1]])
        if kind == "point":
            return
        got = g.local_extent
        for i, w in enumerate(m["axes"]):
            require(np.allclose(got[i], [w[0], w[-1]]) or np.allclose(got[i], [min(w), max(w)]), "local extent {0}, not {1}", got[i], [w[0], w[-1]])

    def req_wrap(self, kind, g, m, n, P, c):
        val = lin(P)
        f = g.wrap_field(val.reshape(m["shape"]), name="q")
        require(f.name == "q" and tuple(f.shape) == tuple(m["shape"]) and list(f.crds.axes) == m["axn"], "field {0} {1} {2}", f.name, f.shape, f.crds.axes)
        for a, w in zip(m["axn"], m["axes"]):
            require(np.allclose(f.get_crd(a), w, atol=1e-6 if kind == "spline" else 1e-12), "{0} = {1}, not {2}", a, f.get_crd(a), w)
        require(np.array_equal(np.asarray(f.data).reshape(-1), val), "values of the field")
        f = g.wrap_field(val, name="q2") if len(m["shape"]) == 1 or kind in ("sphere", "cap", "circle") else f
        require(np.array_equal(np.asarray(f.data).reshape(-1), val) and tuple(f.shape) == tuple(m["shape"]), "values of the field from a row of values")
        V = np.array([val, 2 * val, -val])
        f = g.wrap_field(V.T.reshape(tuple(m["shape"]) + (3,)), fldtype="vector", layout="interlaced")
        for i, a in enumerate("xyz"):
            if all(k == 3 for k in m["shape"]):
                continue    # (layout-guess)
            q = f[a]
            require(np.array_equal(np.asarray(getattr(q, "data", q)).reshape(-1), V[i]), "component {0} of the field", a)

    def req_interp(self, kind, g, m, n, P, c):
        got = self.v.interp_linear(self.fld, g, wrap=False)
        require(np.shape(got) == (n,) and np.allclose(got, lin(P), rtol=1e-5 if m["tol"] > 1e-6 else 1e-9, atol=1e-5 if m["tol"] > 1e-6 else 1e-8), "interpolated {0}, not {1}", got, lin(P))
        if kind != "point" and len(m["shape"]) > 1:
            w = self.v.interp_linear(self.fld, g, wrap=True)
            require(tuple(w.shape) == tuple(m["shape"]) and np.allclose(np.asarray(w.data).reshape(-1), got), "interpolated field has {0}", w.shape)

    def mesh_of(self, m, P, val):
        """the mesh and its values the model gives, or None for the pole"""
        shape = tuple(m.get("uvs") or m["shape"])
        X = P.reshape((3,) + shape)
        V = val.reshape(shape)
        if "sphere" not in m or not m["fill"]:
            return X, V
        p, d, R = m["sphere"][:3]
        tp = m["tp"]
        if not tp:
            X, V = X.transpose(0, 2, 1), V.T
        for i in (0, 1):
            if m["skip"][i]:
                pole = np.repeat((p + d * R * np.cos(np.deg2rad(m["th"][i])))[:, None, None], X.shape[2], axis=2)
                pv = np.full((1, V.shape[1]), np.mean(V[-i]))
                X, V = [np.concatenate([b, a] if i == 0 else [a, b], axis=-2) for a, b in ((X, pole), (V, pv))]
        if m["close"]:
            X, V = [np.concatenate([a, a[..., :1]], axis=-1) for a in (X, V)]
        if not tp:
            X, V = X.transpose(0, 2, 1), V.T
        return X, V

    def req_mesh(self, kind, g, m, n, P, c):
        if not m["mesh"]:
            return
        val = lin(P)
        X, V = self.mesh_of(m, P, val)
        got = g.as_mesh()
        require(got.shape == X.shape, "mesh has shape {0}, not {1}", got.shape, X.shape)
        require(self.upto(got, X), "mesh {0}, not {1}", got.tolist(), X.tolist())

    def upto(self, a, b):
        """meshes may run either way along each direction"""
        return any(np.allclose(a, x, atol=1e-6) for x in (b, b[..., ::-1], b[..., ::-1, :], b[..., ::-1, ::-1]))

    def req_values(self, kind, g, m, n, P, c):
        if not m["mesh"]:
            return
        val = lin(P)
        X, V = self.mesh_of(m, P, val)
        fill = (None, True, False)
        res = g.wrap_mesh(val.copy(), 2 * val)
        require(len(res) == 3, "{0} results of wrap_mesh", len(res))
        both = np.concatenate([X, V[None], 2 * V[None]])
        got = np.concatenate([res[0], res[1][None], res[2][None]]) if res[1].shape == res[2].shape == res[0].shape[1:] else None
        require(got is not None and got.shape == both.shape, "wrap_mesh gives shapes {0}, not {1}", [x.shape for x in res], [X.shape, V.shape])
        require(self.upto(got, both), "values of the mesh {0}, not {1}", got.tolist(), both.tolist())
        require(np.array_equal(np.asarray(res[1], dtype="f8"), res[1]) and res[1].dtype == val.dtype, "type of the values {0}", res[1].dtype)
        iv = g.wrap_mesh((np.arange(n) + 1), fill_holes=False)[1]
        require(iv.dtype.kind == "i" and sorted(iv.reshape(-1).tolist()) == list(range(1, n + 1)), "{0} for whole numbers", iv.tolist())
