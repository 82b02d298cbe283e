"""Separators, clusters, null points, minimum variance"""
import itertools

import numpy as np

from vmc.core import Check, require

XS = [0.0, 1.0, 2.5, 3.0, 5.0, 7.0]
YS = [-2.0, 0.0, 1.0, 4.0, 4.5, 6.0]


def model_clusters(pts, n, pd, diagonals):
    """connected components on a (possibly periodic) grid, with the turns that take every point next to its fellows"""
    pts = list(pts)
    comp, turn, winding = {}, {}, {}
    nr = 0
    where = set(pts)
    for p in pts:
        if p in comp:
            continue
        comp[p], turn[p], winding[nr] = nr, (0, 0), False
        stack = [p]
        while stack:
            q = stack.pop()
            for dx, dy in itertools.product((-1, 0, 1), repeat=2):
                if (dx, dy) == (0, 0) or (dx and dy and not diagonals):
                    continue
                t, o = list(turn[q]), [q[0] + dx, q[1] + dy]
                ok = True
                for a in range(2):
                    if not 0 <= o[a] < n[a]:
                        if not pd[a]:
                            ok = False
                            break
                        t[a] += 1 if o[a] >= n[a] else -1
                        o[a] %= n[a]
                o, t = tuple(o), tuple(t)
                if not ok or o not in where:
                    continue
                if o not in comp:
                    comp[o], turn[o] = nr, t
                    stack.append(o)
                elif turn[o] != t:
                    winding[nr] = True
        nr += 1
    return nr, comp, turn, winding


class Separators(Check):
    pid = "V32"
    rule = ("all topologies of small maps and all small sets of points, with all boundaries; all lattice places of a separator on "
            "seeds of three kinds; nulls of all small matrices; all short series")
    bounds = {"maps": "2x3 .. 4x5", "topologies": "up to 4 kinds", "separator": "lattice of places x turns x seeds", "matrices": "entries -1..2"}
    assumptions = ("the tracer of field lines is replaced by the topology of four sectors (what it gives is V05's business)",)

    def setup(self):
        pass

    def shards(self, tier):
        return ([("bitor", 3, 3), ("bitor", 2, 3), ("bitor", 3, 4)] + [("clu", n, p) for n in ((4, 5), (2, 6), (3, 4)) for p in range(3)]
                + [("bis", s) for s in ("plane", "patch", "part")] + [("bs", 0)] + [("null", i) for i in range(4)] + [("nullb", i) for i in range(4)] + [("mv", i) for i in range(2)] + [("col",)])

    PD = list(itertools.product("01+", repeat=2))

    def cases(self, shard, tier):
        kind = shard[0]
        if kind == "bitor":
            nx, ny = shard[1:]
            vals = (1, 2, 4, 8) if nx * ny == 6 else (1, 2)
            sep = sum(vals)
            for a in itertools.product(vals, repeat=nx * ny):
                hi = sum(a[i] == 1 for i in range(0, nx * ny, 2)) % 2
                for pd in (("00", "10", "+1") if nx * ny == 9 else ("00",)):
                    for bnds in (((), ("0-",), ("0+", "1-")) if pd == "00" and nx * ny < 12 else ((),)):
                        for lo, up in ((1, 1), (1, 2), (2, 2)):
                            if pd != "00" and up > 1 or up >= min(nx, ny):
                                continue
                            yield dict(kind="bitor", a=list(a), n=[nx, ny], sep=sep, pd=pd, bnds=list(bnds), lo=lo, up=up, limit=15 if hi else 0)
        elif kind == "clu":
            n = shard[1]
            pts = list(itertools.product(range(n[0]), range(n[1])))
            most = dict(quick=3, thorough=4)[tier] if n == (4, 5) else (12 if tier == "thorough" else (8 if n == (2, 6) else 5))
            for k in range(0, most + 1):
                for i, sub in enumerate(itertools.combinations(pts, k)):
                    for j, pd in enumerate(self.PD):
                        if j % 3 != shard[2]:
                            continue
                        for diag in (True, False):
                            yield dict(kind="clu", pts=[list(p) for p in sub], n=list(n), pd=pd[0] + pd[1], diag=diag, order=(i + j) % 3, multi=True)
                    if shard[2] == 0 and k:
                        yield dict(kind="clu", pts=[list(p) for p in sub], n=list(n), pd="00", diag=True, order=i % 3, multi=False)
        elif kind == "bis":
            N = 9 if tier == "quick" else 17
            for i in range(1, N):
                for j in range(1, N):
                    for turn in ((0.3, 1.0) if tier == "quick" else (0.05, 0.3, 0.7, 1.0, 1.4)):
                        for depth in (3, 6):
                            yield dict(kind="bis", seed=shard[1], u=i / N, v=j / N, turn=turn, depth=depth, lo=1 + (i + j) % 3)
                            if (i + j) % 4 == 0:
                                yield dict(kind="bis", seed=shard[1], u=i / 8.0 if i < 8 else 0.4, v=j / 8.0 if j < 8 else 0.6, turn=turn, depth=depth, lo=1 + (i + j) % 3)
        elif kind == "bs":
            for seed in ("plane", "patch", "sphere", "cap", "part"):
                for i in range(1, 9):
                    for j in range(1, 9):
                        for turn in (0.3, 1.0):
                            yield dict(kind="bs", seed=seed, u=i / 9.0, v=j / 9.0, turn=turn)
        elif kind == "null":
            k = 0
            P = [(0.3, 0.4, 0.6), (-1.23, 0.77, 1.61), (0.57, -1.71, -0.37), (9.0, 9.0, 9.0)]
            for M in itertools.product((-1, 0, 2), repeat=9):
                k += 1
                if abs(np.linalg.det(np.array(M, dtype=float).reshape(3, 3))) < 0.5:
                    continue
                if k % (7 if tier == "quick" else 1):
                    continue
                dt, center = ("f8", "f4")[k % 2], ("node", "cell")[k // 2 % 2]
                yield dict(kind="null", M=list(M), p=P[shard[1]], dt=dt, center=center, layout=("interlaced", "flat")[k // 4 % 2],
                           ib=(0.0, 0.0, 1.2)[k % 3])
        elif kind == "nullb":
            # products of linear functions of two coordinates: hyperbolas on the faces of the cells
            P = [(0.3, 0.4, 0.6), (-1.23, 0.77, 1.61), (0.57, -1.71, -0.37), (9.0, 9.0, 9.0)]
            k = 0
            for M in itertools.product((-1, 1, 2), repeat=9):
                if abs(np.linalg.det(np.array(M, dtype=float).reshape(3, 3))) < 0.5:
                    continue
                for e in itertools.product((-0.8, 0.0, 0.9), repeat=3):
                    k += 1
                    if not any(e) or k % (101 if tier == "quick" else 7):
                        continue
                    yield dict(kind="null", M=list(M), p=P[shard[1]], dt=("f8", "f4")[k // 5 % 2], center=("node", "cell")[k // 2 % 2],
                               layout=("interlaced", "flat")[k // 4 % 2], ib=0.0, e=list(e), sh=1 + k // 3 % 2)
        elif kind == "mv":
            V = [(1.0, 0.0, 0.0), (0.0, 2.0, 0.0), (0.5, 1.0, -1.0), (2.0, 2.0, 1.0), (-1.0, 0.3, 4.0), (np.nan, 1.0, 1.0), (0.0, 0.0, 0.0)]
            for i, s in enumerate(itertools.product(range(len(V)), repeat=4 if shard[1] == 0 else 3)):
                yield dict(kind="mv", s=[[repr(x) for x in V[k]] for k in s])
            if shard[1]:
                for p1 in itertools.product((-1.5, 0.0, 1.0), repeat=3):
                    for p2 in itertools.product((-1.0, 1.9), repeat=3):
                        for n in (5, 12):
                            for lb in (None, [0.0, 0.0, 1.0], [1.0, -2.0, 0.5], "n", "-n"):
                                yield dict(kind="mvf", p1=list(p1), p2=list(p2), n=n, lb=lb)
        elif kind == "col":
            for style in ("msphere", "generic", "own"):
                for bad in (None, [0.5, 0.25, 1.0]):
                    for v in itertools.product((0, 1, 2, 4, 8, 15), repeat=3):
                        for form in ("array", "list", "field", "one"):
                            yield dict(kind="col", style=style, bad=bad, v=list(v), form=form)

    def run_case(self, case, rec):
        rec.state(repr(sorted((k, repr(v)) for k, v in case.items())))
        return getattr(self, "run_" + case["kind"])(case, rec)

    # ------------------------------------------------------------ clusters
    def check_clusters(self, got, pts, n, x, y, pd, diag):
        pdb = [c != "0" for c in pd]
        nr, comp, turn, winding = model_clusters(pts, n, pdb, diag)
        require(np.shape(got) == (2, nr), "{0} clusters, want {1}: {2}", np.shape(got), nr, got)
        L = [(c[-1] - c[0]) + (c[-1] - c[-2] if p == "+" else 0.0) for c, p in zip((x, y), pd)]
        free = list(range(nr))
        for k in range(nr):
            if winding[k]:
                continue
            mine = [p for p in comp if comp[p] == k]
            w = [np.mean([(x, y)[a][p[a]] + turn[p][a] * L[a] for p in mine]) for a in range(2)]
            for j in list(free):
                d = [got[a, j] - w[a] for a in range(2)]
                d = [e - np.round(e / L[a]) * L[a] if pdb[a] else e for a, e in enumerate(d)]
                if max(abs(d[0]), abs(d[1])) < 1e-9:
                    free.remove(j)
                    break
            else:
                require(False, "no cluster at {0}: {1}", w, got.tolist())
        for a in range(2):
            c = (x, y)[a]
            lo, hi = c[0] - 1e-9, c[-1] + 1e-9
            if pd[a] == "+":
                lo, hi = lo - (c[-1] - c[-2]), hi + (c[-1] - c[-2])
            require(all(lo <= g <= hi for g in got[a]), "a cluster is outside of the map: {0}", got.tolist())

    def run_clu(self, case, rec):
        import viscid
        n, pd = case["n"], case["pd"]
        x, y = XS[:n[0]], YS[:n[1]]
        pts = [tuple(p) for p in case["pts"]]
        if case["order"] == 1:
            pts = pts[::-1]
        elif case["order"] == 2:
            pts = pts[::2] + pts[1::2][::-1]
        ix, iy = [p[0] for p in pts], [p[1] for p in pts]
        if case["order"] == 1:
            ix, iy = np.array(ix, dtype=int), np.array(iy, dtype=int)
        got = viscid.find_clusters(ix, iy, np.array(x), np.array(y), multiple=case["multi"], periodic=pd, diagonals=case["diag"])
        rec.step()
        if not case["multi"]:
            w = np.array([[np.mean([x[p[0]] for p in pts])], [np.mean([y[p[1]] for p in pts])]])
            require(got.shape == (2, 1) and np.allclose(got, w), "the cluster of all points is at {0}, want {1}", got.tolist(), w.tolist())
            return "one"
        self.check_clusters(np.asarray(got), pts, n, x, y, pd, case["diag"])
        return "clusters %d" % got.shape[1]

    def run_bitor(self, case, rec):
        import viscid
        nx, ny = case["n"]
        x, y = np.array(XS[:nx]), np.array(YS[:ny])
        a = np.array(case["a"], dtype="i4").reshape(nx, ny)
        if case["limit"]:
            a = a | (np.arange(a.size).reshape(a.shape) % 3 << 4).astype("i4")
        fld = viscid.arrays2field((x, y), a.copy(), name="topo")
        got = viscid.topology_bitor_clusters(fld, min_depth=case["lo"], max_depth=case["up"], sep_val=case["sep"],
                                             mask_limit=case["limit"], periodic=case["pd"], pt_bnds=case["bnds"])
        rec.step()
        require(np.array_equal(fld.data, a), "topology_bitor_clusters changes the topology")
        m = a & 15
        for d in range(1, case["up"] + 1):
            if case["pd"][0] != "0":
                m = np.concatenate([[m[0] | m[-1]], m[1:-1], [m[0] | m[-1]]])
            if case["pd"][1] != "0":
                e = (m[:, 0] | m[:, -1])[:, None]
                m = np.concatenate([e, m[:, 1:-1], e], axis=1)
            k = np.zeros((m.shape[0] - 1, m.shape[1] - 1), dtype=int)
            for i, j in itertools.product(range(k.shape[0]), range(k.shape[1])):
                for p, q in itertools.product((0, 1), repeat=2):
                    k[i, j] |= m[i + p, j + q]
            m = k
            x, y = 0.5 * (x[1:] + x[:-1]), 0.5 * (y[1:] + y[:-1])
            for b in case["bnds"]:
                v = m if b[0] == "0" else m.T
                row = v[-1 if b[1] == "+" else 0]
                o = 0
                for e in row:
                    o |= int(e)
                row[:] = o
            pts = [tuple(p) for p in np.argwhere(m == case["sep"])]
            if pts and d >= case["lo"]:
                break
        if case["pd"] == "00":
            self.check_clusters(np.asarray(got), pts, m.shape, x, y, "00", True)
        else:
            require((np.shape(got)[1] > 0) == bool(pts), "{0} for candidates {1}", np.asarray(got).tolist(), pts)
        return "bitor %d" % np.shape(got)[1]

    # ------------------------------------------------------------ separators
    def seed(self, which, big=False):
        import viscid
        k = 3 if big else 1
        if which == "plane":
            return viscid.Plane(p0=(1.0, -2.0, 0.5), pN=(1.0, 1.0, 0.0), pL=(0.0, 0.0, 1.0), len_l=4.0, len_m=3.0, nl=12 * k, nm=16 * k)
        if which == "patch":
            return viscid.SphericalPatch(p0=(1.0, 0.0, 0.0), p1=(0.0, 1.0, 1.0), r=2.0, max_alpha=40, max_beta=30, nalpha=14 * k, nbeta=12 * k)
        if which == "sphere":
            return viscid.Sphere(p0=(0.5, 0.0, 0.0), r=3.0, ntheta=12 * k, nphi=16 * k, theta_endpoint=True, phi_endpoint=True)
        if which == "cap":
            return viscid.SphericalCap(p0=(0.5, 0.0, 0.0), r=3.0, ntheta=12 * k, nphi=16 * k, angle=60.0, angle0=10.0, phi_endpoint=True)
        return viscid.Sphere(p0=(0.5, 0.0, 0.0), r=3.0, ntheta=12 * k, nphi=16 * k, thetalim=(30.0, 120.0), philim=(20.0, 200.0))

    def to_uv(self, seed, which, P):
        P = np.asarray(P, dtype=float)
        if which == "plane":
            return np.asarray(seed.to_local(P))[:2]
        Q = np.einsum("ji,jk->ik", seed.get_rotation(), P - np.asarray(seed.p0, dtype=float).reshape(3, 1))
        if which == "patch":
            return np.array([np.arcsin(np.clip(Q[i] / seed.r, -1, 1)) for i in range(2)])
        th = np.arccos(np.clip(Q[2] / seed.r, -1, 1))
        ph = np.arctan2(Q[1], Q[0]) % (2 * np.pi)
        return np.array([th, ph] if seed.theta_phi else [ph, th])

    @staticmethod
    def sectors(d, turn):
        ang = (np.arctan2(d[1], d[0]) + turn) % (2 * np.pi)
        return (1 << np.minimum((ang / (0.5 * np.pi)).astype(int), 3)).astype("i4")

    def stub(self, seed, which, turn, c, scale):
        def tracer(fld, seeds, **kw):
            pts = seeds if isinstance(seeds, np.ndarray) else seeds.points()
            uv = self.to_uv(seed, which, pts)
            d = [(uv[a] - c[a]) / scale[a] for a in range(2)]
            t = self.sectors(d, turn)
            if isinstance(seeds, np.ndarray):
                return None, t
            return None, seeds.wrap_field(t)
        return tracer

    def with_stub(self, tracer, fn, *args, **kw):
        import viscid
        saved = viscid.calc_streamlines
        viscid.calc_streamlines = tracer
        try:
            return fn(*args, **kw)
        finally:
            viscid.calc_streamlines = saved

    def run_bis(self, case, rec):
        import contextlib
        import io
        import viscid
        which = case["seed"]
        seed = self.seed(which)
        ext = np.asarray(seed.uv_extent, dtype=float)
        size = ext[:, 1] - ext[:, 0]
        c = ext[:, 0] + size * np.array([case["u"], case["v"]])
        tracer = self.stub(seed, which, case["turn"], c, size)
        want = [c]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            uv = self.with_stub(tracer, viscid.get_sep_pts_bisect, None, seed, min_depth=case["lo"], max_depth=case["depth"], make_3d=False)
            xyz = self.with_stub(tracer, viscid.get_sep_pts_bisect, None, seed, min_depth=case["lo"], max_depth=case["depth"])
        rec.step(2)
        require(uv.shape[0] == 2 and uv.shape[1] >= 1, "no separator at {0}: {1}", (case["u"], case["v"]), uv)
        q = 0.65 ** 1 * 0.5 ** (case["depth"] - 1) * 1.0 + 1e-9
        far = [[np.max(np.abs(uv[:, k] - w) / size) for k in range(uv.shape[1])] for w in want]
        require(np.all(np.min(far, axis=0) <= q), "separators at {0} of {1}, want {2}", uv.tolist(), ext.tolist(), np.array(want).tolist())
        require(np.all(np.min(far, axis=1) <= q), "separators at {0}, want {1}", uv.tolist(), np.array(want).tolist())
        require(uv.shape[1] <= 4 * len(want), "{0} separators, want {1}", uv.shape[1], len(want))
        require(xyz.shape == (3, uv.shape[1]) and np.allclose(self.to_uv(seed, which, xyz), uv, atol=1e-6), "in space: {0}, want {1}", xyz, uv)
        return "bisect"

    def run_bs(self, case, rec):
        import viscid
        which = case["seed"]
        seed = self.seed(which, big=True)
        ext = np.asarray(seed.uv_extent, dtype=float)
        size = ext[:, 1] - ext[:, 0]
        c = ext[:, 0] + size * np.array([case["u"], case["v"]])
        tracer = self.stub(seed, which, case["turn"], c, size)
        uv = self.with_stub(tracer, viscid.get_sep_pts_bitor, None, seed, make_3d=False)
        xyz = self.with_stub(tracer, viscid.get_sep_pts_bitor, None, seed)
        rec.step(2)
        cell = size / (np.array(seed.uv_shape) - 1)
        near = [np.all(np.abs(uv[:, k] - c) <= 1.5 * cell) for k in range(uv.shape[1])]
        require(any(near), "no separator near {0}: {1}", c, uv)
        require(xyz.shape == (3, uv.shape[1]) and np.allclose(self.to_uv(seed, which, xyz), uv, atol=1e-6), "in space: {0}, want {1}", xyz, uv)
        return "bitor seeds"

    # ------------------------------------------------------------ nulls
    def linear(self, M, p, dt, center, layout, e=(0, 0, 0), sh=1):
        import viscid
        C = [np.array([-2.0, -1.1, -0.3, 0.45, 1.3, 2.0]), np.linspace(-2, 2, 5), np.array([-2.0, -0.9, 0.7, 2.1])]
        if center == "cell":
            C = [np.concatenate([[c[0] - 0.5], 0.5 * (c[1:] + c[:-1]), [c[-1] + 0.5]]) for c in C]
        f = viscid.zeros(C, crd_names="xyz", center=center, nr_comps=3, layout=layout, dtype=dt)
        X = np.meshgrid(*f.get_crds("xyz"), indexing="ij")
        for k, v in enumerate(f.component_views()):
            v[...] = sum(M[k][a] * (X[a] - p[a]) * (1 + e[a] * X[(a + sh) % 3] / 3.0) for a in range(3))
        return f

    def run_null(self, case, rec):
        import viscid
        M = np.array(case["M"], dtype=float).reshape(3, 3)
        e = case.get("e", (0, 0, 0))
        f = self.linear(M, case["p"], case["dt"], case["center"], case["layout"], e, case.get("sh", 1))
        keep = np.array(f.data)
        inds, pts = viscid.find_nulls(f, ibound=case["ib"])
        cl = viscid.find_classified_nulls(f, ibound=case["ib"])
        rec.step(2)
        require(np.array_equal(keep, f.data), "find_nulls changes the field")
        crds = f.get_crds("xyz")
        cell = [int(np.searchsorted(c, v)) - 1 for c, v in zip(crds, case["p"])]
        there = all(0 <= i < len(c) - 1 for i, c in zip(cell, crds))
        if there and case["ib"] and sum(c[i] ** 2 for i, c in zip(cell, crds)) < case["ib"] ** 2:
            there = False
        require(np.shape(inds) == (3, int(there)) and np.shape(pts) == (3, int(there)), "nulls {0} at {1}, want {2}", np.asarray(inds).tolist(),
                np.asarray(pts).tolist(), cell if there else "none")
        tot = sum(v[0].shape[1] for v in cl.values())
        require(sorted(cl) == ["A", "B", "O"] and all(v[0].shape == v[1].shape and v[0].shape[0] == 3 for v in cl.values()), "kinds {0}", cl)
        if not there:
            require(tot == 0, "kinds {0} without nulls", cl)
            return "no null"
        require(np.asarray(inds)[:, 0].tolist() == cell, "null in {0}, want {1}", np.asarray(inds).tolist(), cell)
        require(np.allclose(np.asarray(pts)[:, 0], [c[i] for c, i in zip(crds, cell)], rtol=1e-6), "point of the null {0}", pts)
        if any(e):
            return "null bent"
        if abs(np.trace(M)) > 1e-9:
            return "null"
        ev = np.linalg.eigvals(M)
        if min(abs(ev)) < 1e-2 or any(0 < abs(e.imag) < 1e-2 for e in ev):
            return "null"
        if sum(abs(e.imag) > 1e-6 for e in ev) == 0 and min(abs(ev[i] - ev[j]) for i in range(3) for j in range(i)) < 1e-2:
            return "null"
        want = "A" if sum(e.real > 0 for e in ev) == 1 else "B"
        if case["dt"] == "f4":
            return "null"
        require(tot == 1 and cl[want][0].shape[1] == 1, "kind of null of {0}: {1}, want {2}", M.tolist(), {k: v[0].tolist() for k, v in cl.items()}, want)
        return "null " + want

    # ------------------------------------------------------------ minimum variance
    def check_mv(self, arr, evals, evecs):
        ok = np.isfinite(arr).all(axis=1)
        if ok.sum() < 3:
            require(np.isnan(evals).all() and np.isnan(evecs).all() and np.shape(evals) == (3,) and np.shape(evecs) == (3, 3),
                    "minimum variance of {0} samples", ok.sum())
            return False
        a = arr[ok]
        d = a - a.mean(axis=0)
        S = np.dot(d.T, d) / len(a)
        w = np.linalg.eigvalsh(S)
        require(np.allclose(np.sort(np.abs(w)), np.abs(evals), atol=1e-9 * (1 + abs(w).max())), "variances {0}, want {1}", evals, w)
        for k in range(3):
            v = np.real(evecs[:, k])
            require(abs(np.dot(v, v) - 1) < 1e-9 and np.allclose(np.dot(S, v), evals[k] * v, atol=1e-8 * (1 + abs(w).max())), "direction {0} is {1}", k, v)
        return True

    def run_mv(self, case, rec):
        import viscid
        arr = np.array([[float(x) for x in v] for v in case["s"]])
        keep = arr.copy()
        with np.errstate(all="ignore"):
            evals, evecs = viscid.minvar_series(arr)
        rec.step()
        require(np.array_equal(keep, arr, equal_nan=True), "minvar_series changes its argument")
        return "series %d" % self.check_mv(arr, np.asarray(evals), np.asarray(evecs))

    def run_mvf(self, case, rec):
        import viscid
        f = self.linear([[1.0, 0.3, -0.2], [0.1, -2.0, 0.5], [0.0, 1.0, 1.0]], (0.1, 0.2, 0.3), "f8", "node", "interlaced")
        X = np.meshgrid(*f.get_crds("xyz"), indexing="ij")
        f["x"] += 0.7 * X[0] ** 2 - X[1] * X[2]
        f["z"] += X[0] * X[1] + 0.4 * X[2] ** 3
        p1, p2 = np.array(case["p1"]), np.array(case["p2"])
        if np.allclose(p1, p2):
            return "one point"
        pts = np.array([p1 + (p2 - p1) * k / (case["n"] - 1.0) for k in range(case["n"])]).T
        arr = np.asarray(viscid.interp_trilin(f, pts))
        with np.errstate(all="ignore"):
            evals, evecs = viscid.minvar(f, p1, p2, n=case["n"])
            length = np.linalg.norm(p2 - p1)
            ev2, vec2 = viscid.minvar_around(f, 0.5 * (p1 + p2), l=length, path_dir=tuple(3.0 * (p2 - p1)), n=case["n"])
        rec.step(3)
        evals, evecs = np.asarray(evals), np.asarray(evecs)
        if not self.check_mv(arr, evals, evecs):
            return "field nan"
        require(np.allclose(evals, ev2, rtol=1e-6, atol=1e-9), "minvar_around: {0}, want {1}", ev2, evals)
        if min(abs(evals[1] - evals[0]), abs(evals[2] - evals[1])) < 1e-3 * abs(evals[2]):
            return "field degenerate"
        n = np.real(evecs[:, 0])
        lb = case["lb"]
        if lb in ("n", "-n"):
            lb = (2.0 if lb == "n" else -2.0) * n
        with np.errstate(all="ignore"):
            for R in (viscid.find_minvar_lmn(f, p1, p2, n=case["n"], l_basis=lb),
                      viscid.find_minvar_lmn_around(f, 0.5 * (p1 + p2), l=length, path_dir=p2 - p1, n=case["n"], l_basis=lb)):
                R = np.real(np.asarray(R))
                require(R.shape == (3, 3) and np.allclose(np.dot(R.T, R), np.eye(3), atol=1e-8) and np.linalg.det(R) > 0, "lmn is not a frame: {0}", R.tolist())
                require(abs(abs(np.dot(R[:, 2], n)) - 1) < 1e-6, "the normal is {0}, want {1}", R[:, 2], n)
                if lb is None or case["lb"] in ("n", "-n"):
                    require(abs(abs(np.dot(R[:, 0], np.real(evecs[:, 2]))) - 1) < 1e-6, "l is {0}, want {1}", R[:, 0], evecs[:, 2])
                else:
                    q = np.array(lb) - np.dot(lb, n) * n
                    require(np.allclose(R[:, 0], q / np.linalg.norm(q), atol=1e-6), "l is {0}, want {1}", R[:, 0], q)
        rec.step(2)
        return "frame"

    def run_col(self, case, rec):
        import viscid
        ms = {1: (0.0, 0.8, 0.0), 2: (0.0, 0.0, 0.7), 4: (0.7, 0.0, 0.0), 8: (0.7, 0.7, 0.7)}
        own = {1: (0.1, 0.2, 0.3), 15: (1.0, 1.0, 0.0)}
        table = dict(msphere=ms, generic={}, own=own)[case["style"]]
        bad = tuple(case["bad"] or (0.0, 0.0, 0.0))
        v = case["v"]
        kw = dict(topo_style=own if case["style"] == "own" else case["style"], bad_color=case["bad"])
        if case["form"] == "one":
            got = viscid.topology2color(v[0], **kw)
            w = table.get(v[0], bad)
            require(tuple(got) == tuple(w), "colour of {0} is {1}, want {2}", v[0], got, w)
        else:
            arg = dict(array=np.array(v), list=v, field=viscid.arrays2field((np.arange(3.0),), np.array(v, dtype="i4")))[case["form"]]
            got = viscid.topology2color(arg, **kw)
            require(np.array_equal(got, [table.get(k, bad) for k in v]), "colours of {0}: {1}", v, got)
        rec.step()
        return "colour"
