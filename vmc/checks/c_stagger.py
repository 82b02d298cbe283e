"""Face and edge centered fields, and what is derived from them, against positions in space"""
import itertools
import os
import shutil

import numpy as np

from vmc import boot
from vmc.checks import c_readers as R
from vmc.core import Check, require

AX = "xyz"
CC = {"x": [-4.0, -1.5, 0.5, 6.0, 7.0], "y": [-3.0, 0.0, 2.0, 5.0, 6.5], "z": [-2.0, -1.0, 0.25, 3.0, 4.0]}


def number(pos, c, seed):
    """an arbitrary number that belongs to component c at a position (half-integer indices), exact in single precision"""
    i, j, k = (int(round(2 * p)) for p in pos)
    return float((i * 37 + j * 101 + k * 53 + c * 17 + seed * 71) % 127 - 63)


class Stagger(Check):
    pid = "V33"
    rule = ("staggered files for all shapes, steppers, transforms and quantities in the bounds, with one number per place in space; "
            "and every basis vector of the staggered fields of all small shapes, each field operation compared place by place")
    bounds = {"cells": "1..5 per axis", "components": "3", "staggerings": "leading, trailing", "frames": "mhd, gse"}
    assumptions = ("the outermost cells, which the code fills by repetition, are left out, but for their shape",)

    def setup(self):
        self.n = 0

    def shards(self, tier):
        return [("file", q, s) for q in ("b", "e") for s in ("lead", "trail")] + [("own",), ("basis",), ("identity",), ("psi",),
                                                                                 ("beta",)]

    def cases(self, shard, tier):
        kind = shard[0]
        if kind == "file":
            top = 5 if tier == "thorough" else 4
            for shape in itertools.product(range(3, top + 1), repeat=3):
                if max(shape) <= 3:     # a single value would be left
                    continue
                for flip in ("false", "force"):
                    for copy in (False, True):
                        for names in ((1, 2) if shard[1] == "b" else (1,)):
                            yield dict(kind="file", q=shard[1], stag=shard[2], shape=list(shape), flip=flip, copy=copy,
                                       names=names)
        elif kind == "own":
            for center in ("face", "edge"):
                for shape in itertools.product((1, 2, 3, 4), repeat=3):
                    if max(shape) <= 2:     # a single value would be left
                        continue
                    for layout in ("interlaced", "flat"):
                        for bnd in (False, True):
                            for numpy in (False, True):
                                for drop in (False, True)[:1 + (shape[2] == 1)]:
                                    yield dict(kind="own", center=center, shape=list(shape), layout=layout, bnd=bnd,
                                               numpy=numpy, drop=drop)
        elif kind == "basis":
            for shape in ((3, 2, 2), (2, 3, 3), (3, 3, 3)) + (((4, 3, 3),) if tier == "thorough" else ()):
                for c in range(3):
                    for idx in itertools.product(*[range(n) for n in shape]):
                        yield dict(kind="basis", shape=list(shape), c=c, idx=list(idx))
        elif kind == "identity":
            for shape in ((3, 3, 3), (4, 3, 2)):
                for c in range(3):
                    for idx in itertools.product(*[range(n) for n in shape]):
                        yield dict(kind="identity", shape=list(shape), c=c, idx=list(idx))
        elif kind == "psi":
            for plane in ("xy", "xz", "yz"):
                for shape in itertools.product((2, 3, 4, 5), repeat=2):
                    for form in ("2d", "3d", "thin", "thick"):
                        if min(shape) < {"thin": 3, "thick": 4}.get(form, 2) or max(shape) > 4 and form[:2] != "th":
                            continue
                        for center in ("node", "cell"):
                            for rev in (False, True):
                                for layout in ("interlaced", "flat"):
                                    yield dict(kind="psi", plane=plane, shape=list(shape), form=form, center=center, rev=rev,
                                               layout=layout)
        elif kind == "beta":
            for shape in itertools.product((1, 2, 3), repeat=2):
                for layout in ("interlaced", "flat"):
                    for scale in (None, 1.0, 40.0):
                        for dt in ("f4", "f8"):
                            if max(shape) > 1 and (layout == "flat" or shape[0] != 3):
                                yield dict(kind="beta", shape=list(shape), layout=layout, scale=scale, dtype=dt)

    def run_case(self, case, rec):
        import viscid
        from viscid.readers.openggcm import GGCMGrid
        self.n += 1
        self.d = os.path.join(boot.scratch(), "sg-%d-%d" % (os.getpid(), self.n))
        os.makedirs(self.d)
        rec.state(tuple(sorted((k, repr(v)) for k, v in case.items())))
        saved = GGCMGrid.mhd_to_gse_on_read, GGCMGrid.copy_on_transform
        from viscid.calculator import ecfc
        numexpr = ecfc._HAS_NUMEXPR
        try:
            return getattr(self, "run_" + case["kind"])(case, rec)
        finally:
            ecfc._HAS_NUMEXPR = numexpr
            GGCMGrid.mhd_to_gse_on_read, GGCMGrid.copy_on_transform = saved
            viscid.unload_all_files()
            shutil.rmtree(self.d, ignore_errors=True)

    # -------------------------------------------------------------- places
    @staticmethod
    def off(q, c):
        """where component c lives in its cell: 0 at the middle, -1/2 at the lower side"""
        if q in ("b", "face"):
            return tuple(-0.5 if a == c else 0.0 for a in range(3))
        return tuple(0.0 if a == c else -0.5 for a in range(3))

    def at_cell(self, q, c, cell, seed, one=(False,) * 3):
        """the mean over the faces or edges around the middle of a cell"""
        o = self.off(q, c)
        axes = [a for a in range(3) if o[a] and not one[a]]
        vals = []
        for s in itertools.product((-0.5, 0.5), repeat=len(axes)):
            p = [i + d if n else i for i, d, n in zip(cell, o, one)]
            for a, d in zip(axes, s):
                p[a] += d
            vals.append(number(p, c, seed))
        return sum(vals) / len(vals)

    # -------------------------------------------------------------- files
    def run_file(self, case, rec):
        import viscid
        from viscid.readers.openggcm import GGCMGrid
        GGCMGrid.mhd_to_gse_on_read = case["flip"]
        GGCMGrid.copy_on_transform = case["copy"]
        shape, q = case["shape"], case["q"]
        trail = case["stag"] == "trail"
        R.w_grid2(os.path.join(self.d, "run.grid2"), shape, CC)
        with open(os.path.join(self.d, "run.log"), "w") as f:
            f.write("=================== class == ggcm_mhd_fld\nparameter           | value\n-----+----\nmhd_type | %d\n"
                    "------+--------- type -- x\n\ncp=1 step=1\n" % (1 if trail else 2))
        names = {("b", 1): ["bx1", "by1", "bz1"], ("b", 2): ["bx2", "by2", "bz2"], ("e", 1): ["eflx", "efly", "eflz"]}[
            q, case["names"]]
        flds = []
        for c in range(3):
            a = np.zeros(shape)
            for ijk in itertools.product(*[range(n) for n in shape]):
                o = self.off(q, c)
                # lower sides of the cells, or the upper sides if trailing
                a[ijk] = number([i + (-d if trail else d) for i, d in zip(ijk, o)], c, 0)
            flds.append((names[c], a))
        fn = os.path.join(self.d, "run.3df.000060.b")
        R.w_fortbin(fn, 60, "time=     60.0    0.315E+08 1967:01:01:00:01:00.000  c300", flds, "<")
        f = viscid.load_file(fn)
        flip = case["flip"] == "force"
        g = f.get_grid()
        which = (("b_fc", "b", "b_cc") if q == "b" else ("e_ec", "e", "e_cc"))
        ncs = [R.edges(CC[a][:n]) for a, n in zip(AX, shape)]
        if flip:
            ncs = [-n[::-1] if i < 2 else n for i, n in enumerate(ncs)]
        raw = g[which[0]]
        require(raw.center.lower() == ("face" if q == "b" else "edge"), "{0}: center {1}", which[0], raw.center)
        for ax, one, all_ in zip(raw.crds.axes, raw.get_crds(), raw.get_crds(shaped=True)):
            w = raw.get_crd_cc(ax)
            for crd in (one, all_, raw.get_crd(ax)):
                require(isinstance(crd, np.ndarray) and np.array_equal(crd.reshape(-1), w.reshape(-1)), "{0}: coordinates {1}, want {2}", which[0], crd, w)
        rets = [(nm, g[nm], True) for nm in which[1:]]
        fn2 = viscid.fc2cc if q == "b" else viscid.ec2cc
        rets.append((fn2.__name__, fn2(raw, bnd=False), False))
        rets.append((fn2.__name__ + " with numpy", fn2(raw, force_numpy=True), True))

        def want(cell, c):
            """component c at a cell of the frame"""
            src = [shape[a] - 1 - i if flip and a < 2 else i for a, i in enumerate(cell)]
            return self.at_cell(q, c, src, 0, [n == 1 for n in shape]) * (-1 if flip and c < 2 else 1)
        inside = tuple(1 if n == 1 else n - 2 for n in shape)
        outer = tuple(n + 2 for n in inside)
        cells = list(itertools.product(*[(0,) if n == 1 else range(1, n - 1) for n in shape]))

        def place(cell, bnd):
            return tuple(i - (n > 1) + (1 if bnd else 0) for i, n in zip(cell, shape))
        for nm, fld, bnd in rets:
            rec.step()
            sh = outer if bnd else inside
            require(fld.center.lower() == "cell" and tuple(fld.sshape) == sh and fld.nr_comps == 3,
                    "{0}: {1}-centered of shape {2}, want cell-centered {3}", nm, fld.center, fld.sshape, sh)
            for a, (ax, nc) in enumerate(zip(AX, ncs)):
                inner = slice(1, -1) if bnd else slice(None)
                wnc = nc if shape[a] == 1 else nc[1:-1]
                require(np.allclose(fld.get_crd_nc(ax)[inner], wnc, rtol=1e-6), "{0}: {1} nodes {2}, want {3}", nm, ax,
                        fld.get_crd_nc(ax), wnc)
            comps = [np.asarray(v) for v in fld.component_views()]
            for cell in cells:
                at = place(cell, bnd)
                for c in range(3):
                    require(comps[c][at] == want(cell, c), "{0}: component {1} at cell {2} is {3}, want {4}", nm, AX[c], cell,
                            comps[c][at], want(cell, c))
        for nm in ("v", "vx", "speed", "b" if q == "e" else "e", "bz" if q == "e" else "beta"):
            try:
                g[nm]
            except KeyError:
                pass
            else:
                require(False, "there is {0} where the file has no such thing", nm)
        if q == "b":
            b = g["b"]
            for c in range(3):
                require(np.array_equal(np.asarray(g["b" + AX[c]].data), np.asarray(b.component_views()[c])),
                        "b{0} is not a component of b", AX[c])
            for nm, fld, bnd in (("div_fc", viscid.div_fc(raw, bnd=False), False),
                                 ("div_fc with numpy", viscid.div_fc(raw, force_numpy=True, bnd=True), True)):
                rec.step()
                sh = outer if bnd else inside
                require(tuple(fld.shape) == sh, "{0}: shape {1}, want {2}", nm, fld.shape, sh)
                for cell in cells:
                    at = place(cell, bnd)
                    src = [shape[a] - 1 - i if flip and a < 2 else i for a, i in enumerate(cell)]
                    w = 0.0
                    for c in range(3):
                        if shape[c] == 1:
                            continue
                        hi, lo = list(src), list(src)
                        hi[c] += 0.5
                        lo[c] -= 0.5
                        e = R.edges(CC[AX[c]][:shape[c]])
                        w += (number(hi, c, 0) - number(lo, c, 0)) / (e[src[c] + 1] - e[src[c]])
                    require(abs(fld.data[at] - w) <= 2e-5 * (1 + abs(w)) * 30, "{0}: at cell {1} {2}, want {3}", nm, cell,
                            fld.data[at], w)
        return "%s %s %s" % (q, case["stag"], case["flip"])

    # -------------------------------------------------------------- fields
    def make(self, shape, center, layout, fill, drop=False):
        """fill(c, ijk) -> value at the lower sides of cell ijk"""
        import viscid
        crds = [np.cumsum([0.0] + [1.0 + (i * 3 + a) % 4 * 0.5 for i in range(n)]) for a, n in enumerate(shape)]
        f = viscid.zeros(crds[:2] if drop else crds, crd_names=AX, center=center, nr_comps=3, layout=layout)
        comps = [v[..., None] if drop else v for v in f.component_views()]
        for c in range(3):
            for ijk in itertools.product(*[range(n) for n in shape]):
                comps[c][ijk] = fill(c, ijk)
        return f, crds

    def run_own(self, case, rec):
        import viscid
        shape, center = tuple(case["shape"]), case["center"]
        if case["layout"] == "interlaced" and all(n in (1, 3) for n in shape):
            return "layout cannot be told"
        one = [n == 1 for n in shape]
        f, crds = self.make(shape, center, case["layout"], drop=case.get("drop", False), fill=
                            lambda c, ijk: number([i + o for i, o in zip(ijk, self.off(center, c))], c, 1))
        before = np.array(f.data)
        fn = viscid.fc2cc if center == "face" else viscid.ec2cc
        r = fn(f, force_numpy=case["numpy"], bnd=case["bnd"])
        rec.step()
        require(np.array_equal(f.data, before), "{0} changes its argument", fn.__name__)
        require(r.center.lower() == "cell" and r.nr_comps == 3, "{0}: center {1}", fn.__name__, r.center)
        inner = tuple(n if o else n - 1 for n, o in zip(shape, one))
        want_shape = tuple(n + 2 for n in inner) if case["bnd"] else inner
        require(tuple(r.sshape) == want_shape, "{0}: shape {1}, want {2}", fn.__name__, r.sshape, want_shape)
        lo = 1 if case["bnd"] else 0
        for a, n in enumerate(inner[:2] if case.get("drop") else inner):
            got = r.get_crd_nc(AX[a])[lo:lo + n + 1]
            require(np.allclose(got, crds[a][:n + 1]), "{0}: {1} nodes {2}, want {3}", fn.__name__, AX[a], got, crds[a][:n + 1])
        comps = [np.asarray(v) for v in r.component_views()]
        for cell in itertools.product(*[range(n) for n in inner]):
            for c in range(3):
                # one cell in a direction: nothing varies along it
                o = self.off(center, c)
                vals = []
                axes = [a for a in range(3) if o[a] and not one[a]]
                for s in itertools.product((0, 1), repeat=len(axes)):
                    p = [i + d for i, d in zip(cell, o)]
                    for a, d in zip(axes, s):
                        p[a] += d
                    vals.append(number(p, c, 1))
                w = sum(vals) / len(vals)
                at = tuple(i + lo for i in cell)
                require(abs(comps[c][at] - w) < 1e-12 * 64, "{0}: component {1} at cell {2} is {3}, want {4}", fn.__name__,
                        AX[c], cell, comps[c][at], w)
        if case["bnd"]:
            for cell in itertools.product(*[range(n + 2) for n in inner]):
                src = tuple(min(max(i, 1), n) for i, n in zip(cell, inner))
                for c in range(3):
                    require(comps[c][cell] == comps[c][src], "{0}: the outer cell {1} does not repeat cell {2}", fn.__name__, cell,
                            src)
        if center == "face":
            d = viscid.div_fc(f, force_numpy=case["numpy"], bnd=case["bnd"])
            require(tuple(d.shape) == want_shape, "div_fc: shape {0}, want {1}", d.shape, want_shape)
            for cell in itertools.product(*[range(n) for n in inner]):
                w = 0.0
                for c in range(3):
                    if not one[c]:
                        p = list(cell)
                        p[c] -= 0.5
                        m = list(p)
                        m[c] += 1.0
                        w += (number(m, c, 1) - number(p, c, 1)) / (crds[c][cell[c] + 1] - crds[c][cell[c]])
                at = tuple(i + lo for i in cell)
                require(abs(d.data[at] - w) < 1e-10 and d.center.lower() == "cell", "div_fc at cell {0} is {1}, want {2}", cell, d.data[at], w)
        return center

    def run_basis(self, case, rec):
        """linear operations are what they are on every basis vector"""
        import viscid
        shape = tuple(case["shape"])
        hot = (case["c"], tuple(case["idx"]))
        f, crds = self.make(shape, "face", "flat", lambda c, ijk: 1.0 if (c, ijk) == hot else 0.0)
        c, idx = hot
        r = viscid.fc2cc(f, bnd=False)
        d = viscid.div_fc(f, bnd=False)
        comps = [np.asarray(v) for v in r.component_views()]
        for cell in itertools.product(*[range(n - 1) for n in shape]):
            up = tuple(i + (a == c) for a, i in enumerate(cell))
            h = crds[c][cell[c] + 1] - crds[c][cell[c]]
            w = 0.5 if idx in (cell, up) else 0.0
            wd = (1.0 if idx == up else -1.0 if idx == cell else 0.0) / h
            rec.step()
            for k in range(3):
                require(comps[k][cell] == (w if k == c else 0.0), "fc2cc of basis vector {0}: component {1} at {2} is {3}", hot, k,
                        cell, comps[k][cell])
            require(abs(d.data[cell] - wd) < 1e-14, "div_fc of basis vector {0} at {1} is {2}, want {3}", hot, cell,
                    d.data[cell], wd)
        return "basis"

    def run_identity(self, case, rec):
        """the flux out of every cell of the curl of any field on edges is nothing"""
        import viscid
        shape = tuple(case["shape"])
        hot = (case["c"], tuple(case["idx"]))
        _, crds = self.make(shape, "face", "flat", lambda c, ijk: 0.0)
        h = [np.diff(x) for x in crds]
        e = np.zeros((3,) + tuple(n + 1 for n in shape))
        e[(hot[0],) + hot[1]] = 1.0

        def curl(c, ijk):
            a, b = (c + 1) % 3, (c + 2) % 3
            p, q = list(ijk), list(ijk)
            p[a] += 1
            q[b] += 1
            return ((e[(b,) + tuple(p)] - e[(b,) + tuple(ijk)]) / h[a][ijk[a]] -
                    (e[(a,) + tuple(q)] - e[(a,) + tuple(ijk)]) / h[b][ijk[b]])
        f, _ = self.make(shape, "face", "interlaced" if shape[0] != 3 else "flat", curl)
        d = viscid.div_fc(f, bnd=False)
        rec.step()
        require(np.abs(d.data).max() < 1e-13, "divergence of a curl is {0}", d.data.tolist())
        require(np.abs(f.data).max() > 0 or hot[1][0] >= 0, "no field")
        return "div curl"

    # -------------------------------------------------------------- plasma
    def run_psi(self, case, rec):
        import viscid
        plane, shape = case["plane"], case["shape"]
        if case["layout"] == "interlaced" and (shape[0] == 3 or case["form"] == "3d" or case["form"] == "thick"):
            return "layout cannot be told"
        i0, i1 = AX.index(plane[0]), AX.index(plane[1])
        k = 3 - i0 - i1
        x0 = np.cumsum([0.5] + [1.0 + 0.5 * (i % 3) for i in range(shape[0])])
        x1 = np.cumsum([-2.0] + [0.5 + 0.25 * (i % 2) for i in range(shape[1])])
        if case["center"] == "node":
            x0, x1 = x0[:-1], x1[:-1]
            c0, c1 = x0, x1
        else:
            c0, c1 = 0.5 * (x0[1:] + x0[:-1]), 0.5 * (x1[1:] + x1[:-1])
        X0, X1 = np.meshgrid(c0, c1, indexing="ij")
        A = 2 * X0 - 3 * X1 + X0 * X1        # hx0 = -dA/dx1, hx1 = dA/dx0, exact by the trapezoidal rule
        h0, h1 = 3 - X0, 2 + X1
        comps = [np.full(A.shape, 7.0)] * 3
        comps[i0], comps[i1] = h0, h1
        nodes = {plane[0]: x0, plane[1]: x1}
        names = plane
        if case["form"] == "3d":
            names = AX
            nodes[AX[k]] = np.array([0.0]) if case["center"] == "node" else np.array([0.0, 1.0])
            comps = [np.expand_dims(c, k) for c in comps]
        elif case["form"] != "2d":     # the axis with the least places is left out, the first plane is taken
            names = AX
            n = 2 if case["form"] == "thin" else 3
            nodes[AX[k]] = np.arange(n + (case["center"] == "cell"), dtype="f8")
            comps = [np.stack([c + 10.0 * i for i in range(n)], axis=k) for c in comps]
        B = viscid.zeros([nodes[a] for a in names], crd_names=names, center=case["center"], nr_comps=3, layout=case["layout"])
        for v, c in zip(B.component_views(), comps):
            v[...] = c
        before = np.array(B.data)
        psi = viscid.calc_psi(B, rev=case["rev"])
        rec.step()
        require(np.array_equal(B.data, before), "calc_psi changes its argument")
        got = np.asarray(psi.data).reshape(A.shape)
        require(got.size == A.size and psi.center.lower() == case["center"], "psi has shape {0}", psi.shape)
        require(np.allclose(got - got[0, 0], A - A[0, 0], atol=1e-12), "psi is {0}, want {1}", (got - got[0, 0]).tolist(),
                (A - A[0, 0]).tolist())
        require(got[-1, -1] == 0 if case["rev"] else got[0, 0] == 0, "psi starts from {0}", got.tolist())
        for a, n in zip(plane, (c0, c1)):
            require(np.allclose(psi.get_crd(a), n), "psi is not at the places of the field")
        return "psi " + plane

    def run_beta(self, case, rec):
        import viscid
        shape = case["shape"]
        x = [np.arange(n + 1.0) for n in shape]
        pp = viscid.zeros(x, crd_names="xy", dtype=case["dtype"])
        pp.data[...] = R.values(shape, 0)
        B = viscid.zeros(x, crd_names="xy", nr_comps=3, layout=case["layout"], dtype=case["dtype"])
        comps = [R.values(shape, k + 1) for k in range(3)]
        for v, c in zip(B.component_views(), comps):
            v[...] = c
        kw = {} if case["scale"] is None else dict(scale=case["scale"])
        beta = viscid.calc_beta(pp, B, **kw)
        w = (case["scale"] or 1.0) * 2 * R.values(shape, 0) / sum(c ** 2 for c in comps)
        rec.step()
        require(tuple(beta.shape) == tuple(shape) and np.allclose(beta.data, w, rtol=1e-5), "beta is {0}, want {1}",
                np.asarray(beta.data).tolist(), w.tolist())
        return "beta"
