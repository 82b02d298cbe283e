"""XDMF documents, from an independent writer, are read as they say"""
import itertools
import os
import shutil

import numpy as np

from vmc import boot
from vmc.core import Check, require

AX = "xyz"
NC = {"x": [0.0, 1.0, 2.5, 4.0], "y": [-3.0, -1.0, 0.5, 2.0], "z": [10.0, 10.5, 11.0, 13.0]}
NT = {("Float", 4): "f4", ("Float", 8): "f8", ("Int", 4): "i4", ("Int", 8): "i8", ("UInt", 4): "u4"}


def values(shape, seed, dtype="f8"):
    """distinct values over the shape (in order x, y, z, ...)"""
    n = int(np.prod(shape))
    i = np.arange(n)
    a = (i * 7 % 31 + 32 * i // 31 + 0.25 * (i % 4) + 1 + 64 * seed)
    if dtype[0] == "f":
        a = a * np.where(i % 3 == 1, -1, 1)
    else:
        a = np.floor(a)
        if dtype[0] == "i":
            a = a * np.where(i % 3 == 1, -1, 1)
    return a.reshape(shape).astype(dtype)


class Doc(object):
    """writes one document, and the hdf5 files it refers to"""

    def __init__(self, d, h5rel="./", h5dir=None):
        self.d, self.h5rel, self.h5dir, self.n, self.h5 = d, h5rel, h5dir or d, 0, {}
        self.timestr = None

    def item(self, arr, fmt="XML", numbertype="Float", precision=8, name=None, ws=0):
        """arr: in document (z, y, x) order"""
        arr = np.asarray(arr)
        sep = ("  " if ws else " ")
        dims = sep.join(str(n) for n in arr.shape)
        if ws:
            dims = " " + dims + "\n"
        if fmt == "XML":
            body = ("\n   " if ws else " ").join(repr(v) for v in arr.ravel().tolist())
            if ws:
                body = "\n" + body + "\n"
        else:
            self.n += 1
            fn, loc = "data%d.h5" % (self.n % 2), "/g%d/v%d" % (self.n % 3, self.n)
            self.h5.setdefault(fn, {})[loc] = arr.astype(NT[numbertype, precision])
            body = "%s%s:%s" % (self.h5rel, fn, loc)
            if ws:
                body = "\n    " + body + "\n  "
        pr = "" if precision == 4 and ws else ' Precision="%d"' % precision
        nt = "" if numbertype == "Float" and ws else ' NumberType="%s"' % numbertype
        fm = "" if fmt == "XML" and ws else ' Format="%s"' % fmt
        nm = "" if name is None else ' Name="%s"' % name
        return '<DataItem%s Dimensions="%s"%s%s%s>%s</DataItem>' % (nm, dims, nt, pr, fm, body)

    def geometry(self, topo, geo, shape, fmt="XML", ws=0, off=None, precision=8):
        """shape: number of nodes (x, y, z)"""
        nc = {a: (np.array(NC[a]) + (off or {}).get(a, 0.0))[:n] for a, n in zip(AX, shape)}
        dims = ("  " if ws else " ").join(str(n) for n in shape[::-1])
        key = "NumberOfElements" if topo.endswith("+n") else "Dimensions"
        topo = topo.replace("+n", "")
        t = '<Topology TopologyType="%s" %s="%s"/>' % (topo, key, dims)
        if geo == "ORIGIN_DXDYDZ":
            o = [nc[a][0] for a in "zyx"]
            dx = [0.5 * (1 + "zyx".index(a)) for a in "zyx"]
            g = self.item(o, fmt="XML", ws=ws, precision=precision, name="Origin") + \
                self.item(dx, fmt="XML", ws=ws, precision=precision, name="Spacing")
            nc = {a: nc[a][0] + 0.5 * (1 + "zyx".index(a)) * np.arange(n) for a, n in zip(AX, shape)}
        elif geo == "XYZ":
            th, ph = np.meshgrid(np.linspace(0, np.pi, shape[1]), np.linspace(0, 2 * np.pi, shape[0]), indexing="ij")
            xyz = np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], axis=-1)
            g = self.item(np.round(xyz, 6), fmt=fmt, ws=ws, precision=precision)
            return t + '<Geometry GeometryType="XYZ">%s</Geometry>' % g, \
                [("phi", np.linspace(0, 360, shape[0])), ("theta", np.linspace(0, 180, shape[1]))]
        else:
            pre = "V" if geo.upper().startswith("V") else ""
            order = "zxy" if ws else "xyz"
            g = "".join(self.item(nc[a], fmt=fmt, ws=ws, name=pre + a.upper(), precision=precision) for a in order)
        return t + '<Geometry GeometryType="%s">%s</Geometry>' % (geo, g), [(a, nc[a]) for a in AX]

    def write(self, fn, body):
        import h5py
        for name, sets in self.h5.items():
            if not os.path.isdir(self.h5dir):
                os.makedirs(self.h5dir)
            with h5py.File(os.path.join(self.h5dir, name), "a") as f:
                for loc, arr in sets.items():
                    f[loc] = arr
                if self.timestr:
                    f.require_group("openggcm").attrs["time_str"] = np.string_(self.timestr)
        self.h5 = {}
        with open(fn, "w") as f:
            f.write("<?xml version='1.0' ?>\n<Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'>"
                    "<Domain>%s</Domain></Xdmf>\n" % body)


class XDMF(Check):
    pid = "V31"
    rule = ("documents from an independent writer, over all combinations in the bounds of topology and geometry, number type, "
            "precision, storage, centering, rank, whitespace, placement of times and information, includes, and layout of AMR "
            "patches through time; every field read whole and in part")
    bounds = {"nodes": "1..4 per axis", "times": "1..3", "patches": "1..8, two levels", "orders of reading": "all up to 3"}
    assumptions = ("documents are well formed",
                   "vectors with three points along x are left out (known finding layout-guess of V08)")

    def setup(self):
        self.n = 0

    def shards(self, tier):
        return [("grid", g) for g in range(4)] + [("types",), ("sphere",), ("times",), ("info",), ("include",), ("h5dir",),
                                                  ("amr",), ("order", 0), ("order", 1)]

    def cases(self, shard, tier):
        kind = shard[0]
        if kind == "grid":
            for k, (topo, geo) in enumerate([("3DRectMesh", "VXVYVZ"), ("3DRectMesh", "X_Y_Z"), ("3DRectMesh", "VxVyVz"),
                                             ("3DCoRectMesh", "ORIGIN_DXDYDZ"), ("3DCoRectMesh+n", "ORIGIN_DXDYDZ"),
                                             ("3DRectMesh", "ORIGIN_DXDYDZ")]):
                shapes = itertools.product((2, 3, 4), repeat=3)
                for j, shape in enumerate(shapes):
                    if (j + k) % 4 != shard[1]:
                        continue
                    for fmt in ("XML", "HDF"):
                        for center in ("Node", "Cell", "cell", None):
                            for rank in ("Scalar", "Vector"):
                                if rank == "Vector" and self.dshape(shape, center)[0] == 3:
                                    continue
                                for ws in (0, 1):
                                    yield dict(kind="grid", topo=topo, geo=geo, shape=list(shape), fmt=fmt, center=center,
                                               rank=rank, ws=ws)
        elif kind == "types":
            for nt, pr in NT:
                for fmt in ("XML", "HDF"):
                    for rank in ("Scalar", "Vector"):
                        for ws in (0, 1):
                            for gp in (4, 8):
                                yield dict(kind="types", nt=nt, pr=pr, fmt=fmt, rank=rank, ws=ws, gp=gp)
        elif kind == "sphere":
            for nphi in (2, 3, 5):
                for nth in (2, 3, 4):
                    for fmt in ("XML", "HDF"):
                        for ws in (0, 1):
                            for center in ("Node", "Cell"):
                                yield dict(kind="sphere", nphi=nphi, nth=nth, fmt=fmt, ws=ws, center=center)
        elif kind == "times":
            for times in ([0.0], [2.5], [0.0, 1.0], [2.0, 1.0], [0.5, 1.5, 3.0], [3.0, -1.0, 2.0], [1e-05, 2.5e+06]):
                for where in ("grid", "spatial", "list", "listhdf", "hyperslab", "files", "filelist"):
                    if where == "hyperslab" and len(times) == 3 and times != [0.5, 1.5, 3.0]:
                        continue
                    for inner in ("uniform", "spatial1", "spatial2"):
                        if where == "spatial" and inner == "uniform" or where == "grid" and inner != "uniform":
                            continue
                        yield dict(kind="times", times=times, where=where, inner=inner)
        elif kind == "info":
            for place in itertools.product((0, 1), repeat=4):
                for how in ("value", "text", "item", "itemhdf"):
                    yield dict(kind="info", place=list(place), how=how)
        elif kind == "include":
            for n in (1, 2, 3):
                for missing in [()] + [(k,) for k in range(n)]:
                    for sub in (0, 1):
                        for fmt in ("XML", "HDF"):
                            yield dict(kind="include", n=n, missing=list(missing), sub=sub, fmt=fmt)
        elif kind == "h5dir":
            for how in ("rel", "dotted", "up", "abs", "root", "rootenv", "cwd"):
                for rank in ("Scalar", "Vector"):
                    yield dict(kind="h5dir", how=how, rank=rank)
        elif kind == "amr":
            lay = ("one", "two", "refined", "eight")
            for n in (1, 2, 3):
                for seq in itertools.product(lay, repeat=n):
                    for fmt in (("XML", "HDF") if n < 3 else ("XML",)):
                        for scale in ((1.0, 1e-3, 1e8) if n < 3 else (1.0,)):
                            yield dict(kind="amr", seq=list(seq), fmt=fmt, scale=scale)
            # patches of which one corner, or the number of cells, differs
            alike = ("two", "lo", "hi", "low", "fine")
            for n in (2, 3):
                for seq in itertools.product(alike, repeat=n):
                    for scale in (1.0, 1e-3):
                        yield dict(kind="amr", seq=list(seq), fmt="XML", scale=scale)
        elif kind == "order":
            reads = ["a0", "v0", "a1", "v1s", "a0s", "v1", "clear", "act1"]
            for k, seq in enumerate(itertools.product(reads, repeat=4 if tier == "thorough" else 3)):
                if k % 2 == shard[1]:
                    yield dict(kind="order", seq=list(seq))

    def run_case(self, case, rec):
        import viscid
        from viscid.readers.openggcm import GGCMGrid
        saved = GGCMGrid.mhd_to_gse_on_read
        GGCMGrid.mhd_to_gse_on_read = False
        self.n += 1
        d = os.path.join(boot.scratch(), "xd-%d-%d" % (os.getpid(), self.n))
        os.makedirs(d)
        rec.state(tuple(sorted((k, repr(v)) for k, v in case.items())))
        try:
            return getattr(self, "run_" + case["kind"])(case, rec, d)
        finally:
            GGCMGrid.mhd_to_gse_on_read = saved
            viscid.unload_all_files()
            shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------ helpers
    def attr(self, doc, name, dat, fmt="XML", nt="Float", pr=8, center="Cell", ws=0, extra=""):
        """dat in order x, y, z(, component)"""
        sp = dat.ndim if dat.shape[-1] != 3 or name[0] != "v" else dat.ndim - 1
        rank = "Scalar" if sp == dat.ndim else "Vector"
        zyx = dat.transpose(tuple(range(sp))[::-1] + tuple(range(sp, dat.ndim)))
        rk = "" if rank == "Scalar" and ws else ' AttributeType="%s"' % rank
        cn = "" if center is None else ' Center="%s"' % center
        return '<Attribute Name="%s"%s%s>%s%s</Attribute>' % (name, rk, cn, doc.item(zyx, fmt, nt, pr, ws=ws), extra)

    def look(self, rec, fld, name, want, ncs, center="cell", time=None, dtype=None):
        rec.step()
        vec = name[0] == "v"
        require(fld.name == name, "field is called {0}, want {1}", fld.name, name)
        require(fld.center.lower() == center, "{0}: center {1}, want {2}", name, fld.center, center)
        axes = [a for a, _ in ncs]
        require(list(fld.crds.axes) == axes, "{0}: axes {1}, want {2}", name, fld.crds.axes, axes)
        for a, nc in ncs:
            require(np.allclose(fld.get_crd_nc(a), nc, rtol=1e-6, atol=0), "{0}: {1} nodes {2}, want {3}", name, a,
                    fld.get_crd_nc(a), nc)
        if vec:
            require(fld.nr_comps == 3, "{0}: {1} components", name, fld.nr_comps)
            i = {"flat": 0, "interlaced": fld.ndim - 1}[fld.layout]
            require(fld.nr_comp == i, "{0}: components on axis {1} of layout {2}", name, fld.nr_comp, fld.layout)
            got = np.moveaxis(np.asarray(fld.data), i, -1)
        else:
            require(fld.nr_comps <= 1 and fld.nr_sdims == len(ncs), "{0}: components", name)
            got = np.asarray(fld.data)
        require(got.shape == want.shape and np.array_equal(got, want), "{0}: data {1}, want {2}", name, got.tolist(),
                want.tolist())
        if dtype is not None:
            require(got.dtype == np.dtype(dtype), "{0}: dtype {1}, want {2}", name, got.dtype, dtype)
        if time is not None:
            require(fld.time == time, "{0}: time {1}, want {2}", name, fld.time, time)

    def part(self, rec, fld, name, want, ncs):
        rec.step()
        a = ncs[0][0]
        p = fld.slice_and_keep("%s=::-1" % a)
        if want.size == 1:
            require(float(p) == want.ravel()[0], "{0}: one value {1}, want {2}", name, p, want)
            return
        got = np.asarray(p.data)
        if name[0] == "v":
            got = np.moveaxis(got, p.nr_comp, -1)
            c = fld["y"]
            c = np.asarray(getattr(c, "data", c)).reshape(want.shape[:-1] if np.size(c) == 1 else np.shape(c.data))
            require(np.array_equal(c, want[..., 1]), "{0}: y component {1}, want {2}", name, c.tolist(),
                    want[..., 1].tolist())
        require(np.array_equal(got, want[::-1]), "{0}: reversed part {1}, want {2}", name, got.tolist(), want[::-1].tolist())

    # ------------------------------------------------------------ kinds
    def dshape(self, shape, center):
        return tuple(n - 1 for n in shape) if (center or "node").lower() == "cell" else tuple(shape)

    def run_grid(self, case, rec, d):
        import viscid
        doc = Doc(d)
        shape = case["shape"]
        g, ncs = doc.geometry(case["topo"], case["geo"], shape, case["fmt"], case["ws"])
        ds = self.dshape(shape, case["center"])
        name = "a" if case["rank"] == "Scalar" else "v"
        dat = values(ds + ((3,) if name == "v" else ()), 0)
        second = values(ds, 1)
        body = '<Grid Name="g" GridType="Uniform">%s%s%s</Grid>' % (
            g, self.attr(doc, name, dat, case["fmt"], center=case["center"], ws=case["ws"]).replace(
                'Precision="8"', 'Precision="8" Endian="Native"'),
            self.attr(doc, "second", second, case["fmt"], center=case["center"]))
        fn = os.path.join(d, "a.xdmf" if case["ws"] else "a.xmf")
        doc.write(fn, body)
        f = viscid.load_file(fn)
        center = (case["center"] or "node").lower()
        require(sorted(f.get_grid().field_names) == sorted([name, "second"]), "fields {0}", list(f.get_grid().field_names))
        if case["geo"] == "ORIGIN_DXDYDZ":
            require(f[name].crds.is_uniform(), "coordinates are not uniform")
        self.part(rec, f[name], name, dat, ncs)
        self.look(rec, f[name], name, dat, ncs, center)
        self.look(rec, f["second"], "second", second, ncs, center)
        return "%s %s" % (case["topo"], case["geo"])

    def run_types(self, case, rec, d):
        import viscid
        doc = Doc(d)
        shape = [3, 2, 4]
        g, ncs = doc.geometry("3DRectMesh", "VXVYVZ", shape, case["fmt"], case["ws"], precision=case["gp"])
        name = "a" if case["rank"] == "Scalar" else "v"
        dt = NT[case["nt"], case["pr"]]
        dat = values(self.dshape(shape, "cell") + ((3,) if name == "v" else ()), 0, dt)
        body = '<Grid Name="g">%s%s</Grid>' % (g, self.attr(doc, name, dat, case["fmt"], case["nt"], case["pr"],
                                                           ws=case["ws"]))
        fn = os.path.join(d, "a.xdmf")
        doc.write(fn, body)
        f = viscid.load_file(fn)
        self.look(rec, f[name], name, dat, ncs, dtype=dt)
        self.part(rec, f[name], name, dat, ncs)
        return dt

    def run_sphere(self, case, rec, d):
        import viscid
        doc = Doc(d)
        shape = [case["nphi"], case["nth"]]
        g, ncs = doc.geometry("2DSMesh", "XYZ", shape, case["fmt"], case["ws"])
        dat = values(self.dshape(shape, case["center"]), 0)
        fn = os.path.join(d, "a.xdmf")
        doc.write(fn, '<Grid Name="g">%s%s</Grid>' % (g, self.attr(doc, "a", dat, case["fmt"], center=case["center"])))
        f = viscid.load_file(fn)
        self.look(rec, f["a"], "a", dat, ncs, case["center"].lower())
        require(f["a"].crds.is_spherical() and f["a"].crds.get_unit("phi") == "deg", "not spherical in degrees")
        self.part(rec, f["a"], "a", dat, ncs)
        return "sphere"

    def one(self, doc, k, inner, time=None, fmt="XML", on="uniform"):
        """the grid of time number k"""
        t = "" if time is None else '<Time Type="Single" Value="%r"/>' % time
        out, want = [], []
        for p in range(2 if inner == "spatial2" else 1):
            g, ncs = doc.geometry("3DRectMesh", "VXVYVZ", [3, 2, 3], fmt, off={"x": 2.5 * p})
            dat = values((2, 1, 2), 10 * k + p)
            vec = values((2, 1, 2, 3), 10 * k + p + 4)
            out.append('<Grid Name="g%d" GridType="Uniform">%s%s%s%s</Grid>' % (
                p, t if on == "uniform" else "", g, self.attr(doc, "a", dat, fmt), self.attr(doc, "v", vec, fmt)))
            want.append((ncs, dat, vec))
        if inner == "uniform":
            return out[0], want
        return '<Grid GridType="Collection" CollectionType="Spatial">%s%s</Grid>' % (
            t if on == "spatial" else "", "".join(out)), want

    def look_one(self, rec, g, want, time):
        """g: a grid, an AMR grid or a file of one"""
        for name, k in (("a", 1), ("v", 2)):
            fld = g[name]
            parts = fld.patches if len(want) > 1 else [fld]
            require(len(parts) == len(want), "{0} patches, want {1}", len(parts), len(want))
            for p, w in zip(parts, want):
                self.look(rec, p, name, w[k], w[0], time=time)

    def run_times(self, case, rec, d):
        import viscid
        times = list(case["times"])
        where = case["where"]
        if where == "hyperslab":
            times = [times[0] + i * 0.5 for i in range(len(times))]
        doc = Doc(d)
        wants, grids = [], []
        files = where in ("files", "filelist")
        if files and case["inner"] != "spatial2":
            doc.timestr = "time=     60.0    0.315372000332031E+08 1970:03:01:12:01:00.000  c300"
        for k, t in enumerate(times):
            on = "uniform" if where == "grid" else "spatial"
            own = None if where in ("list", "listhdf", "hyperslab") else t
            if where in ("files", "filelist") and case["inner"] == "uniform":
                on = "uniform"
            s, w = self.one(doc, k, case["inner"], own, fmt="HDF" if files else "XML", on=on)
            grids.append(s)
            wants.append((t, w))
        fn = os.path.join(d, "run.xdmf")
        if where in ("files", "filelist"):
            fns = [os.path.join(d, "run.3df.%06d.xdmf" % (60 * k)) for k in range(len(times))]
            for fk, s in zip(fns, grids):
                doc.write(fk, s)
            f = viscid.load_file(os.path.join(d, "run.3df.*.xdmf") if where == "files" else fns[::-1])
        else:
            tag = ""
            if where in ("list", "listhdf"):
                tag = '<Time Type="List">%s</Time>' % doc.item(times, "HDF" if where == "listhdf" else "XML")
            elif where == "hyperslab":
                tag = '<Time Type="HyperSlab">%s</Time>' % doc.item([times[0], 0.5, len(times)])
            doc.write(fn, '<Grid GridType="Collection" CollectionType="Temporal">%s%s</Grid>' % (tag, "".join(grids)))
            f = viscid.load_file(fn)
        wants.sort(key=lambda w: w[0])
        if files:
            base = "1970-03-01T12:00:00.000" if doc.timestr else "1967-01-01T00:00:00.000"
            require(f.basetime == np.datetime64(base), "basetime {0}, want {1}", f.basetime, base)
        if where in ("files", "filelist") and len(times) == 1:
            require(f.time == times[0] or f.get_grid().time == times[0], "time is {0}, want {1}", f.time, times[0])
            self.look_one(rec, f.get_grid(), wants[0][1], times[0])
            return where
        require(f.nr_times() == len(times), "{0} times, want {1}", f.nr_times(), len(times))
        got = [g.time for g in f.iter_times()]
        require(got == [w[0] for w in wants], "times {0}, want {1}", got, [w[0] for w in wants])
        for g, (t, w) in zip(f.iter_times(), wants):
            self.look_one(rec, g, w, t)
        for g, (t, w) in zip(f.get_times(), wants):
            require(g.time == t, "get_times gives times {0}, want {1}", g.time, t)
            self.look_one(rec, g if hasattr(g, "field_names") or len(w) == 1 else g.get_grid(), w, t)
        for t, w in wants[::-1]:
            f.activate_time(t)
            self.look_one(rec, f, w, t)
        return where

    def run_info(self, case, rec, d):
        import viscid
        doc = Doc(d)
        vals = {"value": ["one", "two", "three", "four"], "text": ["a1", "b2", "c3", "d4"],
                "item": [[1.0, 2.0], [3.5], [4.0, 5.0, 6.0], [[7.0, 8.0], [9.0, 10.0]]]}
        vals["itemhdf"] = vals["item"]

        def tag(i):
            if not case["place"][i]:
                return ""
            v = vals[case["how"]][i]
            out = ""
            for nm in ("key", "own%d" % i):
                if case["how"] == "value":
                    out += '<Information Name="%s" Value="%s"/>' % (nm, v)
                elif case["how"] == "text":
                    out += '<Information Name="%s">%s</Information>' % (nm, v)
                else:
                    out += '<Information Name="%s">%s</Information>' % (nm, doc.item(
                        v, "HDF" if case["how"] == "itemhdf" else "XML"))
            return out
        g, ncs = doc.geometry("3DRectMesh", "VXVYVZ", [2, 3, 2])
        dat, b = values((1, 2, 1), 0), values((1, 2, 1), 1)
        body = ('<Grid GridType="Collection" CollectionType="Temporal">%s<Grid GridType="Collection" '
                'CollectionType="Spatial"><Time Type="Single" Value="1.5"/>%s<Grid Name="g">%s%s%s%s</Grid></Grid></Grid>') % (
                    tag(0), tag(1), tag(2), g, self.attr(doc, "a", dat, extra=tag(3)), self.attr(doc, "b", b))
        fn = os.path.join(d, "a.xdmf")
        doc.write(fn, body)
        f = viscid.load_file(fn)
        fa, fb = f["a"], f["b"]
        self.look(rec, fa, "a", dat, ncs, time=1.5)

        def same(got, i):
            want = vals[case["how"]][i]
            if case["how"] in ("item", "itemhdf"):
                return got is not None and not isinstance(got, str) and np.array_equal(np.asarray(got), np.asarray(want))
            return isinstance(got, str) and got == want
        for fld, levels in ((fa, (0, 1, 2, 3)), (fb, (0, 1, 2))):
            have = [i for i in levels if case["place"][i]]
            got = fld.find_info("key", None)
            rec.step()
            if have:
                require(same(got, have[-1]), "info of {0} is {1!r}, want {2!r}", fld.name, got, vals[case["how"]][have[-1]])
            else:
                require(got is None, "info of {0} is {1!r}, but there is none", fld.name, got)
            for i in range(4):
                got = fld.find_info("own%d" % i, None)
                if i in have:
                    require(same(got, i), "info {0} of {1} is {2!r}, want {3!r}", i, fld.name, got, vals[case["how"]][i])
                else:
                    require(got is None, "info {0} of {1} is {2!r}, but there is none", i, fld.name, got)
        return case["how"]

    def run_include(self, case, rec, d):
        import viscid
        sub = os.path.join(d, "sub") if case["sub"] else d
        if case["sub"]:
            os.makedirs(sub)
        incs, wants = [], []
        for k in range(case["n"]):
            # names of data are relative to the document which is loaded
            doc = Doc(sub, h5rel="./sub/" if case["sub"] else "./")
            doc.n = 10 * k
            s, w = self.one(doc, k, "spatial1", 1.5 * k, case["fmt"], on="spatial")
            fk = os.path.join(sub, "run.%03d.xdmf" % k)
            if k not in case["missing"]:
                doc.write(fk, s)
                wants.append((1.5 * k, w))
            incs.append("<xi:include href='.//%srun.%03d.xdmf' xpointer='xpointer(//Xdmf/Domain/Grid)'/>" % (
                "sub/" if case["sub"] else "", k))
        fn = os.path.join(d, "run.xdmf")
        Doc(d).write(fn, "<Grid GridType='Collection' CollectionType='Temporal'>%s</Grid>" % "\n".join(incs))
        f = viscid.load_file(fn)
        require(f.nr_times() == len(wants), "{0} times, want {1}", f.nr_times(), len(wants))
        for g, (t, w) in zip(f.iter_times(), wants):
            require(g.time == t, "time {0}, want {1}", g.time, t)
            self.look_one(rec, g, w, t)
        return "%d included" % len(wants)

    def run_h5dir(self, case, rec, d):
        import viscid
        how = case["how"]
        h5dir = {"rel": d + "/in", "dotted": d, "up": d + "/other", "abs": d + "/abs", "root": d + "/root",
                 "rootenv": d + "/root", "cwd": d}[how]
        rel = {"rel": "in/", "dotted": "./", "up": "../other/", "abs": d + "/abs/", "root": "", "rootenv": "./", "cwd": ""}[how]
        xd = os.path.join(d, "docs") if how == "up" else d
        if not os.path.isdir(xd):
            os.makedirs(xd)
        doc = Doc(xd, rel, h5dir)
        g, ncs = doc.geometry("3DRectMesh", "VXVYVZ", [2, 3, 2], "HDF")
        name = "a" if case["rank"] == "Scalar" else "v"
        dat = values((1, 2, 1) + ((3,) if name == "v" else ()), 0)
        doc.write(os.path.join(xd, "a.xdmf"), '<Grid Name="g">%s%s</Grid>' % (g, self.attr(doc, name, dat, "HDF")))
        kw = {}
        cwd = os.getcwd()
        try:
            fn = os.path.join(xd, "a.xdmf")
            if how == "root":
                kw["h5_root_dir"] = h5dir
            elif how == "rootenv":
                os.environ["VMC_H5ROOT"] = h5dir
                kw["h5_root_dir"] = "$VMC_H5ROOT"
            elif how == "cwd":
                os.chdir(d)
                fn = "a.xdmf"
            f = viscid.load_file(fn, **kw)
            os.chdir("/")
            self.look(rec, f[name], name, dat, ncs)
        finally:
            os.chdir(cwd)
            os.environ.pop("VMC_H5ROOT", None)
        return how

    LAY = {"one": [(0, 0, 0, 2)], "two": [(0, 0, 0, 2), (2, 0, 0, 2)],
           "refined": [(0, 0, 0, 2), (2, 0, 0, 1), (3, 0, 0, 1), (2, 1, 0, 1), (3, 1, 0, 1), (2, 0, 1, 1), (3, 0, 1, 1),
                       (2, 1, 1, 1), (3, 1, 1, 1)],
           "eight": [(x, y, z, 1) for x in (0, 1) for y in (0, 1) for z in (0, 1)],
           "lo": [(-2, 0, 0, (4, 2, 2)), (2, 0, 0, 2)], "hi": [(0, 0, 0, 2), (2, 0, 0, (4, 2, 2))],
           "low": [(0, 0, 0, 2), (2, 0, -1, (2, 2, 3))], "fine": [(0, 0, 0, 2), (2, 0, 0, 2, 4)]}

    def run_amr(self, case, rec, d):
        import viscid
        doc = Doc(d)
        sc = case["scale"]
        out, wants = [], []
        for k, lay in enumerate(case["seq"]):
            s, w = "", []
            for p, box in enumerate(self.LAY[lay]):
                length = box[3] if isinstance(box[3], tuple) else (box[3],) * 3
                n = box[4] if len(box) > 4 else 2
                nc = {a: sc * (o + np.linspace(0, l, n + 1)) for a, o, l in zip(AX, box[:3], length)}
                dat = values((n, n, n), 20 * k + p)
                # a linear field has its exact value anywhere
                g = '<Topology TopologyType="3DRectMesh" Dimensions="%d %d %d"/><Geometry GeometryType="VXVYVZ">%s</Geometry>' % \
                    (n + 1, n + 1, n + 1, "".join(doc.item(nc[a], case["fmt"], name="V" + a.upper()) for a in AX))
                s += '<Grid Name="g%d" GridType="Uniform">%s%s</Grid>' % (p, g, self.attr(doc, "a", dat, case["fmt"]))
                w.append(([(a, nc[a]) for a in AX], dat))
            out.append('<Grid GridType="Collection" CollectionType="Spatial"><Time Type="Single" Value="%r"/>%s</Grid>' %
                       (float(k), s))
            wants.append(w)
        fn = os.path.join(d, "a.xdmf")
        doc.write(fn, '<Grid GridType="Collection" CollectionType="Temporal">%s</Grid>' % "".join(out))
        f = viscid.load_file(fn)
        for k, (g, w) in enumerate(zip(f.iter_times(), wants)):
            fld = g["a"]
            parts = fld.patches if len(w) > 1 else [fld]
            require(len(parts) == len(w), "{0} patches, want {1}", len(parts), len(w))
            for p, (ncs, dat) in zip(parts, w):
                self.look(rec, p, "a", dat, ncs, time=float(k))
            if len(w) > 1:
                lo = [min(n[i][1][0] for n, _ in w) for i in range(3)]
                hi = [max(n[i][1][-1] for n, _ in w) for i in range(3)]
                require(np.allclose(g.xl_nc, lo, atol=0) and np.allclose(g.xh_nc, hi, atol=0), "extent {0}..{1}, want {2}..{3}",
                        g.xl_nc, g.xh_nc, lo, hi)
            # values at the centers of cells of every patch, wherever
            pts, vals = [], []
            for ncs, dat in w:
                cc = [0.5 * (nc[1:] + nc[:-1]) for _, nc in ncs]
                for i in itertools.product(*[range(len(c)) for c in cc]):
                    pts.append([cc[a][i[a]] for a in range(3)])
                    vals.append(dat[i])
            got = viscid.interp_nearest(fld, np.array(pts).T)
            rec.step()
            require(np.array_equal(np.asarray(got).ravel(), vals), "nearest values at the centers of cells at time {0}: {1}, "
                    "want {2}", k, np.asarray(got).ravel().tolist(), np.array(vals).tolist())
        return "+".join(case["seq"][:2])

    def run_order(self, case, rec, d):
        import viscid
        doc = Doc(d)
        grids, wants = [], []
        for k in range(2):
            s, w = self.one(doc, k, "spatial1", float(k), "HDF", on="spatial")
            grids.append(s)
            wants.append(w[0])
        fn = os.path.join(d, "a.xdmf")
        doc.write(fn, '<Grid GridType="Collection" CollectionType="Temporal">%s</Grid>' % "".join(grids))
        f = viscid.load_file(fn)
        gs = f.get_times()
        active = 0
        for op in case["seq"]:
            if op == "clear":
                f.clear_cache()
            elif op.startswith("act"):
                f.activate_time(int(op[3]))
                active = int(op[3])
            else:
                k = int(op[1])
                ncs, dat, vec = wants[k]
                want = dat if op[0] == "a" else vec
                fld = gs[k][op[0]]
                if op.endswith("s"):
                    self.part(rec, fld, op[0], want, ncs)
                else:
                    self.look(rec, fld, op[0], want, ncs, time=float(k))
            self.look(rec, f["a"], "a", wants[active][1], wants[active][0], time=float(active))
        return "order"
