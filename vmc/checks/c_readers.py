"""Files of simulations, as other programs write them, are read as they are"""
import itertools
import math
import os
import shutil
import struct

import numpy as np

from vmc import boot
from vmc.core import Check, Fail, require

AX = "xyz"


def edges(cc, half=None):
    """nodes about cell centers, as these formats define them"""
    cc = np.asarray(cc, "f8")
    if len(cc) == 1:
        return np.array([cc[0] - half, cc[0] + half])
    hd = 0.5 * (cc[1:] - cc[:-1])
    return np.hstack([cc[0] - hd[0], cc[:-1] + hd, cc[-1] + hd[-1]])


CC = {"x": [0.5, 1.5, 2.5, 4.5], "y": [-3.0, -2.0, 0.0, 2.0], "z": [10.0, 10.5, 11.0, 12.0]}
NC = {"x": [0.0, 1.0, 2.5, 4.0], "y": [-3.0, -1.0, 0.5, 2.0], "z": [1.0, 2.0, 4.0, 7.0]}


def values(shape, seed):
    """distinct values, exact in single precision, over the shape in order of x, y, z"""
    n = int(np.prod(shape))
    a = (np.arange(n) * 7 % 31 + 0.25 * np.arange(n) + 1 + 64 * seed) * np.where(np.arange(n) % 3 == 1, -1, 1)
    return a.reshape(shape)


def close(a, b, rtol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * np.abs(b)))


# ------------------------------------------------------------------ writers
def w_tab(fn, shape, time, names, datas):
    ax = AX[:len(shape)]
    lines = []
    for i, n in enumerate(shape):
        lines.append("# Nx%d = %d" % (i + 1, n))
        lines.append("# x%d-size = %g" % (i + 1, 2.5))
    lines.append("# CONSERVED vars at Time= %s, level= 0, domain= 0" % time)
    cols = [c + "-zone" for c in "ijk"[:len(shape)]] + ["x%d" % (i + 1) for i in range(len(shape))] + list(names)
    lines.append("# " + " ".join("[%d]=%s" % (i + 1, c) for i, c in enumerate(cols)))
    for ijk in itertools.product(*[range(n) for n in reversed(shape)]):
        ijk = ijk[::-1]
        row = ["%3d" % (i + 4) for i in ijk] + ["%.8e" % CC[a][i] for a, i in zip(ax, ijk)]
        row += ["%.8e" % d[ijk] for d in datas]
        lines.append(" ".join(row))
    with open(fn, "w") as f:
        f.write("\n".join(lines) + "\n")


def w_bin(fn, shape, time, dt, nscal, datas, endian, prec):
    shape3 = tuple(shape) + (1,) * (3 - len(shape))
    fl = np.dtype(endian + prec)
    with open(fn, "wb") as f:
        f.write(struct.pack(endian + "8i", -1, *(shape3 + (len(datas), nscal, 0, 0))))
        np.array([0.6667, 0.0], fl).tofile(f)
        np.array([time, dt], fl).tofile(f)
        for a, n in zip(AX, shape3):
            np.array(CC[a][:n], fl).tofile(f)
        for d in datas:
            np.asarray(d.reshape(shape3).transpose(2, 1, 0), order="C").astype(fl).tofile(f)


def w_hst(fn, names, cols):
    with open(fn, "w") as f:
        f.write("# Athena history dump for level=0 domain=0 volume=1.000000e+00\n")
        f.write("#   " + "   ".join("[%d]=%s" % (i + 1, n) for i, n in enumerate(names)) + "\n")
        for row in zip(*cols):
            f.write("  ".join("%.6e" % v for v in row) + "\n")


def w_fortbin(fn, it, tstr, flds, endian):
    """flds: list of (name, array in x, y, z order)"""
    with open(fn, "wb") as f:
        for name, d in flds:
            f.write(struct.pack(endian + "3i", 2, it, d.ndim) + struct.pack(endian + "%di" % d.ndim, *d.shape))
            f.write(name.ljust(80).encode() + tstr.ljust(80).encode())
            d.flatten(order="F").astype(endian + "f4").tofile(f)


def jrrle_levels(d):
    """nearest representable values, and the header's range and the codes"""
    z = np.log(np.abs(d))
    z1, z2 = float("%14.7e" % z.min()), float("%14.7e" % z.max())
    if z2 - z1 < 1e-5:
        z1, z2 = z1 - 1.0, z2 + 1.0
        z1, z2 = float("%14.7e" % z1), float("%14.7e" % z2)
    codes = np.clip(np.floor((z - z1) * (4410 / (z2 - z1)) + 0.5).astype(int), 0, 4414)
    vals = np.where(d < 0, -1.0, 1.0) * np.exp(codes * ((z2 - z1) / 4410) + z1)
    return vals, z1, z2, codes


def _rle(codes):
    ck = sum(codes)
    out = [33 + ck % 92]
    for c, grp in itertools.groupby(codes):
        n = len(list(grp))
        out += [c] if n == 1 else [n + 170, c]
    return bytes(out)


def w_jrrle(fn, it, tstr, flds):
    want = {}
    with open(fn, "wb") as f:
        for name, d in flds:
            vals, z1, z2, codes = jrrle_levels(d)
            want[name] = vals
            f.write(("FIELD-%dD-1\n" % d.ndim).encode())
            f.write((name.ljust(80) + "\n" + tstr.ljust(80) + "\n").encode())
            f.write(("".join("%12d" % n for n in (it,) + d.shape) + "\n").encode())
            f.write(("WRN2%8d%14.7E%14.7E%14.7E%8dFUNC-%d-1\n" % (d.size, z1, z2, 1.0, it, d.ndim)).encode())
            cs, neg = codes.flatten(order="F"), d.flatten(order="F") < 0
            for k in range(0, d.size, 64):
                c, s = cs[k:k + 64], neg[k:k + 64]
                f.write(_rle([int(v // 94 + 47 * g + 33) for v, g in zip(c, s)]) + b"\n")
                f.write(_rle([int(v % 94 + 33) for v in c]) + b"\n")
    return want


def w_grid2(fn, shape, ccs):
    with open(fn, "w") as f:
        for a, n in zip(AX, shape):
            f.write("   %d\n" % n)
            for v in ccs[a][:n]:
                f.write("  %.7f    \n" % v)


LOG = """ some preamble
==================================================== class == ggcm_mhd
parameter           | value
--------------------+----------------------------------------
gamma               | 1.66667
bbnorm              | 30574
name                | a run
--------------------+-------------------------------- type -- ggcm

==================================================== class == unwatched
parameter           | value
--------------------+----------------------------------------
secret              | 5
--------------------+-------------------------------- type -- x

==================================================== class == mrc_crds
parameter           | value
--------------------+----------------------------------------
l                   | -30, -20.5, -20
sw                  | 3
--------------------+-------------------------------- type -- gen

   ==================================================== class == ggcm_dipole
   parameter           | value
   --------------------+----------------------------------------
   dipoltime           | 1967:01:01:00:00:00.000
   --------------------+-------------------------------- type -- fortran

cp=1 step=1
==================================================== class == mrc_domain
parameter           | value
--------------------+----------------------------------------
late                | 1
"""


class Readers(Check):
    pid = "V30"
    rule = ("files of every format written by an independent writer for all shapes, numbers of variables, byte orders, "
            "precisions and times in the bounds, and every order of reading their fields, whole or in part, with and without "
            "emptying the cache")
    bounds = {"shapes": "1..4 per axis, 1 to 3 axes", "times": "1..3 files", "orders": "all of up to 3 reads (thorough 4)"}
    assumptions = ("files are well formed",)

    def setup(self):
        self.n = 0

    def shards(self, tier):
        return [("ascii",), ("nda",), ("hst",), ("tab",), ("bin", "<"), ("bin", ">"), ("multi", "tab"), ("multi", "bin")] + \
               [("ggcm", f, k) for f in ("fortbin", "jrrle") for k in ("3df", "py_0", "px_0", "iof")] + \
               [("order", f, k) for f in ("fortbin", "jrrle", "bin", "tab") for k in range(2)] + [("athgrid",), ("rle",)]

    # ---------------------------------------------------------------- cases
    def cases(self, shard, tier):
        kind = shard[0]
        if kind == "ascii":
            for n in range(1, 5):
                for nc in range(1, 5):
                    yield dict(kind="ascii", rows=n, cols=nc)
        elif kind == "nda":
            for nd in (1, 2, 3):
                for shape in itertools.product((1, 2, 3, 4) if nd < 3 else (2, 3), repeat=nd):
                    for dt in ("f4", "f8", "i4"):
                        for nf in (0, 1, 3):
                            yield dict(kind="nda", shape=list(shape), dtype=dt, nf=nf)
        elif kind == "hst":
            for n in (2, 3, 5):
                for nv in (2, 4):
                    yield dict(kind="hst", n=n, nv=nv)
        elif kind == "tab":
            for nd in (1, 2, 3):
                for shape in itertools.product((1, 2, 3), repeat=nd):
                    if max(shape) == 1:
                        continue
                    for t in ("0", "0.155957", "12", "1e-05", "2.5e+06"):
                        yield dict(kind="tab", shape=list(shape), time=t)
        elif kind == "bin":
            for nd in (1, 2, 3):
                for shape in itertools.product((1, 2, 3), repeat=nd):
                    if max(shape) == 1:
                        continue
                    for prec in ("f4", "f8"):
                        for nvar, nscal in ((4, 0), (5, 0), (7, 0), (8, 0), (6, 2), (6, 1), (9, 1), (9, 2), (11, 3)):
                            for var in ("cons", "prim"):
                                yield dict(kind="bin", shape=list(shape), endian=shard[1], prec=prec, nvar=nvar,
                                           nscal=nscal, var=var)
        elif kind == "multi":
            for times in ([0.5], [0.0, 1.5], [3.0, 1.0, 2.0], [0.25, 0.5, 1.0, 2.0]):
                for how in ("glob", "list", "reversed"):
                    yield dict(kind="multi", fmt=shard[1], times=times, how=how)
        elif kind == "ggcm":
            three = [(2, 3, 4), (3, 2, 2), (4, 4, 3)]
            for shape in three:
                for flip in (False, "force", "auto"):
                    for copy in (False, True):
                        for end in ("<", ">") if shard[1] == "fortbin" else ("",):
                            for nt in (1, 2):
                                for log in (False, True):
                                    yield dict(kind="ggcm", fmt=shard[1], what=shard[2], shape=list(shape), flip=flip,
                                               copy=copy, endian=end, nt=nt, log=log)
        elif kind == "order":
            reads = ["a0", "b0", "c0", "a1", "b1s", "c1", "a0s", "clear"]
            n = 4 if tier == "thorough" else 3
            for k, seq in enumerate(itertools.product(reads, repeat=n)):
                if k % 2 == shard[2]:
                    yield dict(kind="order", fmt=shard[1], seq=list(seq))
        elif kind == "athgrid":
            for var in ("cons", "prim"):
                for nvar in (7, 8):
                    for shape in ([2, 3, 2], [3, 2], [4]):
                        yield dict(kind="athgrid", var=var, nvar=nvar, shape=shape)
        elif kind == "rle":
            for n in (1, 2, 63, 64, 65, 127, 128, 129, 200):
                for pat in ("const", "ramp", "runs", "signs", "wide", "negconst"):
                    yield dict(kind="rle", n=n, pat=pat)

    def run_case(self, case, rec):
        self.n += 1
        d = os.path.join(boot.scratch(), "rd-%d-%d" % (os.getpid(), self.n))
        os.makedirs(d)
        rec.state(tuple(sorted((k, repr(v)) for k, v in case.items())))
        import viscid
        from viscid.readers.openggcm import GGCMGrid
        saved = GGCMGrid.mhd_to_gse_on_read, GGCMGrid.copy_on_transform
        try:
            GGCMGrid.mhd_to_gse_on_read = False
            return getattr(self, "run_" + case["kind"])(case, rec, d)
        finally:
            GGCMGrid.mhd_to_gse_on_read, GGCMGrid.copy_on_transform = saved
            viscid.unload_all_files()
            shutil.rmtree(d, ignore_errors=True)

    # ---------------------------------------------------------------- formats
    def check_field(self, rec, f, name, want, ncs, center, time, rtol=0.0, lazy=True):
        """f against the array want (order x, y, z of ncs: [(axis, nodes)])"""
        rec.step()
        require(f.name == name, "field is called {0}, want {1}", f.name, name)
        require(f.center.lower() == center, "{0}: center {1}, want {2}", name, f.center, center)
        require(list(f.crds.axes) == [a for a, _ in ncs], "{0}: axes {1}, want {2}", name, f.crds.axes, [a for a, _ in ncs])
        require(tuple(f.shape) == want.shape, "{0}: shape {1}, want {2}", name, f.shape, want.shape)
        for a, nc in ncs:
            require(np.allclose(f.get_crd_nc(a), nc, rtol=1e-6, atol=1e-6), "{0}: {1} nodes {2}, want {3}", name, a,
                    f.get_crd_nc(a), nc)
            if center == "cell":
                mid = 0.5 * (np.asarray(nc)[1:] + np.asarray(nc)[:-1])
                require(np.allclose(f.get_crd(a), mid, rtol=1e-6, atol=1e-6), "{0}: {1} centers {2}, want {3}", name, a,
                        f.get_crd(a), mid)
        require(close(f.data, want, rtol), "{0}: data {1}, want {2}", name, np.asarray(f.data).tolist(), want.tolist())
        if time is not None:
            require(f.time == time, "{0}: time {1}, want {2}", name, f.time, time)

    def run_ascii(self, case, rec, d):
        import viscid
        a = values((case["rows"], case["cols"]), 0)
        a[:, 0] = np.array([0.5, 1.0, 3.0, 4.5])[:case["rows"]]
        fn = os.path.join(d, "a.txt" if case["rows"] % 2 else "a.asc")
        np.savetxt(fn, a)
        f = viscid.load_file(fn)
        g = f.get_grid()
        want = ["c%d" % i for i in range(1, case["cols"])]
        require(sorted(g.field_names) == want, "fields {0}, want {1}", list(g.field_names), want)
        for i in range(1, case["cols"]):
            self.check_field(rec, f["c%d" % i], "c%d" % i, a[:, i], [("x", a[:, 0])], "node", None)
        return "%d fields" % (case["cols"] - 1)

    def run_nda(self, case, rec, d):
        import viscid
        shape = case["shape"]
        ax = ["x", "y", "q"][:len(shape)]
        ncs = [(a, np.array(NC[b][:n])) for a, b, n in zip(ax, AX, shape)]
        lines = ["NDim: %d" % len(shape), "Nfields: %d" % case["nf"]]
        for a, nc in ncs:
            lines += ["%s f8" % a, " ".join("%g" % v for v in nc)]
        datas = []
        for k in range(case["nf"]):
            v = values(shape, k)
            if case["dtype"] == "i4":
                v = np.round(v)
            datas.append(v)
            lines += ["fld%d %s" % (k, case["dtype"]), " ".join(repr(float(t)) if case["dtype"] != "i4" else str(int(t))
                                                               for t in v.ravel())]
        fn = os.path.join(d, "a.nda")
        with open(fn, "w") as fo:
            fo.write("\n".join(lines) + "\n")
        f = viscid.load_file(fn)
        for k in range(case["nf"]):
            fl = f["fld%d" % k]
            self.check_field(rec, fl, "fld%d" % k, datas[k], ncs, "node", None)
            require(fl.dtype == np.dtype(case["dtype"]), "dtype {0}, want {1}", fl.dtype, case["dtype"])
        require(len(f.get_grid().field_names) == case["nf"], "{0} fields, want {1}", len(f.get_grid().field_names),
                case["nf"])
        return "%dd" % len(shape)

    def run_hst(self, case, rec, d):
        import viscid
        t = np.array([0.0, 0.5, 1.5, 1.75, 4.0])[:case["n"]]
        cols = [t] + [values((case["n"],), k) for k in range(case["nv"] - 1)]
        names = ["time", "dt", "mass", "total E"][:case["nv"]]
        fn = os.path.join(d, "run.hst")
        w_hst(fn, names, cols)
        f = viscid.load_file(fn)
        for i in range(1, case["nv"]):
            self.check_field(rec, f[names[i]], names[i], cols[i], [("t", t)], "node", None)
        require(len(f.get_grid().field_names) == case["nv"] - 1, "{0} fields", len(f.get_grid().field_names))
        return "hst"

    def ath_ncs(self, shape):
        dx = [min(np.diff(CC[a][:n])) for a, n in zip(AX, shape) if n > 1]
        return [(a, edges(CC[a][:n], 0.5 * min(dx))) for a, n in zip(AX, shape)]

    def run_tab(self, case, rec, d):
        import viscid
        shape = case["shape"]
        names = ["d", "M1", "B1c"]
        datas = [values(shape, k) for k in range(3)]
        fn = os.path.join(d, "run.0003.tab")
        w_tab(fn, shape, case["time"], names, datas)
        f = viscid.load_file(fn)
        require(sorted(f.get_grid().field_names) == sorted(names), "fields {0}", list(f.get_grid().field_names))
        for nm, dat in zip(names, datas):
            self.check_field(rec, f[nm], nm, dat, self.ath_ncs(shape), "cell", float(case["time"]))
        require(f.time == float(case["time"]), "time of the file is {0}, want {1}", f.time, case["time"])
        require(f.find_info("run") == "run", "the run is {0}", f.find_info("run"))
        return "%dd" % len(shape)

    CONS = ["d", "M1", "M2", "M3", "E", "B1", "B2", "B3"]
    PRIM = ["d", "V1", "V2", "V3", "P", "B1c", "B2c", "B3c"]

    def bin_names(self, nvar, nscal, var):
        names = self.CONS if var == "cons" else self.PRIM
        nprim = nvar - nscal
        ret = names[:4]
        ret = ret + ([names[4]] if nprim in (5, 8) else []) + (names[5:] if nprim in (7, 8) else [])
        return ret + [str(i) for i in range(nprim, nvar)]

    def run_bin(self, case, rec, d):
        import viscid
        shape = case["shape"]
        shape3 = tuple(shape) + (1,) * (3 - len(shape))
        names = self.bin_names(case["nvar"], case["nscal"], case["var"])
        datas = [values(shape3, k) for k in range(case["nvar"])]
        fn = os.path.join(d, "run.0003.bin")
        w_bin(fn, shape, 2.5, 0.125, case["nscal"], datas, case["endian"], case["prec"])
        kw = {}
        if case["prec"] == "f4":
            kw["float_type_name"] = "f4"
        if case["var"] == "prim":
            kw["var_type"] = "prim"
        f = viscid.load_file(fn, **kw)
        require(list(f.get_grid().field_names) == names, "fields {0}, want {1}", list(f.get_grid().field_names), names)
        for nm, dat in zip(names, datas):
            fl = f[nm]
            self.check_field(rec, fl, nm, dat, self.ath_ncs(shape3), "cell", 2.5)
            require(fl.data.dtype == np.dtype(case["prec"]), "dtype {0}, want {1}", fl.data.dtype, case["prec"])
        return "%d variables" % case["nvar"]

    def run_multi(self, case, rec, d):
        import viscid
        shape = [2, 3, 2]
        fns, datas = [], []
        names = ["d", "M1", "M2", "M3", "B1c", "B2c", "B3c"] if case["fmt"] == "tab" else self.bin_names(7, 0, "cons")
        for k, t in enumerate(case["times"]):
            dat = [values(shape, 10 * k + j) for j in range(7)]
            fn = os.path.join(d, "run.%04d.%s" % (k + 1, case["fmt"]))
            if case["fmt"] == "tab":
                w_tab(fn, shape, "%g" % t, names, dat)
            else:
                w_bin(fn, shape, t, 0.5, 0, dat, "<", "f8")
            fns.append(fn)
            datas.append(dat)
        if case["how"] == "glob":
            f = viscid.load_file(os.path.join(d, "run.*.%s" % case["fmt"]))
        elif case["how"] == "list":
            f = viscid.load_file(fns)
        else:
            f = viscid.load_file(fns[::-1])
        byt = sorted(zip(case["times"], datas), key=lambda p: p[0])
        grids = list(f.iter_times())
        require(len(grids) == len(byt), "{0} times, want {1}", len(grids), len(byt))
        for g, (t, dat) in zip(grids, byt):
            require(g.time == t, "times are {0}, want {1}", [h.time for h in grids], [p[0] for p in byt])
            for nm, v in zip(names, dat):
                self.check_field(rec, g[nm], nm, v, self.ath_ncs(shape), "cell", t)
        if len(byt) > 1:
            f.activate_time(byt[1][0])
            self.check_field(rec, f["d"], "d", byt[1][1][0], self.ath_ncs(shape), "cell", byt[1][0])
        return "%d times" % len(byt)

    # ---------------------------------------------------------------- openggcm
    def ggcm_write(self, d, case, nt=None):
        what, fmt, shape = case["what"], case["fmt"], tuple(case["shape"])
        ccs = {"x": [-4.0, -1.5, 0.5, 6.0], "y": [-3.0, 0.0, 2.0, 5.0], "z": [-2.0, -1.0, 0.25, 3.0]}
        w_grid2(os.path.join(d, "run.grid2"), shape, ccs)
        if case.get("log"):
            with open(os.path.join(d, "run.log"), "w") as fo:
                fo.write(LOG)
        ncs = [(a, edges(ccs[a][:n])) for a, n in zip(AX, shape)]
        dshape = shape
        if what == "iof":
            dshape = (5, 4)
        elif what[0] == "p":
            i = AX.index(what[1])
            cut = int(np.argmin(np.abs(np.array(ccs[what[1]][:shape[i]]))))
            ncs[i] = (ncs[i][0], ncs[i][1][cut:cut + 2])
            dshape = tuple(n for k, n in enumerate(shape) if k != i)
        names = ["rr", "vx", "vy", "vz", "bx", "pp"] if what != "iof" else ["pot", "sigp"]
        want, fns = [], []
        for k in range(nt or case.get("nt", 1)):
            it = 1200 + 60 * k
            datas = [(nm, values(dshape, 7 * k + j)) for j, nm in enumerate(names)]
            ts = "time=%9.1f    0.315372000332031E+08 1967:01:01:00:%02d:00.000  c300" % (it, it // 60)
            fn = os.path.join(d, "run.%s.%06d" % (what, it) + (".b" if fmt == "fortbin" else ""))
            if fmt == "fortbin":
                w_fortbin(fn, it, ts, datas, case.get("endian") or "<")
                want.append((float(it), dict(datas)))
            else:
                want.append((float(it), w_jrrle(fn, it, ts, datas)))
            fns.append(fn)
        return names, ncs, want, fns

    def run_ggcm(self, case, rec, d):
        import viscid
        from viscid.readers.openggcm import GGCMGrid
        GGCMGrid.mhd_to_gse_on_read = case["flip"]
        GGCMGrid.copy_on_transform = case["copy"]
        names, ncs, want, fns = self.ggcm_write(d, case)
        iof = case["what"] == "iof"
        flip = bool(case["flip"]) and not iof      # these files are in mhd coordinates
        rtol = 0.0 if case["fmt"] == "fortbin" else 2e-5
        f = viscid.load_file(fns if len(fns) > 1 else fns[0])
        grids = list(f.iter_times())
        require(len(grids) == len(want), "{0} times, want {1}", len(grids), len(want))
        if flip:
            ncs = [(a, -nc[::-1] if a in "xy" else nc) for a, nc in ncs]
        if iof:
            ncs = [("phi", np.linspace(0, 360, 5)), ("theta", np.linspace(0, 180, 4))]
        for rnd in range(2):
            for g, (t, dat) in zip(grids, want):
                require(g.time == t, "times are {0}, want {1}", [h.time for h in grids], [w[0] for w in want])
                require(list(g.field_names) == names, "fields {0}, want {1}", list(g.field_names), names)
                require(g.basetime == np.datetime64("1967-01-01T00:00:00.0"), "basetime is {0}", g.basetime)
                for nm in names:
                    v = dat[nm]
                    if not iof:
                        v = v.reshape([len(nc) - 1 for _, nc in ncs])
                    if flip:
                        v = v[::-1, ::-1] * (-1 if nm in ("vx", "vy", "bx") else 1)
                    fl = g[nm]
                    self.check_field(rec, fl, nm, v, ncs, "node" if iof else "cell", t, rtol)
                    if not iof:
                        require(fl.find_info("crd_system") == ("gse" if flip else "mhd"), "{0}: coordinate system {1}", nm,
                                fl.find_info("crd_system"))
                    part = fl["x=0:2"] if not iof else fl["phi=0:2"]
                    require(close(part.data, v[0:2], rtol), "{0}: part {1}, want {2}", nm, part.data.tolist(),
                            v[0:2].tolist())
                    del fl
                if not iof:
                    vec = np.stack([dat[c].reshape([len(nc) - 1 for _, nc in ncs]) for c in ("vx", "vy", "vz")], axis=-1)
                    if flip:
                        vec = vec[::-1, ::-1] * np.array([-1, -1, 1])
                    got = np.asarray(g["v"].as_interlaced().data)
                    require(close(got, vec, rtol), "v: {0}, want {1}", got.tolist(), vec.tolist())
                    sp = np.sqrt((vec ** 2).sum(axis=-1))
                    require(close(g["speed"].data, sp, max(rtol, 1e-6)), "speed: {0}, want {1}", g["speed"].data.tolist(),
                            sp.tolist())
                    tt = vec[..., 0] * 0 + (dat["pp"] / dat["rr"]).reshape(vec.shape[:-1])[
                        (slice(None, None, -1),) * 2 if flip else ()]
                    require(close(g["T"].data, tt, max(2 * rtol, 1e-6)), "T: {0}, want {1}", g["T"].data.tolist(),
                            tt.tolist())
        if case["log"]:
            info = {"ggcm_mhd_gamma": 1.66667, "ggcm_mhd_bbnorm": 30574, "ggcm_mhd_name": "a run", "ggcm_mhd_type": "ggcm",
                    "mrc_crds_sw": 3, "mrc_crds_type": "gen", "ggcm_dipole_type": "fortran",
                    "ggcm_mhd_fld_mhd_type_str": "UNKNOWN",
                    "ggcm_dipole_dipoltime": ["1967", "01", "01", "00", "00", "00.000"]}
            for k, v in info.items():
                got = grids[0].find_info(k, None)
                require(got == v and isinstance(got, type(v)), "{0} of the log is {1!r}, want {2!r}", k, got, v)
            require(list(grids[0].find_info("mrc_crds_l")) == [-30, -20.5, -20], "a list of the log is {0}",
                    grids[0].find_info("mrc_crds_l"))
            for k in ("unwatched_secret", "mrc_domain_late", "mrc_crds_secret", "ggcm_mhd_secret"):
                require(grids[0].find_info(k, None) is None, "{0} is taken from the log", k)
        return "flipped" if flip else "as stored"

    # ---------------------------------------------------------------- order of reads
    def run_order(self, case, rec, d):
        import viscid
        fmt = case["fmt"]
        shape = (2, 3, 2)
        rtol = 0.0
        if fmt in ("fortbin", "jrrle"):
            names, ncs, want, fns = self.ggcm_write(d, dict(what="3df", fmt=fmt, shape=shape), nt=2)
            rtol = 0.0 if fmt == "fortbin" else 2e-5
        else:
            names = self.bin_names(7, 0, "cons")
            fns, want = [], []
            for k in range(2):
                dat = [values(shape, 10 * k + j) for j in range(7)]
                fn = os.path.join(d, "run.%04d.%s" % (k, fmt))
                if fmt == "tab":
                    w_tab(fn, shape, "%g" % k, names, dat)
                else:
                    w_bin(fn, shape, k, 0.5, 0, dat, "<", "f8")
                fns.append(fn)
                want.append((float(k), dict(zip(names, dat))))
        which = dict(a=names[0], b=names[3], c=names[-1])
        f = viscid.load_file(fns)
        grids = list(f.get_times())
        for op in case["seq"]:
            rec.step()
            if op == "clear":
                f.clear_cache()
                continue
            nm, k = which[op[0]], int(op[1])
            g = grids[k] if not hasattr(grids[k], "resolve") else grids[k].resolve()
            v = want[k][1][nm]
            if op.endswith("s"):
                got = g[nm]["x=1, y=::-1"]
                require(close(got.data, v[1, ::-1], rtol), "{0} of time {1} in part: {2}, want {3}", nm, k,
                        got.data.tolist(), v[1, ::-1].tolist())
            else:
                require(close(g[nm].data, v, rtol), "{0} of time {1}: {2}, want {3}", nm, k, g[nm].data.tolist(),
                        v.tolist())
        return fmt

    def run_athgrid(self, case, rec, d):
        import viscid
        shape = case["shape"]
        shape3 = tuple(shape) + (1,) * (3 - len(shape))
        names = self.bin_names(case["nvar"], 0, case["var"])
        dat = {n: values(shape3, k) for k, n in enumerate(names)}
        fn = os.path.join(d, "run.0003.bin")
        w_bin(fn, shape, 2.5, 0.125, 0, list(dat.values()), "<", "f8")
        f = viscid.load_file(fn, **({"var_type": "prim"} if case["var"] == "prim" else {}))
        b = [dat[n] for n in (("B1", "B2", "B3") if case["var"] == "cons" else ("B1c", "B2c", "B3c"))]
        if case["var"] == "cons":
            v = [dat[m] / dat["d"] for m in ("M1", "M2", "M3")]
            m = [dat[m] for m in ("M1", "M2", "M3")]
        else:
            v = [dat[m] for m in ("V1", "V2", "V3")]
            m = [dat["d"] * dat[q] for q in ("V1", "V2", "V3")]
        want = {"rr": dat["d"], "bmag": np.sqrt(sum(c ** 2 for c in b)), "speed": np.sqrt(sum(c ** 2 for c in v))}
        for i in range(3):
            want["b" + AX[i]], want["v" + AX[i]], want["m" + AX[i]] = b[i], v[i], m[i]
        for nm, w in want.items():
            rec.step()
            got = f[nm]
            require(np.allclose(got.data, w, rtol=1e-12, atol=0) and np.shape(got.data) == w.shape, "{0}: {1}, want {2}", nm,
                    got.data.tolist(), w.tolist())
        for nm, w in (("b", b), ("v", v)):
            got = f[nm]
            require(np.allclose(got.as_flat().data, np.stack(w), rtol=1e-12, atol=0), "{0}: {1}, want {2}", nm,
                    got.as_flat().data.tolist(), np.stack(w).tolist())
        require(np.array_equal(f["d"].data, dat["d"]), "deriving fields changed what they derive from")
        return case["var"]

    def run_rle(self, case, rec, d):
        import viscid
        n = case["n"]
        i = np.arange(n)
        a = {"const": np.full(n, 2.5), "negconst": np.full(n, -0.125), "ramp": 1.0 + i,
             "runs": np.array([1.0, 8.0])[(i // 5) % 2], "signs": np.where(i % 2, -1.0, 1.0) * (3.0 + i % 4),
             "wide": 10.0 ** (i % 12 - 6)}[case["pat"]]
        w_grid2(os.path.join(d, "run.grid2"), (n + 1, 2, 2),
                {"x": np.arange(n + 1) * 1.0, "y": [0.0, 1.0], "z": [0.0, 1.0]})
        dat = np.stack([np.append(a, 1.0), np.append(a[::-1], 4.0)], axis=1)
        dat = np.stack([dat, dat * 0.5], axis=2)
        fn = os.path.join(d, "run.3df.000060")
        want = w_jrrle(fn, 60, "time=     60.0    0.315E+08 1967:01:01:00:01:00.000  c300",
                       [("first", dat), ("second", -dat[::-1])])
        f = viscid.load_file(fn)
        for nm in ("second", "first", "second"):
            rec.step()
            got, w = f[nm].data, want[nm]
            require(close(got, w, 2e-5), "{0}: differs, e.g. {1}, want {2}", nm, got.ravel()[:6].tolist(),
                    w.ravel()[:6].tolist())
        return case["pat"]
