"""Converting fields: layouts, centering, transposes, copies, caches"""
import os

import numpy as np

from vmc import boot, fld
from vmc.checks import c_lazy
from vmc.core import Check, Fail, require, explore_bfs

AX = "xyz"


def mid(x):
    return x if len(x) == 1 else 0.5 * (x[1:] + x[:-1])


def around(x, w=1e-5):
    if len(x) == 1:
        return np.array([x[0] - 0.5 * w, x[0] + 0.5 * w])
    m = mid(x)
    return np.concatenate([[m[0] - (x[1] - x[0])], m, [m[-1] + (x[-1] - x[-2])]])


class _M(object):
    """what a field must be"""
    def __init__(self, axes, nc, dat, center, layout, name, t):
        self.axes, self.nc, self.dat, self.center, self.layout, self.name, self.t = \
            list(axes), list(nc), dat, center, layout, name, t

    def but(self, **kw):
        d = dict(axes=self.axes, nc=self.nc, dat=self.dat, center=self.center, layout=self.layout, name=self.name, t=self.t)
        d.update(kw)
        return _M(**d)

    def key(self):
        return (tuple(self.axes), tuple(x.tobytes() for x in self.nc), self.dat.shape, str(self.dat.dtype),
                self.dat.tobytes(), self.center, self.layout)

    @property
    def nd(self):
        return len(self.axes)

    @property
    def off(self):
        return 1 if self.layout else 0

    def sperm(self, perm):
        """reorder the axes"""
        p = list(range(self.off)) + [self.off + i for i in perm]
        return self.but(axes=[self.axes[i] for i in perm], nc=[self.nc[i] for i in perm], dat=self.dat.transpose(p))


class Convert(Check):
    pid = "V10"
    rule = ("breadth-first over every sequence of conversions (layout, centering, transposes, contiguity, type, copies, "
            "components, reversal, scaled axes, added and dropped axes) and of reads and cache clearings, from fields in memory, "
            "lists of components, and fields on disk in every storage order; after each step the new field and every "
            "field on the way are compared with the model")
    bounds = {"depth": "3 (thorough 4), one less for shapes 5 and 4x1 and for face and edge centers", "shapes": "5; 2x4; 4x2x5; with axes of one point: 4x1, 2x1x4"}
    assumptions = ("data are not assigned to", "swapping the component axis with another is not a field operation")
    case_timeout = 300
    SHAPES = {"1": (5,), "2": (2, 4), "3": (4, 2, 5), "2a": (4, 1), "3a": (2, 1, 4)}

    def setup(self):
        import viscid
        self.v = viscid

    def shards(self, tier):
        out = []
        for center in ("node", "cell"):
            for kind in ("scalar", "flat", "interlaced", "list"):
                for shp in sorted(self.SHAPES):
                    for kinds in ("nun", "uuu"):
                        if kinds == "nun" or shp == "2" or tier == "thorough":
                            out.append(("mem", center, kind, shp, kinds))
                if kind != "list":
                    for shp in "123" if tier == "thorough" else "2":
                        out.append(("npz", center, kind, shp, "nun"))
                    for src in ("xdmf", "ggcm"):
                        out.append((src, center, kind, "3", "nun"))
            out.append(("ggcm", center, "assembled", "3", "nun"))
        for center in ("face", "edge"):
            for kind in ("flat", "interlaced", "list"):
                for shp in ("2", "2a", "3") if center == "face" else "2":
                    out.append(("mem", center, kind, shp, "nun"))
        return out

    def source(self, shard):
        src, center, kind, shp, kinds = shard
        v = self.v
        shape = self.SHAPES[shp]
        layout = None if kind == "scalar" else "interlaced" if kind == "interlaced" else "flat"
        f, m = fld.make(shape, kinds[:len(shape)], "cell" if center in ("face", "edge") else center, layout)
        if center in ("face", "edge"):
            f.center = center
        if src == "mem":
            if kind == "list":
                g = v.wrap_field([np.array(c) for c in m["dat"]], f.crds, name="fld", fldtype="vector", center=center, time=2.0)
            else:
                f.time = 2.0
                g = f
            return g, _M(m["axes"], m["nc"], m["dat"], center, layout, "fld", 2.0), None
        if not hasattr(self, "lazy"):
            self.lazy = c_lazy.Lazy()
            self.lazy.setup()
        get, m = self.lazy.source(src, center, kind, shape) if src != "npz" else self.npz(f, m, shard)
        g = get()
        if g.is_loaded:
            g.clear_cache()
        # what the file says of layout
        lay = None if kind == "scalar" else g.layout
        name = {"scalar": "rr", "assembled": "v"}.get(kind, "vv") if src != "npz" else "fld"
        return g, _M(m["axes"], m["nc"], m["dat"], center, lay, name, 3.0 if src != "npz" else 0.0), None

    def npz(self, f, m, shard):
        d = os.path.join(boot.scratch(), "conv%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "-".join(shard) + ".npz")
        if not os.path.isfile(fn):
            self.v.save_field(fn, f)
        return (lambda: self.v.load_file(fn)["fld"]), m

    # a state: list of (field, model), the last one is current
    def make(self, shard):
        g, m, _ = self.source(shard)
        return [(g, m)]

    def menu(self, st):
        f, m = st[-1]
        nd = m.nd
        if m.center in ("face", "edge"):   # what is at the faces is moved elsewhere by V33's operations
            out = ["resolve", "forget", "forget0", "TC", "T", "contig", "f4", "copy", "force", "wrap", "scale", "addzero"]
        else:
            out = ["resolve", "forget", "forget0", "cell", "node", "TC", "T", "contig", "f4", "copy", "force", "wrap", "rev",
                   "scale", "addzero"]
        if m.layout:
            out += ["flat", "interlaced", "comp1", "compx", "remade"]
        if nd > 1:
            out += ["swap01", "swapcrd", "last", "rename"]
        if nd == 3:
            out += ["roll"]
        if nd < 3 and "x" in m.axes and m.axes == sorted(m.axes) and all(a in AX for a in m.axes):
            out += ["3d"]
        if any(len(x) == (1 if m.center == "node" else 2) for x in m.nc):
            out += ["atmost"]
        return out

    def guessable(self, m):
        """the layout cannot be told from the shape (see known finding layout-guess)"""
        if not m.layout:
            return False
        n = [k for k in m.dat.shape[1:]]
        c = m.dat.shape[0]
        return all(k in (1, c) for k in n)

    def apply(self, st, ev, look=True):
        v = self.v
        f, m = st[-1]
        nd, off = m.nd, m.off
        perm = list(range(nd))
        new = None
        if ev == "resolve":
            g = f.resolve()
            require(g is f and f.is_loaded, "resolve gave another field")
        elif ev == "forget":
            f.clear_cache()
        elif ev == "forget0":
            st[0][0].clear_cache()
        elif ev == "cell":
            new = (f.as_cell_centered(), m.but(center="cell", nc=m.nc if m.center == "cell" else [around(x) for x in m.nc]))
        elif ev == "node":
            new = (f.as_centered("node"), m.but(center="node", nc=m.nc if m.center == "node" else [mid(x) for x in m.nc]))
        elif ev == "TC":
            new = (f.TC, m.sperm(perm[::-1]))
        elif ev == "T":
            n = m.sperm(perm[::-1])
            if m.layout:
                n.layout = {"flat": "interlaced", "interlaced": "flat"}[m.layout]
            new = (f.T, n)
        elif ev == "roll":
            new = (f.transpose_crds(*[m.axes[i] for i in (1, 2, 0)]), m.sperm([1, 2, 0]))
        elif ev == "swap01":
            k = 1 if m.layout == "flat" else 0
            perm[0], perm[1] = 1, 0
            new = (f.swapaxes(k, k + 1), m.sperm(perm))
        elif ev == "swapcrd":
            perm[0], perm[-1] = perm[-1], perm[0]
            new = (f.swap_crd_axes(m.axes[0], m.axes[-1]), m.sperm(perm))
        elif ev == "contig":
            g = f.as_c_contiguous()
            require(g.data.flags["C_CONTIGUOUS"], "data are not contiguous")
            new = (g, m)
        elif ev == "f4":
            new = (f.astype("f4"), m.but(dat=m.dat.astype("f4")))
        elif ev == "copy":
            new = (f.shell_copy(), m)
        elif ev == "force":
            new = (f.shell_copy(force=True), m)
        elif ev == "wrap":
            new = (f.wrap(np.array(f.data)), m)
        elif ev == "addzero":
            new = (f + 0, m)
        elif ev == "rev":
            nc = list(m.nc)
            nc[0] = nc[0][::-1]
            new = (f[m.axes[0] + " = ::-1"], m.but(nc=nc, dat=np.flip(m.dat, off)))
        elif ev == "last":
            x = m.nc[-1] if m.center == "node" else mid(m.nc[-1])
            new = (f[m.axes[-1] + " = -1"], m.but(axes=m.axes[:-1], nc=m.nc[:-1], dat=m.dat[..., -1]))
        elif ev == "scale":
            new = (f.adjust_crds({m.axes[0]: 2.0}), m.but(nc=[m.nc[0] * 2.0] + m.nc[1:]))
        elif ev == "rename":
            new = (f.adjust_crds({m.axes[-1]: lambda x: x + 3.0}, name_map={m.axes[-1]: m.axes[-1] + "q"}),
                   m.but(nc=m.nc[:-1] + [m.nc[-1] + 3.0], axes=m.axes[:-1] + [m.axes[-1] + "q"]))
        elif ev in ("flat", "interlaced"):
            new = (f.as_layout(ev) if ev == "flat" else f.as_interlaced(), m.but(layout=ev))
        elif ev == "comp1":
            new = (f.component_fields()[1], m.but(dat=m.dat[1], layout=None, name=None))
        elif ev == "compx":
            new = (f["x"], m.but(dat=m.dat[0], layout=None, name=None))
        elif ev == "remade":
            new = (v.scalar_fields_to_vector(f.component_fields(), name="made"), m.but(layout="flat", name="made"))
        elif ev == "3d":
            n = m.but(nc=list(m.nc), axes=list(AX))
            dat = m.dat
            for i, a in enumerate(AX):
                if a not in m.axes:
                    n.nc.insert(i, np.array([0.]) if m.center == "node" else np.array([-1., 1.]))
                    dat = np.expand_dims(dat, off + i)
            n.dat = dat
            new = (f.atleast_3d(), n)
        elif ev == "atmost":
            n = m
            for i in reversed(range(nd)):
                if len(m.nc[i]) == (1 if m.center == "node" else 2) and n.nd > 1:
                    n = n.but(axes=n.axes[:i] + n.axes[i + 1:], nc=n.nc[:i] + n.nc[i + 1:], dat=n.dat.take(0, axis=off + i))
            new = (f.atmost_nd(n.nd), n)
        else:
            raise ValueError(ev)
        if new is not None:
            if self.guessable(new[1]) or new[1].dat.size == 1:
                new = None    # a single value is no field; its layout can not be told (known finding layout-guess)
            else:
                st.append(new)
        if look:
            for i, (g, n) in enumerate(st):
                self.same(g, n, "%s%s" % (ev, "" if i == len(st) - 1 else " (field #%d on the way)" % i))

    def same(self, g, m, what):
        """reads everything without changing whether the field is loaded"""
        require(list(g.crds.axes) == m.axes, "{0}: axes {1}, want {2}", what, list(g.crds.axes), m.axes)
        require(g.iscentered(m.center), "{0}: centering {1}, want {2}", what, g.center, m.center)
        for a, x, w in zip(m.axes, g.crds.get_crds_nc(), m.nc):
            require(fld.same(x, w, 1e-10), "{0}: {1} coordinates {2}, want {3}", what, a, x, w)
        require(g.time == m.t, "{0}: time {1}, want {2}", what, g.time, m.t)
        if m.name is not None:
            require(g.name == m.name, "{0}: name {1}, want {2}", what, g.name, m.name)
        lay = m.layout or "scalar"
        require(g.layout == lay, "{0}: layout {1}, want {2}", what, g.layout, lay)
        shape = list(m.dat.shape)
        if m.layout == "interlaced":
            shape = shape[1:] + shape[:1]
        require(list(g.shape) == shape, "{0}: shape {1}, want {2}", what, list(g.shape), shape)
        require(g.nr_comps == (m.dat.shape[0] if m.layout else 0), "{0}: {1} components", what, g.nr_comps)
        was = g.is_loaded
        got = np.array(g.data)
        if m.layout == "interlaced":
            got = np.moveaxis(got, -1, 0)
        require(fld.same(got, m.dat), "{0}: data {1}, want {2}", what, fld.short(got), fld.short(m.dat))
        require(got.dtype == m.dat.dtype, "{0}: type {1}, want {2}", what, got.dtype, m.dat.dtype)
        if not was:
            g.clear_cache()

    @staticmethod
    def canon(st):
        return tuple((m.key(), f.is_loaded) for f, m in st[-2:]) + (len(st),)

    def run_shard(self, shard, tier, rec):
        depth = 4 if tier == "thorough" else 3
        if shard[0] == "mem" and (shard[3] in ("1", "2a") or shard[1] in ("face", "edge")):
            depth -= 1
        explore_bfs(rec, lambda: self.make(shard), lambda st, d: self.menu(st), self.apply, self.canon, depth,
                    lambda hist, e: rec.fail({"src": list(shard), "hist": hist}, str(e), e.finding),
                    replay_=lambda st, ev: self.apply(st, ev, False))
        rec.outcome("explored")
        rec.sample({"src": list(shard), "hist": ["cell", "T", "flat"]})

    def run_case(self, case, rec):
        st = self.make(tuple(case["src"]))
        for ev in case["hist"]:
            self.apply(st, ev)
