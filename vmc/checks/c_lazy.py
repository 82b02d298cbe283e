"""Fields that are still on disk: a selection read from the file is the selection of the field read whole"""
import itertools
import os

import numpy as np

from vmc import boot, fld
from vmc.checks import c_slice
from vmc.core import Check, Fail, require

HEAD = """<?xml version='1.0' ?>
<Xdmf Version='2.0'><Domain><Grid GridType="Collection" CollectionType="Spatial"><Time Type="Single" Value="3.0" />
<Grid Name="g" GridType="Uniform"><Topology TopologyType="3DRectMesh" Dimensions="{dims}"/>
<Geometry GeometryType="VXVYVZ">"""
CRD = """<DataItem Name="V{A}" DataType="Float" Dimensions="{n}" Format="HDF">d.h5:/{a}</DataItem>"""
ATTR = """<Attribute Name="{n}" AttributeType="{t}" Center="{c}"><DataItem Dimensions="{dims}" NumberType="Float"
Precision="8" Format="HDF">d.h5:/{n}</DataItem></Attribute>"""
TAIL = "</Grid></Grid></Domain></Xdmf>\n"


def write_xdmf(path, nc, center, flds):
    """flds: name -> array in zyx order, with components first or last"""
    import h5py
    dims = [len(x) for x in nc][::-1]
    sdim = [d - (center == "cell") for d in dims]
    out = [HEAD.format(dims=" ".join(map(str, dims)))]
    with h5py.File(os.path.join(os.path.dirname(path), "d.h5"), "w") as f:
        for a, x in zip("xyz", nc):
            f[a] = x
            out.append(CRD.format(A=a.upper(), a=a, n=len(x)))
        out.append("</Geometry>")
        for n, d in sorted(flds.items()):
            f[n] = d
            out.append(ATTR.format(n=n, t="Scalar" if list(d.shape) == sdim else "Vector", c=center.title(),
                                   dims=" ".join(map(str, d.shape))))
    with open(path, "w") as f:
        f.write("\n".join(out) + TAIL)


class Lazy(c_slice._Sel):
    pid = "V08"
    rule = ("exhaustive over products of per-axis menus (indices, slices of both signs, index lists, masks, new axes, "
            "locations) for scalars, flat and interlaced vectors, assembled vectors and single components, read from every "
            "kind of source (zyx HDF5 through xdmf, plain HDF5, one component of a larger data set, transposed, npz, a "
            "simulation file whose x and y axes are mirrored on read) before and after loading; 1-D: all slices")
    bounds = {"3d shape": "4x2x5 (thorough also 3x3x2)", "1d_len": "1..4"}
    SOURCES = ("xdmf", "ggcm", "npz", "h5", "comp", "trans")

    def setup(self):
        super(Lazy, self).setup()
        self._src = {}

    def shards(self, tier):
        out = []
        for src in self.SOURCES:
            for center in ("node", "cell"):
                for kind in ("scalar", "flat", "interlaced", "assembled"):
                    if kind == "assembled" and src == "npz":
                        continue
                    if src in ("comp", "trans") and kind in ("flat", "interlaced"):
                        continue
                    for shape in ([(4, 2, 5), (3, 3, 2)] if tier == "thorough" else [(4, 2, 5)]):
                        out.append((src, center, kind, shape))
        return out + [("h5-1d", center, "scalar", n) for center in ("node", "cell") for n in (1, 2, 3, 4)]

    def source(self, src, center, kind, shape):
        """-> function giving a field not read yet, and the model of what it must be"""
        key = (src, center, kind, tuple(shape))
        if key in self._src:
            return self._src[key]
        import h5py
        import viscid
        from viscid.readers.hdf5 import H5pyDataWrapper
        d = os.path.join(boot.scratch(), "lazy-%d-%d" % (os.getpid(), len(self._src)))
        os.makedirs(d)
        layout = None if kind == "scalar" else "interlaced" if kind == "interlaced" else "flat"
        f0, m = fld.make(shape, "nun"[:len(shape)], center, layout)
        nc, dat = m["nc"], m["dat"]
        comps = "xyz"
        if src in ("xdmf", "ggcm"):
            fn = os.path.join(d, "run.3d.000003.xdmf" if src == "ggcm" else "f.xdmf")
            zyx = (0, 3, 2, 1)
            if kind == "scalar":
                flds = {"rr": dat.T}
            elif kind == "assembled":
                flds = {"v" + c: dat[i].T for i, c in enumerate(comps)}
            elif kind == "flat":
                flds = {"vv": dat.transpose(zyx)}
            else:
                flds = {"vv": np.moveaxis(dat.transpose(zyx), 0, -1)}
            write_xdmf(fn, nc, center, flds)
            if src == "ggcm":
                viscid.readers.openggcm.GGCMGrid.mhd_to_gse_on_read = "force"
                viscid.readers.openggcm.GGCMFile.read_log_file = False
                nc = [-nc[0][::-1], -nc[1][::-1], nc[2]]
                if kind == "scalar":
                    dat = dat[::-1, ::-1]
                else:
                    dat = dat[:, ::-1, ::-1] * np.array([-1., -1., 1.]).reshape(3, 1, 1, 1)
            vf = viscid.load_file(fn)
            if kind == "assembled":
                if src == "ggcm":
                    get = lambda: vf["v"]
                else:
                    get = lambda: viscid.scalar_fields_to_vector([vf["v" + c] for c in comps], name="v")
            else:
                get = lambda: vf["rr" if kind == "scalar" else "vv"]
        elif src == "npz":
            fn = os.path.join(d, "f.npz")
            viscid.save_field(fn, f0)
            vf = viscid.load_file(fn)
            get = lambda: vf["fld"]
        else:
            fn = os.path.join(d, "f.h5")
            kw = {}

            def wrapper(name):
                return H5pyDataWrapper(fn, name, **kw)
            with h5py.File(fn, "w") as f:
                if src == "trans":
                    kw = dict(transpose=True)
                    put = lambda a: np.array(a.T)
                elif src == "comp":
                    kw = dict(comp_dim=-1, comp_idx=1)
                    put = lambda a: np.stack([a * 0 - 5, a, a * 0 - 6], axis=-1)
                else:
                    put = np.array
                if kind == "assembled":
                    for i, c in enumerate(comps):
                        f[c] = put(dat[i])
                elif kind == "interlaced":
                    f["a"] = np.moveaxis(dat, 0, -1)
                else:
                    f["a"] = put(dat)
            fldtype = "scalar" if kind in ("scalar", "assembled") else "vector"
            # a field wants its source to be read whole when transposed
            crds = f0.crds
            if kind == "assembled":
                get = lambda: viscid.scalar_fields_to_vector(
                    [viscid.wrap_field(wrapper(c), crds, name="v" + c, center=center) for c in comps], name="v")
            else:
                get = lambda: viscid.wrap_field(wrapper("a"), crds, name="fld", fldtype=fldtype, center=center)
        m = dict(m, nc=nc, cc=[fld.centers(x) for x in nc], dat=dat)
        m["crds"] = m["cc"] if center == "cell" else m["nc"]
        self._src[key] = (get, m)
        return self._src[key]

    LOCS = ["x = -0.9f:1.2f", "y = :-1.4f", "x = ::-1, z = -2.0f:0.1f:2", "z = -1f:-3f:-1", "0.1f", "x = 0.6f, z = 1",
            "y = -1.6f, x = 1.3f:", "x = 1:0.5f, z = ::-2"]

    def cases(self, shard, tier):
        src, center, kind, shape = shard
        base = dict(src=src, center=center, kind=kind)
        if src == "h5-1d":
            for it in c_slice.int_items(shape) + c_slice.slice_items(shape, 1) + c_slice.mask_items(shape) + \
                    c_slice.list_items(shape, 2):
                yield dict(base, shape=[shape], items=[it])
            return
        base["shape"] = list(shape)
        menu = c_slice.MENU3 + [("s", -3, None, -1)]
        menu3 = menu if tier == "thorough" else [("i", -1), ("s", None, None, -1), ("s", None, 2, None), ("s", -3, None, -1),
                                                 ("a", [2, 0])]
        nth = 0
        comps = [None] if kind == "scalar" else [None, "x", "z"]
        yield dict(base, items=[], whole=True)
        for its in itertools.chain(*[itertools.product(menu if r < 3 else menu3, repeat=r) for r in (1, 2, 3)]):
            its = c_slice.place(its, shape)
            for comp in comps:
                nth += 1
                if len(its) == 3 and tier == "quick" and comp == "x" and kind == "assembled" and nth % 3:
                    continue
                yield dict(base, items=its, comp=comp)
                if nth % 5 == 0:
                    for p in range(len(its) + 1):
                        yield dict(base, items=its[:p] + [("new",)] + its[p:], comp=comp)
                if nth % 7 == 0:
                    yield dict(base, items=its, comp=comp, how="keep")
                if nth % 11 == 0:
                    yield dict(base, items=its, comp=comp, twice=True)
        for loc in self.LOCS:
            for comp in comps:
                yield dict(base, items=[], loc=(loc if comp is None else comp + ", " + loc))

    def run_case(self, case, rec):
        src = case["src"]
        get, m = self.source("h5" if src == "h5-1d" else src, case["center"], case["kind"], case["shape"])
        rec.step()
        f = get()
        require(not f.is_loaded, "{0}: a field fresh from its file is loaded already", src)
        if case.get("whole"):
            rec.state(sorted(case.items()))
            require(fld.same(fld.comp_first(f), m["dat"]), "data read whole are {0}, want {1}", fld.short(fld.comp_first(f)),
                    fld.short(m["dat"]))
            for ax, g, w in zip("xyz", f.get_crds(), m["crds"]):
                require(fld.same(g, w, 1e-12), "{0} coordinates {1}, want {2}", ax, g, w)
            f.clear_cache()
            require(fld.same(fld.comp_first(f), m["dat"]), "data read again after clearing the cache are {0}, want {1}",
                    fld.short(fld.comp_first(f)), fld.short(m["dat"]))
            return "whole"
        sel = case.get("loc") or self.spell(case)
        rec.state((src, case["center"], case["kind"], case["shape"], case.get("how"), case.get("twice"), repr(sel)))
        look = (lambda g: g.slice_and_keep(sel)) if case.get("how") == "keep" else (lambda g: g[sel])
        what = "%s %s[%r]" % (src, case["kind"], sel)
        if not case.get("loc"):
            ex = fld.expect(m, [tuple(it) for it in case["items"]], case.get("comp"))
            if ex is None:
                return "empty selection: unconstrained"
        if not case.get("loc") and case.get("how") != "keep":
            r = look(f)
            lab = fld.check_result(r, ex, dict(m, layout=f.layout if m["layout"] else None), what)
            if case.get("twice"):
                require(fld.same(np.asarray(look(f)), np.asarray(r)), "{0}: a second look differs", what)
        else:
            if case.get("loc"):
                try:
                    e = get()
                    e.resolve()
                    e = np.asarray(look(e))
                except Exception:  # pylint: disable=broad-except
                    e = np.zeros(0)
                if e.size == 0:
                    return "empty selection: unconstrained"
            r = look(f)
            lab = "loc" if case.get("loc") else "keep"
        g = get()
        g.resolve()
        require(fld.same(fld.comp_first(g), m["dat"]), "{0}: after selecting, data read whole are {1}", what,
                fld.short(fld.comp_first(g)))
        q = look(g)
        require(fld.same(np.asarray(r), np.asarray(q)), "{0}: read from the file {1}, from the loaded field {2}", what,
                fld.short(np.asarray(r)), fld.short(np.asarray(q)))
        if hasattr(q, "crds"):
            require(hasattr(r, "crds") and list(r.crds.axes) == list(q.crds.axes) and r.center == q.center,
                    "{0}: axes or centering differ", what)
            for a, b in zip(r.get_crds(), q.get_crds()):
                require(fld.same(a, b, 1e-12), "{0}: coordinates {1} from the file, {2} from the loaded field", what, a, b)
            require(repr(r.meta.get("reduced")) == repr(q.meta.get("reduced")), "{0}: dropped axes {1} from the file, "
                    "{2} from the loaded field", what, r.meta.get("reduced"), q.meta.get("reduced"))
        return lab
