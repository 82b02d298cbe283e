"""Saving fields and loading them back"""
import itertools
import os

import numpy as np

from vmc import boot, fld
from vmc.core import Check, Fail, require

DTYPES = ("f8", "f4", "i4", "i8", "u2", "u4", "i1", "b1")


class Save(Check):
    pid = "V13"
    rule = ("exhaustive over file type, shape, uniform or not, centering, component layout, data type, time, and what was "
            "given to which function; then every ordered pair of field kinds in one file, and every pair of saves to one "
            "path")
    bounds = {"h5 shapes": "3-D with 1..4 points per axis", "npz shapes": "1-D to 3-D", "times": "0, 2.5, -3, 1e9+1/8 (h5)"}
    assumptions = ("h5 files hold 3-D x, y, z fields, as their code says", "npz files hold no time")
    HOW = ("field", "name", "list", "dict", "pairs", "grid", "resave")

    def setup(self):
        import viscid
        self.v = viscid

    def shards(self, tier):
        return [(ext, dt) for ext in ("npz", "h5") for dt in DTYPES] + [("npz", "pair"), ("h5", "pair"), ("npz", "over"),
                                                                        ("h5", "over"), ("npz", "names"), ("h5", "names")]

    def variants(self, ext):
        shapes = [(4, 2, 5), (1, 4, 2), (4, 2, 1), (2, 3, 4), (1, 1, 2), (2, 2, 2), (3, 3, 3), (3, 3, 2), (2, 3, 3)]
        if ext == "npz":
            shapes += [(4,), (1,), (4, 2), (3, 3), (2, 3), (1, 5)]
        for shape, kinds, center, layout in itertools.product(shapes, ("nnn", "uuu", "nun"), ("node", "cell"),
                                                              (None, "flat", "interlaced")):
            if int(np.prod(shape)) == 1:
                continue
            yield dict(shape=list(shape), kinds=kinds, center=center, layout=layout)

    def cases(self, shard, tier):
        ext, what = shard
        if what == "pair":
            kinds = [dict(center=c, layout=l, dtype=d) for c in ("node", "cell") for l in (None, "flat", "interlaced")
                     for d in ("f8", "i4")]
            for a, b in itertools.product(kinds, repeat=2):
                for how in ("list", "dict", "pairs", "grid"):
                    for z in ([0, 1] if ext == "h5" else [0]):
                        yield dict(ext=ext, pair=[a, b], how=how, z=z)
            return
        if what == "over":
            for a, b in itertools.permutations(list(self.variants(ext))[::7], 2):
                yield dict(ext=ext, over=[a, b])
            return
        if what == "names":
            for sub in ("", "run.h5", "run.h5.d", "a.xdmf", "r.npz.old", "x y", "..d", "a.b"):
                for stem in ("f", "f.000100", "f.3d", "f.h5", "f.h5.2", "a b", "f-1_2", "h5", "f.xdmf", "n.npz.1"):
                    for how in ("field", "resave", "grid"):
                        yield dict(ext=ext, names=[sub, stem], how=how, dtype="f8", t=2.5, z=0, shape=[4, 2, 5], kinds="nun", center="cell", layout=None)
            return
        for v in self.variants(ext):
            for how in self.HOW:
                if what not in ("f8", "i4") and how not in ("field", "grid") and tier == "quick":
                    continue
                times = [0.0, 2.5, -3.0, 1e9 + 0.125] if how in ("field", "resave") and ext == "h5" else [2.5]
                for t in times:
                    for z in ([0, 1] if ext == "h5" and t == times[0] else [0]):
                        yield dict(v, ext=ext, dtype=what, how=how, t=t, z=z)

    def field(self, case, name="fld", shape=None, kinds=None):
        dt = case["dtype"]
        f, m = fld.make(shape or case["shape"], (kinds or case["kinds"])[:len(shape or case["shape"])], case["center"],
                        case["layout"], "i4" if dt == "b1" else dt, name=name)
        if dt == "b1":
            m["dat"] = m["dat"] % 2 == 0
            f = f.wrap(np.asarray(f.data) % 2 == 0)
        return f, m

    def same(self, g, m, dt, t, what):
        v = self.v
        require(g.center.lower() == m["center"], "{0}: centering {1}, want {2}", what, g.center, m["center"])
        require(list(g.crds.axes) == m["axes"], "{0}: axes {1}, want {2}", what, list(g.crds.axes), m["axes"])
        for ax, a, b in zip(m["axes"], g.get_crds_nc(), m["nc"]):
            require(fld.same(a, b), "{0}: {1} coordinates {2}, want {3}", what, ax, a, b)
        isv = m["layout"] is not None
        require((g.nr_comps > 0) == isv, "{0}: {1} components", what, g.nr_comps)
        got = fld.comp_first(g)
        n = list(m["dat"].shape[1:])
        if isv and set(n) == {3} and any(fld.same(got, w) for w in self.rolled(m["dat"])):
            raise Fail("{0}: components and axes mixed up".format(what), finding="layout-guess")
        require(fld.same(got, m["dat"]), "{0}: data {1}, want {2}", what, fld.short(got), fld.short(m["dat"]))
        want = np.dtype("u1" if dt == "b1" and g.dtype != bool else dt)
        require(np.dtype(g.dtype) == want and got.dtype == want, "{0}: type {1}, want {2}", what, got.dtype, want)
        if t is not None:
            require(g.time == t, "{0}: time {1}, want {2}", what, g.time, t)

    @staticmethod
    def rolled(dat):
        """all ways of taking another axis for the components"""
        out = [np.moveaxis(dat, 0, -1), np.moveaxis(dat, -1, 0)]
        return out + [np.moveaxis(out[1], -1, 0)]

    def load(self, fn, ext):
        return self.v.load_file(fn if ext == "npz" else fn[:-3] + ".xdmf", force_reload=True)

    def run_case(self, case, rec):
        v = self.v
        ext = case["ext"]
        d = os.path.join(boot.scratch(), "save%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        if "names" in case:
            d = os.path.join(d, case["names"][0])
            os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, (case["names"][1] if "names" in case else "f") + "." + ext)
        rec.step()
        rec.state(sorted((k, repr(x)) for k, x in case.items()))
        kw = {"complevel": 4} if case.get("z") else {}
        try:
            if "pair" in case:
                fs = [self.field(c, n, (2, 4, 3), "nun") for c, n in zip(case["pair"], ("a", "b2"))]
                if case["pair"][0]["center"] != case["pair"][1]["center"]:
                    # share the grid: cell centered fields have one value less per axis
                    fs = [self.field(c, n, (2, 4, 3) if c["center"] == "cell" else (3, 5, 4), "nun")
                          for c, n in zip(case["pair"], ("a", "b2"))]
                    for f, m in fs:
                        m["nc"] = fs[0][1]["nc"]
                for f, m in fs:
                    f.time = 7.5
                how = case["how"]
                if how == "list":
                    v.save_fields(fn, [f for f, _ in fs], **kw)
                elif how == "dict":
                    v.save_fields(fn, {"a": fs[0][0], "b2": fs[1][0]}, **kw)
                elif how == "pairs":
                    v.save_fields(fn, [("a", fs[0][0]), ("b2", fs[1][0])], **kw)
                else:
                    g = v.grid.Grid(name="g")
                    g.set_crds(fs[0][0].crds)
                    g.add_field(*[f for f, _ in fs])
                    v.save_grid(fn, g, **kw)
                q = self.load(fn, ext)
                for c, n, (f, m) in zip(case["pair"], ("a", "b2"), fs):
                    self.same(q[n], m, c["dtype"], 7.5 if ext == "h5" else None, "%s %s %s" % (ext, how, n))
                names = sorted(q.field_dict())
                require(names == ["a", "b2"], "{0} {1}: fields {2}", ext, how, names)
                q.unload()
                return "pair"
            if "over" in case:
                q = None
                for i, c in enumerate(case["over"]):
                    c = dict(c, dtype="f8")
                    f, m = self.field(c)
                    f.time = 1.0 + i
                    v.save_field(fn, f)
                    q = self.load(fn, ext)
                    self.same(q["fld"], m, "f8", 1.0 + i if ext == "h5" else None, "%s save #%d" % (ext, i + 1))
                q.unload()
                return "over"
            f, m = self.field(case)
            f.time = case["t"]
            orig = np.array(f.data)
            how, name = case["how"], "fld"
            if how in ("field", "resave"):
                v.save_field(fn, f, **kw)
            elif how == "name":
                name = "other"
                v.save_field(fn, f, name="other", **kw)
            elif how == "list":
                v.save_fields(fn, [f], **kw)
            elif how == "dict":
                name = "key"
                v.save_fields(fn, {"key": f}, **kw)
            elif how == "pairs":
                name = "key"
                v.save_fields(fn, [("key", f)], **kw)
            elif how == "grid":
                g = v.grid.Grid(name="g")
                g.set_crds(f.crds)
                g.add_field(f)
                v.save_grid(fn, g, **kw)
            what = "%s %s" % (ext, how)
            require(fld.same(np.array(f.data), orig), "{0}: saving changed the field", what)
            q = self.load(fn, ext)
            if how == "resave":
                fn2 = os.path.join(d, "g." + ext)
                v.save_field(fn2, q["fld"])
                q.unload()
                q = self.load(fn2, ext)
            dt = case["dtype"]
            self.same(q[name], m, dt, case["t"] if ext == "h5" else None, what)
            require(q[name].name == name, "{0}: name {1}, want {2}", what, q[name].name, name)
            q.unload()
            return ext
        finally:
            v.unload_all_files()
