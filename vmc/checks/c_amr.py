"""Fields made of patches"""
import itertools
import operator

import numpy as np

from vmc.core import Check, Fail, require
from vmc.checks.c_interp import amr_set


def lin(a, b, n):
    return np.linspace(a, b, n).tolist()


def boxes_of(k):
    if k < 4:
        return amr_set(k)
    if k == 4:    # alike
        return [(lin(0, 1, 3), lin(0, 1, 3), lin(0, 1, 4)), (lin(1, 2, 3), lin(0, 1, 3), lin(0, 1, 4)), (lin(0, 1, 3), lin(1, 2, 3), lin(0, 1, 4))]
    if k == 5:    # one place in y
        return [(lin(0, 1, 3), [-0.01], lin(0, 1, 3)), (lin(1, 2, 5), [-0.01], lin(0, 1, 2))]
    if k == 6:    # one of a single cell
        return [(lin(0, 1, 2), lin(0, 1, 2), lin(0, 1, 2)), (lin(1, 2, 3), lin(0, 1, 3), lin(0, 1, 3))]
    if k == 7:    # like 4, the last is larger
        return [(lin(0, 1, 3), lin(0, 1, 3), lin(0, 1, 4)), (lin(1, 2, 3), lin(0, 1, 3), lin(0, 1, 4)), (lin(0, 1, 3), lin(1, 4, 3), lin(0, 1, 4))]
    return [(lin(0, 1, 3), lin(0, 1, 3), lin(0, 1, 4))]


BIN = dict(add=operator.add, sub=operator.sub, mul=operator.mul, truediv=operator.truediv, floordiv=operator.floordiv, mod=operator.mod, pow=operator.pow,
           lt=operator.lt, le=operator.le, eq=operator.eq, ne=operator.ne, gt=operator.gt, ge=operator.ge, divmod=divmod)
INT = dict(lshift=operator.lshift, rshift=operator.rshift, and_=operator.and_, or_=operator.or_, xor=operator.xor)
IN = dict(iadd=operator.iadd, isub=operator.isub, imul=operator.imul, itruediv=operator.itruediv, ifloordiv=operator.ifloordiv, imod=operator.imod,
          ipow=operator.ipow)
IN2 = dict(iadd="add", isub="sub", imul="mul", itruediv="truediv", ifloordiv="floordiv", imod="mod", ipow="pow")
UN = dict(neg=operator.neg, pos=operator.pos, abs=operator.abs)
RED = ["any", "all", "max", "min", "mean", "prod", "std", "sum", "ptp"]
UFUNC = ["sin", "sqrt", "exp", "add", "maximum", "multiply", "greater"]


class Amr(Check):
    pid = "V18"
    rule = ("every operator with every kind of operand, every reduction and axis, on every set of patches, centering and layout, against the patches' arrays; "
            "every selection by value (single places and ranges, ends at, between and beyond the patches' places, in one or two axes, twice in a row) against "
            "the selections of the patches that hold it; and every sequence of two patch sets with a shared skeleton")
    bounds = {"patch sets": 9, "patches": "1..4", "axes selected": "1..2", "selections": 2}
    assumptions = ("a place where patches touch may come from either", "whole reductions are those of all patches' values; reductions along an axis are per patch")

    def setup(self):
        import viscid
        from viscid import grid, amr_grid
        self.v, self.grid, self.amr = viscid, grid, amr_grid
        viscid.logger.setLevel(60)

    def shards(self, tier):
        out = [("op", k) for k in range(9)] + [("red", k) for k in range(9)]
        out += [("sel", k, c) for k in range(7) for c in ("node", "cell")] + [("skel", k) for k in range(8)] + [("skelv", k) for k in (0, 1, 2, 4, 6, 7)]
        return out

    def cases(self, shard, tier):
        kind, k = shard[:2]
        if kind == "op":
            for center, lay in self.forms(k):
                for dtype in ("f8", "f4", "i8"):
                    for op in BIN:
                        for other in ("int", "float", "np8", "np4", "self", "amr", "one", "zerod", "array"):
                            for rev in (False, True):
                                if other in ("one", "array") and k not in (4, 7):
                                    continue
                                if rev and other in ("self", "zerod", "array") or rev and other == "amr" and op == "pow":
                                    continue
                                yield ["op", k, center, lay, dtype, op, other, rev]
                    if dtype == "i8":
                        for op in INT:
                            for other in ("int", "self", "amr"):
                                yield ["op", k, center, lay, dtype, op, other, False]
                    for op in IN:
                        for other in ("int", "float", "amr"):
                            if not (dtype == "i8" and (op == "itruediv" or other == "float")):
                                yield ["op", k, center, lay, dtype, op, other, False]
                    for op in UN:
                        yield ["op", k, center, lay, dtype, op, None, False]
                if k in (4, 7, 8):
                    for uf in UFUNC:
                        yield ["ufunc", k, center, lay, uf]
        elif kind == "red":
            for center, lay in self.forms(k):
                for red in RED:
                    for how in ("method", "np", "none"):
                        yield ["red", k, center, lay, red, None, how]
                    for ax in (0, 1, 2, -1):
                        yield ["red", k, center, lay, red, ax, "method"]
        elif kind == "sel":
            c = shard[2]
            if k == 5 and c == "cell":
                return
            for lay in ("scalar", "interlaced", "flat"):
                if lay != "scalar" and (k not in (0, 2) or tier != "thorough" and c == "cell"):
                    continue
                one = [[(d, s)] for d in range(3) for s in self.selections(k, d, True)]
                for sel in one:
                    for how in ("slice", "slice_reduce", "slice_and_keep", "getitem", "get_field"):
                        yield ["sel", k, c, lay, sel, how]
                for da, db in ((0, 1), (0, 2), (1, 2), (2, 0)):
                    for a in self.selections(k, da, tier == "thorough"):
                        for b in self.selections(k, db, False):
                            yield ["sel", k, c, lay, [(da, a), (db, b)], "slice"]
                            if lay == "scalar":
                                yield ["sel2", k, c, lay, [(da, a)], [(db, b)]]
        elif kind == "skelv":
            # the first set of patches, with one change to one patch
            for i in range(len(boxes_of(k))):
                for d in range(3):
                    for how in ("lo", "hi", "lo+", "hi-", "n", "inner"):
                        yield ["skelv", k, i, d, how]
        else:
            for other in range(9):
                if len(boxes_of(other)) > 1 and len(boxes_of(k)) > 1:
                    yield ["skel", k, other]

    def forms(self, k):
        if k == 5:
            return [("node", "scalar"), ("node", "interlaced")]
        if k == 6:      # fields of one cell are taken for numbers
            return [("node", "scalar"), ("node", "interlaced")]
        return [("node", "scalar"), ("cell", "scalar"), ("cell", "interlaced"), ("node", "flat")]

    def selections(self, k, d, more):
        bx = boxes_of(k)
        edges = sorted(set(sum([[b[d][0], b[d][-1]] for b in bx], [])))
        if len(edges) == 1:
            return [[0.0], [edges[0]], [None, None], [-1.0, None]]
        mids = [0.5 * (a + b) + 0.01 for a, b in zip(edges[:-1], edges[1:])]
        inner = sorted(set(edges + mids))
        out = [[x] for x in inner] + [[edges[0] - 1.0], [edges[-1] + 1.0]] * more
        pts = [None] + (inner if more else mids[:2] + edges[:1]) + [edges[-1] + 1.0] * more
        for a, b in itertools.product(pts, pts):
            if a is None or b is None or a < b:
                out.append([a, b])
        return out

    # ---- building ----
    def make(self, k, center="node", lay="scalar", dtype="f8", scale=1.0, skel=None, boxes=None):
        v = self.v
        grids, data = [], []
        for i, nc in enumerate(boxes or boxes_of(k)):
            nc = [np.array(x, dtype="f8") for x in nc]
            crds = v.wrap_crds("nonuniform_cartesian", list(zip("xyz", nc)), full_arrays=True)
            pts = nc if center == "node" else [0.5 * (x[1:] + x[:-1]) for x in nc]
            shape = [len(p) for p in pts]
            n = int(np.prod(shape))
            vec = lay != "scalar"
            val = (np.arange(n * (3 if vec else 1)) * 7 % 23 + 1 + i * 5) * scale
            dat = val.reshape((shape + [3]) if lay == "interlaced" else ([3] + shape) if vec else shape).astype(dtype)
            g = self.grid.Grid()
            g.add_field(v.wrap_field(dat.copy(), crds, name="f", center=center, fldtype="vector" if vec else "scalar", layout=lay))
            g.set_crds(crds)
            grids.append(g)
            data.append((pts, dat, nc))
        grd = self.amr.AMRGrid(grids, skeleton=skel)
        return grd, grd["f"], data

    def run_case(self, case, rec):
        rec.step()
        with np.errstate(all="ignore"):
            return getattr(self, "run_" + case[0])(case[1:], rec)

    def same(self, what, got, want, ref, lay):
        """got: AMRField, want: list of arrays, ref: data of the operand"""
        require(type(got).__name__ == "AMRField", "{0} gives {1}", what, type(got))
        require(got.nr_patches == len(want) == len(got.patches), "{0} has {1} patches", what, got.nr_patches)
        for p, w, (pts, dat, nc) in zip(got.patches, want, ref):
            require(p.data.dtype == w.dtype, "{0}: dtype {1}, not {2}", what, p.data.dtype, w.dtype)
            require(p.data.shape == w.shape and np.array_equal(p.data, w, equal_nan=w.dtype.kind == "f"), "{0}: {1}, not {2}", what, p.data.tolist(), w.tolist())
            for d in range(3):
                require(np.array_equal(p.get_crd(d), pts[d]), "{0}: places {1}, not {2}", what, p.get_crd(d), pts[d])
        require(np.array_equal(got.xl, np.min([[x[0] for x in nc] for _, _, nc in ref], axis=0)), "{0}: begins at {1}", what, got.xl)
        require(np.array_equal(got.xh, np.max([[x[-1] for x in nc] for _, _, nc in ref], axis=0)), "{0}: ends at {1}", what, got.xh)

    def run_op(self, case, rec):
        k, center, lay, dtype, op, other, rev = case
        _, f, data = self.make(k, center, lay, dtype)
        what = "{0} {1} {2}".format(other if rev else "f", op, "f" if rev else other)
        arrs = [d[1] for d in data]
        if op in UN:
            self.same(what, UN[op](f), [UN[op](a) for a in arrs], data, lay)
            return "un"
        if other == "amr":
            _, o, od = self.make(k, center, lay, dtype, scale=2)
            oa = [d[1] for d in od]
        elif other == "self":
            o, oa = f, arrs
        elif other == "one":
            _, o, od = self.make(8, center, lay, dtype, scale=2)
            oa = [od[0][1]] * len(arrs)
        elif other == "array":
            o = np.arange(arrs[0].size).reshape(arrs[0].shape) % 5 + 1
            oa = [o] * len(arrs)
        else:
            o = dict(int=3, float=2.5, np8=np.float64(2.5), np4=np.float32(1.5), zerod=np.array(2.5))[other]
            oa = [o] * len(arrs)
        if op in IN:
            before = list(f.patches)
            want = [BIN[IN2[op]](a, b) for a, b in zip(arrs, oa)]
            r = IN[op](f, o)
            self.same(what, r, want, data, lay)
            for p, a in zip(before, arrs):
                require(np.array_equal(p.data, a), "{0} changes the patches it came from", what)
            return "in"
        fn = BIN.get(op) or INT[op]
        if rev and other == "one":
            return "skip"       # one patch with many is only defined the other way around
        want = [fn(b, a) if rev else fn(a, b) for a, b in zip(arrs, oa)]
        got = fn(o, f) if rev else fn(f, o)
        if op == "divmod":
            require(isinstance(got, tuple) and len(got) == 2, "{0} gives {1}", what, type(got))
            for j in range(2):
                self.same(what, got[j], [w[j] for w in want], data, lay)
        else:
            self.same(what, got, want, data, lay)
        for p, (_, a, _) in zip(f.patches, data):
            require(np.array_equal(p.data, a), "{0} changes its operand", what)
        return "bin"

    def run_ufunc(self, case, rec):
        k, center, lay, uf = case
        _, f, data = self.make(k, center, lay)
        _, g, gd = self.make(k, center, lay, scale=2)
        fn = getattr(np, uf)
        if fn.nin == 1:
            self.same(uf, fn(f), [fn(d[1]) for d in data], data, lay)
        else:
            self.same(uf, fn(f, g), [fn(a[1], b[1]) for a, b in zip(data, gd)], data, lay)
            self.same(uf, fn(f, 7.0), [fn(a[1], 7.0) for a in data], data, lay)
        return "ufunc"

    def run_red(self, case, rec):
        k, center, lay, red, ax, how = case
        _, f, data = self.make(k, center, lay, scale=0.25)
        if red in ("any", "all"):
            f = f > 2
            data = [(p, d > 2, nc) for p, d, nc in data]
        if ax is None:
            allv = np.concatenate([d[1].ravel() for d in data])
            want = getattr(allv, red)()
            got = {"method": lambda: getattr(f, red)(), "none": lambda: getattr(f, red)(axis=None), "np": lambda: getattr(np, red)(f)}[how]()
            require(np.ndim(got) == 0 and np.allclose(got, want, rtol=1e-12), "{0} of all values is {1}, not {2}", red, got, want)
            return "red"
        if lay != "scalar" or (k == 5 and ax == 1):
            return "skip"
        got = getattr(f, red)(axis=ax)
        require(type(got).__name__ == "AMRField" and got.nr_patches == len(data), "{0} along {1} gives {2}", red, ax, type(got))
        for p, (_, d, _) in zip(got.patches, data):
            w = getattr(d, red)(axis=ax)
            require(p.data.size == w.size and np.allclose(np.ravel(p.data), w.ravel(), rtol=1e-12), "{0} along {1}: {2}, not {3}", red, ax, p.data.tolist(), w.tolist())
        return "red axis"

    # ---- selections ----
    def text(self, sel):
        out = []
        for d, s in sel:
            t = ["" if x is None else repr(x) + "j" for x in s]
            out.append("xyz"[d] + "=" + ":".join(t))
        return ", ".join(out)

    def holds(self, nc, sel, thin):
        """-> (may, must): does the patch hold (part of) the selection; must: not just at its upper end"""
        may = must = True
        for d, s in sel:
            if thin[d]:
                continue
            lo = -np.inf if s[0] is None else s[0]
            hi = lo if len(s) == 1 else np.inf if s[1] is None else s[1]
            if nc[d][0] > hi + 1e-9 or nc[d][-1] < lo - 1e-9:
                may = False
            if nc[d][0] > hi or nc[d][-1] <= lo:
                must = False
        return may, may and must

    def places(self, fld, lay):
        """every place of a field and its value(s); reduced axes come from what was reduced"""
        crds = [np.atleast_1d(fld.get_crd(a)) for a in fld.crds.axes]
        red = dict((a, x) for a, x in fld.meta.get("reduced", []))
        dat = fld.data
        nd = len(crds)
        if lay == "flat":
            dat = np.moveaxis(dat, 0, -1)
        out = {}
        for idx in np.ndindex(*[len(c) for c in crds]):
            key = {a: float(c[i]) for a, c, i in zip(fld.crds.axes, crds, idx)}
            for a in "xyz":
                if a not in key and a in red:
                    key[a] = float(red[a])
            out[tuple(sorted(key.items()))] = np.asarray(dat[idx]).tolist()
        return out, nd

    def single(self, p, txt, how, sel):
        return getattr(p, how)(txt)

    def run_sel(self, case, rec):
        k, center, lay, sel, how = case
        grd, f, data = self.make(k, center, lay)
        self.check_sel(grd, f, f.patches, [d[2] for d in data], sel, how, lay, rec)
        return how

    def check_sel(self, grd, f, patches, ncs, sel, how, lay, rec):
        txt = self.text(sel)
        thin = [all(len(nc[d]) == 1 for nc in ncs) for d in range(3)]
        held = [self.holds(nc, sel, thin) for nc in ncs]
        may = [i for i, h in enumerate(held) if h[0]]
        must = [i for i, h in enumerate(held) if h[1]]
        run = {"getitem": lambda: f[txt], "get_field": lambda: grd.get_field("f", slc=txt)}.get(how) or (lambda: getattr(f, how)(txt))
        if not may:
            try:
                r = run()
            except Exception:
                return None
            raise Fail("{0} of {1}, held by no patch, gives {2}".format(how, txt, type(r)))
        inds = f.patch_indices(txt)
        inds = list(np.atleast_1d(inds)) if inds is not None else []
        require(all(i in may for i in inds) and all(i in inds for i in must) and inds, "{0} is in patches {1} of {2} (surely {3})", txt, inds, may, must)
        if not must:
            # no patch but those that end where it is
            ends = [i for i in may if all(thin[d] or ncs[i][d][-1] >= (-np.inf if t[0] is None else t[0]) for d, t in sel)
                    and all(thin[d] or t[0] is None or ncs[i][d][0] <= t[0] for d, t in sel)]
            require(all(i in inds for i in ends), "{0} is in patches {1}, not all of those that end there {2}", txt, inds, ends)
        single = {"getitem": "slice", "get_field": "slice_and_keep"}.get(how, how)
        want = []
        for i in inds:
            try:
                w = patches[i].slice(txt)
                size = np.size(w.data if hasattr(w, "data") else w)
                w = getattr(patches[i], single)(txt)
            except ValueError:
                # no cell of the patch is within the range
                if len(inds) > 1:
                    continue
                return None
            if size:
                want.append(w)
        if not want or len(inds) > 1 and any(not isinstance(w, self.v.field.Field) for w in want):
            return None
        r = run()
        if len(inds) == 1:
            require(isinstance(r, type(want[0])), "{0} of {1} gives {2}, not {3}", how, txt, type(r), type(want[0]))
            if not isinstance(r, self.v.field.Field):
                require(np.array_equal(r, want[0]), "{0} of {1}: {2}, not {3}", how, txt, r, want[0])
                return None
            got = [r]
        else:
            require(type(r).__name__ == "AMRField", "{0} of {1} gives {2}", how, txt, type(r))
            got = r.patches
            require(r.nr_patches == len(got), "{0} of {1}: {2} patches said, {3} there", how, txt, r.nr_patches, len(got))
        require(len(got) == len(want), "{0} of {1}: {2} patches, not {3}", how, txt, len(got), len(want))
        nd = max(w.nr_sdims for w in want)
        rec.step(len(got))
        for g, w in zip(got, want):
            gp, gnd = self.places(g, lay)
            wp, wnd = self.places(w, lay)
            require(gnd == nd, "{0} of {1}: {2} axes, not {3}", how, txt, gnd, nd)
            if wnd == nd:
                require(gp == wp, "{0} of {1}: {2}, not {3}", how, txt, gp, wp)
            else:
                require(sorted(gp.values()) == sorted(wp.values()), "{0} of {1}: values {2}, not {3}", how, txt, gp, wp)
            require(g.name == "f" and g.center == w.center and g.layout == w.layout, "{0} of {1}: {2}, {3}, {4}", how, txt, g.name, g.center, g.layout)
        return r

    def run_sel2(self, case, rec):
        k, center, lay, s1, s2 = case
        grd, f, data = self.make(k, center, lay)
        r = self.check_sel(grd, f, f.patches, [d[2] for d in data], s1, "slice", lay, rec)
        if r is None or type(r).__name__ != "AMRField" or len(s1[0][1]) == 1:
            return "single"
        ncs = [[p.crds.get_nc(a).tolist() for a in "xyz"] for p in r.patches]
        if any(len(n[d]) == 1 for n in ncs for d in range(3)):
            return "thin"
        self.check_sel(None, r, r.patches, ncs, s2, "slice", lay, rec)
        lo = np.min([[x[0] for x in nc] for nc in ncs], axis=0)
        hi = np.max([[x[-1] for x in nc] for nc in ncs], axis=0)
        require(np.allclose(r.xl, lo) and np.allclose(r.xh, hi), "the selection {0} goes from {1} to {2}", self.text(s1), r.xl, r.xh)
        if any(p.size == 1 for p in r.patches):
            return "one"
        q = r * 2 + r
        require(all(np.array_equal(a.data, 3 * b.data) for a, b in zip(q.patches, r.patches)), "arithmetic on a selection")
        return "twice"

    # ---- skeletons ----
    def run_skelv(self, case, rec):
        k, i, d, how = case
        boxes = [[list(x) for x in b] for b in boxes_of(k)]
        x = boxes[i][d]
        if how == "lo":
            x[0] -= 5.0
        elif how == "hi":
            x[-1] += 5.0
        elif how == "lo+":
            x[0] += 0.25 * (x[1] - x[0])
        elif how == "hi-":
            x[-1] -= 0.25 * (x[-1] - x[-2])
        elif how == "n":
            boxes[i][d] = lin(x[0], x[-1], len(x) + 2)
        elif len(x) > 2:
            x[1] += 0.3 * (x[2] - x[1])
        if any(all(a[0] < b[-1] and b[0] < a[-1] for a, b in zip(boxes[i], o)) for j, o in enumerate(boxes) if j != i):
            return "overlap"    # not a set of patches
        return self.run_skel([k, boxes], rec)

    def run_skel(self, case, rec):
        k, other = case
        g0, f0, d0 = self.make(k)
        g1, f1, d1 = self.make(other, skel=g0.skeleton) if isinstance(other, int) else self.make(k, skel=g0.skeleton, boxes=other)
        again = self.make(k, skel=g1.skeleton)[0]
        for g, data in ((g0, d0), (g1, d1), (again, d0)):
            lo = np.array([[x[0] for x in nc] for _, _, nc in data])
            hi = np.array([[x[-1] for x in nc] for _, _, nc in data])
            s = g.skeleton
            require(np.array_equal(s.xl, lo) and np.array_equal(s.xh, hi), "patches from {0} to {1}, not from {2} to {3}", s.xl.tolist(), s.xh.tolist(),
                    lo.tolist(), hi.tolist())
            require(np.array_equal(g.xl_nc, lo.min(axis=0)) and np.array_equal(g.xh_nc, hi.max(axis=0)), "grid from {0} to {1}", g.xl_nc, g.xh_nc)
            require(np.allclose(s.xm, 0.5 * (lo + hi)) and np.allclose(s.L, hi - lo), "middles {0}, sizes {1}", s.xm, s.L)
            n = len(data)
            for i in range(n):
                want = sorted(j for j in range(n) if j != i and np.all(lo[i] <= hi[j]) and np.all(lo[j] <= hi[i]))
                got = sorted(s.neighbors[i][:s.nr_neighbors[i]].tolist())
                require(got == want, "patch {0} of {1} touches {2}, not {3}", i, other, got, want)
            if lo.shape[1] == 3 and other != 5 and k != 5:
                pts = np.array([0.7 * lo[i] + 0.3 * hi[i] for i in range(n)]).T
                got = self.v.interp_nearest(g["f"], self.v.Point(pts), wrap=False)
                for i, (p, dat, nc) in enumerate(data):
                    ok = dat[tuple(int(np.argmin(np.abs(x - q))) for x, q in zip(p, pts[:, i]))]
                    require(got[i] == ok, "nearest value in patch {0} is {1}, not {2}", i, got[i], ok)
        return "skel"
