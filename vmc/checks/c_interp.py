"""Interpolation"""
import itertools

import numpy as np

from vmc.core import Check, Fail, require

AXES = {
    "u": lambda n: 0.5 * np.arange(n) - 0.75,
    "n": lambda n: np.array([-1.0, -0.25, 0.0, 2.0, 2.125, 5.0])[:n],
    "m": lambda n: np.array([10.0, 11.0, 11.0625, 15.0, 16.0, 16.5])[:n],
    "s": lambda n: 2.0**-20 * np.arange(n),
}
FAR = [1e4, 1e10, 1e30]


def walk(n):
    """a sequence over range(n) in which every ordered pair follows one another"""
    edges = {i: list(range(n)) for i in range(n)}
    stack, out = [0], []
    while stack:
        v = stack[-1]
        if edges[v]:
            stack.append(edges[v].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def probe(x, far=True):
    """places along an axis with points x"""
    x = np.asarray(x, dtype="f8")
    pts = list(x)
    for a, b in zip(x[:-1], x[1:]):
        pts += [a + f * (b - a) for f in (0.25, 0.5, 0.875)]
    d = x[-1] - x[0] if len(x) > 1 else 1.0
    pts += [x[0] - d / 64, x[-1] + d / 64, x[0] - d, x[-1] + d]
    if far:
        pts += FAR + [-v for v in FAR]
    return np.array(pts)


def weights(x, p):
    """linear: ([indices], [weights]) of clamped p among x"""
    if len(x) == 1 or p <= x[0]:
        return [(0, 1.0)]
    if p >= x[-1]:
        return [(len(x) - 1, 1.0)]
    k = max(i for i in range(len(x) - 1) if x[i] <= p)
    t = (p - x[k]) / (x[k + 1] - x[k])
    return [(k, 1.0 - t), (k + 1, t)]


def nearest(x, p):
    """indices of the nearest"""
    if len(x) == 1:
        return [0]
    p = min(max(p, x[0]), x[-1])
    d = [abs(v - p) for v in x]
    tol = 1e-9 * (x[-1] - x[0])
    return [i for i, v in enumerate(d) if v <= min(d) + tol]


class Interp(Check):
    pid = "V16"
    rule = ("every grid (1 to 3 axes of 1..5 points, evenly spaced or not), centering, layout, number type and kind of interpolation, at every "
            "combination of places per axis (points, fractions between, beyond the ends by little, much and absurdly much), one after another so that "
            "every place follows every place; and for sets of patches, every pair of places one after the other")
    bounds = {"axes": "1..3", "points per axis": "1..4 (thorough 5)", "places per axis": "9..28", "patches": "2..4"}
    assumptions = ("equally near points: either is accepted", "single precision fields to 1e-5, others to 1e-12",
                   "where patches touch either patch's value is accepted, but always the same")

    def setup(self):
        import viscid
        from viscid import grid, amr_grid
        self.v, self.grid, self.amr = viscid, grid, amr_grid

    def shards(self, tier):
        out = [("field", nd, k) for nd in (1, 2, 3) for k in "unm"]
        out += [("amr", k) for k in range(4)]
        out += [("wrap",)]
        return out

    def cases(self, shard, tier):
        if shard[0] == "field":
            _, nd, first = shard
            top = 5 if tier == "thorough" else 4
            for kinds in itertools.product("unms" if nd < 3 else "un", repeat=nd):
                if kinds[0] != first:
                    continue
                shapes = itertools.product((1, 2, 3, top), repeat=nd) if nd < 3 else [
                    (2, 3, 4), (4, 1, 3), (3, 4, 1), (top, 2, 2), (1, 1, 3), (2, 2, 2), (3, 3, 3), (1, 1, 1)]
                for shape in shapes:
                    if all(n == 1 for n in shape):
                        continue    # a field of one value
                    for center in ("node", "cell"):
                        for dtype in ("f8", "f4", "i8", "i4"):
                            for lay in ("scalar", "flat", "interlaced"):
                                if lay == "interlaced" and all(n == 3 for n in shape):
                                    continue    # known finding layout-guess
                                if nd == 3 and (dtype != "f8") and (lay != "scalar" or shape[0] == 4):
                                    continue
                                yield ["field", list(kinds), list(shape), center, dtype, lay]
            if nd == 3:
                for kinds in itertools.product("un", repeat=nd):
                    if kinds[0] == first:
                        for center in ("face", "edge"):
                            for shape in ((3, 3, 3), (2, 4, 3), (4, 3, 2)):
                                for lay in ("flat", "interlaced"):
                                    if lay == "flat" or shape != (3, 3, 3):
                                        yield ["field", list(kinds), list(shape), center, "f8", lay]
        elif shard[0] == "amr":
            for k in range(AMR_SETS):
                for perm in itertools.permutations(range(len(amr_set(k)))):
                    if len(perm) > 3 and tier != "thorough" and perm[0] not in (0, 3):
                        continue
                    for center in ("node", "cell"):
                        for lay in ("scalar", "interlaced"):
                            for kind in ("linear", "nearest"):
                                if hash((k, perm, center)) % 4 == shard[1]:
                                    yield ["amr", k, list(perm), center, lay, kind]
        else:
            for center in ("node", "cell"):
                for lay in ("scalar", "flat", "interlaced"):
                    for kind in ("linear", "nearest"):
                        for seeds in ("point", "list", "line", "plane", "crds", "volume", "fldnode", "fldcell"):
                            yield ["wrap", center, lay, kind, seeds]

    def run_case(self, case, rec):
        return getattr(self, "run_" + case[0])(case[1:], rec)

    def field(self, kinds, shape, center, dtype, lay):
        v = self.v
        nc = [AXES[k](n + (center != "node")) for k, n in zip(kinds, shape)]
        crds = v.wrap_crds(("uniform" if all(k in "us" for k in kinds) else "nonuniform") + "_cartesian",
                           [(a, x.copy()) for a, x in zip("xyz", nc)], full_arrays=True)
        n = int(np.prod(shape))
        nval = n if lay == "scalar" else 3 * n
        vals = (((np.arange(nval) * 37) % 101) - 50).astype(dtype)
        dat = vals.reshape(shape if lay == "scalar" else [3] + list(shape))
        arr = np.moveaxis(dat, 0, -1).copy() if lay == "interlaced" else dat.copy()
        f = v.wrap_field(arr, crds, name="f", center=center, fldtype="scalar" if lay == "scalar" else "vector", layout=lay)
        return f, (dat[None] if lay == "scalar" else dat)

    def value(self, crds, dat, pt, kind, tol):
        """accepted values at pt for one component; crds: points per axis"""
        if kind == "linear":
            val = 0.0
            for combo in itertools.product(*[weights(x, p) for x, p in zip(crds, pt)]):
                w = 1.0
                for _, wi in combo:
                    w *= wi
                val += w * float(dat[tuple(i for i, _ in combo)])
            return [val]
        return [float(dat[idx]) for idx in itertools.product(*[nearest(x, p) for x, p in zip(crds, pt)])]

    def run_field(self, case, rec):
        kinds, shape, center, dtype, lay = case
        f, dat = self.field(kinds, shape, center, dtype, lay)
        nd = len(shape)
        vec = []     # per axis, per component
        for d in range(nd):
            x = AXES[kinds[d]](shape[d] + (center != "node"))
            mid = 0.5 * (x[1:] + x[:-1])
            low = x[:-1]
            vec.append([x if center == "node" else mid if center == "cell" or (c == d) == (center == "edge") else low for c in range(3)])
        f4 = dtype == "f4"
        tol = 1e-5 if f4 else 1e-12
        per = []
        for d in range(nd):
            allc = sorted(set(np.concatenate([np.asarray(c, dtype="f8") for c in vec[d]])))
            per.append(probe(allc if shape[d] > 1 else allc[:1], far=not f4 or nd == 1))
        if f4:
            # the coordinates themselves are rounded: keep to places that are exact
            per = [p[np.isfinite(p)] for p in per]
        if nd == 1:
            seq = [(per[0][i],) for i in walk(len(per[0]))]
        elif nd == 2:
            w0, w1 = walk(len(per[0])), walk(len(per[1]))
            seq = [(per[0][a], per[1][b]) for a, b in zip(w0, itertools.cycle(w1))]
            seq += list(itertools.product(*per))
        else:
            few = [p[:9] for p in per]
            seq = list(itertools.product(*few))
            m = max(len(p) for p in per)
            ws = [walk(len(p)) for p in per]
            seq += [tuple(p[w[k % len(w)]] for p, w in zip(per, ws)) for k in range(max(len(w) for w in ws))]
        pts = np.zeros((3, len(seq)))
        pts[:nd] = np.array(seq).T
        rec.step(2 * len(seq))
        memo = {}
        for kind in ("linear", "nearest"):
            got = self.v.interp(f, self.v.Point(pts), kind=kind, wrap=False)
            require(got.shape == ((len(seq),) if lay == "scalar" else (len(seq), 3)), "shape of the result {0}", got.shape)
            g2 = got[:, None] if lay == "scalar" else got
            for c in range(g2.shape[1]):
                crds = [np.asarray(vec[d][c], dtype="f4" if f4 else "f8").astype("f8") for d in range(nd)]
                crds = [x[:shape[d]] for d, x in enumerate(crds)]
                for j, pt in enumerate(seq):
                    key = (kind, c, pt)
                    if key not in memo:
                        memo[key] = self.value(crds, dat[c], pt, kind, tol)
                    ok = memo[key]
                    if not any(abs(g2[j, c] - o) <= tol * 100 for o in ok):
                        raise Fail("{0} interpolation at {1} (after {2}) component {3}: {4}, want {5}".format(
                            kind, pt, seq[j - 1] if j else None, c, g2[j, c], ok))
        return "%s:%s:%s" % (center, lay, dtype)

    # ---- patches ----
    def run_amr(self, case, rec):
        k, perm, center, lay, kind = case
        v = self.v
        boxes = [amr_set(k)[i] for i in perm]
        grids, data = [], []
        for b, nc in zip(perm, boxes):
            shape = [len(x) - (center == "cell") for x in nc]
            n = int(np.prod(shape))
            crds = v.wrap_crds("nonuniform_cartesian", [(a, np.array(x)) for a, x in zip("xyz", nc)], full_arrays=True)
            dat = (1000.0 * b + np.arange(n * (1 if lay == "scalar" else 3)))
            dat = dat.reshape([1] + shape if lay == "scalar" else [3] + shape)
            arr = dat[0].copy() if lay == "scalar" else np.moveaxis(dat, 0, -1).copy()
            g = self.grid.Grid()
            g.add_field(v.wrap_field(arr, crds, name="f", center=center, fldtype="scalar" if lay == "scalar" else "vector", layout=lay))
            g.set_crds(crds)
            grids.append(g)
            data.append(dat)
        fld = self.amr.AMRGrid(grids)["f"]
        places = [sorted(set(sum([probe(np.array(nc[d]), far=False)[:len(nc[d]) + 1 + 3 * (len(nc[d]) - 1) + 1:2].tolist()
                                  for nc in boxes], []))) for d in range(3)]
        # every place along each axis through the middle of some patches, and the corners
        pts = []
        for nc in boxes:
            mid = [x[0] + 0.4 * (x[-1] - x[0]) for x in nc]
            for d in range(3):
                for p in places[d]:
                    q = list(mid)
                    q[d] = p
                    pts.append(tuple(q))
            pts += list(itertools.product(*[(x[0], x[-1]) for x in nc]))
            pts += list(itertools.product(*[(x[0], mid[d]) for d, x in enumerate(nc)]))
        pts = sorted(set(pts))
        pts = [p for p in pts if any(all(x[0] <= q <= x[-1] for q, x in zip(p, nc)) for nc in boxes)]
        step = max(1, len(pts) // 60)
        # every corner and edge place stays, the rest is thinned alike for all orders
        pts = [p for i, p in enumerate(pts) if i % step == 0 or sum(any(q in (x[0], x[-1]) for x in [nc[d] for nc in boxes])
                                                                       for d, q in enumerate(p)) > 0][:90]
        order = walk(len(pts))
        arr = np.array([pts[i] for i in order]).T
        got = v.interp(fld, v.Point(arr), kind=kind, wrap=False)
        if lay == "scalar":
            got = got[:, None]
        rec.step(len(order))
        seen = {}
        memo = {}
        for j, i in enumerate(order):
            p = pts[i]
            if i not in memo:
                ok = []
                for b, nc in enumerate(boxes):
                    if all(x[0] <= q <= x[-1] for q, x in zip(p, nc)):
                        crds = [np.array(x) if center == "node" else 0.5 * (np.array(x)[1:] + np.array(x)[:-1]) for x in nc]
                        ok.append([self.value(crds, data[b][c], p, kind, 1e-12) for c in range(got.shape[1])])
                memo[i] = ok
            if not any(all(any(abs(got[j, c] - w) < 1e-9 for w in o[c]) for c in range(got.shape[1])) for o in memo[i]):
                raise Fail("{0} interpolation between patches at {1} (after {2}): {3}, none of {4}".format(
                    kind, p, pts[order[j - 1]] if j else None, got[j], memo[i]))
            first = seen.setdefault(i, (got[j].copy(), j))
            if not np.array_equal(first[0], got[j]):
                raise Fail("{0} interpolation between patches at {1} gives {2} after {3} but {4} after {5}".format(
                    kind, p, got[j], pts[order[j - 1]], first[0], pts[order[first[1] - 1]] if first[1] else None))
        return "amr:%d" % len(boxes)

    # ---- results on seeds ----
    def run_wrap(self, case, rec):
        center, lay, kind, seeds = case
        v = self.v
        f, dat = self.field("nun", (4, 3, 4), center, "f8", lay)
        crds = [np.asarray(c) for c in f.get_crds()]
        if seeds == "point":
            raw = [(0.1, -0.2, 0.5), (1.0, 0.0, 1.0), (-5.0, 3.0, 0.25), (0.5, 0.25, 2.0)]
            s = v.Point(np.array(raw).T)
            pts = raw
        elif seeds == "list":
            pts = [(0.1, -0.2, 0.5), (1.0, 0.0, 1.0), (-5.0, 3.0, 0.25), (0.5, 0.25, 2.0)]
            s = np.array(pts).T
        elif seeds == "line":
            s = v.Line((-1.0, 0.0, 0.0), (3.0, 0.5, 1.0), 5)
            pts = [tuple(np.array((-1.0, 0.0, 0.0)) + t * np.array((4.0, 0.5, 1.0))) for t in np.linspace(0, 1, 5)]
        elif seeds == "plane":
            s = v.Plane((0.5, 0.25, 0.5), (0, 0, 1), (1, 0, 0), 2.0, 1.0, 3, 2)
            pts = [tuple(q) for q in np.array(s.points()).T]
        elif seeds == "volume":
            s = v.Volume((-1.0, -0.5, 0.0), (2.0, 0.5, 1.0), (3, 2, 4))
            pts = list(itertools.product(np.linspace(-1, 2, 3), np.linspace(-0.5, 0.5, 2), np.linspace(0, 1, 4)))
        else:
            x = [np.array([-0.5, 0.0, 1.0]), np.array([-0.5, 0.25]), np.array([0.0, 0.5, 1.5, 2.0])]
            s = v.wrap_crds("nonuniform_cartesian", [(a, c) for a, c in zip("xyz", x)], full_arrays=True)
            if seeds != "crds":
                s = v.zeros(s, center=seeds[3:])
                x = [c if seeds == "fldnode" else 0.5 * (c[1:] + c[:-1]) for c in x]
            pts = list(itertools.product(*x))
        r = v.interp(f, s, kind=kind)
        raw = v.interp(f, s, kind=kind, wrap=False)
        ncomp = dat.shape[0]
        raw = raw[:, None] if lay == "scalar" else raw
        require(raw.shape == (len(pts), ncomp), "shape {0}", raw.shape)
        for j, p in enumerate(pts):
            for c in range(ncomp):
                ok = self.value(crds, dat[c], p, kind, 1e-12)
                require(any(abs(raw[j, c] - o) < 1e-9 for o in ok), "{0} at {1}: {2}, want {3}", kind, p, raw[j, c], ok)
        alias = {"linear": ["trilinear", "TRILIN "], "nearest": [" Nearest"]}[kind]
        for al in alias:
            again = v.interp(f, s, method=al, wrap=False)
            require(np.array_equal(np.reshape(again, raw.shape), raw), "method={0} differs", al)
        other = (v.interp_linear if kind == "linear" else v.interp_nearest)(f, s, wrap=False)
        require(np.array_equal(np.reshape(other, raw.shape), raw), "interp_{0} differs", kind)
        # wrapped: the same numbers, in the order of the points
        w = np.array(r.data)
        require(r.nr_comps == (0 if lay == "scalar" else 3), "components {0}", r.nr_comps)
        if lay != "scalar" and r.layout == "flat":
            w = np.moveaxis(w, 0, -1)
        if seeds != "plane":
            require(np.array_equal(w.reshape(-1, ncomp), raw), "wrapped result differs: {0} {1}", w.tolist(), raw.tolist())
        else:
            require(sorted(w.reshape(-1).tolist()) == sorted(raw.reshape(-1).tolist()), "wrapped result differs")
        require(r.name == "f", "name {0}", r.name)
        if seeds[:3] == "fld":
            require(r.center == s.center, "center {0}", r.center)
            for a, c in zip("xyz", x):
                require(np.allclose(r.get_crd(a), c), "crds of the result {0}: {1}", a, r.get_crd(a))
        return "wrap:" + seeds


AMR_SETS = 4


def amr_set(k):
    lin = lambda a, b, n: np.linspace(a, b, n).tolist()
    if k == 0:    # two halves, one finer
        return [(lin(0, 1, 3), lin(0, 1, 3), lin(0, 1, 5)), (lin(1, 2, 5), lin(0, 1, 4), lin(0, 1, 2))]
    if k == 1:    # an L of three, uneven
        return [([0, .25, 1], lin(0, 1, 4), lin(0, 1, 3)), ([1, 1.125, 1.5, 2], lin(0, 1, 2), lin(0, 1, 5)),
                (lin(0, 1, 2), [1, 1.75, 2], lin(0, 1, 3))]
    if k == 2:    # two by two with the corner shared
        return [(lin(0, 1, 3), lin(0, 1, 3), lin(0, 1, 2)), (lin(1, 3, 3), lin(0, 1, 3), lin(0, 1, 2)),
                (lin(0, 1, 3), lin(1, 4, 4), lin(0, 1, 2)), (lin(1, 3, 5), lin(1, 4, 2), lin(0, 1, 4))]
    # far from zero, with a gap
    return [(lin(100, 101, 3), lin(-50, -49, 4), lin(0, 1, 3)), (lin(101, 102, 4), lin(-50, -49, 2), lin(0, 1, 3)),
            (lin(110, 120, 3), lin(-50, -49, 2), lin(0, 1, 6))]
