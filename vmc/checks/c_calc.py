"""Operations on fields and their backends, derivatives, and integrals along lines"""
import itertools

import numpy as np

from vmc.core import Check, Fail, require

UNI = {1: [0.0, 0.5], 2: [0.0, 0.5, 1.0], 3: [-1.0, 1.0, 3.0, 5.0], 4: [0.0, 1.0, 2.0, 3.0, 4.0], 5: [-2.0, -1.5, -1.0, -0.5, 0.0, 0.5]}
NON = {1: [0.0, 2.0], 2: [0.0, 0.5, 2.0], 3: [-1.0, 1.0, 1.5, 5.0], 4: [0.0, 1.0, 3.0, 3.5, 4.0], 5: [-2.0, -1.75, -1.0, 0.5, 1.0, 4.0]}


def nodes(n, center, uni):
    x = np.array((UNI if uni else NON)[n])
    return x[:n] if center == "node" and n > 1 else x[:1] if center == "node" else x


class Base(Check):
    def setup(self):
        import viscid
        from viscid.calculator import calc, ecfc
        self.v, self.calc, self.ecfc = viscid, calc, ecfc
        viscid.logger.setLevel(60)

    def make(self, shape, center, lay, uni=True, dtype="f8", seed=0, fun=None, name=None, nc=None, shift=0.0, time=3.5):
        v = self.v
        nc = nc or [nodes(n, center, uni) + shift for n in shape]
        clist = [(a, np.array(x)) for a, x in zip("xyz", nc)]
        if uni and all(len(x) > 1 for x in nc):
            crds = v.wrap_crds("uniform_cartesian", clist, full_arrays=True)
        else:
            crds = v.wrap_crds("nonuniform_cartesian", clist, full_arrays=True)
        pts = nc if center == "node" else [0.5 * (x[1:] + x[:-1]) for x in nc]
        vec = lay != "scalar"
        n = int(np.prod(shape))
        if fun is None:
            comps = [(((np.arange(n) * 7 + (i + 1) * 5 + seed * 3) ** 2 % 23) - 8.0).reshape(shape).astype(dtype) for i in range(3 if vec else 1)]
        else:
            mesh = np.meshgrid(*pts, indexing="ij")
            comps = [np.asarray(c, dtype=dtype) * np.ones(shape, dtype=dtype) for c in fun(mesh)]
        dat = comps[0] if not vec else np.stack(comps, axis=-1 if lay == "interlaced" else 0)
        f = v.wrap_field(dat.copy(), crds, name=name or "f%d" % seed, center=center, fldtype="vector" if vec else "scalar", layout=lay, time=time)
        return f, comps, pts

    def comps_of(self, r):
        d = np.asarray(r.data)
        if r.nr_comps == 0:
            return [d]
        return [np.take(d, i, axis=r.nr_comp) for i in range(r.nr_comps)]

    def same(self, what, r, want, pts, center, rtol=1e-12, names="xyz"):
        v = self.v
        require(isinstance(r, v.field.Field), "{0} gives {1}", what, type(r))
        require(r.nr_comps == (len(want) if len(want) > 1 else 0), "{0} has {1} components", what, r.nr_comps)
        require(r.iscentered(center), "{0} is {1} centered", what, r.center)
        got = self.comps_of(r)
        for i, (g, w) in enumerate(zip(got, want)):
            require(g.shape == w.shape, "{0} has shape {1}, not {2}", what, g.shape, w.shape)
            require(np.allclose(g, w, rtol=rtol, atol=1e-30 if rtol < 1e-9 else 1e-6, equal_nan=True), "{0}, component {1}: {2}, not {3}", what, i, g.tolist(), w.tolist())
        for a, p in zip(names, pts):
            require(np.allclose(r.get_crd(a), p, rtol=1e-12), "{0} is at {1}={2}, not {3}", what, a, r.get_crd(a).tolist(), list(p))


UNARY = ("neg", "abs_val", "abs_max", "abs_min", "magnitude", "normalize")
BINARY = ("add", "diff", "mul", "relative_diff", "abs_diff", "dot", "cross", "project")
VECTOR = ("magnitude", "normalize", "dot", "cross", "project")


class Ops(Base):
    pid = "V21"
    rule = ("every operation, every way to choose a backend, every kind of operand, on every shape, centering, layout (also of the second operand), type of values "
            "and way the operand came about, against the arithmetic of its arrays")
    bounds = {"operations": 16, "axes": "1..3", "values per axis": "1..4"}
    assumptions = ("which of (a - b) / a and its absolute value relative_diff gives is not judged",)
    SHAPES = [(5,), (4, 2), (2, 4, 4), (4, 2, 1), (4, 4, 2)]

    def shards(self, tier):
        return [(op, c) for op in UNARY + BINARY + ("axpby", "scale", "project_vector", "choose") for c in ("node", "cell")]

    def cases(self, shard, tier):
        op, center = shard
        if op == "choose":
            if center == "node":
                for name in UNARY + BINARY + ("axpby", "scale", "grad", "div", "curl"):
                    for pref in (None, "numexpr", "numpy", "nope", ["nope", "numpy"], ["nope", "numexpr"], ["nope", "neither"], ("numpy", "numexpr"), []):
                        for only in (False, True):
                            yield ["choose", name, pref, only]
            return
        for shape in self.SHAPES:
            for lay in ("scalar", "interlaced", "flat"):
                if lay == "scalar" and op in VECTOR + ("project_vector",):
                    continue
                for dtype in ("f8", "f4", "i8"):
                    for uni in (True, False):
                        for how in ("plain", "sliced", "reversed"):
                            backends = ["numexpr", "numpy", None] + (["native"] if op == "magnitude" and len(shape) == 3 else [])
                            if op == "project_vector":
                                backends = [None]
                            for backend in backends:
                                for other in self.others(op, lay, backend, how):
                                    yield ["op", op, center, list(shape), lay, dtype, uni, how, backend, other]

    def others(self, op, lay, backend, how):
        if op in UNARY:
            return [None]
        if op in ("dot", "cross", "project"):
            # the numpy backend needs one layout
            return ["same", "interlaced", "flat"] if backend == "numexpr" else ["same"]
        if op == "project_vector":
            return ["same"]
        if op == "scale":
            return ["int", "float", "np"]
        if op == "axpby":
            return ["ii", "if", "ff"]
        return ["same", "int", "float"] + (["self"] if how == "plain" else [])

    def prep(self, f, comps, pts, how):
        if how == "plain":
            return f, comps, pts
        if how == "sliced":
            sl = [slice(1, None)] + [slice(None)] * (len(pts) - 1)
            return f["x=1:"], [c[tuple(sl)] for c in comps], [p[s] for p, s in zip(pts, sl)]
        sl = [slice(None, None, -1)] + [slice(None)] * (len(pts) - 1)
        return f["x=::-1"], [c[tuple(sl)] for c in comps], [p[s] for p, s in zip(pts, sl)]

    def run_case(self, case, rec):
        rec.step()
        with np.errstate(all="ignore"):
            return getattr(self, "run_" + case[0])(case[1:], rec)

    def run_op(self, case, rec):
        op, center, shape, lay, dtype, uni, how, backend, other = case
        f, A, pts = self.prep(*self.make(shape, center, lay, uni, dtype), how=how)
        name = f.name
        fn = getattr(self.calc, op)
        kw = {} if backend is None else dict(preferred=backend, only=True)
        g, B = None, None
        if op not in UNARY and op not in ("scale", "axpby"):
            if other in ("int", "float"):
                g = 3 if other == "int" else 2.5
                B = [g] * len(A)
            elif other == "self":
                g, B = f, A
            else:
                g, B, _ = self.prep(*self.make(shape, center, lay if other == "same" else other, uni, dtype, seed=1, shift=2.0, time=7.5), how=how)
        scalar = lay == "scalar"
        mag = lambda c: np.sqrt(sum(x * x for x in c))
        dot = lambda a, b: sum(x * y for x, y in zip(a, b))
        if op == "neg":
            r, want = fn(f, **kw), [-a for a in A]
        elif op == "abs_val":
            r, want = fn(f, **kw), [abs(a) for a in A]
        elif op in ("abs_max", "abs_min"):
            r = fn(f, **kw)
            w = max(np.max(abs(a)) for a in A) if op == "abs_max" else min(np.min(abs(a)) for a in A)
            require(np.ndim(r) == 0 and r == w, "{0} is {1}, not {2}", op, r, w)
            return op
        elif op == "magnitude":
            r, want, scalar = fn(f, **kw), [mag(A)], True
        elif op == "normalize":
            r, want = fn(f, **kw), [a / mag(A) for a in A]
        elif op == "add":
            r, want = fn(f, g, **kw), [a + b for a, b in zip(A, B)]
        elif op == "diff":
            r, want = fn(f, g, **kw), [a - b for a, b in zip(A, B)]
        elif op == "mul":
            r, want = fn(f, g, **kw), [a * b for a, b in zip(A, B)]
        elif op == "relative_diff":
            r, want = abs(fn(f, g, **kw)), [abs((a - b) / a) for a, b in zip(A, B)]
        elif op == "abs_diff":
            r, want = fn(f, g, **kw), [abs(a - b) for a, b in zip(A, B)]
        elif op == "dot":
            r, want, scalar = fn(f, g, **kw), [dot(A, B)], True
        elif op == "cross":
            r, want = fn(f, g, **kw), [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]]
        elif op == "project":
            r, want, scalar = fn(f, g, **kw), [dot(A, B) / mag(B)], True
        elif op == "project_vector":
            r, want = fn(f, g), [dot(A, B) / mag(B) * b / mag(B) for b in B]
        elif op == "scale":
            a = dict(int=2, float=4.0, np=np.float64(3.0))[other]
            r, want = fn(a, f, **kw), [(x * a) for x in A]
        else:
            a, b = dict(ii=(2, 3), ff=(2.5, -1.5))[other] if other != "if" else (2, 0.5)
            g, B, _ = self.prep(*self.make(shape, center, lay, uni, dtype, seed=1, shift=2.0, time=7.5), how=how)
            r, want = fn(a, f, b, g, **kw), [a * x + b * y for x, y in zip(A, B)]
        what = "{0} by {1}".format(op, backend)
        self.same(what, r, [np.asarray(w) for w in want], pts, center, rtol=1e-12 if dtype != "f4" else 1e-4)
        if dtype != "i8":
            require(r.dtype == np.dtype(dtype), "{0} is of {1}", what, r.dtype)
        require(r.time == 3.5, "{0} is at time {1}", what, r.time)
        require(scalar == (r.nr_comps == 0), "{0} has {1} components", what, r.nr_comps)
        require(f.name == name, "{0} renames its operand", what)
        require(f.time == 3.5 and all(np.array_equal(f.get_crd(i), p) for i, p in enumerate(pts)), "{0} moves its operand", what)
        for x, c in ((f, A), (g, B)):
            if isinstance(x, self.v.field.Field):
                require(all(np.array_equal(p, q) for p, q in zip(self.comps_of(x), c)), "{0} changes its operand", what)
        return op

    def run_choose(self, case, rec):
        name, pref, only = case
        lay = "scalar" if name in ("grad", "abs_max", "abs_min") else "flat"
        f = self.make((2, 4, 4), "cell", lay)[0]
        g = self.make((2, 4, 4), "cell", lay, seed=1)[0]
        args = (2, f, 3, g) if name == "axpby" else (2, f) if name == "scale" else (f, g) if name in BINARY else (f,)
        fn = getattr(self.calc, name)
        known = pref is None or any(p in ("numexpr", "numpy") for p in ([pref] if isinstance(pref, str) else pref))
        arg = tuple(pref) if isinstance(pref, tuple) else pref
        try:
            r = fn(*args, preferred=arg, only=only)
        except self.v.verror.BackendNotFound:
            require(only and not known, "{0} with backend {1} (only: {2}) is refused", name, pref, only)
            return "refused"
        require(known or not only, "{0} with only backend {1} is computed", name, pref)
        w = fn(*args, preferred="numpy", only=True)
        require(np.allclose(np.asarray(getattr(r, "data", r)), np.asarray(getattr(w, "data", w)), equal_nan=True), "{0} by {1}: differs", name, pref)
        return "chosen"


def cdiff(v, x, ax):
    """central differences, one sided at the ends"""
    n = v.shape[ax]
    i = np.arange(n)
    p, m = np.minimum(i + 1, n - 1), np.maximum(i - 1, 0)
    shape = [1] * v.ndim
    shape[ax] = n
    return (np.take(v, p, ax) - np.take(v, m, ax)) / (np.asarray(x)[p] - np.asarray(x)[m]).reshape(shape)


class Deriv(Base):
    pid = "V22"
    rule = ("every shape with every kind of grid, centering, layout and backend; every width, axis choice and order of extending; every inner index and a lattice of "
            "points for the derivatives at one place; all staggered fields of 1 to 3 axes; against finite differences of the arrays")
    bounds = {"axes": 3, "values per axis": "2..5", "extension": "0..2"}
    assumptions = ("corners of extended fields, and values beyond the inside of face and edge centered results, are not judged",)

    def shards(self, tier):
        out = [(op, c, u) for op in ("grad", "div", "curl", "conv", "ext") for c in ("node", "cell") for u in (True, False)]
        return out + [("point", k) for k in range(4)] + [("ecfc", d) for d in ("xyz", "xy", "yz", "xz", "x", "y")]

    def cases(self, shard, tier):
        op = shard[0]
        if op in ("grad", "div", "curl", "conv"):
            center, uni = shard[1:]
            for shape in itertools.product((2, 3, 4, 5), repeat=3):
                if 3 in shape and center == "cell" and tier != "thorough" and shape[0] == 2:
                    continue
                for lay in ("scalar",) if op == "grad" else ("interlaced", "flat"):
                    if lay == "interlaced" and shape == (3, 3, 3):
                        continue
                    for bnd in (True, False):
                        if not bnd and (min(shape) < 3 or shape == (5, 5, 5) and lay != "scalar"):
                            continue    # (3, 3, 3) is left, whose layout is a guess
                        if op == "conv":
                            for b in ("self", "scalar", "interlaced", "flat"):
                                if not (shape == (3, 3, 3)):
                                    yield [op, center, uni, list(shape), lay, bnd, b]
                        else:
                            for backend in ("numexpr", "numpy"):
                                yield [op, center, uni, list(shape), lay, bnd, backend]
        elif op == "ext":
            center, uni = shard[1:]
            for shape in ((4,), (2, 5), (3, 2, 4), (1, 4, 2), (4, 1)):
                for lay in ("scalar", "interlaced", "flat"):
                    for nl, nh in itertools.product((0, 1, 2), repeat=2):
                        for axes in ["all"] + [list(a) for r in (1, 2, 3) for a in itertools.combinations(range(len(shape)), r)]:
                            for order, corder in itertools.product((0, 1), repeat=2):
                                for spell in ("int", "name", "str"):
                                    if (spell == "int") or axes != "all":
                                        yield ["ext", center, uni, list(shape), lay, nl, nh, axes, order, corder, spell]
                if center == "node" and uni:
                    for nl, nh in itertools.product((0, 1, 2), repeat=2):
                        for order in (0, 1):
                            for nrc in (None, 0, len(shape)):
                                yield ["extarr", list(shape), nl, nh, order, nrc]
        elif op == "point":
            k = shard[1]
            for idx in itertools.product((1, 2, 3), (1, 2), (1, 2, 3)):
                for center in ("node", "cell"):
                    for lay in ("interlaced", "flat"):
                        for uni in (True, False):
                            yield ["ind", k, center, lay, uni, list(idx)]
            for p in itertools.product((0, 0.4, 1), repeat=3):
                for d in (None, 0.25, [0.1, 0.2, 0.3], "some"):
                    for lay in ("interlaced", "flat"):
                        for uni in (True, False):
                            yield ["point", k, lay, uni, list(p), d]
        else:
            dims = shard[1]
            for shape in itertools.product((2, 3, 4), repeat=len(dims)):
                for lay in ("interlaced", "flat"):
                    if set(shape) in ({3}, {2}):
                        continue        # layout is a guess; results of one value are numbers
                    for what in ("fc2cc", "ec2cc", "div_fc", "div"):
                        for bnd in (True, False):
                            for fnp in (True, False):
                                if what != "div" or not fnp:
                                    yield ["ecfc", dims, list(shape), lay, what, bnd, fnp]

    def run_case(self, case, rec):
        rec.step()
        with np.errstate(all="ignore"):
            if case[0] in ("grad", "div", "curl"):
                return self.run_op(case, rec)
            return getattr(self, "run_" + case[0])(case[1:], rec)

    def run_op(self, case, rec):
        op, center, uni, shape, lay, bnd, backend = case
        f, c, pts = self.make(shape, center, lay, uni)
        r = getattr(self.calc, op)(f, bnd=bnd, preferred=backend, only=True)
        d = lambda i, ax: cdiff(c[i], pts[ax], ax)
        if op == "grad":
            want = [d(0, 0), d(0, 1), d(0, 2)]
        elif op == "div":
            want = [d(0, 0) + d(1, 1) + d(2, 2)]
        else:
            want = [d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)]
        what = "{0} by {1}".format(op, backend)
        self.inside(what, r, want, pts, bnd, center)
        require(r.time == 3.5, "{0} is at time {1}", what, r.time)
        require(all(np.array_equal(a, b) for a, b in zip(self.comps_of(f), c)), "{0} changes its operand", what)
        return op

    def inside(self, what, r, want, pts, bnd, center):
        if not bnd:
            want = [w[1:-1, 1:-1, 1:-1] for w in want]
            pts = [p[1:-1] for p in pts]
        require(tuple(r.sshape) == want[0].shape, "{0} has shape {1}, not {2}", what, r.sshape, want[0].shape)
        got = self.comps_of(r)
        require(len(got) == len(want), "{0} has {1} components", what, len(got))
        for i, (g, w) in enumerate(zip(got, want)):
            require(np.allclose(g, w, rtol=1e-10, atol=1e-10), "{0}, component {1}: {2}, not {3}", what, i, g.tolist(), w.tolist())
        require(r.iscentered(center), "{0} is {1} centered", what, r.center)
        for a, p in zip("xyz", pts):
            require(np.allclose(r.get_crd(a), p, rtol=1e-12), "{0} is at {1}={2}, not {3}", what, a, r.get_crd(a).tolist(), list(p))

    def run_conv(self, case, rec):
        center, uni, shape, lay, bnd, b = case
        f, A, pts = self.make(shape, center, lay, uni)
        if b == "self":
            r, B = self.calc.convective_deriv(f, bnd=bnd), A
        else:
            g, B, _ = self.make(shape, center, b, uni, seed=1)
            r = self.calc.convective_deriv(f, g, bnd=bnd)
        want = [sum(A[i] * cdiff(q, pts[i], i) for i in range(3)) for q in B]
        self.inside("convective_deriv", r, want, pts, bnd, center)
        return "conv"

    def grow(self, a, ax, nl, nh, order, const=0.0):
        """extend an array along an axis"""
        a = np.moveaxis(np.asarray(a), ax, 0)
        lo, hi = a[:1], a[-1:]
        dl = a[1:2] - lo if len(a) > 1 else const * np.ones_like(lo)
        dh = hi - a[-2:-1] if len(a) > 1 else const * np.ones_like(hi)
        if order == 0:
            dl, dh = 0 * dl, 0 * dh
        parts = [lo - (j + 1) * dl for j in reversed(range(nl))] + [a] + [hi + (j + 1) * dh for j in range(nh)]
        return np.moveaxis(np.concatenate(parts), 0, ax)

    def corners(self, shape, axes, nl, nh):
        """where more than one axis was extended"""
        out = np.zeros(shape, dtype=int)
        for ax in axes:
            m = np.zeros(shape[ax], dtype=int)
            m[:nl] = 1
            m[shape[ax] - nh:] = 1
            s = [1] * len(shape)
            s[ax] = shape[ax]
            out += m.reshape(s)
        return out > 1

    def run_ext(self, case, rec):
        center, uni, shape, lay, nl, nh, axes, order, corder, spell = case
        f, c, pts = self.make(shape, center, lay, uni)
        arg = axes
        if axes != "all" and spell != "int":
            arg = ["xyz"[a] for a in axes]
            arg = arg if spell == "name" else "".join(arg)
        r = self.calc.extend_boundaries(f, nl=nl, nh=nh, axes=arg, order=order, crd_order=corder)
        axes = list(range(len(shape))) if axes == "all" else axes
        want = c
        for ax in axes:
            want = [self.grow(w, ax, nl, nh, order) for w in want]
            pts = list(pts)
            if len(pts[ax]) > 1:
                pts[ax] = self.grow(pts[ax], 0, nl, nh, corder)
            elif center == "node":
                pts[ax] = self.grow(pts[ax], 0, nl, nh, 1, const=1.0)
            else:
                pts[ax] = None      # the middle of a single cell; see crd_invarient_dx
        what = "extending {0} by {1}, {2}".format(arg, nl, nh)
        require(tuple(r.sshape) == want[0].shape, "{0}: shape {1}, not {2}", what, r.sshape, want[0].shape)
        require(r.nr_comps == f.nr_comps and r.layout == f.layout and r.center == f.center, "{0}: {1}, {2}, {3}", what, r.nr_comps, r.layout, r.center)
        skip = self.corners(want[0].shape, axes, nl, nh)
        for i, (g, w) in enumerate(zip(self.comps_of(r), want)):
            require(np.allclose(np.where(skip, 0, g), np.where(skip, 0, w), rtol=1e-12), "{0}, component {1}: {2}, not {3}", what, i, g.tolist(), w.tolist())
        for a, p in zip("xyz", pts):
            require(p is None or np.allclose(r.get_crd(a), p, rtol=1e-12), "{0}: at {1}={2}, not {3}", what, a, r.get_crd(a).tolist(), p)
        require(all(np.array_equal(a, b) for a, b in zip(self.comps_of(f), c)), "{0} changes its operand", what)
        return "ext"

    def run_extarr(self, case, rec):
        shape, nl, nh, order, nrc = case
        full = list(shape)
        if nrc is not None:
            full.insert(nrc, 3)
        a = (np.arange(np.prod(full)) * 7 % 23 + 0.5).reshape(full)
        axes = [i for i in range(len(full)) if i != nrc]
        r = self.calc.extend_boundaries_ndarr(a, nl=nl, nh=nh, order=order, nr_comp=nrc)
        want = a
        for ax in axes:
            want = self.grow(want, ax, nl, nh, order)
        require(r.shape == want.shape, "shape {0}, not {1}", r.shape, want.shape)
        skip = self.corners(want.shape, axes, nl, nh)
        require(np.allclose(np.where(skip, 0, r), np.where(skip, 0, want)), "{0}, not {1}", r.tolist(), want.tolist())
        return "extarr"

    MATS = [[[1, 2, 3], [4, 5, -6], [7, -8, 9]], [[0, 1, 0], [0, 0, 2], [3, 0, 0]], [[1, 0, 0], [0, -3, 0], [0, 0, 2]], [[0, -4, 5], [4, 0, 6], [-5, -6, 1]]]

    def linear(self, k, center, lay, uni):
        M = np.array(self.MATS[k], dtype="f8")
        f = self.make((5, 4, 5), center, lay, uni, fun=lambda X: [M[i, 0] * X[0] + M[i, 1] * X[1] + M[i, 2] * X[2] + i for i in range(3)])
        return M, f

    def run_ind(self, case, rec):
        k, center, lay, uni, idx = case
        f, c, pts = self.make((5, 4, 5), center, lay, uni, seed=k)
        got = self.calc.jacobian_at_ind(f, *idx)
        want = [[cdiff(c[i], pts[ax], ax)[tuple(idx)] for ax in range(3)] for i in range(3)]
        require(np.allclose(got, want), "jacobian at {0}: {1}, not {2}", idx, got, want)
        self.eig(self.calc.jacobian_eig_at_ind(f, *idx), np.array(want))
        return "ind"

    def eig(self, got, J):
        vals, vecs = got
        require(np.allclose(np.matmul(J, vecs), vecs * vals, atol=1e-9 * np.abs(J).max()), "eigen vectors {0} of {1}", vecs, J)
        require(np.allclose(np.sum(vals), np.trace(J), atol=1e-9 * np.abs(J).max()), "eigen values {0} of {1}", vals, J)

    def run_point(self, case, rec):
        k, lay, uni, p, d = case
        M, (f, c, pts) = self.linear(k, "cell", lay, uni)
        # inside of the second to the last but one place; a step of one cell may be the wider one
        x = [q[1] + t * (q[-2] - q[1]) for q, t in zip(pts, p)]
        if d is None:
            x = [q[2] + 0.2 * t * (q[3] - q[2]) if len(q) > 4 else q[1] + 0.2 * t * (q[2] - q[1]) for q, t in zip(pts, p)]
            near = [2 if len(q) > 4 else 1 for q in pts]
            step = [q[n + 1] - q[n] for q, n in zip(pts, near)]
            if any(a - s < q[0] or a + s > q[-1] for q, a, s in zip(pts, x, step)):
                return "outside"
        kw = {} if d is None else dict(dx=0.2, dz=0.1, dy=0.15) if d == "some" else dict(zip(("dx", "dy", "dz"), d if isinstance(d, list) else [d] * 3))
        c = self.calc
        J = c.jacobian_at_point(f, *x, **kw)
        require(np.allclose(J, M, atol=1e-9), "jacobian at {0}: {1}, not {2}", x, J, M)
        dv = c.div_at_point(f, *x, **kw)
        require(np.allclose(dv, np.trace(M), atol=1e-9), "divergence at {0}: {1}, not {2}", x, dv, np.trace(M))
        cu = c.curl_at_point(f, *x, **kw)
        want = [M[2, 1] - M[1, 2], M[0, 2] - M[2, 0], M[1, 0] - M[0, 1]]
        require(np.allclose(cu, want, atol=1e-9), "curl at {0}: {1}, not {2}", x, cu, want)
        self.eig(c.jacobian_eig_at_point(f, *x, **kw), J)
        return "point"

    def run_ecfc(self, case, rec):
        dims, shape, lay, what, bnd, fnp = case
        v = self.v
        nc = [np.array(NON[n]) for n in shape]
        crds = v.wrap_crds("nonuniform_cartesian", list(zip(dims, nc)), full_arrays=True)
        n = int(np.prod(shape))
        comps = [(((np.arange(n) * 7 + (i + 1) * 5) ** 2 % 23) - 8.0).reshape(shape) for i in range(3)]
        dat = np.stack(comps, axis=-1 if lay == "interlaced" else 0)
        f = v.wrap_field(dat, crds, name="b", center="edge" if what == "ec2cc" else "face", fldtype="vector", layout=lay, time=3.5)
        r = v.div(f, bnd=bnd) if what == "div" else getattr(self.ecfc, what)(f, bnd=bnd, force_numpy=fnp)
        full = [c.reshape([shape[dims.index(a)] if a in dims else 1 for a in "xyz"]) for c in comps]
        cut = tuple(slice(None, -1) if a in dims else slice(None) for a in "xyz")

        def mean(a, axes):
            for ax in axes:
                if a.shape[ax] > 1:
                    a = 0.5 * (a + np.roll(a, -1, ax))
            return a[cut]
        if what == "fc2cc":
            want = [mean(full[i], [i]) for i in range(3)]
        elif what == "ec2cc":
            want = [mean(full[i], [j for j in range(3) if j != i]) for i in range(3)]
        else:
            want = 0.0
            for i, a in enumerate("xyz"):
                if a in dims:
                    x = nc[dims.index(a)]
                    s = [1] * 3
                    s[i] = len(x) - 1
                    want = want + ((np.roll(full[i], -1, i) - full[i]) / np.diff(x).reshape(s))[cut]
            want = [want]
        got = self.comps_of(r)
        if bnd:
            got = [g[1:-1, 1:-1, 1:-1] for g in got]
        require(len(got) == len(want), "{0} has {1} components", what, len(got))
        for g, w in zip(got, want):
            require(g.shape == w.shape and np.allclose(g, w, rtol=1e-12), "{0}: {1}, not {2}", what, g.tolist(), w.tolist())
        require(r.iscentered("cell") and r.time == 3.5, "{0} is {1} centered, at {2}", what, r.center, r.time)
        for a, x in zip(dims, nc):
            p = r.get_crd(a)
            p = p[1:-1] if bnd else p
            require(np.allclose(p, 0.5 * (x[1:] + x[:-1])[:-1]), "{0} is at {1}={2}", what, a, p)
        return what


LINES = [[[0.1, 0.2, 0.3], [0.9, 0.2, 0.3]],
         [[0.0, 0.0, 0.0], [0.5, 1.0, 0.25], [1.0, 0.5, 0.5], [1.5, 0.75, 2.0]],
         [[1.0, 1.0, 1.0]],
         [[0.3, 0.3, 0.3], [0.3, 0.3, 0.3], [0.5, 0.3, 0.1]],
         [[0.0, 0.5, 1.0], [0.25, 0.5, 1.0], [0.5, 0.5, 1.0], [1.5, 0.5, 1.0], [1.75, 0.5, 1.0]],
         [[1.9, 1.9, 1.9], [0.1, 0.1, 0.1], [1.9, 0.1, 1.0]]]


class Lines(Base):
    pid = "V23"
    rule = ("every sequence of up to three lines from a menu (a single point, repeated points, bends), with every kind of field and reduction; every line, factor and kind of "
            "resampling; against the trapezoidal rule on the field's formula")
    bounds = {"lines": "1..3 of 6", "points per line": "1..5", "resampling factors": 7}
    assumptions = ("only fields that change linearly are used, so that interpolation has no part in the result",
                   "the direction of a line where it bends at its ends is not judged")

    def shards(self, tier):
        return [("int", k, i) for k in range(3) for i in range(6)] + [("res", i) for i in range(6)] + [("proj",)]

    def cases(self, shard, tier):
        if shard[0] == "int":
            k, i = shard[1:]
            seqs = [[i]] + [[i, j] for j in range(6)] + [[i, j, l] for j in range(6) for l in range(6)]
            for seq in seqs:
                for lay in ("scalar", "interlaced", "flat"):
                    for center in ("node", "cell"):
                        for red in (("dot",) if lay == "scalar" else ("dot", "mag", "magnitude", "norm", " DOT", "Mag")):
                            if len(seq) > 2 and red not in ("dot", "mag"):
                                continue
                            yield ["int", k, seq, lay, center, red]
        elif shard[0] == "res":
            i = shard[1]
            for factor in (0.25, 0.5, 1, 1.5, 2, 3, 4.0):
                for kind in ("linear", "nearest", "quadratic", "cubic"):
                    for j in range(6):
                        for cont in ("list", "tuple"):
                            yield ["res", [i, j], factor, kind, cont]
            for factor in (0, -1):
                yield ["res", [i], factor, "linear", "list"]
        else:
            for k in range(3):
                for i in (0, 1, 4, 5):
                    for lay in ("interlaced", "flat"):
                        for center in ("node", "cell"):
                            yield ["proj", k, i, lay, center]

    FUN = [(lambda X: [X[0] * 0 + 2.0, X[0] * 0 - 1.0, X[0] * 0 + 0.5]),
           (lambda X: [1 + X[0] - 2 * X[1], 3 * X[2] - X[0] + 0.5, X[1] + 2.0]),
           (lambda X: [X[2], X[0] * 4 - X[2] + 1, -X[0] + 2 * X[1] - X[2]])]

    def field(self, k, lay, center):
        x = np.array([-1.0, 0.0, 1.0, 2.0, 3.0])
        nc = [x, np.array([-1.0, 0.5, 1.0, 3.0]), np.array([-1.0, 0.25, 1.0, 2.0, 2.5, 4.0])] if center == "node" else \
             [x, np.array([-1.5, -0.5, 2.0, 3.0]), np.array([-1.0, 0.25, 1.0, 2.0, 2.5, 4.0])]
        shape = [len(q) - (center == "cell") for q in nc]
        return self.make(shape, center, lay, False, fun=self.FUN[k], nc=nc)[0]

    def run_case(self, case, rec):
        rec.step()
        with np.errstate(all="ignore"):
            return getattr(self, "run_" + case[0])(case[1:], rec)

    def run_int(self, case, rec):
        k, seq, lay, center, red = case
        f = self.field(k, lay, center)
        lines = [np.array(LINES[i]).T for i in seq]
        want = []
        for ln in lines:
            F = np.array(self.FUN[k](ln))
            d = np.diff(ln, axis=1)
            ds = np.sqrt(np.sum(d * d, axis=0))
            if lay == "scalar":
                w = np.sum(0.5 * (F[0][1:] + F[0][:-1]) * ds)
            elif red.strip().lower() == "dot":
                w = np.sum(0.5 * (F[:, 1:] + F[:, :-1]) * d)
            else:
                m = np.sqrt(np.sum(F * F, axis=0))
                w = np.sum(0.5 * (m[1:] + m[:-1]) * ds)
            want.append(w)
        keep = [ln.copy() for ln in lines]
        got = self.calc.integrate_along_lines(lines, f, reduction=red)
        require(np.shape(got) == (len(seq),) and np.allclose(got, want, rtol=1e-9, atol=1e-9), "integrals {0}, not {1}", got, want)
        require(all(np.array_equal(a, b) for a, b in zip(keep, lines)), "the lines are changed")
        if len(seq) == 1:
            one = self.calc.integrate_along_line(lines[0], f, reduction=red)
            require(np.ndim(one) == 0 and np.allclose(one, want[0], rtol=1e-9, atol=1e-9), "integral {0}, not {1}", one, want[0])
        return "int"

    def run_res(self, case, rec):
        seq, factor, kind, cont = case
        lines = [np.array(LINES[i]).T for i in seq]
        need = dict(linear=2, nearest=2, quadratic=3, cubic=4)[kind]
        keep = [ln.copy() for ln in lines]
        if factor > 0 and factor != 1 and any(ln.shape[1] < need for ln in lines):
            return "short"
        try:
            got = self.calc.resample_lines(lines if cont == "list" else tuple(lines), factor=factor, kind=kind)
        except ValueError:
            require(factor <= 0, "factor {0} is refused", factor)
            return "refused"
        require(factor > 0, "factor {0} is not refused", factor)
        require(len(got) == len(seq), "{0} lines", len(got))
        for g, ln in zip(got, keep):
            n = ln.shape[1]
            m = int(np.ceil(factor * (n - 1))) + 1 if factor != 1 else n
            require(g.shape == (3, m), "{0} points become {1}", n, g.shape)
            t = np.linspace(0, 1, m) * (n - 1)
            if kind == "linear":
                i = np.minimum(t.astype(int), max(n - 2, 0))
                want = ln[:, i] + (t - i) * (ln[:, np.minimum(i + 1, n - 1)] - ln[:, i])
                require(np.allclose(g, want), "{0} becomes {1}, not {2}", ln.tolist(), g.tolist(), want.tolist())
            for j in range(m):      # all go through the points they share
                if abs(t[j] - round(t[j])) < 1e-9:
                    require(np.allclose(g[:, j], ln[:, int(round(t[j]))], atol=1e-9), "{0} does not go through {1}", g.tolist(), ln[:, int(round(t[j]))])
        return "res"

    def run_proj(self, case, rec):
        k, i, lay, center = case
        f = self.field(k, lay, center)
        ln = np.array(LINES[i]).T
        got = self.calc.project_along_line(ln, f)
        F = np.array(self.FUN[k](ln))
        n = ln.shape[1]
        require(np.shape(got) == (n,), "shape {0} for {1} points", np.shape(got), n)
        straight = i in (0, 4)
        for j in range(n):
            if 0 < j < n - 1 or straight:
                d = ln[:, min(j + 1, n - 1)] - ln[:, max(j - 1, 0)]
                w = np.dot(F[:, j], d) / np.sqrt(np.dot(d, d))
                require(np.allclose(got[j], w), "projected at point {0}: {1}, not {2}", j, got[j], w)
        return "proj"
