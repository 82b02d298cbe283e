"""Rotations: matrices, Euler angles, quaternions, axis and angle"""
import contextlib
import io
import itertools

import numpy as np

from vmc.core import Check, Fail, require

ORDERS12 = ("zyx", "yxz", "xzy", "xyz", "yzx", "zxy", "zyz", "zxz", "yzy", "yxy", "xzx", "xyx")
ANGLES = (-180.0, -150.0, -90.0, -45.0, 0.0, 20.0, 90.0, 135.0, 180.0)
FINE = (-270.0, -180.0, -179.9, -150.0, -135.0, -90.0, -89.99, -60.0, -45.0, -1e-3, 0.0, 1e-3, 20.0, 45.0, 60.0, 90.0, 90.01, 120.0, 135.0, 180.0, 200.0, 360.0)
VECS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -2.0, 0), (0, 0, -0.5), (1, 1, 0), (-1, 1, 0), (1, -1, 1), (1, 1, 1), (-1, -1, -1), (1.0, -2.0, 3.0), (-2.0, 4.0, -6.0), (1e-3, 0, 1.0), (0.3, 0.2, -0.1)]


def rod(axis, deg):
    """rotation about axis"""
    k = np.array(axis, dtype="f8")
    k = k / np.sqrt(np.dot(k, k))
    a = np.deg2rad(deg)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) * np.cos(a) + np.sin(a) * K + (1 - np.cos(a)) * np.outer(k, k)


def unit(x):
    x = np.array(x, dtype="f8")
    return x / np.sqrt(np.sum(x * x, axis=-1, keepdims=True))


AX = dict(x=(1, 0, 0), y=(0, 1, 0), z=(0, 0, 1))


class Rot(Check):
    pid = "V25"
    rule = "every function, angles on a grid (with the degenerate ones), every order of axes, units, single values and stacks, vectors from a menu in pairs, and every composition of up to three rotations, against matrices built from the axis and angle"
    bounds = {"angles": "9 (22 for a single angle)", "axes": "15 vectors", "orders": "27, and the 12 without repetitions for the inverse", "compositions": "up to 3"}
    assumptions = ("messages about determinants and what happens to matrices that are no rotations are not judged", "agreement within 1e-7")

    def setup(self):
        import viscid
        self.v = viscid

    def shards(self, tier):
        out = [("eul", "".join(o)) for o in itertools.product("xyz", repeat=3)]
        out += [("elem", None), ("axang", None), ("between", None), ("conv", None)]
        out += [("a2b", i) for i in range(len(VECS))] + [("comp", i) for i in range(6)]
        return out

    def cases(self, shard, tier):
        kind, part = shard
        big = tier != "quick"
        if kind == "eul":
            for A in itertools.product(ANGLES if big else (-180.0, -90.0, -45.0, 0.0, 20.0, 90.0, 135.0), repeat=3):
                for f in ("rot", "dcm"):
                    yield ("eul", part, A, f)
            for n in (1, 2, 3):
                yield ("stack", part, n)
            for form in ("list", "upper", "ints"):
                yield ("form", part, form)
        elif kind == "elem":
            for a in FINE:
                for ax in ("x", "y", "z", 0, 1, 2, "X", " y "):
                    for u in ("deg", "rad", "degrees", "Rad"):
                        for n in (0, 1, 2):
                            yield ("elem", a, ax, u, n)
        elif kind == "axang":
            for i in range(len(VECS)):
                for a in FINE:
                    for u in ("deg", "rad"):
                        for n in ("one", "stack", "oneangle", "oneaxis", "stack1"):
                            yield ("axang", i, a, u, n)
        elif kind == "between":
            for i, j in itertools.product(range(len(VECS)), repeat=2):
                yield ("between", i, j)
        elif kind == "conv":
            for a in FINE:
                for x in ("deg", "rad", "degrees", " RAD"):
                    for y in ("deg", "rad"):
                        yield ("conv", a, x, y)
        elif kind == "a2b":
            for j in range(len(VECS)):
                for n in ("one", "stack", "onea", "oneb"):
                    yield ("inplace", part, j, n)
                for roll in (0.0, 30.0, -120.0, 180.0):
                    for u in ("deg", "rad"):
                        for n in ("one", "stack", "onea", "oneb"):
                            yield ("a2b", part, j, roll, u, n)
                for k in range(len(VECS)):
                    for u in ("deg", "rad"):
                        for n in ("one", "stack", "onea"):
                            yield ("newx", part, j, k, u, n)
        elif kind == "comp":
            menu = range(6)
            for n in (1, 2, 3):
                for seq in itertools.product(menu, repeat=n - 1):
                    for forms in itertools.product(("one", "stack", "one1") if big else ("one", "stack"), repeat=n):
                        for vec in ("one", "many"):
                            yield ("comp", (part,) + seq, forms, vec)

    # ------------------------------------------------------------ helpers
    def call(self, f, *args, **kw):
        """the result, with the arguments kept; messages about determinants are not wanted here"""
        if f.__name__ == "a2b_rot":     # judged in run_inplace
            args = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        keep = [np.array(a, copy=True) if isinstance(a, np.ndarray) else None for a in args]
        with contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
            r = f(*args, **kw)
        for a, k in zip(args, keep if f.__name__ != "a2b_rot" else ()):
            require(k is None or np.array_equal(a, k), "{0} changes its argument {1} to {2}", f.__name__, None if k is None else k.tolist(), None if k is None else a.tolist())
        return r

    def near(self, what, a, b, tol=1e-7):
        require(np.shape(a) == np.shape(b), "{0} has shape {1}, not {2}", what, np.shape(a), np.shape(b))
        require(np.allclose(a, b, rtol=0, atol=tol), "{0} is {1}, not {2}", what, np.asarray(a).tolist(), np.asarray(b).tolist())

    def want_euler(self, order, A, form):
        """transformation order: the first axis first"""
        s = 1.0 if form == "rot" else -1.0
        R = np.eye(3)
        for ax, a in zip(order, A):
            R = np.dot(rod(AX[ax], s * a), R)
        return R

    def run_case(self, case, rec):
        rec.step()
        rec.state(case[:2])
        return getattr(self, "run_" + case[0])(case)

    # ------------------------------------------------------------ Euler angles
    def run_eul(self, case):
        _, order, A, form = case
        v = self.v
        W = self.want_euler(order, A, form)
        Ar = np.deg2rad(A)
        tr, ml = getattr(v, "angle2" + form), getattr(v, "eul2" + form)
        R = self.call(tr, np.array(A), order, "deg")
        self.near("angle2{0}({1}, {2})".format(form, A, order), R, W)
        self.near("angle2{0} in radians".format(form), self.call(tr, Ar, order), W)
        self.near("eul2{0}({1}, {2})".format(form, A[::-1], order[::-1]), self.call(ml, np.array(A)[::-1], order[::-1], unit="deg"), W)
        if order not in ORDERS12:
            return "forward"
        for x, y, o in (("angle2" + form, form + "2angles", order), ("eul2" + form, form + "2eul", order[::-1])):
            for u in ("deg", "rad"):
                b = self.call(getattr(v, y), W.copy(), o, u)
                require(np.shape(b) == (3,) and np.all(np.isfinite(b)), "{0} of {1} gives {2}", y, A, b)
                self.near("{0} of {1}, {2}, in {3}, is {4}, which".format(y, A, o, u, b.tolist()), self.call(getattr(v, x), b, o, u), W)
        W4 = np.eye(4)
        W4[:3, :3] = W
        b = self.call(getattr(v, form + "2angles"), W4, order)
        self.near("angles of a 4x4 matrix", self.call(tr, b, order), W)
        return "inverse"

    def run_stack(self, case):
        _, order, n = case
        v = self.v
        A = np.array(list(itertools.product((-90.0, 20.0, 180.0), repeat=3)))
        A = [A[:1], A[:4], A][n - 1]
        for form in ("rot", "dcm"):
            W = np.array([self.want_euler(order, a, form) for a in A])
            self.near("stack of angle2" + form, self.call(getattr(v, "angle2" + form), A, order, "deg"), W)
            self.near("stack of eul2" + form, self.call(getattr(v, "eul2" + form), A[:, ::-1].copy(), order[::-1], "deg"), W)
            if order in ORDERS12:
                for x, y, o in (("angle2" + form, form + "2angles", order), ("eul2" + form, form + "2eul", order[::-1])):
                    W.flags.writeable = False
                    b = self.call(getattr(v, y), W, o, "deg")
                    require(b.shape == A.shape, "stack of {0} has shape {1}", y, b.shape)
                    self.near("stack of " + y, self.call(getattr(v, x), b, o, "deg"), W)
        return "stack"

    def run_form(self, case):
        _, order, form = case
        v = self.v
        A = (20.0, -45.0, 135.0)
        o = dict(list=list(order), upper=order.upper(), ints=tuple("xyz".index(c) for c in order))[form]
        for mat in ("rot", "dcm"):
            W = self.want_euler(order, A, mat)
            self.near("axes {0}".format(o), self.call(getattr(v, "angle2" + mat), A, o, "deg"), W)
            if order in ORDERS12:
                b = self.call(getattr(v, mat + "2angles"), W, o, "deg")
                self.near("angles for axes {0}".format(o), self.call(getattr(v, "angle2" + mat), b, o, "deg"), W)
                b = self.call(getattr(v, mat + "2eul"), W, o, "deg")
                self.near("Euler angles for axes {0}".format(o), self.call(getattr(v, "eul2" + mat), b, o, "deg"), W)
        return "form"

    def run_elem(self, case):
        _, a, ax, u, n = case
        v = self.v
        name = "xyz"[ax] if isinstance(ax, int) else ax.strip().lower()
        arg = a if u.strip().lower().startswith("deg") else np.deg2rad(a)
        W, D = rod(AX[name], a), rod(AX[name], -a)
        if n:
            arg, W, D = [arg] + [0.0] * (n - 1), np.array([W] + [np.eye(3)] * (n - 1)), np.array([D] + [np.eye(3)] * (n - 1))
        self.near("e_rot", self.call(v.e_rot, arg, ax, u), W)
        self.near("e_dcm", self.call(v.e_dcm, arg, ax, u), D)
        return "elem"

    def run_conv(self, case):
        _, a, x, y = case
        deg = x.strip().lower().startswith("deg")
        r = self.v.convert_angle(a if deg else np.deg2rad(a), x, y)
        self.near("convert_angle", r, a if y == "deg" else np.deg2rad(a), 1e-9)
        return "conv"

    # ------------------------------------------------------------ axis and angle, quaternions
    def run_axang(self, case):
        _, i, a, u, n = case
        v = self.v
        ax = np.array(VECS[i], dtype="f8")
        other, oa = np.array(VECS[(i + 7) % len(VECS)], dtype="f8"), a + 75.0
        if n == "one":
            axes, angs = ax, a
        elif n == "stack":
            axes, angs = np.array([ax, other, ax]), np.array([a, oa, oa])
        elif n == "stack1":
            axes, angs = ax[None], np.array([a])
        elif n == "oneangle":
            axes, angs = np.array([ax, other]), a
        else:
            axes, angs = ax, np.array([a, oa])
        N = 1 if n in ("one", "stack1") else max(len(np.atleast_2d(axes)), len(np.atleast_1d(angs)))
        aa, gg = np.broadcast_to(np.atleast_2d(axes), (N, 3)), np.broadcast_to(angs, (N,))
        W = np.array([rod(x, g) for x, g in zip(aa, gg)])
        Q = np.array([np.concatenate([[np.cos(np.deg2rad(g) / 2)], unit(x) * np.sin(np.deg2rad(g) / 2)]) for x, g in zip(aa, gg)])
        one = n == "one"
        pick = (lambda x: x[0]) if one else (lambda x: x)
        conv = (lambda x: x) if u == "deg" else np.deg2rad
        self.near("wxyz2rot", self.call(v.wxyz2rot, conv(angs), axes, u), pick(W))
        self.near("wxyz2quat", self.call(v.wxyz2quat, conv(angs), axes, u), pick(Q))
        if n in ("one", "stack", "stack1"):
            B = np.concatenate([aa, conv(gg)[:, None]], axis=1)
            self.near("axang2rot", self.call(v.axang2rot, pick(B), u), pick(W))
            self.near("axang2quat", self.call(v.axang2quat, pick(B), u), pick(Q))
        for M, q2m, m2q in ((W, v.quat2rot, v.rot2quat), (np.swapaxes(W, 1, 2), v.quat2dcm, v.dcm2quat)):
            for s in (1.0, -2.0):
                for q in (pick(Q * s), pick(Q * s).tolist()):
                    self.near(q2m.__name__, self.call(q2m, q), pick(M))
            q = self.call(m2q, pick(M).copy())
            require(q.shape == pick(Q).shape and np.allclose(np.sum(q * q, axis=-1), 1), "{0} gives {1}", m2q.__name__, q)
            self.near("quaternion of the matrix, up to its sign,", np.abs(np.sum(q * pick(Q), axis=-1)), np.abs(np.ones(np.shape(pick(gg)))))
        for quick in (True, False):
            w, x = self.call(v.rot2wxyz, pick(W).copy(), u, quick)
            self.axis_angle("rot2wxyz, quick={0},".format(quick), w, x, pick(W), u, True)
            b = self.call(v.rot2axang, pick(W).copy(), u, quick)
            self.near("rot2axang", b, np.concatenate([x, np.asarray(w)[..., None]], axis=-1))
        for s in (1.0, -0.5, np.linspace(1e-3, 1e3, N)[:, None]):
            q = pick(Q * s)
            w, x = self.call(v.quat2wxyz, q, u)
            self.axis_angle("quat2wxyz", w, x, pick(W), u, False)
            b = self.call(v.quat2axang, q, u)
            self.near("quat2axang", b, np.concatenate([x, np.asarray(w)[..., None]], axis=-1))
        # whole numbers
        for q in ([1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 1, 0, 0], [1, -1, 1, -1]):
            k = np.array(q, "f8")
            k /= np.sqrt(np.dot(k, k))
            g = 2 * np.rad2deg(np.arccos(k[0]))
            R = rod(k[1:], g) if np.any(k[1:]) else np.eye(3)
            self.near("quat2rot of {0}".format(q), self.call(v.quat2rot, q), R)
            self.near("quat2rot of a row {0}".format(q), self.call(v.quat2rot, np.array([q], dtype="f4")), R[None], 1e-6)
        return "axang"

    def axis_angle(self, what, w, x, W, u, half):
        require(np.shape(w) == W.shape[:-2] and np.shape(x) == W.shape[:-1], "{0} has shapes {1}, {2}", what, np.shape(w), np.shape(x))
        d = np.asarray(w) if u == "deg" else np.rad2deg(w)
        require(np.all(d >= 0) and np.all(d <= (180.00001 if half else 360.00001)), "{0} gives angles {1}", what, d)
        require(np.allclose(np.sum(x * x, axis=-1), 1), "{0} gives the axis {1}", what, x)
        R = np.array([rod(k, g) for k, g in zip(np.reshape(x, (-1, 3)), np.reshape(d, -1))]).reshape(W.shape)
        self.near("{0} axis {1}, angle {2} and its matrix".format(what, np.asarray(x).tolist(), d.tolist()), R, W, 1e-6)

    # ------------------------------------------------------------ from one vector to another
    def run_between(self, case):
        _, i, j = case
        a, b = np.array(VECS[i], "f8"), np.array(VECS[j], "f8")
        g = np.rad2deg(np.arctan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b)))
        v = self.v
        for u, w in (("deg", g), ("rad", np.deg2rad(g))):
            self.near("angle_between({0}, {1})".format(a, b), self.call(v.angle_between, a, b, u), w, 1e-5)
            self.near("angle_between of rows", self.call(v.angle_between, a[None], np.array([b, a, -a]), u), np.array([w, 0, 180.0 if u == "deg" else np.pi]), 1e-5)
            self.near("angle_between of sequences", self.call(v.angle_between, VECS[i], [VECS[j]], u), np.array([w]), 1e-5)
        return "between"

    def stacks(self, i, j, n):
        a, b = np.array(VECS[i], "f8"), np.array(VECS[j], "f8")
        if n == "one":
            return a, b, [(a, b)]
        if n == "stack":
            c, d = np.array(VECS[(i + 3) % len(VECS)], "f8"), np.array(VECS[(j + 5) % len(VECS)], "f8")
            return np.array([a, c, a]), np.array([b, d, -a]), [(a, b), (c, d), (a, -a)]
        if n == "onea":
            return a, np.array([b, -a, a]), [(a, b), (a, -a), (a, a)]
        return np.array([a, -b, b]), b, [(a, b), (-b, b), (b, b)]

    def run_a2b(self, case):
        _, i, j, roll, u, n = case
        a, b, pairs = self.stacks(i, j, n)
        r = roll if u == "deg" else np.deg2rad(roll)
        R0 = self.call(self.v.a2b_rot, a, b)
        R = self.call(self.v.a2b_rot, a, b, r, u)
        shape = (3, 3) if n == "one" else (len(pairs), 3, 3)
        require(R.shape == shape and R0.shape == shape, "a2b_rot has shape {0}", R.shape)
        for (x, y), M0, M in zip(pairs, R0.reshape(-1, 3, 3), R.reshape(-1, 3, 3)):
            for m in (M0, M):
                self.near("product with its transpose", np.dot(m, m.T), np.eye(3))
                self.near("determinant", np.linalg.det(m), 1.0)
                self.near("{0} rotated to {1}".format(x, y), np.dot(m, unit(x)), unit(y))
            g = np.arctan2(np.linalg.norm(np.cross(x, y)), np.dot(x, y))
            self.near("trace for {0} to {1}, without roll,".format(x, y), np.trace(M0), 1 + 2 * np.cos(g))
            self.near("rotation with roll", M, np.dot(rod(y, roll), M0))
        return "a2b"

    def run_inplace(self, case):
        """known finding a2b-inplace: vectors given as double arrays become unit vectors"""
        _, i, j, n = case
        a, b, _ = self.stacks(i, j, n)
        args = [a.copy(), b.copy(), np.zeros(len(np.atleast_2d(b))), np.array(VECS[i], "f8")]
        keep = [x.copy() for x in args]
        self.v.a2b_rot(args[0], args[1], new_x=args[3])
        if i == j:
            self.v.a2b_rot(args[0], args[1], args[2])
        require(all(np.array_equal(x, y) for x, y in zip(args[2:], keep[2:])), "a2b_rot changes roll or new_x")
        if not all(np.array_equal(x, y) for x, y in zip(args[:2], keep[:2])):
            self.near("what a2b_rot makes of its arguments", np.concatenate([np.ravel(x) for x in args[:2]]), np.concatenate([np.ravel(unit(x)) for x in keep[:2]]))
            raise Fail("a2b_rot changes {0} to {1}".format([x.tolist() for x in keep[:2]], [x.tolist() for x in args[:2]]), finding="a2b-inplace")
        return "inplace"

    def run_newx(self, case):
        _, i, j, k, u, n = case
        a, b, pairs = self.stacks(i, j, n)
        x = np.array(VECS[k], "f8")
        ex = np.array([1.0, 0, 0])
        R = self.call(self.v.a2b_rot, a, b, unit=u, new_x=x)
        R0 = self.call(self.v.a2b_rot, a, b)
        for (p, q), M, M0 in zip(pairs, R.reshape(-1, 3, 3), R0.reshape(-1, 3, 3)):
            q = unit(q)
            self.near("{0} rotated to {1}".format(p, q), np.dot(M, unit(p)), q)
            want = x - np.dot(x, q) * q
            got = np.dot(M, ex)
            if np.linalg.norm(want) < 1e-7:
                self.near("rotation with no new x axis", M, M0)
                continue
            if abs(p[0]) + abs(p[1]) > 1e-12:
                continue        # x is not at right angles to what becomes the new axis
            self.near("the new x axis for {0} to {1}, x to {2},".format(p, q, x), got, unit(want), 1e-6)
        return "newx"

    # ------------------------------------------------------------ compositions
    MENU = [((0, 0, 1), 90.0), ((1, 0, 0), -90.0), ((1.0, -2.0, 3.0), 50.0), ((0, 1, 0), 180.0), ((1, 1, 1), 120.0), ((0.3, 0.2, -0.1), 0.0)]

    def run_comp(self, case):
        _, seq, forms, vec = case
        v = self.v
        N = 3
        mats, quats, W = [], [], np.array([np.eye(3)] * N)
        for i, f in zip(seq, forms):
            pick = [i] * N if f != "stack" else [i, (i + 1) % 6, (i + 3) % 6]
            R = np.array([rod(*self.MENU[k]) for k in pick])
            q = np.array([np.concatenate([[np.cos(np.deg2rad(self.MENU[k][1]) / 2)], unit(self.MENU[k][0]) * np.sin(np.deg2rad(self.MENU[k][1]) / 2)]) for k in pick])
            W = np.array([np.dot(a, b) for a, b in zip(W, R)])
            cut = dict(one=lambda x: x[0], stack=lambda x: x, one1=lambda x: x[:1])[f]
            mats.append(cut(R))
            quats.append(cut(q))
        many = any(f == "stack" for f in forms)
        one = all(f == "one" for f in forms)
        want = W if many else W[0] if one else W[:1]
        self.near("rotmul", self.call(v.rotmul, *mats), want)
        self.near("matrix of quatmul", self.call(v.quat2rot, self.call(v.quatmul, *quats)), want)
        V = np.array([(1.0, 2.0, -0.5), (0.0, 0.0, 1.0), (-1.0, 3.0, 0.0)])
        if vec == "one":
            V = V[:1]
            arg = V[0]
        else:
            arg = V
        n = max(len(V), N if many else 1)
        w = np.array([np.dot(m, x) for m, x in zip(np.broadcast_to(W if many else W[:1], (n, 3, 3)), np.broadcast_to(V, (n, 3)))])
        if one and vec == "one":
            w = w[0]
        self.near("rotate", self.call(v.rotate, arg, *mats), w)
        self.near("quat_rotate", self.call(v.quat_rotate, arg, *quats), w)
        self.near("quat_rotate with longer quaternions", self.call(v.quat_rotate, arg, *[2.0 * q for q in quats]), w)
        return "comp"
