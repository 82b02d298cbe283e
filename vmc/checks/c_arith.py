"""Arithmetic, comparison, NumPy functions and reductions of fields"""
import itertools
import operator
import warnings

import numpy as np

from vmc import fld
from vmc.core import Check, require

BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
       "%": operator.mod, "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_,
       "^": operator.xor, "|": operator.or_, "<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne,
       ">": operator.gt, ">=": operator.ge, "divmod": divmod}
INPLACE = {"+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "/=": operator.itruediv, "//=": operator.ifloordiv,
           "%=": operator.imod, "**=": operator.ipow}
UN = {"neg": operator.neg, "pos": operator.pos, "abs": abs, "invert": operator.invert}
METH = ["real", "imag", "angle", "angle deg", "conj", "conjugate", "clip", "round", "round1", "astype f4", "astype c16",
        "astype ?", "cumsum", "cumprod", "argsort", "partition"]
UFUNC1 = ["sqrt", "exp", "log10", "sin", "floor", "isnan", "sign", "square", "negative", "absolute", "conj",
          "logical_not", "isfinite", "modf"]
UFUNC2 = ["add", "multiply", "maximum", "minimum", "power", "arctan2", "less", "logical_and", "divmod"]
RED = ["any", "all", "max", "min", "mean", "std", "sum", "prod", "ptp", "argmax", "argmin"]
SHAPES = [(4,), (2, 4), (4, 1), (1, 4, 2), (4, 2, 5), (3, 3, 3), (2, 3, 4)]
KINDS = ["scalar", "flat", "interlaced"]


def quiet(func, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return func(*a, **kw)


class Obj(object):
    """an operand: the object itself, its numbers with components first, and what it is"""
    def __init__(self, obj, dat, kind, m=None, t=None, name=None):
        self.obj, self.dat, self.kind, self.m, self.t, self.name = obj, dat, kind, m, t, name

    @property
    def isfld(self):
        return self.kind in KINDS


class Arith(Check):
    pid = "V11"
    rule = ("for every operator, NumPy function and reduction, every combination of operands (scalar, flat and interlaced "
            "fields of several number types, node and cell centered, numbers and arrays on either side), and all "
            "expressions of two operators from a menu: the result against NumPy on the bare components, its grid, and the operands "
            "unchanged")
    bounds = {"shapes": "7 of 1 to 3 axes, incl. axes of one point and as long as the components", "types": "f8 i4 bool c16"}
    assumptions = ("interlaced results whose axes are all as long as they have components are left out (known finding layout-guess)",)
    case_timeout = 120

    def setup(self):
        import viscid
        self.v = viscid

    def fld(self, kind, shape, center, dtype, which=0):
        f, m = fld.make(shape, "nun"[:len(shape)], center, None if kind == "scalar" else kind, dtype,
                        name="fld" if which == 0 else "gld")
        dat = m["dat"]
        k = np.arange(dat.size).reshape(dat.shape)
        new = {"f8": 0.5 * ((k * 7 + 3 * which) % 11) - 2.0 + which, "i4": (k * 5 + which) % 7 - 2 + 3 * which,
               "?": (k * 3 + which) % 5 < 2, "c16": ((k * 7) % 11 - 4 + which) + 1j * ((k * 3) % 5 - 2)}[dtype]
        new = np.asarray(new).astype(dtype)
        f = self.v.wrap_field(new if kind != "interlaced" else np.moveaxis(new, 0, -1).copy(), f.crds, name=f.name,
                              center=center, fldtype="scalar" if kind == "scalar" else "vector",
                              layout="scalar" if kind == "scalar" else kind, time=2.0 + which)
        return Obj(f, new, kind, m, 2.0 + which, f.name)

    def operand(self, spec, like):
        """a second operand for like"""
        if spec[0] == "fld":
            return self.fld(spec[1], like.m["shape"], like.m["center"], spec[2], 1)
        if spec[0] == "num":
            n = {"2": 2, "1.5": 1.5, "1j": 2 + 1j, "True": True, "np": np.float32(1.25), "0d": np.array(3)}[spec[1]]
            return Obj(n, n, "num")
        if spec[0] == "arr":
            a = ((np.arange(like.dat.size).reshape(like.dat.shape) * 3) % 7 - 1).astype(spec[1])
            b = np.moveaxis(a, 0, -1).copy() if like.kind == "interlaced" else a.copy()
            return Obj(b, a, "arr")
        if spec[0] == "sarr":    # an array to broadcast: the last axis only (components first: model below)
            a = (np.arange(like.m["shape"][-1]) % 3).astype("f8")
            return Obj(a, a, "arr")
        raise ValueError(spec)

    # ---- comparing ----
    def check(self, r, dat, src, what, axes=None, nc=None, layout="any"):
        """r must be a field of numbers dat (components first, if it has any) on src's grid or the grid given"""
        m = src.m
        axes = list(m["axes"]) if axes is None else axes
        nc = list(m["nc"]) if nc is None else nc
        dat = np.asarray(dat)
        if dat.size == 1:
            require(fld.same(np.asarray(getattr(r, "data", r)).reshape(()), dat.reshape(())), "{0}: {1!r}, want {2!r}", what, r, dat)
            return
        require(hasattr(r, "crds"), "{0}: got a bare {1} {2!r}", what, type(r).__name__, np.shape(r))
        isvec = dat.ndim == len(axes) + 1
        if isvec and set(dat.shape[1:]) <= {1, dat.shape[0]}:
            return    # the layout can not be told
        require(r.fldtype == ("vector" if isvec else "scalar"), "{0}: result is a {1} field", what, r.fldtype)
        require(r.nr_comps == (dat.shape[0] if isvec else 0), "{0}: {1} components", what, r.nr_comps)
        require(list(r.crds.axes) == axes, "{0}: axes {1}, want {2}", what, list(r.crds.axes), axes)
        require(r.iscentered(m["center"]), "{0}: centering {1}", what, r.center)
        for a, x, w in zip(axes, r.get_crds_nc(), nc):
            require(fld.same(x, w, 1e-12), "{0}: {1} coordinates {2}, want {3}", what, a, x, w)
        require(r.time == src.t, "{0}: time {1}, want {2}", what, r.time, src.t)
        if isvec and layout != "any":
            require(r.layout == layout, "{0}: layout {1}, want {2}", what, r.layout, layout)
        got = fld.comp_first(r)
        ok = got.shape == dat.shape and bool(np.all((got == dat) | ((got != got) & (dat != dat)) |
                                                    np.isclose(got, dat, rtol=1e-12, atol=1e-12)))
        require(ok, "{0}: data {1}, want {2}", what, fld.short(got), fld.short(dat))
        require(got.dtype == dat.dtype, "{0}: type {1}, want {2}", what, got.dtype, dat.dtype)

    def intact(self, o, what):
        if o.isfld:
            require(fld.same(fld.comp_first(o.obj), o.dat), "{0} changed an operand", what)
            require(o.obj.name == o.name and o.obj.time == o.t, "{0} renamed an operand", what)
            require(list(o.obj.crds.axes) == list(o.m["axes"]), "{0} changed the axes of an operand", what)
        elif isinstance(o.obj, np.ndarray) and o.obj.ndim:
            a = np.moveaxis(o.obj, -1, 0) if o.obj.shape != o.dat.shape else o.obj
            require(fld.same(a, o.dat), "{0} changed an array operand", what)

    @staticmethod
    def model(func, a, b):
        """NumPy on the components"""
        try:
            ad, bd = a.dat, b.dat
            r = quiet(func, ad, bd)
        except (TypeError, ValueError):
            return None
        return r

    def binary(self, func, a, b, what, model=None):
        want = self.model(model or func, a, b)
        if want is None:
            return None     # not an operation of these types
        src = a if a.isfld else b
        kinds = [o.kind for o in (a, b) if o.isfld]
        vecs = [k for k in kinds if k != "scalar"]
        got = quiet(func, a.obj, b.obj)
        if isinstance(want, tuple):
            require(isinstance(got, tuple) and len(got) == len(want), "{0} gave a {1}", what, type(got).__name__)
        for g, w in zip(got, want) if isinstance(want, tuple) else [(got, want)]:
            self.check(g, w, src, what, layout=vecs[0] if len(set(vecs)) == 1 and kinds[0] != "scalar" else "any")
        for o in (a, b):
            self.intact(o, what)
        return got

    # ---- cases ----
    def shards(self, tier):
        return [(c, s) for s in range(len(SHAPES)) for c in ("node", "cell")]

    def cases(self, shard, tier):
        center, s = shard
        types = ["f8", "i4", "?", "c16"]
        kinds = [k for k in KINDS if k != "interlaced" or not set(SHAPES[s]) <= {1, 3}]
        small = SHAPES[s] in ((4,), (2, 4), (3, 3, 3)) or tier == "thorough"
        for kind in kinds:
            for dt in types:
                base = {"center": center, "shape": s, "kind": kind, "dt": dt}
                others = [("fld", k, d) for k in kinds for d in (types if small else [dt, "f8"] if dt != "f8" else ["f8", "i4"])]
                others += [("num", n) for n in ("2", "1.5", "1j", "True", "np", "0d")] + [("arr", "f8"), ("arr", "i4")]
                for o in others:
                    yield dict(base, do="bin", other=list(o))
                yield dict(base, do="un")
                yield dict(base, do="ufunc")
                for red in RED:
                    yield dict(base, do="red", red=red)
            for o in [("fld", k, "f8") for k in kinds] + [("num", "1.5")]:
                yield dict({"center": center, "shape": s, "kind": kind, "dt": "f8"}, do="expr", other=list(o))
            yield dict({"center": center, "shape": s, "kind": kind, "dt": "f8"}, do="int")

    def run_case(self, case, rec):
        shape = SHAPES[case["shape"]]

        def one():
            return self.fld(case["kind"], shape, case["center"], case["dt"])
        n = getattr(self, "do_" + case["do"])(one, case)
        rec.step(n)
        return "compared"

    def do_bin(self, one, case):
        n = 0
        spec = tuple(case["other"])
        for sym, func in sorted(BIN.items()):
            for left in (True, False):
                a = one()
                b = self.operand(spec, a)
                if not left and (b.isfld or (b.kind == "num" and sym in ("<<", ">>", "&", "^", "|"))):
                    continue      # numbers on the left of bit operators are not supported
                x, y = (a, b) if left else (b, a)
                self.binary(func, x, y, "%s %s %s" % (x.kind, sym, y.kind))
                n += 1
        a = one()
        self.binary(operator.sub, a, a, "f - f")
        for sym, func in sorted(INPLACE.items()):
            a = one()
            b = self.operand(spec, a)
            self.binary(func, a, b, "%s %s %s" % (a.kind, sym, b.kind), BIN[sym[:-1]])
            n += 1
        return n

    def do_un(self, one, case):
        n = 0
        for nm, func in sorted(UN.items()):
            a = one()
            try:
                want = quiet(func, a.dat)
            except TypeError:
                continue
            self.check(quiet(func, a.obj), want, a, nm, layout=a.kind)
            self.intact(a, nm)
            n += 1
        for nm in METH:
            a = one()
            d, f = a.dat, a.obj
            off = 0 if a.kind == "scalar" else 1
            if nm in ("real", "imag"):
                want, got = getattr(d, nm), getattr(f, nm)
            elif nm.startswith("angle"):
                if d.dtype == bool:
                    continue
                want, got = np.angle(d, deg=nm == "angle deg"), f.angle(deg=nm == "angle deg")
            elif nm in ("conj", "conjugate"):
                want, got = d.conj(), getattr(f, nm)()
            elif nm == "clip":
                if d.dtype.kind in "bc":
                    continue
                want, got = d.clip(-1, 2), f.clip(-1, 2)
            elif nm.startswith("round"):
                if d.dtype.kind == "b":
                    continue
                k = 1 if nm == "round1" else 0
                want, got = d.round(k), f.round(k)
            elif nm.startswith("astype"):
                t = nm.split()[1]
                want, got = quiet(d.astype, t), quiet(f.astype, t)
            else:
                for ax in range(len(f.crds.axes)):
                    dax = ax + off                                 # in the model
                    fax = ax + (1 if a.kind == "flat" else 0)      # in the field
                    if nm == "partition":
                        if d.dtype.kind in "bc":
                            continue
                        want, got = np.partition(d, 0, axis=dax), f.partition(0, axis=fax)
                        require(got is not None, "partition gave nothing")
                        want, got = want.take([0], axis=dax), got
                        require(fld.same(fld.comp_first(got).take([0], axis=dax), want), "partition along axis {0}", ax)
                    else:
                        kw = {"kind": "stable"} if nm == "argsort" else {}
                        want, got = getattr(d, nm)(axis=dax, **kw), getattr(f, nm)(axis=fax, **kw)
                        self.check(got, want, a, "%s along %d" % (nm, ax), layout=a.kind)
                    self.intact(a, nm)
                    n += 1
                continue
            self.check(got, want, a, nm, layout=a.kind)
            self.intact(a, nm)
            n += 1
        return n

    def do_ufunc(self, one, case):
        n = 0
        for nm in UFUNC1:
            a = one()
            func = getattr(np, nm)
            try:
                want = quiet(func, a.dat)
            except TypeError:
                continue
            got = quiet(func, a.obj)
            for g, w in zip(got, want) if isinstance(want, tuple) else [(got, want)]:
                self.check(g, w, a, "np." + nm, layout=a.kind)
            self.intact(a, nm)
            n += 1
        for nm in UFUNC2:
            for spec in (("fld", case["kind"], "f8"), ("num", "2"), ("num", "1.5")):
                for left in (True, False):
                    a = one()
                    b = self.operand(spec, a)
                    if not left and b.isfld:
                        continue
                    x, y = (a, b) if left else (b, a)
                    self.binary(getattr(np, nm), x, y, "np." + nm)
                    n += 1
        return n

    def do_red(self, one, case):
        red = case["red"]
        n = 0
        a = one()
        d = a.dat
        nd = len(a.m["axes"])
        if d.dtype == bool and red == "ptp":
            return 0
        for how in ("method", "np"):
            for kd in (None, True, False):
                for ax in [None] + list(range(-a.dat.ndim, a.dat.ndim)):
                    if kd is not None and red in ("ptp", "argmax", "argmin"):
                        continue
                    if kd is not None and ax is None:
                        continue
                    a = one()
                    d = a.dat
                    kw = {} if kd is None else {"keepdims": kd}
                    what = "%s(axis=%s%s) %s" % (red, ax, "" if kd is None else ", keepdims=%s" % kd, how)
                    # the axis of the model: components first
                    if ax is None:
                        dax = None
                    else:
                        p = ax % d.ndim
                        dax = p if a.kind != "interlaced" else (0 if p == nd else p + 1)
                    want = getattr(np, red)(d if ax is not None else np.array(a.obj.data), axis=dax)
                    if ax is not None:
                        kw["axis"] = ax
                    got = getattr(a.obj, red)(**kw) if how == "method" else getattr(np, red)(a.obj, **kw)
                    if ax is None:
                        require(np.shape(got) == () and (got == want or abs(got - want) <= 1e-12 * abs(want)),
                                "{0}: {1!r}, want {2!r}", what, got, want)
                    else:
                        axes, nc = list(a.m["axes"]), list(a.m["nc"])
                        off = 0 if a.kind == "scalar" else 1
                        if off and dax == 0:
                            pass       # over the components
                        else:
                            k = dax - off
                            keep = kd if kd is not None else a.kind == "scalar"
                            if keep:
                                want = np.expand_dims(want, dax)
                                nc[k] = nc[k][:2 if a.m["center"] == "cell" else 1]
                            else:
                                axes.pop(k)
                                nc.pop(k)
                        if not axes:
                            continue      # nothing left to be a field
                        self.check(got, want, a, what, axes=axes, nc=nc, layout=a.kind)
                        # and what is it good for
                        if kd is None and a.kind == "scalar" and red in ("mean", "max") and np.size(want) > 1:
                            for func in (operator.sub, operator.mul):
                                if d.dtype == bool and func is operator.sub and red == "max":
                                    continue
                                w = func(d, want)
                                self.check(func(a.obj, got), w, a, "f - f." + what)
                                w = func(want, d)
                                self.check(func(got, a.obj), w, a, what + " - f")
                    self.intact(a, what)
                    n += 1
        return n

    def do_int(self, one, case):
        """integrals"""
        n = 0
        a = one()
        nd = len(a.m["axes"])
        for ax in range(nd):
            for spell in (ax, ax - nd, a.m["axes"][ax]):
                a = one()
                f, d = a.obj, a.dat
                off = 0 if a.kind == "scalar" else 1
                x = a.m["crds"][ax]
                dm = np.moveaxis(d, ax + off, -1)
                parts = 0.5 * (dm[..., 1:] + dm[..., :-1]) * np.diff(x)
                run = np.concatenate([np.zeros(parts.shape[:-1] + (1,)), np.cumsum(parts, axis=-1)], axis=-1)
                want = parts.sum(axis=-1)
                got = f.trapz(spell)
                axes, nc = list(a.m["axes"]), list(a.m["nc"])
                axes.pop(ax)
                nc.pop(ax)
                if axes:
                    self.check(got, want, a, "trapz(%r)" % (spell,), axes=axes, nc=nc, layout=a.kind)
                else:
                    require(fld.same(np.asarray(got), want, 1e-12), "trapz: {0}, want {1}", got, want)
                self.check(f.cumtrapz(spell), np.moveaxis(run, -1, ax + off), a, "cumtrapz(%r)" % (spell,), layout=a.kind)
                self.intact(a, "trapz")
                n += 1
        return n

    def do_expr(self, one, case):
        """(a op b) op c, with a, b, c from the two operands"""
        n = 0
        spec = tuple(case["other"])
        ops = [("+", operator.add), ("*", operator.mul), ("<", operator.lt), ("neg", None)]
        for (s1, f1), (s2, f2), left in itertools.product(ops, ops, (0, 1)):
            for third in (0, 1):
                a = one()
                b = self.operand(spec, a)
                what = "%s %s %s" % (a.kind, s1, b.kind)
                if f1 is None:
                    g = Obj(-a.obj, -a.dat, a.kind, a.m, a.t)
                else:
                    w = f1(a.dat, b.dat)
                    g = Obj(f1(a.obj, b.obj), w, None, a.m, a.t)
                    g.kind = getattr(g.obj, "layout", None)
                if not hasattr(g.obj, "crds") or (g.dat.ndim > len(a.m["axes"]) and set(g.dat.shape[1:]) <= {1, 3}):
                    continue
                g.name = g.obj.name
                if f2 is None:
                    if g.dat.dtype != bool:
                        self.check(-g.obj, -g.dat, g, "-(%s)" % what)
                else:
                    c = a if third == 0 else b
                    x, y = (g, c) if left else (c, g)
                    r = f2(x.obj, y.obj)
                    w = f2(x.dat, y.dat)
                    self.check(r, w, x if x.isfld else y, "%s, then %s" % (what, s2))
                for o in (a, b, g):
                    self.intact(o, "%s, then %s" % (what, s2))
                n += 1
        return n
