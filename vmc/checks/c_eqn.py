"""Equations, options and settings that are given as text"""
import itertools
import json
import os
import sys

import numpy as np

from vmc import boot
from vmc.core import Check, Fail, require

AX = (("x", [-1.0, 0.5, 0.75, 2.0]), ("y", [0.0, 1.0, 4.0]), ("z", [-3.0, -2.0, 0.0, 0.5, 1.0]))
SCA = ("a", "b2", "_c", "e3", "sin", "SALTa")
VEC = ("v", "w")
NUM = ("2", "1.5", "1e3", "2.e1", ".5", "1.E-1", "3.", "1.e1")
ALL = SCA + VEC + NUM[:-1]
BIN = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.divide, "**": np.power, "<": np.less, ">=": np.greater_equal}
# functions of one argument: name -> (of arrays, components first; kind of result: "same", "vec" needed -> ...)
FN1 = {"sqrt": np.sqrt, "abs": np.abs, "exp": np.exp, "sin": np.sin, "log": np.log, "floor": np.floor, "arctan": np.arctan}
FNV = {"magnitude": lambda v: np.sqrt((v ** 2).sum(axis=0)), "normalize": lambda v: v / np.sqrt((v ** 2).sum(axis=0))}
FN2 = {"arctan2": np.arctan2, "maximum": np.maximum, "minimum": np.minimum}
FN2V = {"dot": lambda a, b: (a * b).sum(axis=0), "cross": lambda a, b: np.cross(a, b, axis=0)}
RED = {"max": np.max, "min": np.min, "sum": np.sum, "mean": np.mean}
SLC = (None, "x=1", "y=0:2", "z=-2.0f:0.5f", "x=::2,z=1", "x=:2,y=1:,z=-1")
STRS = ["", "a", "it's", "#", "//", "a # b", "http://x.y/z", ",]", ", }", "\\\"", "\\\\", "\\\\\\\"", "{", "]", "\\u0023", "'", "\\n", "a,", "// ]"]
GAPS = ["", " ", "\n", "\t\n", " # it's\n", "// \"q\n", "#,]\n", " //}\n\n", "# a # b // c\n"]


def tokens(v):
    """tokens of a document; None is where a trailing comma can be"""
    if isinstance(v, dict):
        out = ["{"]
        for i, (k, x) in enumerate(v.items()):
            out += ([","] if i else []) + [k, ":"] + tokens(x)
        return out + ([None] if v else []) + ["}"]
    if isinstance(v, list):
        out = ["["]
        for i, x in enumerate(v):
            out += ([","] if i else []) + tokens(x)
        return out + ([None] if v else []) + ["]"]
    return [v]


class Skip(Exception):
    """what comes out is not said"""


class Text(Check):
    pid = "V27"
    rule = ("every equation up to two operations (functions, reductions, every pair of operands and spelling) over scalars and vectors of every "
            "layout, with and without numexpr, whole and sliced, against arrays; every json document of a family with comments and trailing commas "
            "put at every place; every settings file and option text of a family")
    bounds = {"operations": "1 or 2, nested functions", "fields": "6 scalars, 2 vectors", "documents": "depth 2, 19 strings, 9 gaps at every place"}
    assumptions = ("agreement to rounding", "the sign of remainders, and functions that are not those of arrays or of viscid's calculator, are not judged")

    def setup(self):
        import viscid
        from viscid import grid, vjson, _rc, pyeval
        from viscid.calculator import evaluator
        viscid.logger.setLevel(60)
        self.kept = {}
        self.v, self.grid, self.vjson, self.rc, self.pyeval, self.ev = viscid, grid, vjson, _rc, pyeval, evaluator

    def shards(self, tier):
        out = [("one", c, lay) for c in ("node", "cell") for lay in ("fi", "if", "ii", "ff")]
        out += [("two", op, s) for op in BIN for s in (0, 1)] + [("fun", i) for i in range(4)]
        return out + [("off",), ("json", 0), ("json", 1), ("json", 2), ("rc",), ("py",)]

    def cases(self, shard, tier):
        kind = shard[0]
        if kind == "one":
            for l, r in itertools.product(ALL, repeat=2):
                if l in NUM and r in NUM:
                    continue
                for op in BIN:
                    for ne in (True, False):
                        yield ["eq", shard[1], shard[2], [op, l, r], ne, "tight", None]
            for l in SCA + VEC:
                for f in list(FN1) + (list(FNV) if l in VEC else []) + list(RED) + ["-"]:
                    for ne in (True, False):
                        for sp in ("tight", "loose"):
                            yield ["eq", shard[1], shard[2], [f, l], ne, sp, None]
            for l, r in itertools.product(SCA + VEC + ("2",), repeat=2):
                if (l in VEC) != (r in VEC) or l == r == "2":
                    continue
                for f in (list(FN2) if l not in VEC or l == r or shard[2][0] == shard[2][1] else []) + (list(FN2V) if l in VEC else []):
                    for ne in (True, False):
                        yield ["eq", shard[1], shard[2], [f, l, r], ne, "tight", None]
            for e in (["+", "a", "b2"], ["*", "w", "a"], ["*", "v", "w"], ["sqrt", "a"], ["magnitude", "v"], ["-", "_c"], ["dot", "v", "w"], ["*", "2.e1", "e3"]):
                for sl in SLC:
                    for ne in (True, False):
                        for sp in ("tight", "loose", "parens"):
                            yield ["eq", shard[1], shard[2], e, ne, sp, sl]
        elif kind == "two":
            leaves = ("a", "e3", "v", "w", "2", "1.e1") if tier != "thorough" else ALL
            op, side = shard[1:]
            for inner in BIN:
                for l, m, r in itertools.product(leaves, repeat=3):
                    if all(x in NUM for x in ((l, m) if side == 0 else (m, r))):
                        continue
                    if "**" in (op, inner) and op == inner:
                        continue
                    e = [op, [inner, l, m], r] if side == 0 else [op, l, [inner, m, r]]
                    for ne in (True, False):
                        yield ["eq", "node", "fi", e, ne, "parens" if inner in ("<", ">=") or op in ("<", ">=") else "tight", None]
        elif kind == "fun":
            i = shard[1]
            outer = list(FN1) + list(RED) + ["-"]
            for f in outer[i::4]:
                for g in list(FN1) + ["-"]:
                    for l in ("a", "v", "w", "_c"):
                        for ne in (True, False):
                            yield ["eq", "node", "fi", [f, [g, l]], ne, "loose", None]
                for op in ("+", "*", "/", "-"):
                    for l, r in itertools.product(("a", "v", "w", "2.e1"), repeat=2):
                        if l == r == "2.e1":
                            continue
                        for ne in (True, False):
                            yield ["eq", "node", "fi", [f, [op, l, r]], ne, "tight", None]
                            yield ["eq", "cell", "if", [op, [f, l if l != "2.e1" else "a"], r], ne, "tight", None]
                for g in FN2V:
                    for ne in (True, False):
                        yield ["eq", "node", "fi", [f, [g, "v", "w"]], ne, "tight", None]
        elif kind == "off":
            for e in (["+", "a", "b2"], ["sqrt", "a"], ["magnitude", "v"], ["-", "a"], ["*", "2", "a"]):
                for how in ("grid", "file", "numpy", "numexpr"):
                    for seq in itertools.product((False, True), repeat=3):
                        yield ["off", e, how, list(seq)]
        elif kind == "json":
            docs = []
            for s in STRS:
                q = '"%s"' % s
                docs += [q, [q], {q: "1"}, {'"k"': q}, [q, q], [[q], "-2.5e3"], {'"k"': [q, "null"]}, [{q: "true"}, q]]
            docs += [[], {}, [[]], [{}], ["1", "2", []], {'"a"': {}}, [[[["false"]]]], {'"a"': {'"b"': ["1", {'"c"': "2"}]}}]
            for d in docs[shard[1]::3]:
                t = tokens(d)
                n = len(t) + 1
                for commas in (False, True):
                    for g in GAPS:
                        yield ["json", d, commas, [g] * n]
                        for i in range(n):
                            yield ["json", d, commas, [g if k == i else "" for k in range(n)]]
        elif kind == "rc":
            for yaml in (True, False):
                for text in range(9):
                    for name in ("plain", "env", "home"):
                        yield ["rc", yaml, text, name]
        else:
            leaves = [("1", 1), ("-2.5", -2.5), ("1e3", 1e3), ("true", True), ("TRUE", True), ("True", True), ("false", False), ("none", None), ("None", None),
                      ("text", "text"), ("'q r'", "q r"), ('"#f0f"', "#f0f"), ("x_1", "x_1"), ("nonesuch", "nonesuch"), ("Falsehood", "Falsehood")]
            for a in leaves:
                yield ["py", a[0], a[1]]
                yield ["py", "  %s " % a[0], a[1]]
                for b in leaves:
                    for f, w in (("[%s, %s]", lambda p, q: [p, q]), ("(%s,%s)", lambda p, q: (p, q)), ("{%s: %s}", lambda p, q: {p: q}),
                                 ("[[%s], (%s,)]", lambda p, q: [[p], (q,)]), ("{'k': [%s, {%s: 0}]}", lambda p, q: {"k": [p, {q: 0}]})):
                        yield ["py", f % (a[0], b[0]), repr(w(a[1], b[1])), 1]
            for bad in ("f(1)", "dict(a=1)", "a.b", "a[0]", "[x for x in y]", "lambda: 1", "__import__('os').getcwd()", "1 if a else 2", "a + b"):
                yield ["pybad", bad]

    def run_case(self, case, rec):
        rec.step()
        with np.errstate(all="ignore"):
            return getattr(self, "run_" + case[0])(case[1:], rec)

    # ------------------------------------------------------------ equations
    def make(self, center, lays):
        v = self.v
        crds = v.wrap_crds("nonuniform_cartesian", [(a, np.array(x)) for a, x in AX])
        n = [len(x) - (center == "cell") for _, x in AX]
        g = self.grid.Grid(name="g")
        g.set_crds(crds)
        g.time = 3.5
        arrs = {}
        N = int(np.prod(n))
        for i, s in enumerate(SCA):
            arrs[s] = ((np.arange(N) * (7 + 2 * i) % 31) / 8.0 + 0.25 - (i == 2) * 2.0).reshape(n)
            g.add_field(v.wrap_field(arrs[s].copy(), crds, name=s, center=center, time=3.5))
        for i, s in enumerate(VEC):
            arrs[s] = ((np.arange(3 * N) * (11 + 2 * i) % 37) / 8.0 - 1.125).reshape([3] + n)
            inter = lays[i] == "i"
            d = np.ascontiguousarray(np.moveaxis(arrs[s], 0, -1)) if inter else arrs[s].copy()
            g.add_field(v.wrap_field(d, crds, name=s, center=center, fldtype="vector", layout="interlaced" if inter else "flat", time=3.5))
        return g, arrs

    def text(self, e, sp, top=True):
        if isinstance(e, str):
            return e
        f, args = e[0], [self.text(x, sp, False) for x in e[1:]]
        if f in BIN and len(args) == 2:
            gap = " " if sp != "tight" else ""
            s = gap.join((args[0], f, args[1]))
            return s if top and sp != "parens" else "(" + s + ")"
        if f == "-":
            return "-%s" % args[0] if top and sp != "parens" else "(-%s)" % args[0]
        return f + {"tight": "(", "loose": " ( ", "parens": "(("}[sp if len(args) == 1 or sp != "parens" else "tight"] + \
            {"tight": ",", "loose": " , ", "parens": ","}[sp].join(args) + {"tight": ")", "loose": " )", "parens": "))"}[sp if len(args) == 1 or sp != "parens" else "tight"]

    def value(self, e, arrs):
        """-> (array with components first, is it a vector, is it one number)"""
        if isinstance(e, str):
            if e in NUM:
                return float(e), False, True
            return arrs[e], e in VEC, False
        f = e[0]
        a = [self.value(x, arrs) for x in e[1:]]
        if f == "-" and len(a) == 1:
            return -a[0][0], a[0][1], a[0][2]
        if f in RED:
            if a[0][2]:
                raise KeyError("reduction of a number")
            if np.isnan(a[0][0]).any():
                raise Skip()
            return RED[f](a[0][0]), False, True
        one = all(x[2] for x in a)
        vec = any(x[1] for x in a)
        if f in BIN or f in FN2:
            return (BIN[f] if f in BIN else FN2[f])(a[0][0], a[1][0]), vec, one
        if f in FN1:
            return FN1[f](a[0][0]), vec, one
        if not all(x[1] for x in a):
            raise KeyError("no vector")
        return (FNV[f] if f in FNV else FN2V[f])(*[x[0] for x in a]), f in ("normalize", "cross"), False

    @staticmethod
    def comps(f):
        """data with components first"""
        d = np.asarray(f.data)
        return np.moveaxis(d, -1, 0) if f.nr_comps and f.layout == "interlaced" else d

    def run_eq(self, case, rec):
        center, lays, e, ne, sp, slc = case
        # the same grid as long as it is as it was
        if (center, lays) not in self.kept:
            self.kept[(center, lays)] = self.make(center, lays)
        g, arrs = self.kept.pop((center, lays))
        txt = self.text(e, sp)
        rec.state((center, lays, txt, ne, slc))
        try:
            want, vec, one = self.value(e, arrs)
        except Skip:
            return "nan reduced"
        self.ev.enabled = True
        had = self.ev._has_numexpr
        try:
            kw = {} if slc is None else {"slc": slc}
            if ne:
                if "<" in txt or ">" in txt:   # the sign of equality ends the name
                    r = self.ev.evaluate(g, "res", txt, **kw)
                elif sp == "tight" and slc is None:
                    r = g["res=" + txt]
                else:
                    r = g.get_field(" res = " + txt, **kw)
            else:
                r = self.ev.evaluate(g, "res", txt, try_numexpr=False, **kw)
        finally:
            self.ev.enabled = False
            self.ev._has_numexpr = had
        for n in SCA + VEC:
            got = self.comps(g[n])
            require(np.array_equal(np.asarray(got), arrs[n]), "{0} changed {1}", txt, n)
        self.kept[(center, lays)] = g, arrs
        if one:
            require(not hasattr(r, "crds") and np.ndim(r) == 0 and np.allclose(r, want, rtol=1e-9, equal_nan=True), "{0} is {1}, want {2}", txt, r, want)
            return "number"
        require(isinstance(r, self.v.field.Field), "{0} is no field but {1}", txt, type(r).__name__)
        # where: as a field with these values
        ref = self.v.wrap_field(np.array(want, dtype="f8"), g["a"].crds, name="res", center=center, fldtype="vector" if vec else "scalar",
                                layout="flat" if vec else None) if vec else self.v.wrap_field(np.array(want, dtype="f8"), g["a"].crds, name="res", center=center)
        if slc is not None:
            ref = ref.slice_and_keep(slc)
        require(r.name == "res" and r.pretty_name == "res", "{0}: named {1}, {2}", txt, r.name, r.pretty_name)
        require(r.center.lower() == center, "{0}: center {1}", txt, r.center)
        require(bool(r.nr_comps) == vec, "{0}: {1} components", txt, r.nr_comps)
        require(r.time == 3.5, "{0}: time {1}", txt, r.time)
        require(list(r.crds.axes) == list(ref.crds.axes), "{0}: axes {1}", txt, r.crds.axes)
        for ax in ref.crds.axes:
            require(np.array_equal(r.get_crd(ax), ref.get_crd(ax)), "{0}: {1} is {2}, want {3}", txt, ax, r.get_crd(ax), ref.get_crd(ax))
        for p, q in ((self.comps(r), self.comps(ref)),):
            require(p.shape == q.shape and np.allclose(p, q, rtol=1e-9, atol=1e-12, equal_nan=True), "{0} ({1}) is {2}, want {3}", txt, lays, p.ravel()[:6].tolist(),
                    q.ravel()[:6].tolist())
        return "vector" if vec else "scalar"

    def run_off(self, case, rec):
        e, how, seq = case
        g, arrs = self.make("node", "ff")
        txt = self.text(e, "tight")
        want, vec, one = self.value(e, arrs)
        d = self.v.dataset.Dataset(g)
        try:
            for on in seq:
                self.ev.enabled = on
                try:
                    if how == "grid":
                        r = g["r = " + txt]
                    elif how == "file":
                        r = d["r = " + txt]
                    else:
                        r = self.ev.evaluate(g, "r", txt, try_numexpr=how == "numexpr")
                except RuntimeError:
                    require(not on, "{0} refused while enabled", txt)
                    continue
                require(on, "{0} evaluated while the evaluator is not enabled", txt)
                require(np.allclose(np.asarray(r.data), want), "{0} is {1}", txt, r.data)
        finally:
            self.ev.enabled = False
        return "off"

    # ----------------------------------------------------------------- text
    def run_json(self, case, rec):
        doc, commas, gaps = case
        t = tokens(doc)
        plain = "".join(x for x in t if x is not None)
        txt = gaps[0]
        for x, gap in zip(t, gaps[1:]):
            txt += ("," if commas else "") if x is None else x
            txt += gap
        want = json.loads(plain)
        rec.state(txt)
        try:
            got = self.vjson.loads(txt)
        except ValueError as ex:
            raise Fail("{0!r} is refused: {1}".format(txt, ex))
        require(got == want and repr(got) == repr(want), "{0!r} is {1!r}, not {2!r}", txt, got, want)
        require(self.vjson.loads(self.vjson.dumps(want)) == want, "dumps and loads of {0!r}", want)
        return "json"

    RC = ["calculator.evaluator.enabled: true\nlogger.vmc_a: 7\n", "# nothing\n", "", "calculator.evaluator.vmc_b: [1, 'x']\nreaders.openggcm.GGCMFile.vmc_c: text\n",
          "nothing.like.this: 1\nlogger.vmc_a: 2\n", "calculator.evaluator.nothing.vmc_a: 1\ncalculator.evaluator.vmc_b: null\n", "logger.vmc_a: {k: 1}\n",
          None, "calculator.evaluator.vmc_b: 1\ncalculator.evaluator.vmc_b2: -2.5\n"]
    RCJ = ['{"calculator.evaluator.enabled": true, # yes\n"logger.vmc_a": 7,\n}', "{}", "{ // nothing\n}",
           '{"calculator.evaluator.vmc_b": [1, "x",], "readers.openggcm.GGCMFile.vmc_c": "text"}', '{"nothing.like.this": 1, "logger.vmc_a": 2}',
           '{"calculator.evaluator.nothing.vmc_a": 1, "calculator.evaluator.vmc_b": null}', '{"logger.vmc_a": {"k": 1}}', None,
           '{"calculator.evaluator.vmc_b": 1,\n// two\n"calculator.evaluator.vmc_b2": -2.5}']
    RCW = [{"calculator.evaluator.enabled": True, "logger.vmc_a": 7}, {}, {}, {"calculator.evaluator.vmc_b": [1, "x"], "readers.openggcm.GGCMFile.vmc_c": "text"},
           {"logger.vmc_a": 2}, {"calculator.evaluator.vmc_b": None}, {"logger.vmc_a": {"k": 1}}, {},
           {"calculator.evaluator.vmc_b": 1, "calculator.evaluator.vmc_b2": -2.5}]
    TOUCH = ("calculator.evaluator.enabled", "logger.vmc_a", "calculator.evaluator.vmc_a", "calculator.evaluator.vmc_b", "calculator.evaluator.vmc_b2",
             "readers.openggcm.GGCMFile.vmc_c")

    def at(self, path):
        o = self.v
        for p in path.split(".")[:-1]:
            o = getattr(o, p)
        return o, path.split(".")[-1]

    def run_rc(self, case, rec):
        yaml, k, name = case
        have = True
        if yaml:
            try:
                import yaml as _  # noqa
            except ImportError:
                have = False
        if not have:
            return "no yaml"
        d = os.path.join(boot.scratch(), "rc%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "rc%d" % k)
        txt = (self.RC if yaml else self.RCJ)[k]
        if txt is not None:
            with open(fn, "w") as f:
                f.write(txt)
        elif os.path.exists(fn):
            os.remove(fn)
        arg = {"plain": fn, "env": "$VMC_RC/rc%d" % k, "home": "~/rc%d" % k}[name]
        keep = {}
        import viscid.readers.openggcm  # noqa
        for p in self.TOUCH:
            o, a = self.at(p)
            keep[p] = o.__dict__.get(a, "absent")
        old_env = {e: os.environ.get(e) for e in ("VMC_RC", "HOME")}
        os.environ["VMC_RC"] = os.environ["HOME"] = d
        mod = sys.modules.get("yaml", "absent")
        if not yaml:
            sys.modules["yaml"] = None
        try:
            self.rc.load_rc_file(arg)
            for p in self.TOUCH:
                o, a = self.at(p)
                got = o.__dict__.get(a, "absent")
                want = self.RCW[k].get(p, keep[p])
                require(got == want and type(got) == type(want), "{0!r} sets {1} to {2!r}, want {3!r}", txt, p, got, want)
        finally:
            if not yaml:
                if mod == "absent":
                    sys.modules.pop("yaml", None)
                else:
                    sys.modules["yaml"] = mod
            for e, x in old_env.items():
                if x is None:
                    os.environ.pop(e, None)
                else:
                    os.environ[e] = x
            for p, x in keep.items():
                o, a = self.at(p)
                if x == "absent":
                    if a in o.__dict__:
                        delattr(o, a)
                else:
                    setattr(o, a, x)
        return "rc"

    def run_py(self, case, rec):
        import ast
        txt, want = case[:2]
        if len(case) > 2:
            want = ast.literal_eval(want)
        got = self.pyeval.parse(txt)
        require(got == want and repr(got) == repr(want), "{0!r} is {1!r}, not {2!r}", txt, got, want)
        return "py"

    def run_pybad(self, case, rec):
        try:
            got = self.pyeval.parse(case[0])
        except self.pyeval.PyEvalError:
            return "refused"
        raise Fail("{0!r} is {1!r}".format(case[0], got))
