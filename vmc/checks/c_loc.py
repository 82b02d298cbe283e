"""Selections by location"""
import itertools
import numpy as np

from vmc import fld
from vmc.core import Check, Fail, require


def pick(x, a, b, step, tol):
    """indices (into ascending x) of the documented region.  a, b: ("v", value) | ("i", index) | None"""
    n = len(x)
    up = step > 0
    idx = list(range(n)) if up else list(range(n - 1, -1, -1))

    def ok_start(i):
        if a is None:
            return True
        if a[0] == "v":
            return x[i] >= a[1] - tol if up else x[i] <= a[1] + tol
        k = a[1] + n if a[1] < 0 else a[1]
        return i >= k if up else i <= k

    def ok_stop(i):
        if b is None:
            return True
        if b[0] == "v":
            return x[i] <= b[1] + tol if up else x[i] >= b[1] - tol
        k = b[1] + n if b[1] < 0 else b[1]
        return i < k if up else i > k
    return [i for i in idx if ok_start(i) and ok_stop(i)][::abs(step)]


def points(x):
    """every kind of place relative to the coordinates x: before, on, between (nearer to either side), past"""
    d = x[1] - x[0] if len(x) > 1 else 1.0
    out = [x[0] - 20.0 * d, x[0] - 0.4 * d]
    for k in range(len(x)):
        out.append(x[k])
        if k + 1 < len(x):
            out += [x[k] + 0.3 * (x[k + 1] - x[k]), x[k] + 0.6 * (x[k + 1] - x[k]),
                    x[k] + 0.01 * (x[k + 1] - x[k]), x[k] + 0.99 * (x[k + 1] - x[k])]
    return out + [x[-1] + 0.4 * d, x[-1] + 20.0 * d]


def nearest_ok(x, v, i):
    dist = abs(x - v)
    return bool(dist[i] <= dist.min() * (1 + 1e-9))


class LocationSelect(Check):
    pid = "V05"
    rule = ("exhaustive: every ordered pair of endpoints out of {absent, an index, every place before / on / between / "
            "past the coordinates}, every step in the menu, every spelling; every single location and every list of two; "
            "uniform, non-uniform, date and timedelta axes, node and cell centred, and pairs of axes in 2-D")
    bounds = {"axis points": "2..4 (thorough 5)", "steps": "absent, 1, 2, 3, -1, -2"}
    assumptions = ("coordinates ascend", "places are not within rounding distance of, but different from, a coordinate",
                   "empty regions are not constrained", "equally near locations: either neighbour is accepted")

    def setup(self):
        import viscid
        self.viscid = viscid
        self._cache = {}

    def get(self, n, kind, center, layout=None, shape=None):
        key = (n, kind, center, layout, shape)
        if key not in self._cache:
            if shape is None:
                shape = (n,) if layout is None else (n, 2)
            self._cache[key] = fld.make(shape, kind + "nn", center, layout)
        return self._cache[key]

    def shards(self, tier):
        ns = (2, 3, 4, 5) if tier == "thorough" else (2, 3, 4)
        out = [("slice", n, kind, center, layout) for n in ns for kind in "un" for center in ("node", "cell")
               for layout in ((None, "flat", "interlaced") if n == 4 else (None,))]
        out += [("slice", 4, kind, center, None) for kind in "vwopq" for center in ("node", "cell")]
        out += [("date", n, kind, center) for n in (2, 4) for kind in "dt" for center in ("node", "cell")]
        out += [("single", n, kind, center) for n in ns for kind in "undt" for center in ("node", "cell")]
        out += [("single", 3, kind, center) for kind in "vwopq" for center in ("node", "cell")]
        out += [("2d", k, center) for k in "un" for center in ("node", "cell")]
        return out

    def cases(self, shard, tier):
        kind0 = shard[0]
        if kind0 == "slice":
            _, n, kind, center, layout = shard
            _, m = self.get(n, kind, center, layout)
            x = m["crds"][0]
            ends = [None] + [("v", float(v)) for v in points(x)] + [("i", k) for k in (0, 1, -1, n - 1)]
            for a, b in itertools.product(ends, ends):
                for step in (None, 1, 2, 3, -1, -2):
                    isv = [e for e in (a, b) if e is not None and e[0] == "v"]
                    if not isv:
                        continue
                    allv = all(e is None or e[0] == "v" for e in (a, b))
                    for syn in ("j", "strj", "strf", "named") + (("loc",) if allv else ()):
                        if layout is not None and syn in ("strf",):
                            continue
                        yield dict(kind=kind0, n=n, ax=kind, center=center, layout=layout, a=a, b=b, step=step, syn=syn)
        elif kind0 == "date":
            _, n, kind, center = shard
            _, m = self.get(n, kind, center)
            x = m["crds"][0]
            secs = [-30, -1, 0, 1, 4, 11, 12, 17, 24, 25, 39, 40, 60]
            rel = ((x - x[0]).astype("m8[us]").astype(int)).tolist()
            ends = [None] + [int(s * 1000000) for s in secs] + rel
            for a, b in itertools.product(ends, ends):
                if a is None and b is None:
                    continue
                for step in (None, 2, -1):
                    for syn in ("np", "str", "whole") + (("sec",) if kind == "d" else ()):
                        yield dict(kind=kind0, n=n, ax=kind, center=center, a=a, b=b, step=step, syn=syn)
        elif kind0 == "single":
            _, n, kind, center = shard
            _, m = self.get(n, kind, center)
            x = m["crds"][0]
            if kind not in "dt":
                vals = [float(v) for v in points(x)]
                for v in vals:
                    for syn in ("j", "strj", "strf", "named", "loc"):
                        yield dict(kind=kind0, n=n, ax=kind, center=center, v=[v], syn=syn)
                for v in itertools.product(vals, repeat=2):
                    for syn in ("list", "strlist", "nparr", "loclist"):
                        yield dict(kind=kind0, n=n, ax=kind, center=center, v=list(v), syn=syn)
            else:
                for s in (-30, 0, 1, 4, 6, 11, 18, 24, 33, 60):
                    for syn in ("np", "str"):
                        yield dict(kind=kind0, n=n, ax=kind, center=center, v=[s * 1000000], syn=syn)
        else:
            _, kind, center = shard
            _, m = self.get(0, kind, center, None, (3, 4))
            p0, p1 = points(m["crds"][0]), points(m["crds"][1])
            e0 = [None] + [("v", float(v)) for v in p0[::2]]
            e1 = [None] + [("v", float(v)) for v in p1[::2]] + [("i", 1)]
            for a0, b0, a1, b1 in itertools.product(e0, e0, e1, e1):
                for s0, s1 in ((1, 1), (-1, 2)):
                    yield dict(kind=kind0, ax=kind, center=center, sel=[[a0, b0, s0], [a1, b1, s1]])

    @staticmethod
    def _endtxt(e, suf):
        return "" if e is None else (repr(e[1]) + suf if e[0] == "v" else str(e[1]))

    def _check(self, f, m, r, inds, what, extra_axes=()):
        items = [("a", list(i)) for i in inds]
        ex = fld.expect(m, items)
        if ex is None:
            return "empty region: unconstrained"
        for c in ex["cells"]:
            pass
        return fld.check_result(r, ex, m, what)

    def run_case(self, case, rec):
        rec.step()
        kind0 = case["kind"]
        if kind0 == "slice":
            f, m = self.get(case["n"], case["ax"], case["center"], case["layout"])
            x = m["crds"][0]
            a, b, step, syn = case["a"], case["b"], case["step"], case["syn"]
            tol = 1e-6 * float(np.min(np.diff(x)))
            inds = pick(x, a, b, step or 1, tol)
            if not inds:
                return "empty region: unconstrained"
            if syn == "j":
                sel = slice(*[None if e is None else (1j * e[1] if e[0] == "v" else e[1]) for e in (a, b)] + [step])
            elif syn == "loc":
                sel = slice(a and a[1], b and b[1], step)
            else:
                suf = "f" if syn == "strf" else "j"
                sel = self._endtxt(a, suf) + ":" + self._endtxt(b, suf) + ("" if step is None else ":%d" % step)
                if syn == "named":
                    sel = "x = " + sel
            rec.state((case["n"], case["ax"], case["center"], case["layout"], syn, repr(sel)))
            r = f.loc[sel] if syn == "loc" else f[sel]
            return self._check(f, m, r, [inds], "f%s[%r]" % (".loc" if syn == "loc" else "", sel))
        if kind0 == "date":
            f, m = self.get(case["n"], case["ax"], case["center"])
            x = m["crds"][0]
            us = np.timedelta64(1, "us")
            val = lambda e: None if e is None else (x[0] + e * us)
            rel = [int(v) for v in (x - x[0]).astype("m8[us]").astype(int)]
            inds = pick(rel, case["a"] is not None and ("v", case["a"]) or None,
                        case["b"] is not None and ("v", case["b"]) or None, case["step"] or 1, 0)
            if not inds:
                return "empty region: unconstrained"
            syn = case["syn"]
            if syn == "np":
                sel = slice(val(case["a"]), val(case["b"]), case["step"])
            elif syn == "sec":
                sel = slice(*[None if e is None else 1j * (e / 1e6) for e in (case["a"], case["b"])] + [case["step"]])
            else:
                txt = [None if e is None else self._time_text(val(e)) for e in (case["a"], case["b"])]
                if any(t is not None and "-" in t and case["ax"] == "t" for t in txt):
                    return "negative delta has no spelling"
                if syn == "str":
                    sel = slice(txt[0], txt[1], case["step"])
                else:
                    sel = "x = " + (txt[0] or "") + ":" + (txt[1] or "") + \
                          ("" if case["step"] is None else ":%d" % case["step"])
            rec.state((case["n"], case["ax"], case["center"], repr(sel)))
            return self._check(f, m, f[sel], [inds], "f[%r]" % (sel,))
        if kind0 == "single":
            f, m = self.get(case["n"], case["ax"], case["center"])
            x = m["crds"][0]
            v, syn = case["v"], case["syn"]
            if case["ax"] in "dt":
                loc = x[0] + v[0] * np.timedelta64(1, "us")
                if syn == "str":
                    sel = self._time_text(loc)
                    if "-" in sel and case["ax"] == "t":
                        return "negative delta has no spelling"
                else:
                    sel = loc
                rec.state((case["n"], case["ax"], case["center"], repr(sel)))
                got = int(f[sel])
                d = np.abs((x - loc).astype("m8[us]").astype(int))
                require(d[got - 1] == d.min(), "f[{0!r}] took element {1} at {2}; coordinates {3}", sel, got - 1,
                        x[got - 1], fld.short(x))
                return "nearest time"
            if syn in ("list", "nparr", "strlist", "loclist"):
                sel = {"list": [1j * q for q in v], "nparr": 1j * np.array(v), "loclist": list(v),
                       "strlist": "[" + ", ".join(repr(q) + "j" for q in v) + "]"}[syn]
                r = f.loc[sel] if syn == "loclist" else f[sel]
                got = [int(q) - 1 for q in np.asarray(r.data)]
                require(len(got) == len(v) and all(nearest_ok(x, q, i) for q, i in zip(v, got)),
                        "f[{0!r}] took elements {1}; coordinates {2}", sel, got, fld.short(x))
                require(fld.same(r.get_crd("x"), x[got], 1e-9, m["scale"]), "f[{0!r}]: coordinates {1}, want {2}", sel,
                        fld.short(r.get_crd("x")), fld.short(x[got]))
            else:
                q = v[0]
                sel = {"j": 1j * q, "strj": repr(q) + "j", "strf": repr(q) + "f", "named": "x = %rj" % q,
                       "loc": q}[syn]
                got = int(f.loc[sel] if syn == "loc" else f[sel]) - 1
                require(nearest_ok(x, q, got), "f[{0!r}] took element {1} at {2}; coordinates {3}", sel, got, x[got],
                        fld.short(x))
            rec.state((case["n"], case["ax"], case["center"], syn, repr(sel)))
            return "nearest"
        f, m = self.get(0, case["ax"], case["center"], None, (3, 4))
        sels, inds = [], []
        for (a, b, s), x in zip(case["sel"], m["crds"]):
            inds.append(pick(x, a, b, s, 1e-6))
            sels.append(slice(*[None if e is None else (1j * e[1] if e[0] == "v" else e[1]) for e in (a, b)] + [s]))
        if not all(inds):
            return "empty region: unconstrained"
        rec.state((case["ax"], case["center"], repr(sels)))
        return self._check(f, m, f[tuple(sels)], inds, "f[%r]" % (tuple(sels),))

    @staticmethod
    def _time_text(t):
        if isinstance(t, np.datetime64):
            return "UT" + str(t.astype("M8[us]"))
        us = int(t.astype("m8[us]").astype(int))
        if us < 0:
            return "-"
        return "T{0:02d}:{1:02d}:{2:02d}.{3:06d}".format(us // 3600000000, us // 60000000 % 60, us // 1000000 % 60,
                                                         us % 1000000)
