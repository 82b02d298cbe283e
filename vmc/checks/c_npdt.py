"""Times: conversions, units, sums and differences, rounding, formats"""
import datetime
import itertools
from fractions import Fraction as Fr

import numpy as np

from vmc.core import Check, Fail, require

SEC = dict([("as", Fr(1, 10**18)), ("fs", Fr(1, 10**15)), ("ps", Fr(1, 10**12)), ("ns", Fr(1, 10**9)), ("us", Fr(1, 10**6)), ("ms", Fr(1, 1000)), ("s", Fr(1)),
            ("m", Fr(60)), ("h", Fr(3600)), ("D", Fr(86400)), ("W", Fr(7 * 86400))])
UNITS = ("as", "fs", "ps", "ns", "us", "ms", "s", "m", "h", "D", "W", "M", "Y")
EPOCH = datetime.datetime(1970, 1, 1)
DATES = ("1970-01-01T00:00:00", "1970-01-01T00:00:00.000001", "1970-01-01T00:00:05.25", "1969-12-31T23:59:59.5", "2010-06-21T00:00:00", "2010-06-21T13:07:09.123456", "2000-02-29T23:59:59.999999",
         "1967-01-01T00:00:00", "1900-03-01T12:00:00", "2261-12-31T23:00:00", "1700-01-01T00:00:01", "2014-12-15T03:00:00.000300")
D64 = (("1970-01-01", "as"), ("1970-01-01", "Y"), ("1970-01-01T00:00:05", "s"), ("1970-01-01T00:00:09", "as"), ("1969-12-31T23:59:59", "fs"), ("2010-06-21", "D"), ("2010-06", "M"), ("2010-06-21T00:00:00.5", "ns"),
       ("2010-06-21T13:07", "m"), ("2300-01-01", "D"), ("1600-01-01T01", "h"), ("2014-12-15T03:00:00.000300", "us"), ("2262-04-01", "ns"), ("1677-10-01T00:00:00", "ns"), ("1970-02-01", "ps"))
T64 = ((0, "s"), (1, "as"), (1536, "as"), (-1, "ns"), (121, "us"), (-1600, "ms"), (60, "m"), (5, "s"), (7, "D"), (200000, "D"), (9 * 10**18, "as"), (-(2**62), "ns"), (3, "W"), (9223372036, "s"))
MAX = 2**63


def exact(t):
    """a datetime64 or timedelta64 as an exact number of seconds (since 1970)"""
    name = t.dtype.name
    u = name[name.index("[") + 1:-1]
    if u in ("M", "Y"):
        if t.dtype.kind == "m":
            raise ValueError(name)
        n = int(t.astype("i8"))
        y, m = (1970 + n, 1) if u == "Y" else (1970 + n // 12, n % 12 + 1)
        return Fr((datetime.datetime(y, m, 1) - EPOCH).days * 86400)
    return int(t.astype("i8")) * SEC[u]


def unit(t):
    name = t.dtype.name
    return name[name.index("[") + 1:-1]


def pyexact(d):
    x = d - EPOCH if isinstance(d, datetime.datetime) else d
    return Fr(x.days * 86400 + x.seconds) + Fr(x.microseconds, 10**6)


def parse(s):
    for f in ("%Y-%m-%dT%H:%M:%S.%f", "%Y-%m-%dT%H:%M:%S"):
        try:
            return datetime.datetime.strptime(s, f)
        except ValueError:
            pass
    raise ValueError(s)


class NpDatetime(Check):
    pid = "V19"
    rule = ("every conversion of dates and durations in every form and unit, every list of up to two (three in the thorough tier) times from a menu with every option of regularizing, rounding, summing and subtracting, "
            "every format, against exact rational arithmetic")
    bounds = {"dates": len(DATES) + len(D64), "durations": len(T64), "units": len(UNITS), "times in a list": "1..2 (3)"}
    assumptions = ("rounding to a coarser unit may go either way by less than one unit", "numbers that look like years (2010 as a string) are ambiguous and not judged",
                   "times that numpy itself can not hold are not judged")

    def setup(self):
        import viscid
        from viscid import npdatetime
        self.v, self.n = viscid, npdatetime

    def shards(self, tier):
        return ([("dt", i) for i in range(len(DATES))] + [("num", None), ("hms", None), ("lin", None), ("fmt", None), ("like", None), ("secs", None), ("node", None)]
                + [("reg", i) for i in range(len(D64) + len(T64))] + [("sum", i) for i in range(len(D64))])

    def cases(self, shard, tier):
        kind, i = shard
        big = tier != "quick"
        N = range(len(D64) + len(T64))
        if kind == "dt":
            for form in ("iso", "space", "ut", "colons", "datetime", "dt64", "td64", "timedelta", "np.str"):
                for u in (None,) + UNITS:
                    for box in ("one", "list", "tuple", "array"):
                        yield ("dt", i, form, u, box)
        elif kind == "num":
            for x in (0, 1, -1, 60, 90015, 10**12, 0.0, 1.0, 1.5, -2.25, 0.1, 1e-3, 1e-9, 3e-15, 1.0 / 3.0, 1e5 + 0.5, 1e8 + 0.5, 1e7 + 0.9, 1e9 + 0.25, 1234.56789, 0.1 + 0.2, 59.999999, 1e-7, 8.2e6):
                for typ in ("py", "f8", "f4", "i8", "str"):
                    for u in (None, "fs", "ns", "us", "ms", "s", "m", "h", "D", "W"):
                        for box in ("one", "list", "array"):
                            yield ("num", x, typ, u, box)
        elif kind == "hms":
            for h, m, s in itertools.product((None, 0, 1, 25), (None, 0, 2, 61), (0, 3, 59.5, 0.001, 75.25)):
                if h is None or m is not None:
                    for pre in ("", "T"):
                        yield ("hms", h, m, s, pre)
        elif kind == "reg":
            n = 3 if big else 2
            for rest in itertools.chain(*[itertools.product(N, repeat=k) for k in range(2)]):
                for u in (None,) + (UNITS[:11] if len(rest) < 1 or big else ("as", "ns", "us", "s", "h", "D")):
                    for mp, ar, a0 in itertools.product((False, True), repeat=3):
                        yield ("reg", (i,) + rest, u, mp, ar, a0)
                for u in UNITS[:11]:
                    for a0 in (True, False):
                        yield ("round", (i,) + rest, u, a0)
            if n == 3:
                for rest in itertools.product(N, repeat=2):
                    for mp, ar, a0 in itertools.product((False, True), repeat=3):
                        yield ("reg", (i,) + rest, None, mp, ar, a0)
        elif kind == "sum":
            for j in range(len(T64)):
                for u in (None, "as", "ns", "s", "D"):
                    for mp, ar, a0 in itertools.product((False, True), repeat=3):
                        yield ("sum", i, j, u, mp, ar, a0)
            for j in range(len(D64)):
                for u in (None, "as", "ns", "s", "D"):
                    for mp in (False, True):
                        yield ("diff", i, j, u, mp)
            for form in ("list", "array"):
                for j in range(len(T64)):
                    yield ("vecsum", i, j, form)
        elif kind == "lin":
            for a, b in itertools.product(range(len(D64)), repeat=2):
                for n in (1, 2, 3, 5, 8):
                    for e in (True, False):
                        yield ("lin", a, b, n, e, None)
                        if n == 3:
                            for u in ("s", "us"):
                                yield ("lin", a, b, n, e, u)
        elif kind == "secs":
            for j in N:
                for d in (0, 1, 2, 3, 6):
                    for u in (None, "ms", "us"):
                        yield ("secs", j, d, u)
            for x in (1.26, 2.5, -1.04, 12.999):
                for d in (0, 1, 2):
                    for form in ("num", "td", "dt", "list"):
                        yield ("secnum", x, d, form)
            for j in range(len(DATES)):
                yield ("years", j)
            for y in range(1940, 2051):
                for md in ("-01-01", "-12-31", "-07-02T12:00"):
                    yield ("year", "{0}{1}".format(y, md))
        elif kind == "fmt":
            for s in (0.0, 900.0, 90015.0, 59.0, 59.96, 59.994, 59.999, 3599.99, 86399.999, 86400.0, 2 * 86400 + 1.5, 1.25, 0.125, 1234567.0, 100 * 3600.0):
                for f in ("hms", "hmss", "dhms", "dhmss", ".02f", ".0f", "%H:%M:%S", "%H:%M:%S.%1f", "%H:%M:%S.%.2f", "%Y-%m-%d %H:%M:%S.%.3f", "%M:%S.%f", "%Y-%m-%d"):
                    for form in ("num", "td", "td64", "date", "base"):
                        yield ("fmt", s, f, form)
        elif kind == "like":
            for k in range(len(self.likes())):
                yield ("like", k)
        elif kind == "node":
            for j in range(len(DATES)):
                for t in (0, 0.5, 3600, 1e5 + 0.25, -2.5, 0.1):
                    yield ("node", j, t)

    # ------------------------------------------------------------ helpers
    def item(self, i):
        if i < len(D64):
            s, u = D64[i]
            return np.datetime64(s, u)
        n, u = T64[i - len(D64)]
        return np.timedelta64(n, u)

    def run_case(self, case, rec):
        rec.step()
        rec.state(case[:2])
        self.rec = rec
        with np.errstate(all="ignore"):
            return getattr(self, "run_" + case[0])(case)

    @staticmethod
    def fits(x, u):
        if u in ("M", "Y"):
            return True
        n = x / SEC[u]
        return abs(n) < MAX

    def close(self, what, got, want, tol=Fr(0)):
        require(isinstance(got, (np.datetime64, np.timedelta64)), "{0} is {1!r}", what, got)
        require(not np.isnat(got), "{0} is not a time", what)
        x = exact(got)
        require(abs(x - want) <= tol if tol == 0 else abs(x - want) < tol, "{0} is {1!r}, off by {2} s", what, got, float(x - want))

    def same_unit(self, u):
        return 28 * SEC["D"] if u == "M" else 365 * SEC["D"] if u == "Y" else SEC[u]

    # ------------------------------------------------------------ dates
    def run_dt(self, case):
        _, i, form, u, box = case
        n = self.n
        d = parse(DATES[i])
        x = pyexact(d)
        if form == "iso" or form == "np.str":
            t = d.isoformat()
            t = np.str_(t) if form == "np.str" else t
        elif form == "space":
            t = "  " + d.isoformat(" ")
        elif form == "ut":
            t = "UT " + d.isoformat()
        elif form == "colons":
            t = "{0:%Y:%m:%d:%H:%M}:{1}{2}".format(d, d.second if d.microsecond else "%02d" % d.second, ".%06d" % d.microsecond if d.microsecond else "")
        elif form == "datetime":
            t = d
        elif form == "dt64":
            t = np.datetime64(d, "us")
        elif form == "td64":
            t = np.timedelta64(d - EPOCH, "us")
        else:
            t = d - EPOCH
        if form in ("td64", "timedelta") and u in ("M", "Y"):
            return "none"
        if u and not self.fits(x, u):
            return "none"
        if box == "array":
            if form in ("space", "ut", "colons", "td64", "timedelta"):
                return "none"
            arg = np.array([t, t])
        else:
            arg = t if box == "one" else [t, t] if box == "list" else (t, t)
        r = n.as_datetime64(arg, unit=u)
        if box != "one":
            require(isinstance(r, np.ndarray) and r.shape == (2,), "as_datetime64 of {0} is {1!r}", arg, r)
            require(r[0] == r[1], "{0} are different", r)
            r = r[0]
        require(isinstance(r, np.datetime64), "as_datetime64({0!r}) is {1!r}", arg, r)
        if u:
            require(unit(r) == u, "unit is {0}, not {1}", unit(r), u)
            tol = {"M": 31 * SEC["D"], "Y": 366 * SEC["D"]}.get(u) or SEC[u]
            self.close("as_datetime64({0!r}, {1})".format(arg, u), r, x, tol if (x % tol if u not in "MY" else True) else Fr(0))
            require(exact(r) <= x or form in ("td64", "timedelta"), "as_datetime64({0!r}, {1}) is later", arg, u)
            return "dt"
        self.close("as_datetime64({0!r})".format(arg), r, x)
        # other types
        p = n.as_datetime(arg)
        p = p if box == "one" else p[0]
        require(type(p) is datetime.datetime and p == d, "as_datetime({0!r}) is {1!r}", arg, p)
        if form in ("datetime", "dt64", "td64", "timedelta") and box != "array":
            q = n.as_timedelta(arg)
            q = q if box == "one" else q[0]
            require(isinstance(q, datetime.timedelta) and q.total_seconds() == (d - EPOCH).total_seconds(), "as_timedelta({0!r}) is {1!r}", arg, q)
            w = n.as_timedelta64(arg)
            self.close("as_timedelta64", w if box == "one" else w[0], x)
        if isinstance(t, str):
            s = n.as_isotime(arg)
            s = s if box == "one" else s[0]
            require(exact(np.datetime64(s)) == x, "as_isotime({0!r}) is {1!r}", arg, s)
        require(n.is_valid_datetime64(arg), "{0} is no date", arg)
        return "dt"

    # ------------------------------------------------------------ durations
    def run_num(self, case):
        _, x, typ, u, box = case
        n = self.n
        if typ == "i8" and x != int(x) or typ == "str" and u is not None and u != "s":
            return "none"
        a = x if typ == "py" else str(x) if typ == "str" else np.dtype(typ).type(x)
        val = Fr(float(a)) if typ != "py" or isinstance(x, float) else Fr(x)
        val *= SEC[u or "s"]
        if u in ("D", "W", "h", "m") and abs(val) > 2**62:
            return "none"
        eps = Fr(float(np.finfo("f4" if typ == "f4" else "f8").eps)) * 8
        tol = abs(val) * eps + min(abs(val), 1) * Fr(3, 10**9)
        if val == int(val) and typ in ("py", "i8") and isinstance(x, int):
            tol = Fr(0)
        try:
            if typ == "str":
                arg = a if box == "one" else [a, a]
                r = n.as_timedelta64(arg)
            else:
                arg = a if box == "one" else [a, a] if box == "list" else np.array([a, a])
                r = n.as_timedelta64(arg, unit=u)
        except ValueError:
            require(abs(val / SEC["as"] - round(val / SEC["as"])) > tol / SEC["as"] / 10**4, "as_timedelta64({0!r}, {1}) fails", a, u)
            return "bad"
        if box != "one":
            require(r.shape == (2,) and r[0] == r[1], "as_timedelta64({0!r}) is {1!r}", arg, r)
            r = r[0]
        require(isinstance(r, np.timedelta64), "as_timedelta64({0!r}) is {1!r}", arg, r)
        if u in ("fs",) and abs(x) < 1:      # finer than attoseconds
            tol += Fr(1, 10**18)
        self.close("as_timedelta64({0!r}, {1})".format(arg, u), r, val, tol + Fr(1, 10**18) if tol else tol)
        # the coarsest unit that can hold it, but no coarser than that of the number
        for w in UNITS[UNITS.index(unit(r)) + 1:11]:
            if w in UNITS[:UNITS.index(u or "s") + 1] and val:
                require(abs(val / SEC[w] - round(val / SEC[w])) * SEC[w] > tol / 10**6, "as_timedelta64({0!r}) is {1!r}, which {2} can hold", arg, r, w)
        require(UNITS.index(unit(r)) <= UNITS.index(u or "s"), "as_timedelta64({0!r}, {1}) is {2!r}", arg, u, r)
        if typ != "str" and abs(val) < 10**10:
            p = n.as_timedelta(arg, unit=u)
            p = p if box == "one" else p[0]
            require(isinstance(p, datetime.timedelta) and abs(pyexact(p) - val) <= Fr(11, 10**7) + tol, "as_timedelta({0!r}, {1}) is {2!r}", arg, u, p)
        return "num"

    def run_hms(self, case):
        _, h, m, s, pre = case
        txt = ":".join(str(x) for x in (h, m, s) if x is not None)
        want = Fr(h or 0) * 3600 + Fr(m or 0) * 60 + Fr(str(s))
        r = self.n.as_timedelta64(pre + txt)
        self.close("as_timedelta64({0!r})".format(pre + txt), r, want)
        r = self.n.as_timedelta64([pre + txt, "1"])
        self.close("as_timedelta64({0!r}) in a list".format(pre + txt), r[0], want)
        self.close("the other", r[1], Fr(1))
        p = self.n.as_timedelta(pre + txt)
        require(pyexact(p) == want, "as_timedelta({0!r}) is {1!r}", pre + txt, p)
        return "hms"

    # ------------------------------------------------------------ units
    def judge(self, items, u, mp, ar, a0):
        """unit of the result or the errors that may be raised"""
        xs = [exact(t) for t in items]
        us = [unit(t) for t in items]
        u0 = u or UNITS[min(UNITS.index(w) for w in us)]
        if u0 == "W" and any(w in ("M", "Y") for w in us):
            u0 = "D"
        k = UNITS.index(u0)
        errs = set()

        def bad(w):
            """does not fit (times that get coarser always do)"""
            return any(UNITS.index(w) < UNITS.index(v) and not self.fits(x, w) for x, v in zip(xs, us))

        def lost(w):
            return any(UNITS.index(w) > UNITS.index(v) and x and self.trunc0(x, w, t) for x, v, t in zip(xs, us, items))
        j = k
        while bad(UNITS[j]):
            j += 1
        if j != k and not ar:
            errs.add(OverflowError)
        if not a0 and any(lost(UNITS[q]) for q in range(k, j + 1)):
            errs.add(self.n.PrecisionError)
        if errs:
            return errs, None
        return None, UNITS[j]

    def trunc0(self, x, w, t):
        """0 in unit w, if it is rounded down"""
        return 0 <= x < (SEC.get(w) or (31 if w == "M" else 365) * SEC["D"])

    def may(self, errs, f, *args, **kw):
        try:
            r = f(*args, **kw)
        except (OverflowError, self.n.PrecisionError) as e:
            require(errs is not None and type(e) in errs, "{0}{1} {2} raises {3}: {4}", f.__name__, args, kw, type(e).__name__, e)
            return None
        require(not errs, "{0}{1} {2} is {3!r}, not an error", f.__name__, args, kw, r)
        return r

    def run_reg(self, case):
        _, idx, u, mp, ar, a0 = case
        items = [self.item(i) for i in idx]
        if u and any(unit(t) in ("M", "Y") for t in items) and u in ("W",):
            return "none"
        errs, w = self.judge(items, u, mp, ar, a0)
        single = len(items) == 1
        keep = list(items)
        r = self.may(errs, self.n.regularize_time, items[0] if single else items, unit=u, most_precise=mp, allow_rounding=ar, allow0=a0)
        require(all(a is b for a, b in zip(items, keep)), "the list is changed")
        if r is None:
            return "error"
        r = [r] if single else r
        require(isinstance(r, list) and len(r) == len(items), "regularize_time gives {0!r}", r)
        self.rounded(items, r, w if not mp else None, w)
        if mp:
            got = unit(r[0])
            require(all(unit(t) == got for t in r) and UNITS.index(got) <= UNITS.index(w), "units of {0!r}", r)
            finer = UNITS[:UNITS.index(got)]
            if finer:
                require(any(not self.fits(exact(t), finer[-1]) for t in r), "{0!r} would fit in {1}", r, finer[-1])
        # an array of times of one kind
        if len({t.dtype.kind for t in items}) == 1 and not single and not mp:
            try:
                arr = np.array([items[0], items[0]])
                q = self.n.regularize_time(arr, unit=w)
            except (OverflowError, self.n.PrecisionError):
                return "reg"
            require(isinstance(q, np.ndarray) and q.shape == (2,) and unit(q) == unit(q[0]), "of an array: {0!r}", q)
        return "reg"

    def rounded(self, items, r, w, coarse):
        for a, b in zip(items, r):
            require(b.dtype.kind == a.dtype.kind, "{0!r} became {1!r}", a, b)
            if w is not None:
                require(unit(b) == w, "{0!r} became {1!r}, not in {2}", a, b, w)
            tol = Fr(0)
            if UNITS.index(coarse) > UNITS.index(unit(a)):
                tol = {"M": 31 * SEC["D"], "Y": 366 * SEC["D"]}.get(coarse) or SEC[coarse]
                if coarse not in ("M", "Y") and exact(a) % SEC[coarse] == 0 and coarse != "W":
                    tol = Fr(0)
            self.close("{0!r}".format(a), b, exact(a), tol)

    def run_round(self, case):
        _, idx, u, a0 = case
        items = [self.item(i) for i in idx]
        coarser = [UNITS.index(unit(t)) < UNITS.index(u) for t in items]
        errs = None
        if not a0 and any(c and exact(t) and self.trunc0(exact(t), u, t) for c, t in zip(coarser, items)):
            errs = {self.n.PrecisionError}
        single = len(items) == 1
        r = self.may(errs, self.n.round_time, items[0] if single else list(items), u, allow0=a0)
        if r is None:
            return "error"
        r = [r] if single else r
        for c, a, b in zip(coarser, items, r):
            if c:
                self.rounded([a], [b], u, u)
            else:
                require(a == b and unit(a) == unit(b), "round_time of {0!r} to {1} is {2!r}", a, u, b)
        return "round"

    def run_sum(self, case):
        _, i, j, u, mp, ar, a0 = case
        t0, td = self.item(i), self.item(len(D64) + j)
        errs, w = self.judge([t0, td], u, mp, ar, a0)
        x = exact(t0) + exact(td)
        if errs is None and not self.fits(x, w):
            k = w
            while not self.fits(x, k):
                k = UNITS[UNITS.index(k) + 1]
            if not ar:
                errs = {OverflowError}
            elif not a0:
                return "none"
            w = k
        if errs is None and mp and not ar:
            return "none"       # whether the finest unit of the terms, or of the sum, is meant
        if errs is None and mp and not a0:
            return "none"
        r = self.may(errs, self.n.time_sum, t0, td, unit=u, most_precise=mp, allow_rounding=ar, allow0=a0)
        if r is None:
            return "error"
        self.combined("{0!r} + {1!r}".format(t0, td), r, x, [t0, td], w, mp)
        return "sum"

    def combined(self, what, r, x, items, w, mp):
        tol = Fr(0)
        for t in items:
            if UNITS.index(w) > UNITS.index(unit(t)):
                tol += SEC[w] if w in SEC else 366 * SEC["D"]
        require(isinstance(r, (np.datetime64, np.timedelta64)) and not np.isnat(r), "{0} is {1!r}", what, r)
        got = unit(r)
        require(got == w if not mp else UNITS.index(got) <= UNITS.index(w), "{0} is in {1}, not {2}", what, got, w)
        self.close(what, r, x, tol)

    def run_diff(self, case):
        _, i, j, u, mp = case
        a, b = self.item(i), self.item(j)
        errs, w = self.judge([a, b], u, mp, True, True)
        x = exact(a) - exact(b)
        while not self.fits(x, w):
            w = UNITS[UNITS.index(w) + 1]
        if w in ("M", "Y"):
            return "none"
        r = self.n.time_diff(a, b, unit=u, most_precise=mp)
        require(isinstance(r, np.timedelta64), "time_diff is {0!r}", r)
        self.combined("{0!r} - {1!r}".format(a, b), r, x, [a, b], w, mp)
        return "diff"

    def run_vecsum(self, case):
        _, i, j, form = case
        t0, td = self.item(i), self.item(len(D64) + j)
        if abs(exact(td)) > 10**9 or unit(t0) in ("M", "Y") or unit(td) in ("as",):
            return "none"
        tds = [td, td * 2, -td]
        try:
            tds = tds if form == "list" else np.array(tds)
            self.n.regularize_time([t0] + list(tds), allow_rounding=False)
        except OverflowError:
            return "none"
        for x in list(tds):
            if not all(self.fits(v, min(unit(t0), unit(td), key=UNITS.index)) for v in (exact(t0) + exact(x), exact(t0))):
                return "none"
        r = self.n.time_sum(t0, tds)
        require(r.shape == (3,), "sum of {0!r} and {1!r} is {2!r}", t0, tds, r)
        for a, b in zip(r, tds):
            self.close("{0!r} + {1!r}".format(t0, b), a, exact(t0) + exact(b))
        q = self.n.time_diff(r, t0)
        for a, b in zip(q, tds):
            self.close("difference", a, exact(b))
        return "vec"

    def run_lin(self, case):
        _, a, b, n, e, u = case
        a, b = self.item(a), self.item(b)
        if u and "as" in (unit(a), unit(b)):
            return "none"
        if u:
            a0, b0 = a.astype("M8[{0}]".format(u)), b.astype("M8[{0}]".format(u))
            if any(exact(p) != exact(q) for p, q in ((a, a0), (b, b0))):
                return "none"
        r = self.n.linspace_datetime64(a, b, n, endpoint=e, **({"unit": u} if u else {}))
        require(isinstance(r, np.ndarray) and r.shape == (n,) and r.dtype.kind == "M", "linspace_datetime64 is {0!r}", r)
        x, y = exact(a), exact(b)
        div = max(n - 1 if e else n, 1)
        w = SEC[unit(r)] if unit(r) in SEC else SEC["D"]
        errs, _ = self.judge([a, b], None, True, True, True)
        # ends are rounded if they do not fit in one unit
        tol = w * Fr(6, 10)
        if any(x % w for x in (x, y)):
            tol += w
        for k, t in enumerate(r):
            self.close("value {0} from {1!r} to {2!r}".format(k, a, b), t, x + (y - x) * k / div, tol)
        if tol < w:
            self.close("the start", r[0], x)
            if e and n > 1:
                self.close("the end", r[-1], y)
        return "lin"

    def run_secs(self, case):
        _, j, dec, u = case
        t = self.item(j)
        n = self.n
        x = exact(t)
        if unit(t) == "as" or u and ( not self.fits(x, u)):
            return "none"
        if t.dtype.kind == "m" and (unit(t) == "as" or abs(x) > 10**12 or abs(x) * 10**dec > 2**50 or UNITS.index(u or unit(t)) < UNITS.index(unit(t)) and not self.fits(x, u or unit(t))):
            return "none"       # documented not to work for attoseconds
        r = n.time_as_seconds(t, dec, **({"unit": u} if u else {}))
        step = Fr(1, 10**dec)
        y = exact(t.astype("{0}8[{1}]".format(t.dtype.kind, u))) if u else x
        require(r.dtype.kind == t.dtype.kind, "{0!r} became {1!r}", t, r)
        z = exact(r)
        slack = Fr(1, 10**9) if t.dtype.kind == "M" else abs(x) * Fr(1, 2**50) + Fr(1, 10**9)
        if UNITS.index(unit(r)) > UNITS.index("s"):
            slack += SEC["s"]
        require(abs(z - y) <= step / 2 + slack, "{0!r} to {1} decimals is {2!r}", t, dec, r)
        q = z / step
        require(abs(q - round(q)) * step <= Fr(1, 10**9), "{0!r} to {1} decimals is {2!r}", t, dec, r)
        return "secs"

    def run_secnum(self, case):
        _, x, dec, form = case
        n = self.n
        want = Fr(str(round(Fr(str(x)) * 10**dec))) / 10**dec
        if form == "num":
            r = n.time_as_seconds(x, dec)
            require(abs(r - float(want)) < 1e-12, "{0} to {1} decimals is {2}", x, dec, r)
            return "secs"
        td = np.timedelta64(int(round(x * 1e6)), "us")
        if form == "td":
            self.close("{0} to {1} decimals".format(x, dec), n.time_as_seconds(td, dec), want)
        elif form == "dt":
            base = np.datetime64("2010-06-21T05:00:00", "us")
            self.close("{0} to {1} decimals".format(x, dec), n.time_as_seconds(base + td, dec), want + exact(base))
        else:
            base = np.datetime64("2010-06-21T05:00:00", "us")
            r = n.time_as_seconds([base + td, base], dec)
            self.close("{0} to {1} decimals".format(x, dec), r[0], want + exact(base))
            self.close("the second", r[1], exact(base))
            r = n.timedelta_as_seconds([td, td], dec)
            require(abs(exact(r[0]) - want) <= 0 and r[0] == r[1], "a list of {0} to {1} decimals is {2!r}", x, dec, r)
        return "secs"

    def run_years(self, case):
        d = parse(DATES[case[1]])
        y0, y1 = [datetime.datetime(d.year + k, 1, 1) for k in (0, 1)]
        want = d.year + (d - y0).total_seconds() / (y1 - y0).total_seconds()
        for t in (d, d.isoformat(), np.datetime64(d, "us"), np.datetime64(d, "ns")):
            r = self.n.datetime64_as_years(t)
            require(abs(r - want) < 1e-9, "datetime64_as_years({0!r}) is {1!r}, not {2!r}", t, r, want)
        return "years"

    def run_year(self, case):
        s = case[1]
        d = parse((s + ":00") if "T" in s else s + "T00:00:00")
        y0, y1 = [datetime.datetime(d.year + k, 1, 1) for k in (0, 1)]
        want = d.year + (d - y0).total_seconds() / (y1 - y0).total_seconds()
        r = self.n.datetime64_as_years(s)
        require(abs(r - want) < 1e-9, "datetime64_as_years({0!r}) is {1!r}, not {2!r}", s, r, want)
        return "years"

    # ------------------------------------------------------------ text
    def run_fmt(self, case):
        _, s, f, form = case
        n = self.n
        base = datetime.datetime(2010, 6, 21)
        kw = {}
        td = datetime.timedelta(seconds=s)
        if form == "num":
            t = s
        elif form == "td":
            t = td
        elif form == "td64":
            t = np.timedelta64(td, "us")
        elif form == "date":
            t, td = base + td, base + td - EPOCH
        else:
            t = base + td
            kw = dict(basetime=np.datetime64(base))
        r = n.format_time(t, f, **kw)
        us = td // datetime.timedelta(microseconds=1)
        secs, rest = divmod(us, 10**6)
        date = (base if form == "base" else EPOCH) + td
        if f in ("hms", "hmss", "dhms", "dhmss"):
            days, d = divmod(secs, 86400)
            h = d if f[0] == "d" or form == "date" else secs
            want = "{0:02d}:{1:02d}:{2:02d}".format(h // 3600, h // 60 % 60, h % 60)
            if f[0] == "d":
                want = "{0} day{1} {2}".format(days, "" if days == 1 else "s", want)
            if f.endswith("ss"):
                want += " ({0:06d})".format(secs)
        elif "%" not in f:
            x = Fr(us, 10**6)
            k = 10**int(f[1:-1])
            y = Fr(r)
            require(abs(y - x) <= Fr(1, 2 * k) and (len(r.partition(".")[2]) == int(f[1:-1])), "{0!r} as {1} is {2!r}", t, f, r)
            return "fmt"
        else:
            import re
            m = re.search(r"\.%\.?([0-9]*)f$", f)
            if not m:
                want = date.strftime(f)
            else:
                # to the nearest of the decimals asked for
                prec = int(m.group(1) or 6)
                step = 10**(6 - prec)
                us = (date - EPOCH) // datetime.timedelta(microseconds=1)
                wants = []
                for q in {us // step, -(-us // step)}:
                    if abs(q * step - us) * 2 <= step:
                        d = EPOCH + datetime.timedelta(microseconds=q * step)
                        wants.append(d.strftime(f[:m.start()]) + ("." + "{0:06d}".format(d.microsecond)[:prec] if prec else "."))
                require(r in wants, "{0!r} as {1} is {2!r}, not {3}", t, f, r, wants)
                return "fmt"
        require(r == want, "{0!r} as {1} is {2!r}, not {3!r}", t, f, r, want)
        if f.endswith("S"):
            require(n.format_datetime(t, f) == r if form != "base" else True, "format_datetime")
        return "fmt"

    def likes(self):
        """value, like a datetime, like a timedelta, conservatively like a datetime, conservatively like a timedelta"""
        D, T = datetime.datetime(1970, 1, 1), datetime.timedelta(1)
        return [(5, 0, 1, 0, 0), (5.5, 0, 1, 0, 0), (np.float32(1), 0, 1, 0, 0), (np.int64(1), 0, 1, 0, 0), ("2010-01-01", 1, 0, 1, 0), ("2010-01-01T05:06:07.5", 1, 0, 1, 0), (D, 1, 0, 1, 0), (T, 0, 1, 0, 1),
                (np.datetime64("2010"), 1, 0, 1, 0), (np.timedelta64(1, "s"), 0, 1, 0, 1), (None, 0, 0, 0, 0), ("hello", 0, 0, 0, 0), (["2010-01-01"], 1, 0, 1, 0), ([D, "2010-01-01"], 1, 0, 1, 0),
                ([T, np.timedelta64(1, "s")], 0, 1, 0, 1), ([D, 5], 0, 0, 0, 0), ([T, 5], 0, 1, 0, 0), (np.array([1]), 0, 1, 0, 0), (np.array([1.5]), 0, 1, 0, 0), (np.array(["2010"], "M8[D]"), 1, 0, 1, 0),
                (np.array([5], "m8[s]"), 0, 1, 0, 1), (np.array([D, D]), 1, 0, 1, 0), (np.array([T, T]), 0, 1, 0, 1), (object(), 0, 0, 0, 0), (dict(), 0, 0, 0, 0)]

    def run_like(self, case):
        x, a, b, c, d = self.likes()[case[1]]
        n = self.n
        for f, w in ((n.is_datetime_like, a), (n.is_timedelta_like, b), (n.is_time_like, a or b)):
            if isinstance(x, np.ndarray) and x.dtype.kind in "if":
                continue
            require(bool(f(x)) == bool(w), "{0}({1!r}) is {2}", f.__name__, x, f(x))
        for f, w in ((n.is_datetime_like, c), (n.is_timedelta_like, d), (n.is_time_like, c or d)):
            require(bool(f(x, conservative=True)) == bool(w), "{0}({1!r}) is {2}, conservatively", f.__name__, x, f(x, conservative=True))
        # whatever is like a time can be made one
        if a:
            require(n.as_datetime64(x) is not None, "no date of {0!r}", x)
        if b:
            require(n.as_timedelta64(x) is not None, "no duration of {0!r}", x)
        if isinstance(x, (str, list)) and a:
            y = n.asarray_datetime64(x)
            require(np.asarray(y).dtype.kind == "M", "asarray_datetime64({0!r}) is {1!r}", x, y)
        y = n.asarray_datetime64([1.0, 2.0], conservative=True)
        require(y.dtype.kind == "f", "conservative asarray_datetime64 of numbers is {0!r}", y)
        return "like"

    # ------------------------------------------------------------ times of nodes
    def run_node(self, case):
        _, j, t = case
        v = self.v
        d = parse(DATES[j])
        g = v.grid.Grid(name="g")
        g.basetime = d
        want = pyexact(d) + Fr(str(t))
        for how in ("num", "date", "td", "date64", "td64"):
            td = datetime.timedelta(seconds=t)
            g.time = {"num": t, "date": d + td, "td": td, "date64": np.datetime64(d + td, "us"), "td64": np.timedelta64(td, "us")}[how]
            require(isinstance(g.time, float) and abs(g.time - t) < 1e-9, "time set to {0} by {1} is {2!r}", t, how, g.time)
        r = g.time_as_datetime64()
        require(abs(exact(r) - want) <= Fr(1, 10**6), "time is {0!r}", r)
        require(abs(exact(g.time_as_timedelta64()) - Fr(str(t))) <= Fr(1, 10**6), "time is {0!r}", g.time_as_timedelta64())
        p = g.time_as_datetime()
        require(abs(pyexact(p) - want) <= Fr(1, 10**6), "time is {0!r}", p)
        p = g.time_as_timedelta()
        require(abs(pyexact(p) - Fr(str(t))) <= Fr(1, 10**6), "time is {0!r}", p)
        if t >= 0:
            require(g.format_time(".02f") == "{0:.02f}".format(t) or abs(t * 100 - round(t * 100)) > 0.4, "time is {0}", g.format_time(".02f"))
            s = int(t)
            require(g.format_time("hms") == "{0:02d}:{1:02d}:{2:02d}".format(s // 3600, s // 60 % 60, s % 60), "time is {0}", g.format_time("hms"))
            require(g.format_time("%Y-%m-%d %H:%M:%S") == (d + datetime.timedelta(seconds=t)).strftime("%Y-%m-%d %H:%M:%S"), "time is {0}", g.format_time("%Y-%m-%d %H:%M:%S"))
        return "node"
