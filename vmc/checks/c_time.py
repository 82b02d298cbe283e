"""Datasets of time steps"""
import datetime
import itertools

import numpy as np

from vmc import fld
from vmc.checks.c_loc import pick, points, nearest_ok
from vmc.core import Check, Fail, require, explore_bfs

BASE = np.datetime64("2001-02-03T04:05:06", "us")
SETS = {"one": [1.5], "two": [0.0, 2.0], "even": [1.0, 2.0, 3.0, 4.0], "uneven": [0.25, 1.0, 4.0, 4.5], "neg": [-3.0, -1.0, 0.0, 2.5]}
HOW = ["plain", "deferred", "nested", "mixed"]


class Times(Check):
    pid = "V12"
    rule = ("(a) breadth-first over histories of adding steps (in every order, ready or deferred, made active or not), activating by "
            "index and by time, and removing all; (b) every selection of times by index, place, date and timedelta, in every spelling, "
            "through every accessor, for datasets of one to four steps, added in every order, nested or not")
    bounds = {"steps": "1..4", "history depth": "4 (thorough 5)"}
    assumptions = ("equally near times: either neighbour is accepted",)

    def setup(self):
        import viscid
        from viscid import dataset, grid
        self.v, self.dataset, self.grid = viscid, dataset, grid

    # ---- making ----
    def step(self, t, num):
        v = self.v
        g = self.grid.Grid(name="g%s" % num)
        g.time = t
        f = v.wrap_field(num + np.arange(6.0).reshape(2, 3), v.arrays2crds([np.arange(2.0), np.arange(3.0)]), name="f", time=t)
        h = v.wrap_field(100 + num + np.arange(6.0).reshape(2, 3), f.crds, name="h", time=t)
        g.add_field(f, h)
        return g

    def ds(self, times, how, basetime=True):
        d = self.dataset.DatasetTemporal()
        if basetime:
            d.basetime = BASE
        for k, t in enumerate(times):
            if how == "deferred" or (how == "mixed" and k % 2):
                d.add_deferred(t, self.step, callback_args=(t, 10.0 * k))
            else:
                d.add(self.step(t, 10.0 * k))
        top = d
        if how == "nested":
            top = self.dataset.Dataset()
            top.add(d)
        return top

    # ---- (a) ----
    T = [2.0, 0.5, 3.25]

    def mk(self):
        return {"d": self.dataset.DatasetTemporal(), "m": [], "act": None, "n": 0, "stale": False}

    def menu(self, st, depth):
        out = [["add", i, act, dfr] for i in range(3) for act in (1, 0) for dfr in (0, 1)]
        if st["m"]:
            out += [["act", i] for i in range(-1, len(st["m"]))] + [["actt", i, how] for i in range(3) for how in "jfn"] + [["clear"]]
        return out

    def ev(self, st, ev):
        d = st["d"]
        if ev[0] == "add":
            t, num = self.T[ev[1]], float(st["n"])
            if ev[3]:
                d.add_deferred(t, self.step, callback_args=(t, num), set_active=bool(ev[2]))
            else:
                d.add(self.step(t, num), set_active=bool(ev[2]))
            st["n"] += 1
            st["m"].append((t, num))
            st["m"].sort(key=lambda x: x[0])      # stable
            if ev[2]:
                st["act"], st["stale"] = (t, num), False
        elif ev[0] == "act":
            d.activate(ev[1])
            st["act"], st["stale"] = st["m"][ev[1]], False
        elif ev[0] == "actt":
            t = self.T[ev[1]] + 0.1
            d.activate_time({"j": "%rj" % t, "f": "%rf" % t, "n": 1j * t}[ev[2]])
            best = min(abs(x[0] - t) for x in st["m"])
            st["act"], st["stale"] = [x for x in st["m"] if abs(x[0] - t) == best][0], False
        elif ev[0] == "clear":
            d.remove_all_items()
            st["m"], st["stale"] = [], True
        # ---- observing ----
        want = st["m"]
        require(d.nr_times() == len(want), "{0}: {1} times, want {2}", ev, d.nr_times(), len(want))
        got = [(g.time, float(g["f"].data[0, 0])) for g in d.iter_times()]
        require(got == want, "{0}: steps {1}, want {2}", ev, got, want)
        got = [(g.time, float(g["f"].data[0, 0])) for g in d]
        require(got == want, "{0}: iterated steps {1}, want {2}", ev, got, want)
        if st["act"] is not None and not st["stale"]:
            acts = [st["act"]] if sum(x[0] == st["act"][0] for x in st["m"]) == 1 else \
                [x for x in st["m"] if x[0] == st["act"][0]]
            g = d.get_grid()
            got = (g.time, float(g["f"].data[0, 0]))
            require(got in acts, "{0}: active step {1}, want {2}", ev, got, acts)
            try:
                f = d["f"]
            except Exception as e:  # pylint: disable=broad-except
                if not hasattr(d.active_child, "get_field"):
                    raise Fail("%s: no field of the active step: %s %s" % (ev, type(e).__name__, e))
                raise
            require((f.time, float(f.data[0, 0])) in acts, "{0}: field of the active step is at {1}, want {2}", ev, f.time, acts)
            require(float(d.get_field("h").data[0, 0]) in [100 + x[1] for x in acts], "{0}: get_field of the active step", ev)
            require("f" in d and "nope" not in d, "{0}: in", ev)

    # ---- (b) ----
    def shards(self, tier):
        return [("hist", k) for k in range(6)] + [("sel", s, how) for s in sorted(SETS) for how in HOW]

    def run_shard(self, shard, tier, rec):
        if shard[0] == "hist":
            first = [["add", i, act, 0] for i in range(3) for act in (1, 0)][shard[1]]

            def make():
                st = self.mk()
                self.ev(st, first)
                return st
            explore_bfs(rec, make, self.menu, self.ev,
                        lambda st: (tuple(st["m"]), st["act"], st["stale"]), 4 if tier == "thorough" else 3,
                        lambda hist, e: rec.fail({"hist": [first] + hist}, str(e), e.finding))
            rec.outcome("explored")
        else:
            for case in self.cases(shard, tier):
                self.attempt(case, rec)

    def cases(self, shard, tier):
        _, s, how = shard
        ts = SETS[s]
        n = len(ts)
        perms = list(itertools.permutations(range(n)))
        if tier != "thorough":
            perms = perms[::5] if n == 4 else perms
        for p in perms:
            base = {"set": s, "how": how, "perm": list(p)}
            x = np.array(ts)
            d = np.diff(x).min() if n > 1 else 1.0
            full = list(p) == perms[min(1, len(perms) - 1)]
            ints = [None] + list(range(-n - 1, n + 2))
            brief = not full and tier != "thorough"
            for a, b in itertools.product(ints, ints):
                for step in (None, 1, 2, -1, -2) if not brief else (-1,):
                    for syn in ("obj", "str") if full else ("obj",):
                        yield dict(base, kind="islice", a=a, b=b, step=step, syn=syn)
            for k in range(-n, n):
                for syn in ("obj", "str", "np"):
                    yield dict(base, kind="int", k=k, syn=syn)
            for ks in itertools.product(range(-1, n), repeat=2):
                yield dict(base, kind="ilist", ks=list(ks))
            vals = [float(v) for v in points(x)]
            if n == 1:
                vals = [x[0] - 1.5, x[0], x[0] + 0.4]
            for v in vals:
                for syn in ("j", "strj", "strf", "td", "td64", "dt", "dt64", "tdstr", "dtstr") if not brief else ("j", "dt64"):
                    yield dict(base, kind="place", v=v, syn=syn)
            if not full and tier != "thorough":
                vals = vals[::3]
            for a, b in itertools.product([None] + vals, repeat=2):
                if a is None and b is None:
                    continue
                for step in (None, 2, -1):
                    for syn in ("j", "strj", "strf", "td64", "dt64", "dtstr") if not brief else ("strf",):
                        yield dict(base, kind="range", a=a, b=b, step=step, syn=syn)

    def spell(self, v, syn):
        """a place in time; whole microseconds"""
        us = int(round(v * 1e6))
        td = datetime.timedelta(microseconds=us)
        if syn == "j":
            return 1j * v
        if syn in ("strj", "strf"):
            return repr(v) + syn[-1]
        if syn == "td":
            return td
        if syn == "td64":
            return np.timedelta64(us, "us")
        if syn == "dt":
            return BASE.astype(datetime.datetime) + td
        if syn == "dt64":
            return BASE + np.timedelta64(us, "us")
        if syn == "dtstr":
            return "UT" + str(BASE + np.timedelta64(us, "us"))
        if syn == "tdstr":
            return None if us < 0 else "T00:00:%09.6f" % (us * 1e-6)
        raise ValueError(syn)

    def run_case(self, case, rec):
        if "hist" in case:
            st = self.mk()
            for ev in case["hist"]:
                self.ev(st, ev)
            return "explored"
        rec.step()
        ts, perm, how = SETS[case["set"]], case["perm"], case["how"]
        n = len(ts)
        x = np.array(ts)
        key = (case["set"], how, tuple(perm))
        if getattr(self, "_dsk", None) != key:
            self._ds, self._dsk = self.ds([ts[i] for i in perm], how), key
        d = self._ds
        num = {i: 10.0 * k for k, i in enumerate(perm)}     # number of step i
        kind = case["kind"]
        inds = None
        opts = [{}]
        alts = None
        span = None
        if kind == "islice":
            a, b, step = case["a"], case["b"], case["step"]
            inds = list(range(n))[slice(a, b, step)]
            sel = slice(a, b, step) if case["syn"] == "obj" else \
                ":".join("" if k is None else str(k) for k in ((a, b) if step is None else (a, b, step)))
        elif kind == "int":
            inds = [case["k"] % n]
            sel = {"obj": int, "str": str, "np": np.int64}[case["syn"]](case["k"])
        elif kind == "ilist":
            inds = [k % n for k in case["ks"]]
            sel = list(case["ks"])
        elif kind == "place":
            sel = self.spell(case["v"], case["syn"])
            if sel is None:
                return "no spelling"
            alts = [[i] for i in range(n) if abs(x[i] - case["v"]) <= abs(x - case["v"]).min() + 2e-6]
        else:
            a, b, step = case["a"], case["b"], case["step"]
            tol = 1e-6
            sp = [None if e is None else self.spell(e, case["syn"]) for e in (a, b)]
            if case["syn"] in ("strj", "strf") or (case["syn"] == "dtstr" and step is None):
                sel = (sp[0] or "") + ":" + (sp[1] or "") + ("" if step is None else ":%d" % step)
            else:
                sel = slice(sp[0], sp[1], step)
            va, vb = (None if e is None else ("v", e) for e in (a, b))
            inds = pick(ts, va, vb, step or 1, tol)
            up = (step or 1) > 0
            full = pick(ts, va, vb, 1 if up else -1, tol)
            # python-like: the last step not past the stop is left out
            excl = list(inds)
            if b is not None:
                upto = [i for i in range(n) if (x[i] <= b + tol if up else x[i] >= b - tol)]
                if upto:
                    lim = upto[-1] if up else upto[0]
                    excl = [i for i in full if i != lim][::abs(step or 1)]
            opts.append({"val_endpoint": False, "_inds": excl})
            if abs(step or 1) == 1 and a is not None and b is not None and ((a <= b) == up or a == b) and \
                    min(a, b) >= ts[0] and max(a, b) <= ts[-1]:
                lo, hi = min(a, b), max(a, b)
                i0 = max(i for i in range(n) if x[i] <= lo + tol)
                i1 = min(i for i in range(n) if x[i] >= hi - tol)
                opts.append({"interior": True, "_inds": list(range(i0, i1 + 1))[::1 if up else -1]})
            span = (a if a is not None else (ts[0] if up else ts[-1]), b if b is not None else (ts[-1] if up else ts[0]))
        rec.state((key, repr(sel)))
        for opt in opts:
            opt = dict(opt)
            want_i = opt.pop("_inds", inds)
            wants = alts if alts is not None else [want_i]
            what = "times[%r]%s" % (sel, "" if not opt else " %s" % opt)
            self.look(d, sel, opt, wants, x, num, what)
        if span is not None:
            got = [float(g) for g in d.tslc_range(sel)]
            require(fld.same(got, span, 1e-9), "tslc_range({0!r}): {1}, want {2}", sel, got, span)
        if len(alts or [inds]) == 1 and len((alts or [inds])[0]) == 1 and kind in ("int", "place"):
            i = (alts or [inds])[0][0]
            if how == "nested":
                d = [c for c in d][0]
            g = d.get_grid(time=sel)
            require(g.time == x[i] and float(g["f"].data[0, 0]) == num[i], "get_grid(time={0!r}) is at {1}, want {2}", sel, g.time, x[i])
            f = d.get_field("h", time=sel)
            require(f.time == x[i] and float(f.data[0, 0]) == 100 + num[i], "get_field(time={0!r}) is at {1}, want {2}", sel, f.time, x[i])
            f = d.get_field("h", time=sel, slc="x = 1")
            require(fld.same(np.ravel(f.data), 100 + num[i] + np.arange(3, 6)), "get_field(time, slc)")
            got = [(q.name, float(q.data[0, 0])) for q in d.iter_fields(time=sel, fld_names=["h", "f"])]
            require(got == [("h", 100 + num[i]), ("f", num[i])], "iter_fields(time={0!r}): {1}", sel, got)
            got = [(k, float(q.data[0, 0])) for k, q in d.iter_field_items(time=sel)]
            require(got == [("f", num[i]), ("h", 100 + num[i])], "iter_field_items(time={0!r}): {1}", sel, got)
            got = [(k, float(q.data[0, 0])) for k, q in d.field_dict(time=sel).items()]
            require(got == [("f", num[i]), ("h", 100 + num[i])], "field_dict(time={0!r}): {1}", sel, got)
            d.activate_time(sel)
            require(float(d["f"].data[0, 0]) == num[i], "activate_time({0!r}): field of another step", sel)
        return kind

    def look(self, d, sel, opt, wants, x, num, what):
        n = d.nr_times(sel, **opt)
        require(n in [len(w) for w in wants], "{0}: {1} times, want {2}", what, n, [len(w) for w in wants])
        got = []
        kept = []
        for g in d.iter_times(sel, **opt):
            f = g["f"]
            got.append((g.time, float(f.data[0, 0])))
            f = g.get_field("f", force_longterm_caches=True)
            f.resolve()
            kept.append(f)
        w = [[(x[i], num[i]) for i in w] for w in wants]
        require(got in w, "{0}: {1}, want {2}", what, got, w[0])
        require(not any(f.is_loaded for f in kept), "{0}: data of steps gone by are kept in memory", what)
        got = [g.time for g in d.get_times(sel, **opt)]
        require(got in [[q[0] for q in ww] for ww in w], "{0}: get_times {1}, want {2}", what, got, w[0])
        if w[0]:
            require(d.get_time(sel, **opt).time in [ww[0][0] for ww in w], "{0}: get_time", what)
