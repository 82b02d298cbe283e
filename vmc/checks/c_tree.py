"""What nodes of the tree know: info, time and attributes found by way of the parents"""
import datetime
import itertools

import numpy as np

from vmc.core import Check, Fail, require, explore_bfs


def order_of(parents, start):
    """breadth first, first listed first, each node once"""
    seen, ret, level = set(), [], [start]
    while level:
        nxt = []
        for n in level:
            if n not in seen:
                seen.add(n)
                ret.append(n)
                nxt += parents[n]
        level = nxt
    return ret


def ordered_subsets(items):
    return [p for k in range(len(items) + 1) for p in itertools.permutations(items, k)]


ABSENT = object()


def V(i):
    """the value that node i has"""
    return None if i == 1 else ("v", i)


class Tree(Check):
    pid = "V28"
    rule = ("every graph of ordered parent lists over the nodes (cycles and shared parents included) with every placement "
            "of a key or attribute; and breadth-first over every sequence of adding, removing and sharing children, "
            "setting and updating info and times in datasets, grids and fields")
    bounds = {"graphs": "all on 3 nodes, on 4 nodes all those whose parents come in order of number plus every cyclic one with at most 2 "
                        "parents per node, on 5 nodes those with two parents that have at most two each", "sequences": "2 datasets, 2 grids, 1 field, depth 4 (thorough 5)"}
    assumptions = ("a node does not list the same parent twice",)

    def shards(self, tier):
        ret = [("graph3",)]
        for i in range(16):
            ret.append(("graph4", i))
        for i in range(4):
            ret.append(("graph5", i))
        for i in range(8):
            ret.append(("ops", i))
        ret.append(("time",))
        ret.append(("derived",))
        return ret

    # ---------------------------------------------------------------- graphs
    def graphs(self, n, part=None):
        subs = [ordered_subsets([m for m in range(n) if m != i]) for i in range(n)]
        if n == 4:
            for first in [subs[0][part]]:
                for rest in itertools.product(*subs[1:]):
                    if sum(len(r) for r in rest) <= 4 or self.tier == "thorough":
                        yield (first,) + rest
        else:
            for g in itertools.product(*subs):
                yield g

    def cases(self, shard, tier):
        if shard[0] == "graph3":
            for g in self.graphs(3):
                yield dict(kind="graph", parents=[list(p) for p in g])
        elif shard[0] == "graph4":
            for g in self.graphs(4, shard[1]):
                yield dict(kind="graph", parents=[list(p) for p in g])
        elif shard[0] == "graph5":
            # two parents, with up to two parents of their own each
            few = lambda i: [q for q in ordered_subsets([m for m in range(5) if m != i]) if len(q) <= 2]
            for j, (a, b) in enumerate(itertools.product(few(1), few(2))):
                if j % 4 == shard[1]:
                    for c in ((), (4,)):
                        for d in ((), (0,)):
                            yield dict(kind="graph", parents=[[1, 2], list(a), list(b), list(c), list(d)])
        elif shard[0] == "time":
            for owner in range(3):
                for base in range(4):
                    for val in range(9):
                        yield dict(kind="time", owner=owner, base=base, val=val)
        elif shard[0] == "derived":
            for which in range(len(DERIVED)):
                for where in range(4):
                    for time in (None, 3.5):
                        yield dict(kind="derived", how=which, where=where, time=time)

    def run_case(self, case, rec):
        return getattr(self, "run_" + case["kind"])(case, rec)

    def run_graph(self, case, rec):
        from viscid.tree import Node
        parents = case["parents"]
        n = len(parents)
        order = order_of(parents, 0)
        rec.state(tuple(map(tuple, parents)))
        nodes = [Node(name="n%d" % i) for i in range(n)]
        for i, ps in enumerate(parents):
            for p in ps:
                nodes[p].prepare_child(nodes[i])
                nodes[p].prepare_child(nodes[i])   # being told twice changes nothing
            require([nodes.index(q) for q in nodes[i].parents] == list(ps), "parents of {0} are {1}, want {2}", i,
                    [q.name for q in nodes[i].parents], ps)
        for mask in range(2 ** n):
            rec.step()
            has = [i for i in range(n) if mask >> i & 1]
            for i, nd in enumerate(nodes):
                nd._info.clear()
                nd.__dict__.pop("special", None)
                if i in has:
                    nd.set_info("key", V(i))
                    nd.special = ("s", i)
                else:
                    nd.set_info("other", ("o", i))
                    nd.special = NotImplemented if (i + mask) % 2 else None
                    if nd.special is None:
                        del nd.special
            own = next((i for i in order if i in has), None)
            oth = next((i for i in order if i not in has), None)
            me = nodes[0]
            want_all = {}
            if own is not None:
                want_all["key"] = V(own)
                require(me.find_info("key") == V(own), "find_info gives {0}, want that of {1} of {2}",
                        me.find_info("key"), own, has)
                require(me.find_info("key", "dflt") == V(own), "find_info with a default gives the wrong value")
                require(me.find_info_owner("key") is nodes[own], "find_info_owner gives {0}, want {1} of {2}",
                        me.find_info_owner("key").name, own, has)
                require(me.find_attr("special") == ("s", own), "find_attr gives {0}, want that of {1} of {2}",
                        me.find_attr("special"), own, has)
                require(me.find_attr("special", 3) == ("s", own), "find_attr with a default gives the wrong value")
            else:
                for fn, exc in ((me.find_info, KeyError), (me.find_info_owner, KeyError)):
                    try:
                        got = fn("key")
                    except exc:
                        pass
                    else:
                        raise Fail("found a key nobody has: {0}".format(got))
                require(me.find_info("key", None) is None and me.find_info("key", "d") == "d", "default of find_info is lost")
                try:
                    got = me.find_attr("special")
                except AttributeError:
                    pass
                else:
                    raise Fail("found an attribute nobody has: {0}".format(got))
                require(me.find_attr("special", None) is None and me.find_attr("special", 2) == 2,
                        "default of find_attr is lost")
            if oth is not None:
                want_all["other"] = ("o", oth)
            require(me.get_all_info() == want_all, "get_all_info gives {0}, want {1}", me.get_all_info(), want_all)
            # own info only
            require(me.has_info("key") == (0 in has), "has_info looks further than the node")
            require(me.get_info("key", "d") == (V(0) if 0 in has else "d"), "get_info looks further than the node")
            if 0 not in has:
                try:
                    me.get_info("key")
                except KeyError:
                    pass
                else:
                    raise Fail("get_info gives a value the node does not have")
            # updates change it where it is
            before = [dict(nd._info) for nd in nodes]
            try:
                me.update_info("key", "new", fallback=False)
                done = True
            except KeyError:
                done = False
            require(done == (own is not None), "update_info without fallback {0}", "succeeds" if done else "fails")
            if own is not None:
                before[own]["key"] = "new"
            require([nd._info for nd in nodes] == before, "update_info left {0}, want {1}", [nd._info for nd in nodes],
                    before)
            me.update_info("key", "newer")
            before[own if own is not None else 0]["key"] = "newer"
            require([nd._info for nd in nodes] == before, "update_info left {0}, want {1}", [nd._info for nd in nodes],
                    before)
            require(me.find_info("key") == "newer", "an updated value is not found")
        for i, ps in enumerate(parents):
            for p in list(ps):
                nodes[p].tear_down_child(nodes[i])
                nodes[p].tear_down_child(nodes[i])
                require(nodes[p] not in nodes[i].parents, "a parent stays after it is torn down")
            require(nodes[i].parents == [], "parents remain: {0}", nodes[i].parents)
        return "cyclic" if any(0 in parents[m] for m in order) else "%d ancestors" % (len(order) - 1)

    # ---------------------------------------------------------------- sequences on a real tree
    def run_shard(self, shard, tier, rec):
        if shard[0] != "ops":
            return Check.run_shard(self, shard, tier, rec)
        depth = 5 if tier == "thorough" else 4

        def on_fail(hist, e):
            rec.fail(dict(kind="ops", hist=[list(h) for h in hist]), str(e), e.finding)

        first = shard[1]

        def menu(pair, d):
            m = _Sys.MENU
            return [ev for k, ev in enumerate(m) if d > 0 or k % 8 == first]
        explore_bfs(rec, _Sys, menu, lambda s, ev: s.apply(ev, True), lambda s: s.canon(), depth, on_fail,
                    replay_=lambda s, ev: s.apply(ev, False))
        rec.outcome("sequences")
        return None

    def run_ops(self, case, rec):
        s = _Sys()
        for ev in case["hist"]:
            s.apply(tuple(ev), True)
        return "ok"

    # ---------------------------------------------------------------- times
    BASES = [None, "2010-06-01T00:00:00", "1999-12-31T23:59:59.5", "0000-00-00"]
    BASES = [None, "2010-06-01T00:00:00.000", "1999-12-31T23:59:59.500", "1970-01-01T00:00:00.000"]

    def run_time(self, case, rec):
        import viscid
        from viscid.tree import Node
        top, mid, leaf = Node(name="top"), Node(name="mid"), Node(name="leaf")
        top.prepare_child(mid)
        mid.prepare_child(leaf)
        chain = [leaf, mid, top]
        owner = chain[case["owner"]]
        base = self.BASES[case["base"]]
        b64 = None if base is None else np.datetime64(base)
        if base is not None:
            owner.basetime = base if case["val"] % 2 else b64
            require(viscid.as_datetime64(leaf.basetime) == b64, "basetime {0} set, {1} found", base, leaf.basetime)
        else:
            try:
                got = leaf.basetime
            except viscid.NoBasetimeError:
                pass
            else:
                raise Fail("there is no basetime, yet {0} is found".format(got))
        rec.state((case["owner"], case["base"], case["val"]))
        rec.step()
        require(leaf.time is None, "a node without a time has time {0}", leaf.time)
        require(leaf.format_time() == "Timeless" and leaf.format_time(default="x") == "x", "a node without a time: {0}",
                leaf.format_time())
        b = b64 if b64 is not None else np.datetime64("2010-06-01T00:00:00.000")
        vals = [(0, 0.0, False), (12.25, 12.25, False), (-3, -3.0, False), (np.float32(2.5), 2.5, False),
                (np.timedelta64(90, "s"), 90.0, False), (datetime.timedelta(hours=1, milliseconds=500), 3600.5, False),
                (b + np.timedelta64(2500, "ms"), 2.5, True),
                ((b + np.timedelta64(-90, "m")).astype("M8[us]").tolist(), -5400.0, True),
                (str(b + np.timedelta64(86400125, "ms")), 86400.125, True)]
        val, secs, needs = vals[case["val"]]
        if needs and base is None:
            try:
                owner.time = val
            except viscid.NoBasetimeError:
                require(leaf.time is None, "a time that could not be set was set: {0}", leaf.time)
                return "no basetime"
            raise Fail("the date {0} was taken for a time without a basetime: {1}".format(val, leaf.time))
        owner.time = val
        require(type(leaf.time) is float and leaf.time == secs, "time set to {0!r}, {1!r} found, want {2}", val, leaf.time,
                secs)
        for lower in chain[:case["owner"]]:
            require(not lower.has_info("time"), "setting the time of a parent set that of a child")
        for upper in chain[case["owner"] + 1:]:
            require(upper.time is None, "setting the time of a child set that of its parent")
        us = int(round(secs * 1e6))
        require(leaf.time_as_timedelta64() == np.timedelta64(us, "us"), "time {0} as timedelta64 is {1}", secs,
                leaf.time_as_timedelta64())
        require(leaf.time_as_timedelta() == datetime.timedelta(microseconds=us), "time {0} as timedelta is {1}", secs,
                leaf.time_as_timedelta())
        require(leaf.format_time(".3f") == "{0:.3f}".format(secs), "time {0} is formatted as {1}", secs,
                leaf.format_time(".3f"))
        if base is not None:
            when = b64 + np.timedelta64(us, "us")
            require(leaf.time_as_datetime64() == when, "time {0} from {1} as datetime64 is {2}", secs, base,
                    leaf.time_as_datetime64())
            require(np.datetime64(leaf.time_as_datetime()) == when, "time {0} from {1} as datetime is {2}", secs, base,
                    leaf.time_as_datetime())
            require(leaf.t2datetime64(np.timedelta64(7, "s")) == b64 + np.timedelta64(7, "s"), "t2datetime64 gives {0}",
                    leaf.t2datetime64(np.timedelta64(7, "s")))
        else:
            try:
                got = leaf.time_as_datetime64()
            except viscid.NoBasetimeError:
                pass
            else:
                raise Fail("there is no basetime, yet the date is {0}".format(got))
        owner.time = None
        require(leaf.time == secs, "setting the time to None changed it to {0}", leaf.time)
        # a nearer one wins
        if case["owner"]:
            chain[case["owner"] - 1].time = 77
            require(leaf.time == 77.0 and owner.time == secs, "times are {0} and {1}, want 77 and {2}", leaf.time,
                    owner.time, secs)
        return "date" if needs else "number"

    # ---------------------------------------------------------------- derived fields
    def run_derived(self, case, rec):
        s = _Sys()
        name, get = DERIVED[case["how"]]
        s.apply(("add", "D1", "G1"), False)
        s.apply(("addf", "G1"), False)
        owner = ["D1", "G1", "F", None][case["where"]]
        if owner:
            s.obj[owner].set_info("key", "there")
        if case["time"] is not None:
            s.obj["F"].time = case["time"]
        s.obj["D1"].basetime = "2010-01-01T00:00:00"
        rec.state((name, case["where"], case["time"]))
        rec.step()
        f = s.obj["F"]
        d = get(f)
        require(d is not f, "nothing was derived")
        require(d.find_info("key", "none") == ("there" if owner else "none"), "{0}: info of {1} is {2}", name, owner,
                d.find_info("key", "none"))
        require(d.time == f.time == (case["time"] or 0.0), "{0}: time is {1}, that of the source is {2}", name, d.time,
                f.time)
        require(d.basetime == f.basetime, "{0}: basetime differs", name)
        d.set_info("key", "mine")
        require(d.find_info("key") == "mine" and f.find_info("key", "none") == ("there" if owner else "none"),
                "{0}: setting info of the derived field set that of its source", name)
        d.time = 99.0
        require(f.time == (case["time"] or 0.0), "{0}: setting the time of the derived field set that of its source", name)
        return name


DERIVED = [
    ("slice", lambda f: f["x=1:3"]),
    ("keep", lambda f: f.slice_and_keep("x=1")),
    ("reduce", lambda f: f.slice_and_reduce("x=1")),
    ("sum", lambda f: f + 1),
    ("product", lambda f: f * f),
    ("negative", lambda f: -f),
    ("ufunc", lambda f: np.sin(f)),
    ("reduction", lambda f: f.sum(axis=0)),
    ("shell copy", lambda f: f.shell_copy(force=True)),
    ("cell", lambda f: f.as_cell_centered()),
    ("astype", lambda f: f.astype("f4")),
    ("transpose", lambda f: f.T),
    ("via grid", lambda f: [p for p in f.parents if hasattr(p, "get_field")][0]["f"].shell_copy(force=True)),
    ("comparison", lambda f: f > 1),
]


class _Sys(object):
    """two datasets, two grids and a field, with a model of who is whose parent and what each knows"""
    NODES = ("D1", "D2", "G1", "G2", "F")
    MENU = ([("add", d, g) for d in ("D1", "D2") for g in ("G1", "G2")] + [("add", "D1", "D2")] +
            [("addf", g) for g in ("G1", "G2")] + [("delf", g) for g in ("G1", "G2")] +
            [("clear", n) for n in ("D1", "D2", "G1")] +
            [("set", n) for n in ("D1", "D2", "G1", "F")] + [("update", n) for n in ("F", "G1", "D2")] +
            [("time", n) for n in ("D1", "G2", "F")])

    def __init__(self):
        import viscid
        from viscid.dataset import Dataset
        from viscid.grid import Grid
        self.obj = dict(D1=Dataset(name="D1"), D2=Dataset(name="D2"), G1=Grid(name="G1"), G2=Grid(name="G2"))
        x = np.linspace(0, 1, 4)
        f = viscid.arrays2field([x, x], np.arange(16.0).reshape(4, 4), name="f", center="node")
        self.obj["F"] = f
        self.extra = {id(p): p for p in f.parents}
        self.par = {n: [] for n in self.NODES}
        self.info = {n: {} for n in self.NODES}
        self.info["F"]["time"] = f.time
        self.kids = {n: [] for n in self.NODES}
        self.clock = 0

    def canon(self):
        return (tuple(sorted((k, tuple(v)) for k, v in self.par.items())),
                tuple(sorted((k, tuple(sorted(v.items()))) for k, v in self.info.items())),
                tuple(sorted((k, tuple(v)) for k, v in self.kids.items())))

    def unparent(self, child, parent):
        if parent in self.par[child]:
            self.par[child].remove(parent)

    def clear(self, n):
        kids, self.kids[n] = self.kids[n], []
        for k in kids:
            self.unparent(k, n)
            if k != "F":
                self.clear(k)

    def model_find(self, n, key):
        for m in order_of(self.par, n):
            if key in self.info[m]:
                return m
        return None

    def apply(self, ev, check):
        kind, args = ev[0], ev[1:]
        o = self.obj
        raised = None
        try:
            if kind == "add":
                o[args[0]].add(o[args[1]])
            elif kind == "addf":
                o[args[0]].add_field(o["F"])
            elif kind == "delf":
                del o[args[0]]["f"]
            elif kind == "clear":
                o[args[0]].remove_all_items()
            elif kind == "set":
                o[args[0]].set_info("key", args[0])
            elif kind == "update":
                o[args[0]].update_info("key", "upd" + args[0])
            elif kind == "time":
                o[args[0]].time = 1 + self.NODES.index(args[0])
        except KeyError as e:
            raised = e
        want_raise = False
        if kind in ("add", "addf"):
            par, kid = args if kind == "add" else (args[0], "F")
            if par not in self.par[kid]:
                self.par[kid].append(par)
            if kid not in self.kids[par]:
                self.kids[par].append(kid)
        elif kind == "delf":
            if "F" in self.kids[args[0]]:
                self.kids[args[0]].remove("F")
                self.unparent("F", args[0])
            else:
                want_raise = True
        elif kind == "clear":
            self.clear(args[0])
        elif kind == "set":
            self.info[args[0]]["key"] = args[0]
        elif kind == "update":
            own = self.model_find(args[0], "key") or args[0]
            self.info[own]["key"] = "upd" + args[0]
        elif kind == "time":
            self.info[args[0]]["time"] = 1.0 + self.NODES.index(args[0])
        if not check:
            return
        require(bool(raised) == want_raise, "{0}: {1!r} raised", ev, raised)
        for n in self.NODES:
            got = [p.name for p in o[n].parents if p in o.values() or id(p) not in self.extra] \
                if n != "F" else [p.name for p in o[n].parents if id(p) not in self.extra]
            require(got == self.par[n], "after {0} the parents of {1} are {2}, want {3}", ev, n, got, self.par[n])
            for key in ("key", "time"):
                own = self.model_find(n, key)
                want = None if own is None else self.info[own][key]
                require(o[n].find_info(key, None) == want, "after {0} the {1} of {2} is {3!r}, want {4!r} of {5}", ev, key,
                        n, o[n].find_info(key, None), want, own)
            require(o[n].time == (lambda m: None if m is None else self.info[m]["time"])(self.model_find(n, "time")),
                    "after {0} the time of {1} is {2!r}", ev, n, o[n].time)
        for g in ("G1", "G2"):
            require(("f" in o[g]) == ("F" in self.kids[g]), "after {0} the field is {1} in {2}", ev,
                    "" if "f" in o[g] else "not", g)
            if "F" in self.kids[g]:
                d = o[g]["f"]
                own = self.model_find("F", "key")
                require(d.find_info("key", None) == (None if own is None else self.info[own]["key"]),
                        "after {0} the field read from {1} finds {2!r}", ev, g, d.find_info("key", None))
