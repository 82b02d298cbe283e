"""Buckets: many handles for an item"""
import itertools

from vmc.core import Check, Fail, require, explore_bfs


class _Model(object):
    def __init__(self):
        self.handles = {}     # handle -> item name
        self.counter = 0
        self.order = []       # item names in order of their first store since last absent
        self.refs = {}

    def bind(self, name, hs, auto=True, add_ref=False):
        hs = list(hs)
        if name not in self.order and auto:
            hs.append(self.counter)
            self.counter += 1
        new = name not in self.order
        for h in hs:
            old = self.handles.get(h)
            self.handles[h] = name
            if old is not None and old != name:
                self.prune(old)
        if new and name in self.handles.values():
            self.order.append(name)
            self.refs[name] = 1
        elif not new and add_ref:
            self.refs[name] += 1

    def prune(self, name):
        if name not in self.handles.values():
            self.forget(name)

    def forget(self, name):
        self.handles = {h: n for h, n in self.handles.items() if n != name}
        if name in self.order:
            self.order.remove(name)
            self.refs.pop(name)

    def canon(self):
        return (tuple(sorted(self.handles.items(), key=repr)), self.counter, tuple(self.order),
                tuple(sorted(self.refs.items())))


class _Item(object):
    def __init__(self, name):
        self.name = name


class Buckets(Check):
    pid = "V06"
    rule = ("breadth-first over every sequence of stores (by a list of handles with or without automatic number, by "
            "subscript with one or several handles), removals (by handle, by item, of a reference, of all) on three items, "
            "some of them not hashable, or equal without being the same, and handles that collide with each other and with the automatic numbers")
    bounds = {"items": 3, "handles": "'a', 'b', 0, 1", "depth": "4 (thorough 5)"}
    assumptions = ("hashable items do not compare equal", "handles are hashable and are not items")

    HSETS = [(), ("a",), ("a", "b"), ("b",), (0,), (1, "a"), ("a", "a")]

    def setup(self):
        from viscid.bucket import Bucket
        self.Bucket = Bucket

    def shards(self, tier):
        return [(o, depth, i) for o in (False, True) for depth in ((5,) if tier == "thorough" else (4,))
                for i in range(4)]

    def menu(self, first=None):
        out = []
        for it in "PQU":
            for hs in self.HSETS:
                out.append(["set", it, list(hs), True])
                if hs:
                    out.append(["set", it, list(hs), False])
            out.append(["sub", it, "a"])
            out.append(["sub", it, ["b", 1]])
            out.append(["addref", it, ["a"]])
            out.append(["delitem", it])
            out.append(["rm", it])
            out.append(["deref", it])
        for h in ("a", "b", 0, 1, 2):
            out.append(["del", h])
            out.append(["derefh", h])
        out.append(["clear"])
        return out

    def make(self, ordered):
        b = self.Bucket(ordered=ordered)
        # in the plain bucket P is equal to U without being the same
        return (b, _Model(), {"P": _Item("P") if ordered else {"an": "unhashable"}, "Q": ("Q", 1),
                              "U": {"an": "unhashable"}}, ordered)

    def apply(self, st, ev, look=True):
        b, m, items, ordered = st
        k = ev[0]

        def expect_missing(fn, what):
            try:
                fn()
            except (KeyError, ValueError):
                return
            raise Fail("{0}: removing what is not there raised nothing".format(what))

        if k in ("set", "addref"):
            hs = list(ev[2])
            if k == "set":
                b.set_item(hs, items[ev[1]], index_handle=ev[3])
            else:
                b.set_item(hs, items[ev[1]], _add_ref=True)
            require(hs == list(ev[2]), "{0}: the caller's list of handles became {1}", ev, hs)
            m.bind(ev[1], ev[2], ev[3] if k == "set" else True, k == "addref")
        elif k == "sub":
            key = ev[2]
            b[tuple(key) if isinstance(key, list) else key] = items[ev[1]]
            m.bind(ev[1], key if isinstance(key, list) else [key])
        elif k in ("delitem", "rm"):
            def fn():
                if k == "delitem":
                    del b[items[ev[1]]]
                else:
                    b.remove_item(items[ev[1]])
            if ev[1] in m.order:
                fn()
                m.forget(ev[1])
            else:
                expect_missing(fn, ev)
        elif k == "deref":
            if ev[1] in m.order:
                b.remove_reference(items[ev[1]])
                m.refs[ev[1]] -= 1
                if m.refs[ev[1]] <= 0:
                    m.forget(ev[1])
        elif k == "derefh":
            if ev[1] in m.handles:
                nm = m.handles[ev[1]]
                b.remove_reference(ev[1])
                m.refs[nm] -= 1
                if m.refs[nm] <= 0:
                    m.forget(nm)
        elif k == "del":
            def fn():
                del b[ev[1]]
            if ev[1] in m.handles:
                nm = m.handles[ev[1]]
                fn()
                m.forget(nm)
            else:
                expect_missing(fn, ev)
        elif k == "clear":
            b.remove_all_items()
            for nm in list(m.order):
                m.forget(nm)
        if look:
            self.observe(st, ev)

    def observe(self, st, ev):
        b, m, items, ordered = st
        require(len(b) == len(m.order), "{0}: {1} items, want {2}", ev, len(b), m.order)
        name = lambda it: [n for n, i in items.items() if i is it][0]
        for how, seq in (("iteration", list(b)), ("values", list(b.values())), ("items_as_list", b.items_as_list())):
            got = [name(i) for i in seq]
            require((got if ordered else sorted(got)) == (m.order if ordered else sorted(m.order)),
                    "{0}: {1} gives {2}, want {3}", ev, how, got, m.order)
        for h in ("a", "b", 0, 1, 2, 3):
            require((h in b) == (h in m.handles) and b.contains_handle(h) == (h in m.handles),
                    "{0}: handle {1!r} in bucket: {2}", ev, h, h in b)
            if h in m.handles:
                require(b[h] is items[m.handles[h]], "{0}: handle {1!r} gives {2}, want {3}", ev, h, b[h], m.handles[h])
            else:
                try:
                    b[h]
                except KeyError:
                    pass
                else:
                    raise Fail("{0}: handle {1!r} of nothing was found".format(ev, h))
        for n, i in items.items():
            require((i in b) == (n in m.order) and b.contains_item(i) == (n in m.order), "{0}: item {1} in bucket: {2}",
                    ev, n, i in b)
        got = {name(i): list(hs) for hs, i in b.items()}
        want = {n: set(h for h, nn in m.handles.items() if nn == n) for n in m.order}
        require({n: set(hs) for n, hs in got.items()} == want and all(len(set(h)) == len(h) for h in got.values()),
                "{0}: handles of the items are {1}, want {2}", ev, got, want)
        require(sorted(map(sorted, [list(map(repr, h)) for h in b.keys()])) ==
                sorted(map(sorted, [list(map(repr, h)) for h in want.values()])), "{0}: keys() gives {1}", ev,
                list(b.keys()))
        prim = list(b.get_primary_handles())
        require(len(prim) == len(m.order) and sorted(m.handles.get(p, "?") for p in prim) == sorted(m.order),
                "{0}: primary handles {1}", ev, prim)

    def run_shard(self, shard, tier, rec):
        ordered, depth, part = shard

        def menu(pair, d):
            evs = self.menu()
            return [e for i, e in enumerate(evs) if i % 4 == part] if d == 0 else evs

        explore_bfs(rec, lambda: self.make(ordered), menu, self.apply,
                    lambda st: (ordered, st[1].canon()), depth,
                    lambda hist, e: rec.fail({"ordered": ordered, "hist": hist}, str(e), e.finding),
                    replay_=lambda st, ev: self.apply(st, ev, False))
        rec.outcome("explored ordered=%s" % ordered)
        rec.sample({"ordered": ordered, "hist": [self.menu()[0], self.menu()[10]]})

    def run_case(self, case, rec):
        st = self.make(case["ordered"])
        for ev in case["hist"]:
            self.apply(st, ev)
