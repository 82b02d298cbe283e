"""Selections by position: reading (P01) and assigning (P03)"""
import itertools
import numpy as np

from vmc import fld
from vmc.core import Check, Fail, require


def int_items(n):
    return [("i", k) for k in range(-n, n)]


def slice_items(n, over=1, steps=(None, 1, 2, 3, -1, -2, -3)):
    rng = [None] + list(range(-n - over, n + over + 1))
    return [("s", a, b, c) for a in rng for b in rng for c in steps]


def list_items(n, maxlen):
    out = []
    for ln in range(1, maxlen + 1):
        rng = range(-n, n) if ln <= 2 else range(n)
        out += [("a", list(t)) for t in itertools.product(rng, repeat=ln)]
    return out


def mask_items(n):
    return [("m", list(t)) for t in itertools.product((0, 1), repeat=n) if any(t)]


MENU2 = [("i", 0), ("i", -1), ("i", 1), ("s", None, None, None), ("s", 1, None, None), ("s", None, -1, None),
         ("s", 1, 3, None), ("s", 0, 1, None), ("s", None, None, -1), ("s", None, None, 2), ("s", -1, 0, -2),
         ("s", -2, None, 1), ("s", 2, None, -1), ("a", [0, 2]), ("a", [2, 0]), ("a", [1]), ("a", [-1, 1, 1]),
         ("m", [1, 0, 1]), ("m", [0, 1, 1])]
MENU3 = [("i", 1), ("i", -1), ("s", None, None, None), ("s", 0, 2, None), ("s", None, None, -1), ("s", None, None, 2),
         ("a", [2, 0]), ("m", [1, 1, 0])]


def fit(it, n):
    """adapt a mask of the menu to the axis length"""
    if it[0] == "m":
        v = list(it[1])
        return ("m", (v + v)[:n])
    if it[0] == "a":
        return ("a", [k if -n <= k < n else n - 1 for k in it[1]])
    if it[0] == "i":
        return ("i", it[1] if -n <= it[1] < n else 0)
    return it


def place(items, shape):
    """fit each item to the axis it lands on"""
    n_real = sum(it[0] not in ("new", "ell") for it in items)
    out, ax = [], 0
    for it in items:
        if it[0] == "ell":
            ax += len(shape) - n_real
            out.append(it)
        elif it[0] == "new":
            out.append(it)
        else:
            out.append(fit(it, shape[ax]))
            ax += 1
    return out


def with_extras(items, shape):
    for ext in _with_extras(items):
        yield place(ext, shape)


def _with_extras(items):
    """the selection itself, then with newaxis / ellipsis spliced in"""
    items = list(items)
    yield items
    for p in range(len(items) + 1):
        yield items[:p] + [("new",)] + items[p:]
    for p in range(len(items) + 1):
        yield items[:p] + [("ell",)] + items[p:]
    yield [("new",)] + items + [("new",)]
    yield [("new",), ("ell",)] + items
    yield items + [("ell",), ("new",)]


class _Sel(Check):
    def setup(self):
        import viscid
        self.viscid = viscid
        self._cache = {}

    def get(self, shape, kinds, center, layout):
        key = (tuple(shape), kinds, center, layout)
        if key not in self._cache:
            # n interlaced points of n components can not be told from a flat field
            comps = 2 if layout == "interlaced" and set(shape) == {3} else 3
            self._cache[key] = fld.make(shape, kinds, center, layout, comps=comps)
        return self._cache[key]

    @staticmethod
    def spell(case):
        """the selection object for a case"""
        syn = case.get("syn", "obj")
        items = case["items"]
        comp = case.get("comp")
        if syn == "str":
            parts = [fld.item_obj(it, "str") for it in items]
            if comp:
                parts.insert(case.get("comp_at", 0), comp)
            return ", ".join(parts)
        if syn == "named":
            order = case["order"]
            parts = ["{0} = {1}".format("xyz"[k], fld.item_obj(items[k], "str")) for k in order]
            if comp:
                parts.insert(0, comp)
            return ", ".join(parts)
        objs = [fld.item_obj(it, syn) for it in items]
        if syn == "mixed":
            objs = [fld.item_obj(it, "str" if i % 2 else "obj") for i, it in enumerate(items)]
        if comp:
            objs.insert(case.get("comp_at", 0), comp)
        if len(objs) == 1 and case.get("bare", True):
            return objs[0]
        return tuple(objs)

    def model_items(self, case, m):
        items = [tuple(it) for it in case["items"]]
        if case.get("syn") == "named":
            items = [it if k in case["order"] else ("s", None, None, None) for k, it in enumerate(items)]
        return items


def selections(dim, tier):
    """(shape, items) pairs of a dimension"""
    thorough = tier == "thorough"
    if dim == 1:
        for n in range(1, 6 if thorough else 5):
            for it in (int_items(n) + slice_items(n, 2 if thorough else 1) + list_items(n, 3 if n < 5 else 2)
                       + mask_items(n)):
                yield (n,), [it]
    elif dim == 2:
        for shape in ([(4, 3), (2, 3)] if not thorough else [(4, 3), (3, 3), (2, 5), (1, 3), (2, 2)]):
            for a, b in itertools.product(MENU2, MENU2):
                yield shape, [a, b]
            for a in MENU2:
                yield shape, [a]
    else:
        for shape in ([(3, 2, 4)] if not thorough else [(3, 2, 4), (2, 3, 3), (3, 1, 2)]):
            menu = MENU3 if not thorough else MENU3 + [("i", 0), ("s", -2, None, None), ("a", [0, 1])]
            for its in itertools.product(menu, repeat=3):
                yield shape, list(its)
            for its in itertools.product(menu, repeat=2):
                yield shape, list(its)


class IndexRead(_Sel):
    pid = "V01"
    rule = ("exhaustive: in 1-D every integer, every start/stop/step combination reaching past both ends, every index "
            "list up to the length bound and every mask; in 2-D/3-D the product of per-axis menus, with new axes and "
            "ellipses spliced in at every place, for every centering, layout and component selection, in every spelling")
    bounds = {"1d_len": "1..4 (thorough 5)", "2d_shapes": "3x3, 4x3", "3d_shapes": "3x2x4", "index_list_len": 3}
    assumptions = ("an empty selection is not constrained", "index arrays select along their own axis")

    def shards(self, tier):
        extra = [(1, kinds, center, None) for kinds in ("vvv", "www", "ooo", "ppp", "qqq") for center in ("node", "cell")]
        extra += [(2, "wvn", center, None) for center in ("node", "cell")]
        return extra + [(dim, kinds, center, layout)
                for dim in (3, 2, 1) for kinds in ("uuu", "nnn") for center in ("node", "cell")
                for layout in (None, "flat", "interlaced")]

    def cases(self, shard, tier):
        dim, kinds, center, layout = shard
        comps = [None] if layout is None else [None, "x", "z"]
        base = dict(kinds=kinds, center=center, layout=layout)
        nth = 0
        for shape, items in selections(dim, tier):
            comp_loop = comps if dim > 1 or layout is None else comps[:2]
            for comp in comp_loop:
                extras = (dim > 1 or items[0][0] != "s") and (comp is None or tier == "thorough")
                exts = list(with_extras(items, shape)) if extras else [place(items, shape)]
                for k, ext in enumerate(exts):
                    nth += 1
                    # with extras on the costly dimensions: uniform only for half of them
                    if tier == "quick" and dim == 3 and k and (nth % 3) != (len(kinds) if kinds[0] == "u" else 1) % 3:
                        continue
                    c = dict(base, shape=list(shape), items=ext, comp=comp)
                    yield c
                    if k == 0:
                        yield dict(c, syn="str")
                        if any(it[0] in "am" for it in items):
                            yield dict(c, syn="nparr")
                        if dim > 1:
                            yield dict(c, syn="mixed")
                            for order in itertools.permutations(range(len(items))):
                                if tier == "quick" and list(order) == list(range(len(items))):
                                    continue
                                yield dict(c, syn="named", order=list(order))
                        if comp:
                            yield dict(c, comp_at=len(items))
                    elif k < 4 and dim < 3:
                        yield dict(c, syn="str")
                    if comp is None and (dim < 3 or nth % 4 == 0):
                        news = [j for j, it in enumerate(ext) if it[0] == "new"]
                        for j in news:
                            its = list(ext)
                            its[j] = ("new", "q")
                            yield dict(c, items=its, syn="str")

    def run_case(self, case, rec):
        f, m = self.get(case["shape"], case["kinds"], case["center"], case["layout"])
        items = self.model_items(case, m)
        ex = fld.expect(m, items, case.get("comp"))
        if ex is None:
            return "empty selection: unconstrained"
        sel = self.spell(case)
        rec.state((case["shape"], case["kinds"], case["center"], case["layout"], repr(sel)))
        rec.step()
        r = f[sel]
        if ex["dat"].size == 1 and case["layout"] is not None and not case.get("comp") and not hasattr(r, "crds"):
            raise Fail("lost components")
        lab = fld.check_result(r, ex, m, "f[{0!r}]".format(sel))
        # looking must not change the thing looked at
        if rec.transitions % 16 == 0:
            require(fld.same(fld.comp_first(f), m["dat"]), "the sliced field itself changed")
            for g, w in zip(f.get_crds(), m["crds"]):
                require(fld.same(g, w, 1e-12, m["scale"]), "the coordinates of the sliced field changed")
        return lab


def zip_axes(m, items):
    """items with the coordinates of the axis each is for (None for a new axis)"""
    crds = list(m["crds"])
    return [(it, None if it[0] == "new" else crds.pop(0)) for it in fld.expand(items, len(m["axes"]))]


def keep_expect(m, items):
    """slice_and_keep: integers keep their axis with one entry"""
    out = []
    for it, x in zip_axes(m, items):
        if it[0] == "i":
            k = it[1] + len(x) if it[1] < 0 else it[1]
            it = ("s", k, k + 1, None)
        out.append(it)
    return fld.expect(m, out)


def reduce_expect(m, items):
    """slice_and_reduce: axes of the field that only have one entry go away too"""
    out = []
    for it, x in zip_axes(m, items):
        if x is not None and len(x) == 1:
            it = ("i", 0)
        out.append(it)
    return fld.expect(m, out)


class Assign(_Sel):
    pid = "V02"
    rule = ("exhaustive over the selection enumeration of the reading check: the selected elements are assigned from a "
            "scalar and from an array shaped like the read result; every other element is compared")
    bounds = {"1d_len": "1..4 (thorough 5)", "2d_shapes": "4x3, 2x3", "3d_shapes": "3x2x4", "index_list_len": 3}
    assumptions = ("index lists that name an element twice are only assigned scalars",)

    def shards(self, tier):
        return [(dim, center, layout) for dim in (3, 2, 1) for center in ("node", "cell")
                for layout in (None, "flat", "interlaced")]

    def cases(self, shard, tier):
        dim, center, layout = shard
        comps = [None] if layout is None else [None, "x"]
        for shape, items in selections(dim, tier):
            for comp in comps:
                exts = [place(items, shape)]
                if dim > 1 and comp is None:
                    exts = list(with_extras(items, shape))
                for k, ext in enumerate(exts):
                    if k > 3 and tier == "quick" and k % 2:
                        continue
                    c = dict(kinds="nnn", shape=list(shape), items=ext, comp=comp, center=center, layout=layout)
                    yield dict(c, val="scalar")
                    yield dict(c, val="array")
                    if k == 0 and dim > 1:
                        yield dict(c, val="scalar", syn="str")

    def run_case(self, case, rec):
        f, m = self.get(case["shape"], case["kinds"], case["center"], case["layout"])
        items = self.model_items(case, m)
        ex = fld.expect(m, items, case.get("comp"))
        if ex is None:
            return "empty selection: unconstrained"
        sel = self.spell(case)
        rec.state((case["shape"], case["center"], case["layout"], case["val"], repr(sel)))
        rec.step()
        # which elements are selected, by their (unique) values
        want = m["dat"].copy()
        ids = ex["dat"].astype(int)
        order = {int(v): k for k, v in enumerate(m["dat"].ravel().astype(int))}
        dup = len(set(ids.ravel().tolist())) != ids.size
        if case["val"] == "scalar" or dup:
            new = np.full(ids.shape, -7.0)
            val = -7.0
        else:
            new = -1.0 - np.arange(ids.size).reshape(ids.shape)
            val = new
            if ex["has_comp"] and m["layout"] == "interlaced":
                val = np.moveaxis(new, 0, -1)
        flat = want.reshape(-1)
        for i, v in zip(ids.ravel(), new.ravel()):
            flat[order[int(i)]] = v
        before = np.array(f.data)
        try:
            f[sel] = val
            got = fld.comp_first(f)
        finally:
            f.data[...] = before
        require(fld.same(got, want), "f[{0!r}] = {1}: data became {2}, want {3}", sel, case["val"], fld.short(got),
                fld.short(want))
        return "assigned %s" % case["val"]


class KeepReduce(_Sel):
    pid = "V03"
    rule = "exhaustive over per-axis menus on 1-D..3-D grids with axes of length one, both centerings"
    bounds = {"shapes": "1-D 1..4, 2-D {1,2,3}x{1,3}, 3-D {1,2}x{1,3}x{1,2}"}

    def shards(self, tier):
        return [(center, kinds, layout) for center in ("node", "cell") for kinds in ("uuu", "nnn")
                for layout in (None, "flat")]

    def cases(self, shard, tier):
        center, kinds, layout = shard
        base = dict(center=center, kinds=kinds, layout=layout)
        for n in range(1, 5):
            for it in int_items(n) + slice_items(n, 0, (None, 2, -1)):
                for how in ("keep", "reduce"):
                    yield dict(base, shape=[n], items=[it], how=how)
        for shape in itertools.product((1, 2, 3), (1, 3)):
            for its in itertools.product(MENU2, repeat=2):
                for how in ("keep", "reduce"):
                    its = place(its, shape)
                    yield dict(base, shape=list(shape), items=its, how=how)
                    if kinds == "nnn":
                        for p in (range(len(its) + 1) if len(its) < 3 or tier == "thorough" else (0, 2)):
                            yield dict(base, shape=list(shape), items=its[:p] + [("new",)] + its[p:], how=how)
        for shape in itertools.product((1, 2), (1, 3), (1, 2)):
            for its in itertools.product(MENU3, repeat=3):
                for how in ("keep", "reduce"):
                    its = place(its, shape)
                    yield dict(base, shape=list(shape), items=its, how=how)
                    if kinds == "nnn":
                        for p in (range(len(its) + 1) if len(its) < 3 or tier == "thorough" else (0, 2)):
                            yield dict(base, shape=list(shape), items=its[:p] + [("new",)] + its[p:], how=how)

    def run_case(self, case, rec):
        f, m = self.get(case["shape"], case["kinds"], case["center"], case["layout"])
        items = [tuple(it) for it in case["items"]]
        if fld.expect(m, items) is None:
            return "empty selection: unconstrained"
        ex = keep_expect(m, items) if case["how"] == "keep" else reduce_expect(m, items)
        if ex is None:
            return "empty selection: unconstrained"
        sel = self.spell(case)
        rec.state((case["shape"], case["kinds"], case["center"], case["layout"], case["how"], repr(sel)))
        rec.step()
        r = f.slice_and_keep(sel) if case["how"] == "keep" else f.slice_and_reduce(sel)
        return case["how"] + " " + fld.check_result(r, ex, m, "slice_and_%s(%r)" % (case["how"], sel))


class FwdSlice(Check):
    pid = "V04"
    rule = ("exhaustive over start, stop in [-L-2, L+2] or absent, step in {absent, ±1, ±2, ±3}, every integer, both "
            "orientations, axes up to the length bound; and products of per-axis menus with new axes in 2-D and 3-D")
    bounds = {"L": "1..6 (thorough 9)", "dims": "1..3"}

    def shards(self, tier):
        return [("1d", L) for L in range(1, 10 if tier == "thorough" else 7)] + [("2d", r) for r in range(4)] + \
               [("3d", r) for r in range(8)]

    def cases(self, shard, tier):
        kind, arg = shard
        if kind == "1d":
            for rev in (False, True):
                for it in slice_items(arg, 2) + int_items(arg):
                    yield dict(shape=[arg], rev=[rev], items=[it])
            return
        nd = int(kind[0])
        shape = [3, 4] if nd == 2 else [3, 2, 4]
        rev = [bool(arg >> k & 1) for k in range(nd)]
        menu = [it for it in (MENU2 if nd == 2 or tier == "thorough" else MENU3) if it[0] in "is"]
        for its in itertools.product(menu, repeat=nd):
            its = place(its, shape)
            yield dict(shape=shape, rev=rev, items=its)
            for p in range(nd + 1):
                yield dict(shape=shape, rev=rev, items=its[:p] + [("new",)] + its[p:])
            yield dict(shape=shape, rev=rev, items=[("new",)] + its + [("new",)])
            yield dict(shape=shape, rev=rev, items=its[:-1])

    def run_case(self, case, rec):
        from viscid import sliceutil
        shape, rev, items = case["shape"], case["rev"], [tuple(it) for it in case["items"]]
        a = np.arange(int(np.prod(shape))).reshape(shape)
        objs = [fld.item_obj(it) for it in items]
        want = a[tuple(slice(None, None, -1 if r else 1) for r in rev)][tuple(objs)]
        rec.state((shape, rev, repr(objs)))
        rec.step()
        forms = [("lists", list(shape), list(objs), list(rev)),
                 ("tuples", tuple(shape), tuple(objs), tuple(rev))]
        if len(items) <= 2 or len(shape) == 1:
            forms.append(("array shape", np.array(shape), list(objs), list(rev)))
            forms.append(("numpy ints", [np.int64(n) for n in shape],
                          [np.int64(o) if isinstance(o, int) else o for o in objs], list(rev)))
            short = list(rev)
            while short and not short[-1]:
                short.pop()
            forms.append(("short reverse", list(shape), list(objs), short))
            if not any(rev):
                forms.append(("no reverse", list(shape), list(objs), None))
        if len(shape) == 1 and len(items) == 1:
            forms.append(("scalars", shape[0], objs[0], rev[0]))
        for form, sh, ob, rv in forms:
            rec.step()
            before = repr((sh, ob, rv))
            first, second = sliceutil.make_fwd_slice(sh, ob, *(() if rv is None else (rv,)))
            require(repr((sh, ob, rv)) == before, "{0}: arguments changed from {1} to {2}", form, before, (sh, ob, rv))
            for s in first:
                if isinstance(s, slice):
                    require(s.step is None or s.step > 0, "first slice {0} does not go forward", s)
            got = np.asarray(a[tuple(first)])[tuple(second)]
            require(fld.same(got, want), "{6}: slices {0!r} of {1} (reversed {2}): {3} -> {4}, want {5}", objs, shape,
                    rev, (first, second), fld.short(got), fld.short(want), form)
        return "empty" if np.size(want) == 0 else "%dd" % np.ndim(want)
