"""Small fields whose every element is distinguishable, and comparison helpers (no slicing code of the library)."""
import itertools
import numpy as np

from vmc.core import Fail, require

AX = "xyz"


# tiny and huge spacings, and coordinates far away from zero; powers of two keep the arithmetic exact
_SCALED = {"v": (2.0**-31, 0.0, "u"), "w": (2.0**-31, 0.0, "n"), "o": (1.0, 2.0**15, "u"), "p": (1.0, 2.0**15, "n"),
           "q": (2.0**20, 0.0, "n")}


def nodes(kind, n, shift=0.0):
    """n node positions: 'u' uniform, 'n' strongly non-uniform (no two spacings equal), 'd' dates, 't' timedeltas"""
    if kind == "u":
        return shift + 0.5 * np.arange(n)
    if kind == "n":
        return shift + np.array([i + 0.11 * i * i for i in range(n)])
    if kind in _SCALED:
        scale, off, base = _SCALED[kind]
        return off + scale * nodes(base, n, shift)
    if kind == "d":
        return np.datetime64("2001-02-03T04:05:06", "us") + np.array([10 * i + i * i for i in range(n)]).astype("m8[s]")
    if kind == "t":
        return np.array([10 * i + i * i for i in range(n)]).astype("m8[s]").astype("m8[us]")
    raise ValueError(kind)


def centers(x):
    return x[:-1] + 0.5 * (x[1:] - x[:-1])


def grid(shape, kinds, center):
    """shape = number of data points per axis; returns (nc list, cc list)"""
    nc = [nodes(k, n + (center == "cell"), shift=-1.0 - i) for i, (n, k) in enumerate(zip(shape, kinds))]
    return nc, [centers(x) for x in nc]


def make(shape, kinds="uuu", center="node", layout=None, dtype="f8", name="fld", axes=AX, comps=3):
    """-> (field, dict(model))"""
    import viscid
    shape = tuple(shape)
    nc, cc = grid(shape, kinds, center)
    axes = list(axes[:len(shape)])
    size = int(np.prod(shape))
    if layout is None:
        dat = (1 + np.arange(size)).reshape(shape).astype(dtype)
        arr = dat.copy()
    else:
        dat = (1 + np.arange(comps * size)).reshape((comps,) + shape).astype(dtype)
        arr = dat.copy() if layout == "flat" else np.moveaxis(dat, 0, -1).copy()
    crdtype = "uniform" if all(k in "uvo" for k in kinds[:len(shape)]) else "nonuniform"
    crds = viscid.wrap_crds(crdtype + "_cartesian", [(a, x.copy()) for a, x in zip(axes, nc)], full_arrays=True)
    f = viscid.wrap_field(arr, crds, name=name, center=center, fldtype="scalar" if layout is None else "vector",
                          layout=layout if layout is not None else "scalar")
    scale = min([_SCALED.get(k, (1.0,))[0] for k in kinds])
    return f, dict(scale=scale, axes=axes, nc=nc, cc=cc, crds=cc if center == "cell" else nc, dat=dat, center=center,
                   layout=layout, shape=shape)


def comp_first(f):
    """data of a field with the component axis (if any) first"""
    import viscid
    a = np.array(f.data)
    if f.nr_comps and f.layout == "interlaced":
        a = np.moveaxis(a, -1, 0)
    return a


def same(a, b, tol=0.0, scale=1.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind in "mM" or b.dtype.kind in "mM":
        if a.dtype.kind != b.dtype.kind:
            return False
        return bool(np.all(a == b))
    if tol == 0.0:
        return bool(np.array_equal(a, b))
    return bool(np.allclose(a, b, rtol=tol, atol=tol * scale))


def short(a):
    return np.asarray(a).tolist() if np.asarray(a).size <= 24 else "array%r" % (np.asarray(a).shape,)


# ---- abstract selections ------------------------------------------------------------------------------------------
# an item is one of ("i", k) ("s", a, b, c) ("a", [..]) ("m", [0/1..]) ("new",) ("ell",)

def item_obj(it, syntax="obj"):
    """python object (syntax obj), or text (syntax str), that spells this item"""
    k = it[0]
    if syntax == "str":
        if k == "i":
            return str(it[1])
        if k == "s":
            parts = ["" if v is None else str(v) for v in it[1:4]]
            return ":".join(parts if it[3] is not None else parts[:2])
        if k == "a":
            return "[" + ",".join(str(v) for v in it[1]) + "]"
        if k == "m":
            return "[" + ",".join("True" if v else "False" for v in it[1]) + "]"
        if k == "new":
            return "newaxis" if len(it) == 1 else it[1] + " = newaxis"
        return "..."
    if k == "i":
        return int(it[1])
    if k == "s":
        return slice(*it[1:4])
    if k == "a":
        return np.array(it[1], dtype=int) if syntax == "nparr" else list(it[1])
    if k == "m":
        return np.array([bool(v) for v in it[1]]) if syntax == "nparr" else [bool(v) for v in it[1]]
    return None if k == "new" else Ellipsis


def item_inds(it, n):
    """-> list of selected indices along an axis of length n, and whether the axis goes away"""
    if it[0] == "i":
        k = it[1] + n if it[1] < 0 else it[1]
        if not 0 <= k < n:
            raise IndexError(it)
        return [k], True
    if it[0] == "s":
        return list(range(n))[slice(*it[1:4])], False
    if it[0] == "a":
        return [list(range(n))[k] for k in it[1]], False
    if it[0] == "m":
        assert len(it[1]) == n
        return [k for k, v in enumerate(it[1]) if v], False
    raise ValueError(it)


def expand(items, ndim):
    """position-wise items incl. new / ell -> full list"""
    items = [tuple(it) for it in items]
    n_real = sum(it[0] not in ("new", "ell") for it in items)
    fill = [("s", None, None, None)] * (ndim - n_real)
    for k, it in enumerate(items):
        if it[0] == "ell":
            return items[:k] + fill + items[k + 1:]
    return items + fill


def expect(m, items, comp=None):
    """What a selection must give: dict(dat (component axis first if kept), axes, crds, reduced, inds) or None if empty"""
    full = expand(items, len(m["axes"]))
    dat = m["dat"]
    has_comp = m["layout"] is not None
    if comp is not None:
        dat = dat["xyz".index(comp)]
        has_comp = False
    off = 1 if has_comp else 0
    axes, crds, reduced, cells = [], [], [], []
    src = 0
    nnew = 0
    outax = off
    for it in full:
        if it[0] == "new":
            if len(it) > 1:
                axes.append(it[1])
            else:
                axes.append("new-x%d" % nnew)
                nnew += 1
            crds.append(np.array([0.0]))
            cells.append(None)
            dat = np.expand_dims(dat, outax)
            outax += 1
            continue
        x = m["crds"][src]
        idx, gone = item_inds(it, len(x))
        if not idx:
            return None
        dat = np.take(dat, idx, axis=outax)
        if gone:
            reduced.append((m["axes"][src], x[idx[0]]))
            dat = np.take(dat, 0, axis=outax)
        else:
            axes.append(m["axes"][src])
            crds.append(x[idx])
            exact = it[0] == "s" and it[3] in (None, 1, -1)
            cells.append((m["nc"][src], idx, exact))
            outax += 1
        src += 1
    return dict(dat=dat, axes=axes, crds=crds, reduced=reduced, cells=cells, has_comp=has_comp)


def check_result(r, ex, m, what):
    """compare a sliced field / bare value with the expectation"""
    if ex["dat"].size == 1 and not hasattr(r, "crds"):
        require(same(np.asarray(r).reshape(()), ex["dat"].reshape(())),
                "{0}: value {1!r}, want {2!r}", what, r, ex["dat"].item())
        return "value"
    require(hasattr(r, "crds"), "{0}: got a bare {1} for shape {2}", what, type(r).__name__, ex["dat"].shape)
    if (ex["has_comp"] and m["layout"] == "interlaced" and set(ex["dat"].shape[1:]) == {ex["dat"].shape[0]}
            and r.layout == "flat" and same(np.array(r.data), np.moveaxis(ex["dat"], 0, -1))):
        # the numbers are right, but they are taken for a flat vector field
        raise Fail("{0}: interlaced vector field of shape {1} came back labelled flat".format(what, ex["dat"].shape),
                   finding="layout-guess")
    got = comp_first(r)
    require(got.shape == ex["dat"].shape, "{0}: data shape {1}, want {2}", what, got.shape, ex["dat"].shape)
    require(same(got, ex["dat"]), "{0}: data {1}, want {2}", what, short(got), short(ex["dat"]))
    require(list(r.crds.axes) == ex["axes"], "{0}: axes {1}, want {2}", what, list(r.crds.axes), ex["axes"])
    require(r.center.lower() == m["center"], "{0}: centering became {1}", what, r.center)
    gc = r.get_crds()
    sc = m.get("scale", 1.0)
    for ax, g, w in zip(ex["axes"], gc, ex["crds"]):
        require(len(np.shape(g)) == 1 and same(g, w, 1e-9, sc), "{0}: {1} coordinates {2}, want {3}",
                what, ax, short(g), short(w))
    if m["center"] == "cell":
        for ax, g, cell in zip(ex["axes"], r.get_crds_nc(), ex["cells"]):
            if cell is None:
                continue
            nc, idx, exact = cell
            require(len(g) == len(idx) + 1, "{0}: {1} edges of axis {2} for {3} cells", what, len(g), ax, len(idx))
            if not exact:
                continue
            if len(idx) == 1:
                g, w = np.sort(g), nc[idx[0]:idx[0] + 2]
            elif idx == list(range(idx[0], idx[0] + len(idx))):
                w = nc[idx[0]:idx[-1] + 2]
            elif idx == list(range(idx[0], idx[0] - len(idx), -1)):
                w = nc[idx[-1]:idx[0] + 2][::-1]
            else:
                continue
            require(same(g, w, 1e-9, sc), "{0}: cell edges along {1} {2}, want {3}", what, ax, short(g), short(w))
    # the order in which dropped axes are recorded is not promised
    red = sorted([(a, v) for a, v in r.meta.get("reduced", [])], key=lambda t: t[0]) if ex["reduced"] else []
    ex["reduced"].sort(key=lambda t: t[0])
    require([a for a, _ in red] == [a for a, _ in ex["reduced"]], "{0}: dropped axes recorded as {1}, want {2}",
            what, [a for a, _ in red], [a for a, _ in ex["reduced"]])
    for (a, g), (_, w) in zip(red, ex["reduced"]):
        require(same(g, w, 1e-9, sc), "{0}: dropped axis {1} recorded at {2}, want {3}", what, a, g, w)
    return "%dd" % len(ex["axes"])
