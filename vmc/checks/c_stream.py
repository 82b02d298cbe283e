"""Streamlines: every step of every line, and independence of how the work is divided"""
import itertools

import numpy as np

from vmc.core import Check, Fail, require

END = dict(IN=3, IS=5, XL=24, XH=40, YL=72, YH=136, ZL=264, ZH=520, R=1032, MAXIT=12288, LEN=20480, T=36864, ZERO=69632)
OTHER = 4096
METHODS = ["euler1", "rk2", "rk4", "euler1a", "rk12", "rk45"]
MAXERR = {"euler1a": 4e-2, "rk12": 1.5e-2, "rk45": 1e-5}

AXES = {
    "u": np.linspace(-1.0, 1.0, 5),
    "n": np.array([-1.0, -0.5, -0.375, 0.25, 1.0]),
    "m": np.array([-1.5, -0.25, 0.5, 0.75]),
}


# ---- fields --------------------------------------------------------------------------------------------------------
def vec_const(x, y, z):
    return 0 * x + 0.75, 0 * x - 0.5, 0 * x + 0.25


def vec_axis(x, y, z):
    return 0 * x, 0 * x, 0 * x + 2.0


def vec_loop(x, y, z):
    return -y + 0 * x, x + 0 * y, 0 * x + 0.0


def vec_helix(x, y, z):
    return -y, x, 0 * x + 0.3


def vec_saddle(x, y, z):
    return x, -y, 0.5 * z


def vec_dip(x, y, z):
    r = np.sqrt(x**2 + y**2 + z**2) + 0.2
    return 3 * x * z / r**5, 3 * y * z / r**5, (3 * z**2 - r**2) / r**5


def vec_null(x, y, z):
    s = np.where(x > 0.2, 0.0, 1.0)
    return s * 1.0, s * 0.5, s * 0.25


def vec_nan(x, y, z):
    s = np.where(x > 0.2, np.nan, 1.0)
    return s * 1.0, s * 0.5, s * 0.25


def vec_shear(x, y, z):
    return 1.0 + 0 * x, np.sign(z) * 2.0 + y, 0.1 - x


VECS = dict(const=vec_const, axis=vec_axis, loop=vec_loop, helix=vec_helix, saddle=vec_saddle, dip=vec_dip, null=vec_null,
            nan=vec_nan, shear=vec_shear)


def make_field(v, vec, kinds, center, lay, dtype):
    nc = [AXES[k] for k in kinds]
    crds = v.wrap_crds(("uniform" if all(k == "u" for k in kinds) else "nonuniform") + "_cartesian",
                       [(a, x.copy()) for a, x in zip("xyz", nc)], full_arrays=True)
    pts = nc if center == "node" else [0.5 * (x[1:] + x[:-1]) for x in nc]
    full = pts + [np.zeros(1)] * (3 - len(pts))
    X, Y, Z = np.meshgrid(*full, indexing="ij")
    dat = np.array([np.broadcast_to(c, X.shape) for c in VECS[vec](X, Y, Z)])
    if dtype[0] == "i":
        dat = np.round(4 * dat)
    dat = dat.astype(dtype)
    d = dat.reshape([3] + [len(p) for p in pts])
    arr = d.copy() if lay == "flat" else np.moveaxis(d, 0, -1).copy()
    f = v.wrap_field(arr, crds, name="v", center=center, fldtype="vector", layout=lay)
    return f, Model(full, dat.astype("f8"), [x[0] for x in nc], [x[-1] for x in nc],
                    min(np.min(np.diff(x)) for x in nc))


class Model(object):
    def __init__(self, pts, dat, lo, hi, min_dx):
        self.pts, self.dat, self.lo, self.hi, self.min_dx = pts, dat, lo, hi, min_dx
        self.flat = [len(p) == 1 for p in pts]
        self.f4 = False

    def at(self, p):
        """field at points p (N, 3) -> (N, 3): linear, clamped; flat directions do not count"""
        idx, wgt = [], []
        for d, x in enumerate(self.pts):
            q = p[:, d]
            if len(x) == 1:
                idx.append((np.zeros(len(q), int), np.zeros(len(q), int)))
                wgt.append(np.zeros(len(q)))
                continue
            qc = np.clip(q, x[0], x[-1])
            k = np.clip(np.searchsorted(x, qc, side="right") - 1, 0, len(x) - 2)
            t = (qc - x[k]) / (x[k + 1] - x[k])
            # beyond the ends only the last value counts (it may be next to a NaN)
            idx.append((np.where(t >= 1, k + 1, k), np.where(t <= 0, k, k + 1)))
            wgt.append(t)
        out = np.zeros((len(p), 3))
        for c in range(3):
            if self.flat[c]:
                continue
            acc = 0.0
            for bits in itertools.product((0, 1), repeat=3):
                w = 1.0
                ii = []
                for d in range(3):
                    w = w * (wgt[d] if bits[d] else 1.0 - wgt[d])
                    ii.append(idx[d][bits[d]])
                acc = acc + w * self.dat[c][tuple(ii)]
            out[:, c] = acc
        return out

    def unit(self, p):
        """-> direction, magnitude"""
        v = self.at(p)
        mag = np.sqrt(np.sum(v**2, axis=1))
        with np.errstate(all="ignore"):
            return v / mag[:, None], mag

    def stages(self, p, h, rows):
        ks, mags, dirs = [], [], []
        for row in rows:
            q = p + sum((c * k for c, k in zip(row, ks)), np.zeros_like(p))
            u, m = self.unit(q)
            dirs.append(u)
            ks.append(h[:, None] * u)
            mags.append(m)
        # where the direction turns around within one step, rounding decides which way the step goes
        self.wild = np.zeros(len(p), bool)
        for a, b in itertools.combinations(range(len(dirs)), 2):
            self.wild |= ~(np.sum(dirs[a] * dirs[b], axis=1) > 0.5)
            self.wild |= ~((mags[a] < 5 * mags[b]) & (mags[b] < 5 * mags[a]))
        return ks, mags

    def step(self, method, p, h):
        """-> new points, time taken, error estimate (or None), whether the field vanishes on the way"""
        tiny = 1e-5 if self.f4 else 1e-11

        def dead(mags):
            return np.any([~(m > tiny) for m in mags], axis=0)
        if method == "euler1":
            (k1,), mags = self.stages(p, h, [[]])
            return p + k1, h / mags[0], None, dead(mags)
        if method == "rk2":
            (k1, k2), mags = self.stages(p, h, [[], [0.5]])
            return p + k2, h / mags[1], None, dead(mags)
        if method == "rk4":
            ks, mags = self.stages(p, h, [[], [0.5], [0, 0.5], [0, 0, 1.0]])
            w = [1 / 6., 1 / 3., 1 / 3., 1 / 6.]
            return p + sum(a * k for a, k in zip(w, ks)), h / sum(a * m for a, m in zip(w, mags)), None, dead(mags)
        if method == "euler1a":
            (k1, k2), mags = self.stages(p, h, [[], [1.0]])
            return p + k1, h / mags[0], norm(k1 - k2) / np.abs(h), dead(mags)
        if method == "rk12":
            (k1, k2), mags = self.stages(p, h, [[], [0.5]])
            return p + k1, h / mags[1], norm(k2 - k1) / np.abs(h), dead(mags)
        if method == "rk45":
            rows = [[], [1 / 4.], [3 / 32., 9 / 32.], [1932 / 2197., -7200 / 2197., 7296 / 2197.],
                    [439 / 216., -8., 3680 / 513., -845 / 4104.], [-8 / 27., 2., -3544 / 2565., 1859 / 4104., -11 / 40.]]
            u = [25 / 216., 0, 1408 / 2565., 2197 / 4104., -1 / 5., 0]
            w = [16 / 135., 0, 6656 / 12825., 28561 / 56430., -9 / 50., 2 / 55.]
            ks, mags = self.stages(p, h, rows)
            x4 = sum(a * k for a, k in zip(u, ks))
            x5 = sum(a * k for a, k in zip(w, ks))
            return p + x4, h / sum(a * m for a, m in zip(w, mags)), norm(x5 - x4) / np.abs(h), dead(mags)
        raise AssertionError(method)


def norm(x):
    return np.sqrt(np.sum(x**2, axis=-1))


OPTS = {
    "plain": {},
    "in": {"ibound": 0.45},
    "out": {"obound0": [-0.6, -0.7, -0.8], "obound1": [0.55, 0.65, 0.85]},
    "r": {"obound_r": 0.9},
    "in r": {"ibound": 0.3, "obound_r": 1.1},
    "beyond": {"obound0": [-2.0, -2.0, -2.0], "obound1": [2.0, 2.0, 2.0]},
    "maxit": {"maxit": 4},
    "maxit1": {"maxit": 1},
    "length": {"max_length": 0.83},
    "short": {"max_length": 0.011},
    "time": {"max_t": 0.77},
    "time length": {"max_t": 0.6, "max_length": 0.4},
    "ds0": {"ds0": 0.11},
    "frac": {"ds0_frac": 0.2},
    "err": {"max_error": 1e-3, "smallest_ds": 0.01, "largest_ds": 0.3},
    "fracs": {"smallest_ds_frac": 0.5, "largest_ds_frac": 2.0},
}

SEEDS = np.array([[0.0, 0.0, 0.0], [0.3, -0.2, 0.1], [-0.61, 0.52, 0.4], [0.7, 0.7, -0.7], [-0.95, -0.9, 0.9], [0.1, 0.6, 0.97],
                  [1.3, 0.2, 0.1], [0.25, 0.25, 0.5], [-0.5, 0.0, -0.25]])


class Lines(Check):
    pid = "V17"
    rule = ("every combination of field, grid, method, direction and set of limits: every step of every line is compared with one step of the "
            "method's textbook formula on the interpolated field, every point but the last lies within all limits, the last is where the reported "
            "reason says; and topology reported = both ends' reasons")
    bounds = {"fields": len(VECS), "seeds": len(SEEDS), "methods": 6, "limit sets": len(OPTS), "steps per line": "100 per direction"}
    assumptions = ("single precision to 1e-4, else 1e-8", "points within tolerance of a limit may count either way",
                   "one segment's length is the distance between its ends")

    def setup(self):
        import viscid
        self.v = viscid

    def shards(self, tier):
        return [(vec, m) for vec in VECS for m in METHODS]

    def cases(self, shard, tier):
        vec, method = shard
        grids = [("uuu", "node", "interlaced", "f8"), ("nmu", "cell", "flat", "f8"), ("un", "node", "interlaced", "f8"),
                 ("nnm", "node", "flat", "f4"), ("mu", "cell", "flat", "f8"), ("unn", "node", "interlaced", "i8")]
        for kinds, center, lay, dtype in grids:
            if dtype == "i8" and vec == "nan":
                continue
            for opt in OPTS:
                if tier != "thorough" and dtype in ("f4", "i8") and opt not in ("plain", "in r", "time length", "out"):
                    continue
                for sdir in (1, 2, 3):
                    if tier != "thorough" and sdir != 3 and opt not in ("plain", "in", "length", "time", "maxit"):
                        continue
                    yield ["trace", vec, method, kinds, center, lay, dtype, opt, sdir]

    def run_case(self, case, rec):
        vec, method, kinds, center, lay, dtype, opt, sdir = case[1:]
        v = self.v
        f, m = make_field(v, vec, kinds, center, lay, dtype)
        kw = dict({"maxit": 100}, **OPTS[opt])
        f4 = m.f4 = dtype == "f4"
        seeds = SEEDS
        lines, topo = v.calc_streamlines(f, seeds.T, method=method, stream_dir=sdir, topo_style="generic", wrap=False, **kw)
        require(len(lines) == len(seeds) and topo.shape == (len(seeds),), "{0} lines, {1} topologies", len(lines), topo.shape)
        l2, t2 = v.calc_streamlines(f, seeds.T, method=METHODS.index(method) + 1, stream_dir=sdir, topo_style="generic", wrap=False, output=1, **kw)
        require(t2 is None and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(lines, l2)), "lines alone differ")
        l3, t3 = v.calc_streamlines(f, seeds.T, method=method.upper() + " ", stream_dir=sdir, topo_style="generic", wrap=False, output=2, **kw)
        require(l3 is None and np.array_equal(topo, t3), "topology alone differs: {0}, {1}", t3.tolist(), topo.tolist())
        _, tm = v.calc_streamlines(f, seeds.T, method=method, stream_dir=sdir, wrap=False, **kw)
        labels = set()
        par = self.params(m, method, kw, f4)
        # all segments of all lines in one go
        plans = []
        for seed, line in zip(seeds, lines):
            plans.append(self.halves(seed, line, method, sdir, f4, opt))
        flat = [h for plan in plans for h in plan[0]]
        table = self.table(m, method, par, flat)
        k = 0
        for seed, line, tp, ms, plan in zip(seeds, lines, topo.tolist(), tm.tolist(), plans):
            rec.step(line.shape[1])
            what = "{0} {1} from {2}".format(method, opt, seed.tolist())
            try:
                ends = [self.half(m, p, sgn, what, method, par, t, tp) for (p, sgn), t in zip(plan[0], table[k:k + len(plan[0])])]
            except Fail:
                # a line that passes its seed again
                if len(plan) == 1:
                    raise
                for alt in plan[1:]:
                    try:
                        ends = [self.half(m, p, sgn, what, method, par, self.table(m, method, par, [(p, sgn)])[0], tp) for p, sgn in alt]
                        break
                    except Fail:
                        if alt is plan[-1]:
                            raise
            k += len(plan[0])
            # the topology is the union of the reasons of both ends
            ok = set()
            for combo in itertools.product(*ends):
                flags = 0
                for r in combo:
                    flags |= END[r]
                ok.add(flags)
            require(tp in ok, "{0} from {1}: topology {2}, ends are {3}", method, seed.tolist(), tp, ends)
            require(ms == msphere(tp), "{0} from {1}: magnetospheric topology {2} for {3}", method, seed.tolist(), ms, tp)
            labels.add(tp)
        return "%s:%d kinds of lines" % (method, len(labels))

    def halves(self, seed, line, method, sdir, f4, opt):
        what = "{0} {1} from {2}".format(method, opt, seed.tolist())
        require(line.shape[0] == 3 and line.ndim == 2, "{0}: shape {1}", what, line.shape)
        p = line.T.astype("f8")
        hits = [i for i in range(len(p)) if np.all(np.abs(p[i] - seed) <= (1e-6 if f4 else 0.0))]
        require(hits, "{0}: the seed is not on the line", what)
        # where the seed is, is told by the direction; in both directions, any occurrence may be it
        if sdir == 1:
            require(0 in hits, "{0}: forward, but the seed is at {1}", what, hits)
            return [[(p, 1)]]
        if sdir == 2:
            require(len(p) - 1 in hits, "{0}: backward, but the seed is at {1} of {2}", what, hits, len(p))
            return [[(p[::-1], -1)]]
        return [[(p[:i + 1][::-1], -1), (p[i:], 1)] for i in hits]

    def params(self, m, method, kw, f4):
        ds0 = kw.get("ds0", kw.get("ds0_frac", 0.5) * m.min_dx)
        return dict(kw, ds0=ds0, small=kw.get("smallest_ds", kw.get("smallest_ds_frac", 1e-2) * ds0),
                    large=kw.get("largest_ds", kw.get("largest_ds_frac", 1e2) * ds0), adaptive=method in MAXERR,
                    maxerr=kw.get("max_error", MAXERR.get(method, 0.0)), max_len=kw.get("max_length", 1e30),
                    max_t=kw.get("max_t", 0.0), tol=1e-4 if f4 else 1e-8)

    def table(self, m, method, par, halves):
        """for each half line: what one step from each point gives"""
        a = np.concatenate([p[:-1] for p, _ in halves])
        b = np.concatenate([p[1:] for p, _ in halves])
        sg = np.concatenate([np.full(len(p) - 1, float(s)) for p, s in halves])
        chord = norm(b - a)
        h = np.full(len(a), par["ds0"])
        with np.errstate(all="ignore"):
            if par["adaptive"]:
                h = chord.copy()
                h0, c0 = None, None
                for _ in range(8 if method == "rk45" else 1):
                    c1 = norm(m.step(method, a, sg * h)[0] - a)
                    new = h * chord / c1
                    if h0 is not None:
                        sec = h + (chord - c1) * (h - h0) / (c1 - c0)
                        new = np.where((sec > 0.5 * new) & (sec < 2 * new), sec, new)
                    h0, c0, h = h, c1, np.where(np.abs(c1 - chord) <= 1e-15, h, new)
            q, dt, est, dead = m.step(method, a, sg * h)
            dead = dead | m.wild
            if method == "rk45":
                # the length does not tell the step where the field turns around within a smallest step
                for fac in (1.0, 2.0):
                    m.step(method, a, sg * fac * np.maximum(np.maximum(chord, h), par["small"]))
                    dead = dead | m.wild
        if est is None:
            est = np.zeros(len(a))
        out, k = [], 0
        for p, _ in halves:
            n = len(p) - 1
            out.append((chord[k:k + n], h[k:k + n], q[k:k + n], np.abs(dt[k:k + n]), est[k:k + n], dead[k:k + n]))
            k += n
        return out

    def half(self, m, p, sgn, what, method, par, tab, tp):
        """p: points from the seed outward.  Returns the reasons for the end that are right"""
        what += " backward" if sgn < 0 else " forward"
        chord, h, q, dt, est, dead = tab
        n = len(p) - 1
        tol, adaptive, max_len, max_t, ds0 = par["tol"], par["adaptive"], par["max_len"], par["max_t"], par["ds0"]
        require(n <= par["maxit"], "{0}: {1} steps of at most {2}", what, n, par["maxit"])
        cond, sure = self.limits(m, p, par, tol)
        length = np.concatenate([[0.0], np.cumsum(chord)])
        time = np.concatenate([[0.0], np.cumsum(dt)])
        if n > 0:
            a, b = p[:-1], p[1:]
            d = np.abs(q - b).max(axis=1)
            bad = ~(d <= tol * 10) & ~(dead & np.isfinite(b).all(axis=1))
            if np.any(bad[:-1]):
                k = int(np.argmax(bad[:-1]))
                raise Fail("{0}: step {1} goes from {2} to {3}, not {4}".format(what, k, a[k].tolist(), b[k].tolist(), q[k].tolist()))
            if adaptive:
                full = slice(0, n - 1)
                # the error estimate of a step across a kink of the field jumps with rounding: only clear excess counts
                wrong = ~dead[full] & (est[full] > par["maxerr"] * (1 + 1e-3) + tol * 10) & (h[full] > par["small"] * (1 + 1e-4) + tol)
                require(np.all(dead[full] | (h[full] <= par["large"] * (1 + 1e-6) + tol)), "{0}: steps {1} over {2}", what, h[full], par["large"])
                require(not np.any(wrong), "{0}: steps {1} have error {2} over {3}", what, h[full][wrong], est[full][wrong], par["maxerr"])
            elif bad[-1]:
                # the last step may have been cut short
                dirn = q[-1] - a[-1]
                trim = float(np.dot(b[-1] - a[-1], dirn) / np.dot(dirn, dirn))
                require(0 < trim <= 1 + tol and np.abs(a[-1] + trim * dirn - b[-1]).max() <= tol * 10,
                        "{0}: last step goes from {1} to {2}, not towards {3}", what, a[-1].tolist(), b[-1].tolist(), q[-1].tolist())
                time[-1] = time[-2] + trim * dt[-1]
        eps = 1e-3 if tol > 1e-6 else 1e-7
        if n > 0:
            # a line does not leave a place without any field around it
            gone = np.all([~(m.unit(p[:-1] + off)[1] > 0) for off in (0.0, 1e-5, -1e-5)], axis=0)
            require(not np.any(gone), "{0}: goes on from where there is no field: {1}", what, p[:-1][gone].tolist())
        vague = bool(np.any(dead))
        # points on the way are within all limits
        for k in range(1, n):
            require(not sure[k], "{0}: goes on past {1} at {2}", what, sure[k], p[k].tolist())
        require(length[n] <= max_len * (1 + eps), "{0}: length {1} over {2}", what, length[n], max_len)
        require(n < 2 or length[n - 1] < max_len * (1 - 1e-15), "{0}: goes on past the length", what)
        if max_t > 0 and not vague:
            require(n < 2 or time[n - 1] <= max_t * (1 + eps), "{0}: goes on past the time: {1}", what, time[n - 1])
            if not adaptive:
                require(time[n] <= max_t * (1 + eps), "{0}: time {1} over {2}", what, time[n], max_t)
        # reasons for the end
        ok = set()
        if n > 0:
            ok |= set(cond[n])
        if n > 0 and not sure[n]:
            if abs(length[n] - max_len) <= eps * max_len:
                ok.add("LEN")
            if max_t > 0 and (adaptive or vague or abs(time[n] - max_t) <= eps * max_t):
                ok.add("T")
            if ok & {"T", "LEN"} and max_t > 0 and max_len < 1e20:
                ok |= {"T", "LEN"}      # one step past both
            if n == par["maxit"]:
                ok.add("MAXIT")
        if (tp & 65536 or not ok) and not (n > 0 and sure[n]):
            # does the next step vanish?  with adaptive methods the step is unknown: any from the smallest to the largest
            hs = np.array([ds0] if not adaptive else list(np.geomspace(max(par["small"], 1e-12), max(ds0, par["large"]), 40)) + [ds0])
            near = [0.0, 1e-9, -1e-9] if tol < 1e-6 else [0.0, 1e-6, -1e-6]
            for off in near:
                if np.any(m.step(method, np.repeat(p[n:n + 1] + off, len(hs), axis=0), sgn * hs)[3]):
                    ok.add("ZERO")
        require(ok, "{0}: ends at {1} after {2} steps, length {3}, time {4} for no reason", what, p[n].tolist(), n, length[n], time[n])
        return sorted(ok)

    def limits(self, m, p, kw, tol):
        """per point: reasons that may apply, and one that surely does (or None)"""
        lo = list(kw.get("obound0", []))
        hi = list(kw.get("obound1", []))
        conds, sures = [], []
        r = norm(p)
        for k in range(len(p)):
            c, s = [], None
            ib = kw.get("ibound", 0.0)
            if ib and r[k] < ib + tol:
                if p[k][2] >= -tol:
                    c.append("IN")
                if p[k][2] <= tol:
                    c.append("IS")
                if r[k] < ib - tol:
                    s = "IN"
                    conds.append(c)
                    sures.append(s)
                    continue
            obr = kw.get("obound_r", 0.0)
            if obr and r[k] > obr - tol:
                c.append("R")
                if r[k] > obr + tol:
                    s = "R"
            for d in range(3):
                if m.flat[d]:
                    l = lo[d] if lo else -np.inf
                    h = hi[d] if hi else np.inf
                else:
                    l = lo[d] if lo else m.lo[d]
                    h = hi[d] if hi else m.hi[d]
                if p[k][d] < l + tol:
                    c.append("XYZ"[d] + "L")
                    if p[k][d] < l - tol:
                        s = s or c[-1]
                if p[k][d] > h - tol:
                    c.append("XYZ"[d] + "H")
                    if p[k][d] > h + tol:
                        s = s or c[-1]
            conds.append(c)
            sures.append(s)
        return conds, sures


def msphere(flags):
    if flags & OTHER:
        return flags
    if flags & 11 == 11:
        return 2
    if flags & 13 == 13:
        return 4
    if flags in (3, 5, 7):
        return 1
    return 8


# ---- independence of how the seeds are divided ----------------------------------------------------------------------
DSEEDS = [(0.3, -0.2, 0.1), (-0.61, 0.52, 0.4), (0.0, 0.5, 0.25), (0.95, 0.9, -0.97), (1.7, 0.0, 0.0), (-0.25, -0.8, -0.55), (0.5, 0.5, 0.5)]
ASEEDS = {0: [(0.2, 0.3, 0.4), (1.0, 0.5, 0.5), (1.9, 0.1, 0.9), (0.99, 0.99, 0.01), (1.3, 0.7, 0.5)],
          1: [(0.3, 0.4, 0.5), (1.2, 0.2, 0.1), (0.6, 1.9, 0.4), (1.0, 1.0, 0.5), (0.9, 0.95, 0.2)],
          2: [(0.5, 0.5, 0.5), (1.0, 1.0, 0.5), (2.9, 0.2, 0.3), (0.1, 3.7, 0.9), (2.2, 2.2, 0.2)]}
DKW = {"plain": {}, "msph": {"ibound": 0.3, "topo_style": "msphere"}, "lim": {"max_length": 0.9, "max_t": 0.7, "stream_dir": 1},
       "back": {"stream_dir": 2, "obound_r": 1.2}, "ad": {"max_error": 1e-3}}
BAD = [{"method": "nonsense"}, {"nonsense": 1}, {"obound0": "nonsense"}, {"method": 17}, {"ds0": "nonsense"}, {"obound1": [1.0]}]


class Division(Check):
    pid = "V15"
    rule = ("every ordered choice of up to three seeds (with repetition) from each set, every division of up to seven seeds among 1..8 workers and "
            "chunks of each kind: each line and topology is bit for bit that of its seed traced alone; and a call that fails leaves the next intact")
    bounds = {"seeds": len(DSEEDS), "sequence": 3, "workers": 8, "chunk_factor": 3, "methods": 6, "fields": 5}
    assumptions = ("threads and processes run as the machine schedules them; the exhaustive part is the division and the order within each chunk",)

    def setup(self):
        import viscid
        from viscid import grid, amr_grid
        self.v, self.grid, self.amr = viscid, grid, amr_grid
        self.memo = {}

    def shards(self, tier):
        out = [("order", g, m) for g in range(5) for m in METHODS]
        out += [("divide", g, m) for g in range(5) for m in ("rk4", "rk45")]
        out += [("fail", 0, "rk4"), ("wrap", 0, "rk4")]
        return out

    def cases(self, shard, tier):
        kind, g, m = shard
        if kind == "order":
            n = len(self.seeds(g))
            for kw in DKW:
                if m in MAXERR or kw != "ad":
                    for k in (1, 2, 3):
                        for seq in itertools.product(range(n), repeat=k):
                            if k == 3 and tier != "thorough" and (kw != "plain" or len(set(seq)) < 2):
                                continue
                            yield ["order", g, m, kw, list(seq)]
        elif kind == "divide":
            for n in range(1, len(self.seeds(g)) + 1):
                for procs in range(1, 9):
                    for cf in (1, 2, 3):
                        for threads in (True, False):
                            for force in (False, True):
                                if not threads and (procs > 1 or force) and tier != "thorough" and (n, procs, cf) not in (
                                        (5, 2, 1), (5, 3, 2), (4, 8, 1), (1, 4, 3), (5, 1, 1)):
                                    continue
                                for output in (3, 2, 1):
                                    if output != 3 and (procs, cf) not in ((1, 1), (3, 1), (4, 2)):
                                        continue
                                    yield ["divide", g, m, n, procs, cf, threads, force, output]
        elif kind == "fail":
            for bad in range(len(BAD)):
                for threads in (True, False):
                    for procs in (1, 2):
                        yield ["fail", bad, threads, procs]
        else:
            for seeds in ("point", "line", "plane", "volume", "sphere", "cap", "list", "column"):
                for procs in (1, 2, 3, 5):
                    for cf in (1, 2):
                        yield ["wrap", seeds, procs, cf]

    def seeds(self, g):
        return DSEEDS if g < 3 else ASEEDS[g - 2]

    def field(self, g):
        if g not in self.memo:
            if g < 3:
                self.memo[g] = make_field(self.v, *[("dip", "uuu", "node", "interlaced", "f8"), ("helix", "nmu", "cell", "flat", "f8"),
                                                    ("shear", "nnm", "node", "interlaced", "f4")][g])[0]
            else:
                from vmc.checks.c_interp import amr_set
                grids = []
                for nc in amr_set(g - 2):
                    nc = [np.array(x) for x in nc]
                    crds = self.v.wrap_crds("nonuniform_cartesian", list(zip("xyz", nc)), full_arrays=True)
                    X, Y, Z = np.meshgrid(*nc, indexing="ij")
                    dat = np.stack([-(Y - 1.0) + 0.2 + 0 * Z, X - 1.0 + 0 * Z, 0.1 + 0.2 * Z + 0 * X], axis=-1)
                    gr = self.grid.Grid()
                    gr.add_field(self.v.wrap_field(dat, crds, name="f", center="node", fldtype="vector", layout="interlaced"))
                    gr.set_crds(crds)
                    grids.append(gr)
                self.memo[g] = self.amr.AMRGrid(grids)["f"]
        return self.memo[g]

    def alone(self, g, m, kw, i):
        key = (g, m, kw, i)
        if key not in self.memo:
            lines, topo = self.trace(g, m, kw, [self.seeds(g)[i]])
            require(len(lines) == 1 and len(topo) == 1, "one seed gives {0} lines, {1} topologies", len(lines), len(topo))
            self.memo[key] = (lines[0].copy(), int(topo[0]))
        return self.memo[key]

    def trace(self, g, m, kw, pts, **more):
        opts = dict({"maxit": 60, "topo_style": "generic", "wrap": False, "method": m}, **DKW[kw])
        opts.update(more)
        return self.v.calc_streamlines(self.field(g), self.v.Point(np.array(pts).T), **opts)

    def run_case(self, case, rec):
        return getattr(self, "run_" + case[0])(case[1:], rec)

    def compare(self, what, g, m, kw, seq, lines, topo, output=3):
        require((lines is None) == (not output & 1) and (topo is None) == (not output & 2), "{0}: wrong outputs", what)
        for k, i in enumerate(seq):
            line, top = self.alone(g, m, kw, i)
            if lines is not None:
                require(len(lines) == len(seq), "{0}: {1} lines", what, len(lines))
                require(isinstance(lines[k], np.ndarray) and lines[k].shape == line.shape and np.array_equal(lines[k], line),
                        "{0}: line {1} (seed {2}) is not that of its seed alone", what, k, i)
            if topo is not None:
                require(len(topo) == len(seq), "{0}: {1} topologies", what, len(topo))
                require(int(topo[k]) == top, "{0}: topology {1} (seed {2}) is {3}, alone it is {4}", what, k, i, topo[k], top)

    def run_order(self, case, rec):
        g, m, kw, seq = case
        rec.step(len(seq))
        lines, topo = self.trace(g, m, kw, [self.seeds(g)[i] for i in seq])
        self.compare("{0} {1} seeds {2}".format(m, kw, seq), g, m, kw, seq, lines, topo)
        return "order:%d" % len(set(seq))

    def run_divide(self, case, rec):
        g, m, n, procs, cf, threads, force, output = case
        rec.step(n)
        lines, topo = self.trace(g, m, "plain", self.seeds(g)[:n], nr_procs=procs, chunk_factor=cf, threads=threads,
                                 force_subprocess=force, output=output)
        self.compare("{0} seeds, {1} workers, {2} chunks each{3}{4}".format(n, procs, cf, ", threads" if threads else "", ", forced" if force else ""),
                     g, m, "plain", range(n), lines, topo, output)
        return "divide:%d" % min(procs * cf, n)

    def run_fail(self, case, rec):
        bad, threads, procs = case
        rec.step(2)
        try:
            self.trace(0, "rk4", "plain", DSEEDS, **dict(BAD[bad], threads=threads, nr_procs=procs))
        except Exception:
            pass
        else:
            raise Fail("{0} was accepted".format(BAD[bad]))
        lines, topo = self.trace(0, "rk4", "plain", DSEEDS)
        self.compare("after a call with {0}".format(BAD[bad]), 0, "rk4", "plain", range(len(DSEEDS)), lines, topo)
        return "fail"

    def run_wrap(self, case, rec):
        kind, procs, cf = case
        v = self.v
        arr = np.array(DSEEDS).T
        seeds = {"point": lambda: v.Point(arr), "line": lambda: v.Line((-0.9, -0.5, 0.2), (0.8, 0.7, -0.3), 6),
                 "plane": lambda: v.Plane((0.1, 0.0, 0.2), (0, 0.3, 1), (1, 0, 0), 1.0, 0.8, 4, 3),
                 "volume": lambda: v.Volume((-0.5, -0.6, -0.7), (0.4, 0.6, 0.5), (2, 3, 4)),
                 "sphere": lambda: v.Sphere((0, 0.1, 0), r=0.5, ntheta=4, nphi=5), "cap": lambda: v.SphericalCap(p0=(0, 0, 0), r=0.6, angle=50, ntheta=3, nphi=4),
                 "list": lambda: [list(p) for p in DSEEDS], "column": lambda: arr}[kind]()
        lines, topo = v.calc_streamlines(self.field(0), seeds, nr_procs=procs, chunk_factor=cf, method="rk4", maxit=40, topo_style="generic",
                                         wrap=kind not in ("list", "column"))
        pts = np.array(DSEEDS) if kind in ("list", "column") else np.array(seeds.get_points()).T
        rec.step(len(pts))
        require(len(lines) == len(pts), "{0} lines for {1} seeds", len(lines), len(pts))
        ref = {}
        for i, p in enumerate(pts):
            key = tuple(p.tolist())
            if key not in ref:
                l, t = v.calc_streamlines(self.field(0), v.Point(np.array([p]).T), method="rk4", maxit=40, topo_style="generic", wrap=False)
                ref[key] = (l[0], int(t[0]))
            require(np.array_equal(lines[i], ref[key][0]), "line {0} of a {1} is not that of seed {2}", i, kind, key)
        want = [ref[tuple(p.tolist())][1] for p in pts]
        if kind in ("list", "column"):
            require(topo.tolist() == want, "topology {0}, not {1}", topo.tolist(), want)
            return "wrap"
        require(isinstance(topo, v.field.Field) and topo.name == "Topology", "topology is {0}", type(topo))
        if kind in ("point", "line"):
            require(np.ravel(topo.data).tolist() == want, "topology {0}, not {1}", np.ravel(topo.data).tolist(), want)
        elif kind == "volume":
            crds = topo.get_crds()
            for idx in np.ndindex(*topo.shape):
                p = [crds[d][idx[d]] for d in range(3)]
                k = int(np.argmin(np.abs(pts - p).sum(axis=1)))
                require(np.abs(pts[k] - p).max() < 1e-12 and int(topo.data[idx]) == want[k], "topology at {0} is {1}, its seed's {2} is {3}",
                        p, topo.data[idx], pts[k], want[k])
        else:
            # the coordinates of the result are the seeds' own; the place they stand for has that topology
            crds = topo.get_crds()
            dat = topo.data
            if kind == "plane":
                require(topo.shape[2:] == (1,) and crds[2].tolist() == [0.0], "topology of a plane has shape {0}", topo.shape)
                crds, dat = [crds[0], crds[1]], dat[:, :, 0]
            require(len(crds) == 2 and dat.shape == (len(crds[0]), len(crds[1])), "topology has shape {0}", dat.shape)
            for idx in np.ndindex(*dat.shape):
                uv = np.array([[crds[0][idx[0]]], [crds[1][idx[1]]]])
                p = np.ravel(seeds.uv_to_3d(uv))
                k = int(np.argmin(np.abs(pts - p).sum(axis=1)))
                ks = [i for i in range(len(pts)) if np.abs(pts[i] - p).max() < 1e-9]
                require(ks and any(int(dat[idx]) == want[i] for i in ks), "topology at {0} is {1}, its seed's {2} is {3}",
                        p.tolist(), dat[idx], pts[k], want[k])
        return "wrap"
