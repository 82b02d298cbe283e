"""Coordinate systems of the Earth: transforms between them and the dipole"""
import datetime
import itertools

import numpy as np

from vmc.core import Check, Fail, require

# year, g10, g11, h11 in nT, from IGRF-12
IGRF = [(1950, -30554.00, -2250.00, 5815.00), (1955, -30500.00, -2215.00, 5820.00), (1960, -30421.00, -2169.00, 5791.00),
        (1965, -30334.00, -2119.00, 5776.00), (1970, -30220.00, -2068.00, 5737.00), (1975, -30100.00, -2013.00, 5675.00),
        (1980, -29992.00, -1956.00, 5604.00), (1985, -29873.00, -1905.00, 5500.00), (1990, -29775.00, -1848.00, 5406.00),
        (1995, -29692.00, -1784.00, 5306.00), (2000, -29619.40, -1728.20, 5186.10), (2005, -29554.63, -1669.05, 5077.99),
        (2010, -29496.57, -1586.42, 4944.26), (2015, -29442.00, -1501.00, 4797.10)]
SYS = ("gei", "geo", "gse", "gsm", "sm", "mag", "mhd")
TIMES = ("1967-01-01", "1967-01-01T04:59:59", "1967-01-01T06:00:00", "1966-12-31T12:00:00", "1970-01-01", "1970-01-01T00:00:00.5", "2000-01-01T12:00:00",
         "2000-02-29T23:59:59.999", "2010-06-23T09:30:00", "2008-12-31T18:00", "2014-03-20T16:57:00", "1996-12-21T14:06:00", "1950-01-01", "1945-07-04T01:02:03",
         "2016-09-22T14:21:00.123456", "2024-11-19T22:00:00", "1858-11-17", "1857-05-05T05:05:05")
DIPS = ((0.0, 0.0), (10.0, None), (None, -20.0), (33.0, 21.0), (-33.0, 170.0), (90.0, 10.0), (5, -90))
FORMS = ("str", "datetime", "us", "ms", "ns", "s")
STRENGTH = 1.0 / 3.0574e-5


def rx(d):
    """axes turned around x by d degrees"""
    c, s = np.cos(np.deg2rad(d)), np.sin(np.deg2rad(d))
    return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])


def ry(d):
    """axes turned around y by -d degrees (as in Hapgood's paper)"""
    c, s = np.cos(np.deg2rad(d)), np.sin(np.deg2rad(d))
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(d):
    c, s = np.cos(np.deg2rad(d)), np.sin(np.deg2rad(d))
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])


def parse(t):
    for f in ("%Y-%m-%dT%H:%M:%S.%f", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%dT%H:%M", "%Y-%m-%d"):
        try:
            return datetime.datetime.strptime(t, f)
        except ValueError:
            pass
    raise ValueError(t)


class Model(object):
    """Hapgood (1992): for every system the matrix that takes gei to it"""
    def __init__(self, t, dip_tilt=None, dip_gsm=None, notilt1967=True):
        t = parse(t)
        day = datetime.datetime(t.year, t.month, t.day)
        mjd = (day - datetime.datetime(1858, 11, 17)).days
        ut = (t - day).total_seconds() / 3600
        t0 = (mjd - 51544.5) / 36525
        y0 = datetime.datetime(t.year, 1, 1)
        years = t.year + (t - y0).total_seconds() / (datetime.datetime(t.year + 1, 1, 1) - y0).total_seconds()
        self.notilt = notilt1967 and abs(years - 1967.0) < 0.0006
        self.given = dip_tilt is not None or dip_gsm is not None
        if self.notilt:
            g10, g11, h11 = -30554.0, 0.0, 0.0
        else:
            tab = np.array(IGRF)
            g10, g11, h11 = [np.interp(years, tab[:, 0], tab[:, i]) for i in (1, 2, 3)]
        eye = np.eye(3)
        m = np.deg2rad(357.528 + 35999.050 * t0 + 0.04107 * ut)
        lam_s = 280.460 + 36000.772 * t0 + 0.04107 * ut + (1.915 - 0.0048 * t0) * np.sin(m) + 0.020 * np.sin(2 * m)
        geo = eye if self.notilt else rz(100.461 + 36000.770 * t0 + 15.04107 * ut)
        gse = eye if self.notilt else np.dot(rz(lam_s), rx(23.439 - 0.013 * t0))
        lam = np.arctan2(h11, g11) + np.pi
        phi = np.pi / 2 - np.arcsin((g11 * np.cos(lam) + h11 * np.sin(lam)) / g10)
        mag = eye if self.notilt else np.dot(ry(np.rad2deg(phi) - 90), np.dot(rz(np.rad2deg(lam)), geo))
        north = np.array([np.cos(phi) * np.cos(lam), np.cos(phi) * np.sin(lam), np.sin(phi)])     # in geo
        ne = np.dot(gse, np.dot(geo.T, north))
        if self.given or self.notilt:
            self.tilt, self.gsm = float(dip_tilt or 0.0), float(dip_gsm or 0.0)
        else:
            self.tilt = np.rad2deg(np.arctan2(ne[0], np.hypot(ne[1], ne[2])))
            self.gsm = np.rad2deg(np.arctan2(ne[1], ne[2]))
        gsm = np.dot(rx(-self.gsm), gse)
        sm = np.dot(ry(-self.tilt), gsm)
        self.to = dict(gei=eye, geo=geo, gse=gse, gsm=gsm, sm=sm, mag=mag, mhd=np.dot(np.diag([-1, -1, 1]), gse))

    def mat(self, a, b):
        if self.given and not self.notilt and "mag" in (a, b) and a != b:
            return None
        return np.dot(self.to[b], self.to[a].T)


class Crds(Check):
    pid = "V26"
    rule = ("every pair of systems, at every time of a menu in every form, with the dipole from the time and given, in three and four dimensions; every sequence of up to three "
            "requests to one object; every way to ask for a dipole, against matrices built from Hapgood's formulas")
    bounds = {"systems": len(SYS), "times": len(TIMES), "forms": len(FORMS), "requests per object": "up to 3 (4 in the thorough tier)"}
    assumptions = ("heliocentric systems have only identities", "agreement within 1e-8, which is finer than the accuracy of the formulas")
    TOL = 1e-8

    def setup(self):
        import viscid
        from viscid import cotr
        self.v, self.c = viscid, cotr

    def shards(self, tier):
        return ([("pairs", i) for i in range(len(TIMES))] + [("hist", i) for i in range(len(self.REQ))]
                + [("dip", i) for i in range(len(DIPS))] + [("as", None), ("vec", None), ("wxyz", None), ("name", None)])

    REQ = ("gse>geo", "geo>sm", "mag>mhd", "gsm>gsm", "tilt", "gsm", "angles", "moment", "lon", "lat", "t:sm>gse", "t:mag>geo", "w:gei>sm", "spoil:geo>sm", "spoil:gse>gse", "sun")

    def cases(self, shard, tier):
        kind, i = shard
        big = tier != "quick"
        if kind == "pairs":
            for form in FORMS:
                for notilt in (True, False):
                    for dip in ((None, None),) + (DIPS if form == "str" or big else DIPS[3:4]):
                        for rdim in (3, 4):
                            yield ("pairs", i, form, notilt, dip, rdim)
        elif kind == "hist":
            for j in (0, 3, 8) if not big else (0, 2, 3, 8, 12):
                for n in (1, 2, 3) if not big else (1, 2, 3):
                    for seq in itertools.product(range(len(self.REQ)), repeat=n - 1):
                        yield ("hist", j, (i,) + seq)
        elif kind == "dip":
            for j in range(len(TIMES)):
                for notilt in (True, False):
                    yield ("dip", i, j, notilt)
            for s in SYS[2:5] + SYS[6:]:
                for st in (None, 1.0, -2.5):
                    yield ("ang", i, s, st)
        elif kind == "as":
            for what in ("none", "cotr", "has", "dict", "info", "infodict", "dipoletime", "field", "dataset", "bad", "default", "defaultnone"):
                for j in range(len(TIMES)):
                    yield ("as", what, j)
            for f in FORMS:
                for j in range(len(TIMES)):
                    yield ("astime", f, j)
        elif kind == "vec":
            for a, b in itertools.product(SYS, repeat=2):
                for form in ("one", "int", "list", "cols", "cols1", "two", "four"):
                    for rdim in (3, 4):
                        yield ("vec", a, b, form, rdim)
            for m in itertools.product((-2.0, 0, 1, 5.5), repeat=3):
                for s in ("gse", "mhd", " GSE"):
                    yield ("moment", m, s)
        elif kind == "wxyz":
            for ax in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 0), (1, -2, 3), (-1, -1, -1), (1, 1e-3, 0)):
                for a in (1e-3, 1.0, 30.0, 45.0, 90.0, 120.0, 179.9, 180.0):
                    for q in (True, False):
                        yield ("wxyz", ax, a, q)
            for ax in ("x", "y", "z", 0, 1, 2, " X", "Y"):
                for a in (0, 0.0, 30, -90.0, 180.0, 400.0):
                    for rdim in (2, 3, 4):
                        yield ("make", ax, a, rdim)
            for v in ((0, 0, 0), (1, 2, 3), (-1.5, 0.25, 1e3)):
                yield ("shift", v)
        elif kind == "name":
            for form in range(10):
                for s in SYS + ("hee", "bogus"):
                    yield ("name", form, s)
            for a, b in itertools.product(("hae", "hee", "heeq"), SYS + ("hae", "hee", "heeq")):
                yield ("helio", a, b)

    # ------------------------------------------------------------ helpers
    def time(self, t, form):
        if form == "str":
            return t
        d = parse(t)
        if form == "datetime":
            return d
        if form in ("ms", "s") and d.microsecond:
            form = "us"
        return np.datetime64(t, form) if len(t) > 10 else np.datetime64(t, form)

    def near(self, what, a, b, tol=None):
        require(np.shape(a) == np.shape(b), "{0} has shape {1}, not {2}", what, np.shape(a), np.shape(b))
        require(np.allclose(a, b, rtol=0, atol=tol or self.TOL), "{0} is {1}, not {2}", what, np.asarray(a).tolist(), np.asarray(b).tolist())

    def run_case(self, case, rec):
        rec.step()
        rec.state(case[:2])
        self.rec = rec
        return getattr(self, "run_" + case[0])(case)

    def big(self, m, rdim):
        r = np.eye(rdim)
        r[:3, :3] = m
        return r

    def agree(self, c, m, what, rdim=3, pairs=None):
        for a, b in pairs or itertools.product(SYS, repeat=2):
            want = m.mat(a, b)
            if want is None:
                try:
                    c.get_transform_matrix(a, b)
                except RuntimeError:
                    continue
                raise Fail("{0}: {1} to {2} for a dipole set by hand".format(what, a, b))
            self.rec.step()
            self.near("{0}: {1} to {2}".format(what, a, b), c.get_transform_matrix(a, b), self.big(want, rdim))

    # ------------------------------------------------------------ cases
    def run_pairs(self, case):
        _, i, form, notilt, (tilt, gsm), rdim = case
        t = TIMES[i]
        m = Model(t, tilt, gsm, notilt)
        c = self.c.Cotr(self.time(t, form), dip_tilt=tilt, dip_gsm=gsm, rdim=rdim, notilt1967=notilt)
        self.agree(c, m, "{0} ({1})".format(t, form), rdim)
        self.near("tilt and gsm angles", c.get_dipole_angles(), (m.tilt, m.gsm))
        for s in SYS:
            if m.mat("sm", s) is not None:
                self.near("dipole in " + s, c.get_dipole_moment(s), np.dot(m.mat("sm", s), [0, 0, -STRENGTH]), 1e-3)
        if tilt is None and gsm is None:
            for f in ("gse", "mag", "mhd"):
                self.near("get_dipole_moment", self.c.get_dipole_moment(self.time(t, form), f, strength=2.0, notilt1967=notilt), np.dot(m.mat("sm", f), [0, 0, -2.0]))
                self.near("cotr_transform", self.c.cotr_transform(self.time(t, form), "gei", f, [1.0, -2.0, 3.0], notilt1967=notilt), np.dot(m.mat("gei", f), [1.0, -2.0, 3.0]))
            self.near("get_dipole_angles", self.c.get_dipole_angles(self.time(t, form), notilt1967=notilt), (m.tilt, m.gsm))
        # the dipole does not depend on the system it is looked at from
        return "notilt" if m.notilt else "pairs"

    def ask(self, c, m, req):
        kind, _, rest = req.partition(":")
        if ">" not in req:
            if req == "tilt":
                self.near("dip_tilt", c.dip_tilt, m.tilt)
            elif req == "gsm":
                self.near("dip_gsm", c.dip_gsm, m.gsm)
            elif req == "angles":
                self.near("get_dipole_angles", c.get_dipole_angles(), (m.tilt, m.gsm))
            elif req == "moment":
                self.near("get_dipole_moment", c.get_dipole_moment("gse", 1.0), np.dot(m.mat("sm", "gse"), [0, 0, -1.0]))
            elif req in ("lon", "lat"):
                if not m.notilt:
                    n = np.dot(m.mat("mag", "geo"), [0, 0, 1.0])
                    a, b = c.dip_geolon_rad, c.dip_geolat_rad
                    self.near("direction of the pole", [np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)], n)
                    self.near("its longitude in degrees", c.dip_geolon, np.rad2deg(a))
                    self.near("its latitude in degrees", c.dip_geolat, np.rad2deg(b))
            elif req == "sun":
                if not m.notilt:
                    s = np.deg2rad(c.sun_ecliptic_longitude)
                    e = np.dot(m.mat("gse", "gei"), [1.0, 0, 0])
                    self.near("direction of the sun", np.cos(s), e[0])
            return
        a, b = (rest or req).split(">")
        want = m.mat(a, b)
        if kind == "t":
            self.near("transform " + rest, c.transform(a, b, [1.0, -2.0, 3.0]), np.dot(want, [1.0, -2.0, 3.0]))
        elif kind == "w":
            w = c.get_rotation_wxyz(a, b)
            self.axang(w, want)
        else:
            r = c.get_transform_matrix(a, b)
            self.near("matrix " + req, r, want)
            if kind == "spoil":
                r *= -7.0

    def run_hist(self, case):
        _, j, seq = case
        m = Model(TIMES[j])
        c = self.c.Cotr(TIMES[j])
        other = self.c.Cotr("1999-09-09")
        for n, i in enumerate(seq):
            self.rec.step()
            self.ask(c, m, self.REQ[i])
            if n == 0:
                other.get_transform_matrix("gse", "geo")
        self.agree(c, m, "after {0}".format([self.REQ[i] for i in seq]), 3, (("gse", "geo"), ("sm", "geo"), ("gse", "gse"), ("mhd", "mag"), ("gsm", "gsm")))
        return "hist"

    def run_dip(self, case):
        _, i, j, notilt = case
        tilt, gsm = DIPS[i]
        c = self.c.Cotr(TIMES[j], dip_tilt=tilt, dip_gsm=gsm, notilt1967=notilt)
        tilt, gsm = tilt or 0.0, gsm or 0.0
        mu, psi = np.deg2rad(tilt), np.deg2rad(gsm)
        north = np.array([np.sin(mu), np.cos(mu) * np.sin(psi), np.cos(mu) * np.cos(psi)])
        self.near("the north pole in gse", c.transform("sm", "gse", [0, 0, 1]), north)
        self.near("the dipole in gse", c.get_dipole_moment(strength=1.0), -north)
        self.near("the dipole in mhd", c.get_dipole_moment("mhd", strength=1.0), north * [1, 1, -1])
        self.near("the given angles", c.get_dipole_angles(), (tilt, gsm))
        return "dip"

    def run_ang(self, case):
        _, i, s, st = case
        tilt, gsm = [x or 0.0 for x in DIPS[i]]
        m = Model("1970-01-01", tilt, gsm)
        kw = {} if st is None else dict(strength=st)
        st = STRENGTH if st is None else st
        r = self.c.get_dipole_moment_ang(tilt, gsm, s, **kw)
        self.near("get_dipole_moment_ang in " + s, r, np.dot(m.mat("sm", s), [0, 0, -st]), 1e-12 * abs(st) + 1e-9)
        if s in ("gse", "mhd") and st > 0:
            c = self.c.dipole_moment2cotr(r, s)
            self.near("dipole of dipole_moment2cotr", c.get_dipole_moment(s, strength=st), r, 1e-9 * abs(st))
        return "ang"

    def run_moment(self, case):
        _, m, s = case
        m = np.array(m, dtype="f8")
        n = np.linalg.norm(m)
        keep = m.copy()
        c = self.c.dipole_moment2cotr(m, s)
        require(np.array_equal(m, keep), "dipole_moment2cotr changes its argument")
        if n:
            self.near("dipole_moment2cotr({0}, {1})".format(m.tolist(), s), c.get_dipole_moment(s, strength=n), m)
        return "moment"

    def run_as(self, case):
        _, what, j = case
        v, A, t = self.v, self.c.as_cotr, TIMES[j]
        north = Model(t, 0.0, 0.0)
        m = Model(t)
        chk = (("gse", "gsm"), ("sm", "mhd"), ("geo", "sm"))
        if what == "none":
            return self.agree(A(None), north, what, 3, (("sm", "gse"), ("sm", "mhd"))) or "as"
        if what in ("cotr", "has"):
            c = self.c.Cotr(t)

            class Has(object):
                __cotr__ = c
            require(A(c) is c and A(Has()) is c, "as_cotr of a Cotr is another one")
            return "as"
        if what == "dict":
            self.agree(A(dict(time=t)), m, what, 3, chk)
            self.agree(A(dict(dip_tilt=12.0, dip_gsm=-5.0)), Model(t, 12.0, -5.0), what, 3, (("sm", "gse"), ("sm", "mhd")))
            self.near("rdim", A(dict(time=t, rdim=4)).get_transform_matrix("gse", "gse"), np.eye(4))
            return "as"
        if what in ("info", "infodict", "dipoletime", "field", "dataset"):
            key = "dipoletime" if what == "dipoletime" else "cotr"
            val = dict(time=t) if what == "infodict" else (t if what == "dipoletime" else self.c.Cotr(t))
            x = np.arange(3.0)
            f = v.wrap_field(np.zeros((3, 3, 3)), v.wrap_crds("nonuniform_cartesian", [(a, x) for a in "xyz"]), name="f", center="node")
            if what == "dataset":
                ds = v.dataset.Dataset(name="ds")
                g = v.grid.Grid(name="g")
                ds.add(g)
                g.add_field(f)
                ds.set_info(key, val)
            else:
                f.set_info(key, val)
            self.agree(A(f), m, what, 3, chk)
            if what in ("field", "info"):
                self.agree(A(f + 1.0), m, "result of arithmetic", 3, chk)
            return "as"
        if what == "bad":
            for x in (object(), 3.5j):
                try:
                    A(x)
                except TypeError:
                    continue
                raise Fail("as_cotr of {0}".format(x))
            return "bad"
        if what == "default":
            self.agree(A(object(), default=t), m, what, 3, chk)
            return "as"
        self.agree(A(object(), default=None), north, what, 3, (("sm", "gse"), ("sm", "mhd")))
        return "as"

    def run_astime(self, case):
        _, form, j = case
        self.agree(self.c.as_cotr(self.time(TIMES[j], form)), Model(TIMES[j]), "as_cotr({0})".format(TIMES[j]), 3, (("gse", "gsm"), ("sm", "mhd"), ("geo", "sm")))
        return "as"

    def run_vec(self, case):
        _, a, b, form, rdim = case
        t = "2010-06-23T09:30:00"
        M = Model(t).mat(a, b)
        c = self.c.Cotr(t, rdim=rdim)
        cols = np.array([[1.0, -2.0, 3.0], [0, 0, 1], [4.0, 0.5, 0.0], [0, 0, 0]]).T
        vec = dict(one=cols[:, 0].copy(), int=np.array([1, -2, 3]), list=[1, -2, 3], cols=cols.copy(), cols1=cols[:, :1].copy(), two=cols[:, :2].copy(),
                   four=np.concatenate([cols, np.ones((1, 4))]))[form]
        if form == "four" and rdim == 3:
            return "none"
        keep = np.array(vec)
        r = c.transform(a, b, vec)
        require(np.array_equal(keep, vec), "transform changes its argument")
        want = np.dot(M, keep[:3])
        if form == "four":
            want = np.concatenate([want, np.ones((1, 4))])
        self.near("{0} to {1} of {2}".format(a, b, form), r, want)
        self.near("and back", c.transform(b, a, r), keep)
        require(not np.shares_memory(r, keep if form == "list" else vec), "transform gives out its argument")
        return "vec"

    def axang(self, w, M):
        """axis and angle that are the rotation"""
        require(np.shape(w) == (4,), "shape of axis and angle is {0}", np.shape(w))
        k, a = np.array(w[1:]), np.deg2rad(w[0])
        self.near("length of the axis", np.linalg.norm(k), 1.0)
        require(-1e-12 <= w[0] <= 180 + 1e-9, "angle is {0}", w[0])
        K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
        self.near("rotation by axis and angle {0}".format(np.asarray(w).tolist()), np.eye(3) * np.cos(a) + np.sin(a) * K + (1 - np.cos(a)) * np.outer(k, k), M, 1e-6)

    def run_wxyz(self, case):
        _, ax, a, q = case
        k = np.array(ax, "f8") / np.linalg.norm(ax)
        r = np.deg2rad(a)
        K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
        M = np.eye(3) * np.cos(r) + np.sin(r) * K + (1 - np.cos(r)) * np.outer(k, k)
        self.axang(self.c.get_rotation_wxyz(M.copy(), quick=q), M)
        for B in (M * 1.5, M + np.diag([0, 0.01, 0])):
            try:
                self.c.get_rotation_wxyz(B, quick=q)
            except ValueError:
                continue
            raise Fail("axis and angle of a matrix that is no rotation")
        return "wxyz"

    def run_make(self, case):
        _, ax, a, rdim = case
        k = str(ax).strip().lower()
        f = {"0": rx, "x": rx, "1": ry, "y": ry, "2": rz, "z": rz}[k]
        want = np.eye(4)
        want[:3, :3] = f(a)
        self.near("make_rotation({0}, {1}, {2})".format(a, ax, rdim), self.c.make_rotation(a, ax, rdim), want[:rdim, :rdim])
        if a:
            for bad in (dict(axis="w"), dict(rdim=5), dict(axis=3)):
                try:
                    self.c.make_rotation(a, **dict(dict(axis="x", rdim=3), **bad))
                except ValueError:
                    continue
                raise Fail("make_rotation with {0}".format(bad))
        return "make"

    def run_shift(self, case):
        v = np.array(case[1])
        m, i = self.c.make_translation(v)
        for p in ((0, 0, 0, 1), (1, -2, 3, 1)):
            self.near("translation", np.dot(m, p), np.append(v, 0) + p)
            self.near("its inverse", np.dot(i, np.dot(m, p)), p)
        self.near("as_nvec", self.c.as_nvec(v.astype("f8")), np.append(v, 1.0))
        self.near("as_nvec of columns", self.c.as_nvec(np.array([v, v], dtype="f8").T), np.array([np.append(v, 1.0)] * 2).T)
        return "shift"

    def run_name(self, case):
        _, form, s = case
        v, A = self.v, self.c.as_crd_system

        class Has(object):
            __crd_system__ = s

        x = np.arange(3.0)

        def fld():
            return v.wrap_field(np.zeros((3, 3, 3)), v.wrap_crds("nonuniform_cartesian", [(a, x) for a in "xyz"]), name="f", center="node")
        if form == 0:
            r = A(s)
        elif form == 1:
            r = A("  " + s.upper() + " ")
        elif form == 2:
            r = A(Has())
        elif form == 3:
            f = fld()
            f.set_info("crd_system", s)
            r = A(f)
        elif form == 4:
            g = v.grid.Grid(name="g")
            f = fld()
            g.add_field(f)
            g.set_info("crd_system", s.upper())
            r = A(f)
        elif form == 5:
            r = A(fld(), s)
        elif form == 6:
            r = A(object(), default=s)
        elif form == 7:
            try:
                r = A(object())
            except TypeError:
                return "bad"
            raise Fail("as_crd_system of an object is {0}".format(r))
        elif form == 8:
            r = A(Has(), default="gei")
        else:
            r = s
            require(A(None) == "Unknown" and A(object(), default=None) == "Unknown", "as_crd_system(None)")
        require(r == s, "as_crd_system is {0}, not {1}", r, s)
        # names are understood the same way by transforms
        if s in SYS and form == 1:
            c, m = self.c.Cotr("2010-06-23"), Model("2010-06-23")
            self.near("transform of capitals", c.transform(" " + s.upper(), "GSE", [1.0, 2, 3]), np.dot(m.mat(s, "gse"), [1.0, 2, 3]))
        if s == "bogus":
            for f in (self.c.Cotr().get_transform_matrix,):
                try:
                    f("gse", s)
                except ValueError:
                    continue
                raise Fail("transform to " + s)
        return "name"

    def run_helio(self, case):
        _, a, b = case
        c = self.c.Cotr("2010-06-23")
        if a == b:
            self.near("identity", c.transform(a, b, [1.0, 2.0, 3.0]), [1.0, 2.0, 3.0])
            return "helio"
        for x, y in ((a, b), (b, a)):
            try:
                c.transform(x, y, [1.0, 2.0, 3.0])
            except (NotImplementedError, ValueError):
                continue
            raise Fail("{0} to {1}".format(x, y))
        return "bad"
