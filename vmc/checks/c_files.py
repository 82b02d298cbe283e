"""Opened files: loading, sharing, reloading and unloading"""
import itertools
import os
import shutil

import numpy as np

from vmc import boot
from vmc.core import Check, Fail, require, explore_bfs

XDMF = """<?xml version='1.0' ?>
<Xdmf Version='2.0'><Domain><Grid GridType="Collection" CollectionType="Spatial"><Time Type="Single" Value="1.0" />
<Grid Name="vgrid" GridType="Uniform"><Topology TopologyType="3DRectMesh" Dimensions="2 3 4"/>
<Geometry GeometryType="VXVYVZ">
<DataItem Name="VX" DataType="Float" Dimensions="4" Format="HDF">{s}:/x</DataItem>
<DataItem Name="VY" DataType="Float" Dimensions="3" Format="HDF">{s}:/y</DataItem>
<DataItem Name="VZ" DataType="Float" Dimensions="2" Format="HDF">{s}:/z</DataItem>
</Geometry>
{attrs}
</Grid></Grid></Domain></Xdmf>
"""
ATTR = """<Attribute Name="{n}" AttributeType="Scalar" Center="Node">
<DataItem Dimensions="2 3 4" NumberType="Float" Precision="8" Format="HDF">{f}:/{n}</DataItem></Attribute>"""

# containers -> the stored files their fields come from
FIELDS = {"A": {"a": "A"}, "B": {"p": "S", "q": "S"}, "C": {"q": "S", "r": "T"}}
CHILDREN = {"A": (), "B": ("S",), "C": ("S", "T")}
FN = {"A": "A.npz", "B": "B.xdmf", "C": "C.xdmf", "S": "S.h5", "T": "T.h5", "X": "X.npz"}


class _Model(object):
    def __init__(self, base):
        self.ver = {"A": 0, "S": 0, "T": 0}
        self.open = {}       # name -> number of its load
        self.seen = {}       # name -> {stored file: versions since the last (re)load}
        self.gen = {}        # name -> identity tag
        self.count = base
        self.base = base
        self.xgood = False
        self.xfail = False

    def fresh(self, name):
        self.seen[name] = {s: {self.ver[s]} for s in set(FIELDS[name].values())}

    def canon(self):
        return (tuple(sorted(self.ver.items())), tuple(sorted((k, v - self.base) for k, v in self.open.items())),
                tuple(sorted((k, tuple(sorted((s, tuple(sorted(v))) for s, v in d.items()))) for k, d in self.seen.items())),
                self.count - self.base, self.xgood, self.xfail)


class Files(Check):
    pid = "V07"
    rule = ("breadth-first over every sequence of loads (by absolute path, relative path, path with a variable, in one call, "
            "forced), reloads, unloads (by path, number, object, with-statement, all) and rewrites on disk of three files, "
            "two of which share a stored file, and of a file that cannot be read at first")
    bounds = {"files": "1 npz, 2 xdmf over 2 h5, 1 unreadable npz", "depth": "4 (thorough 5)"}
    assumptions = ("stored files are not themselves loaded by the user", "whether values not read yet are those at load "
                   "time or those on disk when read is not specified")
    case_timeout = 300

    def setup(self):
        import viscid
        import h5py
        self.v = viscid
        self.counter = None

    def prepare(self):
        self.dir = os.path.join(boot.scratch(), "files%d" % os.getpid())
        os.makedirs(self.dir)
        os.environ["VMC_FILES_DIR"] = self.dir
        import h5py
        os.chdir(self.dir)
        for ver in (0, 1):
            np.savez("A.v%d.npz" % ver, x=np.arange(3.), y=np.arange(2.), crd_names=["x", "y"],
                     a=self.val("a", "A", ver, (3, 2)))
            for s in "ST":
                with h5py.File("%s.v%d.h5" % (s, ver), "w") as f:
                    for ax, n in zip("xyz", (4, 3, 2)):
                        f[ax] = np.arange(float(n)) + 10 * ver
                    for n in "pqr":
                        f[n] = self.val(n, s, ver, (2, 3, 4))
        for c, n in (("B", "B.xdmf"), ("C", "C.xdmf")):
            with open(n, "w") as f:
                f.write(XDMF.format(s="S.h5" if c == "B" else "T.h5", attrs="\n".join(
                    ATTR.format(n=fl, f=FN[s]) for fl, s in sorted(FIELDS[c].items()))))
        np.savez("X.bad.npz", x=np.arange(3.), crd_names=["x"], a=np.zeros((2, 2, 2, 2)))
        np.savez("X.good.npz", x=np.arange(3.), crd_names=["x"], a=np.array([4., 5., 6.]))
        self.counter = 0

    @staticmethod
    def val(n, s, ver, shape):
        return (np.arange(int(np.prod(shape))).reshape(shape) + 100. * ord(n) + 10000. * ord(s) + 0.5 * ver)

    def put(self, s, ver):
        fn = FN[s]
        root, ext = os.path.splitext(fn)
        shutil.copyfile("%s.v%d%s" % (root, ver, ext), fn)

    def shards(self, tier):
        return [(5 if tier == "thorough" else 4, i) for i in range(16)]

    def menu(self, st):
        m = st[0]
        out = []
        for n in "ABC":
            for how in ("abs", "rel", "var", "force", "type"):
                if how == "type" and n != "A":
                    continue
                out.append(["load", n, how])
            out.append(["with", n])
            if n in m.open:
                for how in ("path", "num", "obj"):
                    out.append(["unload", n, how])
                for how in ("path", "obj"):
                    out.append(["reload", n, how])
        out.append(["many", "AB"])
        out.append(["many", "CB"])
        for s in "AST":
            out.append(["write", s])
        out.append(["loadx"])
        out.append(["writex"])
        out.append(["all"])
        return out

    def path(self, n):
        return os.path.join(self.dir, FN[n])

    def make(self):
        if self.counter is None:
            self.prepare()
        try:
            self.v.unload_all_files()
        except Exception:  # pylint: disable=broad-except
            # an earlier history broke the registry
            from viscid.readers import vfile_bucket
            self.v.readers.__filebucket__ = vfile_bucket.VFileBucket()
            self.counter = 0
        for s in "AST":
            self.put(s, 0)
        shutil.copyfile("X.bad.npz", "X.npz")
        return (_Model(self.counter), {})

    def loaded(self, st, n, f, forced, ev):
        m, objs = st
        require(f is not None, "{0}: loading {1} gave nothing", ev, n)
        if n in m.open:
            require(f is objs[n], "{0}: loading the open file {1} again gave another object", ev, n)
            if forced:
                m.fresh(n)
        else:
            require(all(f is not o for o in objs.values()), "{0}: loading {1} gave an object of before", ev, n)
            m.open[n] = m.count
            m.count += 1
            objs[n] = f
            m.fresh(n)

    def gone(self, st, n):
        m, objs = st
        m.open.pop(n)
        m.seen.pop(n)
        objs.pop(n)

    def apply(self, st, ev, look=True):
        v = self.v
        m, objs = st
        k = ev[0]
        if k == "load":
            n, how = ev[1:]
            fn = {"rel": "./" + FN[n], "var": "$VMC_FILES_DIR/" + FN[n]}.get(how, self.path(n))
            kw = {"force_reload": True} if how == "force" else {"file_type": "npz"} if how == "type" else {}
            self.loaded(st, n, v.load_file(fn, **kw), how == "force", ev)
        elif k == "with":
            n = ev[1]
            with v.load_file(self.path(n)) as f:
                self.loaded(st, n, f, False, ev)
                self.observe(st, ev)
            self.gone(st, n)
        elif k == "many":
            fs = v.load_files([self.path(n) for n in ev[1]])
            require(len(fs) == len(ev[1]), "{0}: {1} files", ev, len(fs))
            for n in ev[1]:
                mine = [f for f in fs if f.fname == self.path(n)]
                require(len(mine) == 1, "{0}: {1} of the files are {2}", ev, len(mine), n)
            # numbers go in the order the files were given, kind by kind
            for f in fs:
                n = [n for n in ev[1] if f.fname == self.path(n)][0]
                self.loaded(st, n, f, False, ev)
        elif k == "unload":
            n, how = ev[1:]
            if how == "path":
                v.unload_file(self.path(n))
            elif how == "num":
                v.unload_file(m.open[n])
            else:
                objs[n].unload()
            self.gone(st, n)
        elif k == "reload":
            n, how = ev[1:]
            if how == "path":
                v.reload_file(self.path(n))
            else:
                objs[n].reload()
            m.fresh(n)
        elif k == "write":
            s = ev[1]
            m.ver[s] = 1 - m.ver[s]
            self.put(s, m.ver[s])
            for d in m.seen.values():
                if s in d:
                    d[s] = d[s] | {m.ver[s]}
        elif k == "loadx":
            fn = os.path.join(self.dir, "X.npz")
            if m.xgood:
                f = v.load_file(fn)
                require(f is not None, "{0}: a file that can be read now was not loaded", ev)
                require(np.array_equal(np.asarray(f["a"].data), [4., 5., 6.]), "{0}: data {1}", ev, f["a"].data)
                f.unload()
                m.count += 1
            else:
                try:
                    f = v.load_file(fn)
                except IOError:
                    f = None
                require(f is None, "{0}: an unreadable file gave {1}", ev, f)
                m.xfail = True
        elif k == "writex":
            m.xgood = not m.xgood
            shutil.copyfile("X.%s.npz" % ("good" if m.xgood else "bad"), "X.npz")
        elif k == "all":
            v.unload_all_files()
            for n in list(m.open):
                self.gone(st, n)
        if look:
            self.observe(st, ev)
        self.counter = max(self.counter, m.count)

    def observe(self, st, ev):
        v = self.v
        m, objs = st
        for n in "ABC":
            try:
                f = v.get_file(self.path(n))
            except KeyError:
                f = None
            require(f is objs.get(n), "{0}: the registry has {1} for {2}, want {3}", ev, f, n, objs.get(n))
            if n in m.open:
                require(v.get_file(m.open[n]) is objs[n], "{0}: file number {1} is not {2}", ev, m.open[n], n)
                for fl, s in FIELDS[n].items():
                    got = np.asarray(objs[n][fl].data)
                    want = [self.val(fl, s, ver, (3, 2)) if n == "A" else self.val(fl, s, ver, (2, 3, 4)).T
                            for ver in sorted(m.seen[n][s])]
                    require(any(np.array_equal(got, w) for w in want),
                            "{0}: {1}[{2}] starts with {3}, want one of {4}", ev, n, fl, got.ravel()[:1],
                            [w.ravel()[:1] for w in want])
                require(objs[n].fname == self.path(n), "{0}: {1} says it is {2}", ev, n, objs[n].fname)
        for s in "ST":
            try:
                f = v.get_file(self.path(s))
            except KeyError:
                f = None
            users = [n for n in m.open if s in CHILDREN[n]]
            require((f is not None) == bool(users), "{0}: stored file {1} {2} although used by {3}", ev, s,
                    "was dropped" if f is None else "is kept", users)
        for k in range(m.base, m.count + 1):
            if k not in m.open.values():
                try:
                    f = v.get_file(k)
                except KeyError:
                    continue
                raise Fail("{0}: number {1} of an unloaded file gives {2}".format(ev, k, f))
        x = None
        try:
            x = v.get_file(os.path.join(self.dir, "X.npz"))
        except KeyError:
            pass
        else:
            raise Fail("{0}: the unreadable file is in the registry as {1}".format(ev, x))

    def run_shard(self, shard, tier, rec):
        depth, part = shard

        def menu(pair, d):
            evs = self.menu(pair[0:1])
            return [e for i, e in enumerate(evs) if i % 16 == part] if d == 0 else evs

        explore_bfs(rec, self.make, menu, self.apply, lambda st: st[0].canon(), depth,
                    lambda hist, e: rec.fail({"hist": hist}, str(e), e.finding),
                    replay_=lambda st, ev: self.apply(st, ev, False))
        rec.outcome("explored")
        rec.sample({"hist": [["load", "B", "abs"], ["load", "C", "rel"], ["unload", "B", "obj"]]})

    def run_case(self, case, rec):
        st = self.make()
        for ev in case["hist"]:
            self.apply(st, ev)
