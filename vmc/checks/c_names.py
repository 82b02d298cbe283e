"""Names with wildcards and slices: files, and items in trees"""
import fnmatch
import itertools
import os

import numpy as np

from vmc import boot
from vmc.checks.c_loc import pick
from vmc.core import Check, Fail, require

# the numbers in the names of files
SETS = {"wide": ["010", "020", "030", "040"], "len": ["9", "10", "100", "2"], "frac": ["0.5", "-1", "2.25", "30", "1.75"], "one": ["7"], "two": ["5", "-6"], "neg": ["-20", "5", "-3", "10"]}
TEMPL = ["file.{}.txt", "f*.{}.txt", "*.{}.t?t", "f[hi]le.{}.txt", "./file.{}.txt", "sub/../file.{}.txt", "$VMC_NAMES/file.{}.txt", "~/file.{}.txt"]
NODIR = ("nope.{}.txt", "n*.{}.txt")
KEYS = ("a", "ab", "b", "x*")
PATS = ("a", "a*", "?", "*", "ab", "[ab]*", "x*", "no")


class Names(Check):
    pid = "V09"
    rule = ("every slice (indices, values, both kinds of ends, steps) in every form of file name, for sets of files; every pattern of up to three "
            "parts on every tree of a family, of dicts and in hdf5 files")
    bounds = {"files": "1..5 beside others that do not match", "ends": "7 indices, values on, between and beyond", "steps": "-2..2", "tree": "three levels, 4 keys"}
    assumptions = ("equally near values: either is accepted", "nothing is said of empty slices, nor of two files of one number")

    def setup(self):
        import viscid
        from viscid import vutil
        viscid.logger.setLevel(60)
        self.v, self.u = viscid, vutil
        self.dirs = {}

    @staticmethod
    def templ(s):
        """with fractions in the names, what a star before the number matches is not settled"""
        return [t for t in TEMPL if s != "frac" or "*" not in t]

    def shards(self, tier):
        return [("glob", s, i) for s in SETS for i in range(2 if tier != "thorough" else 1)] + [("plain",), ("load",), ("tree", "dict"), ("tree", "h5")]

    def cases(self, shard, tier):
        kind = shard[0]
        if kind == "glob":
            ts = self.templ(shard[1])
            x = sorted(float(s) for s in SETS[shard[1]])
            vals = [x[0] - 30, x[-1] + 30] + x + [a + 0.25 * (b - a) for a, b in zip(x[:-1], x[1:])]
            ends = [None] + [["i", k] for k in (-2, -1, 0, 1, 2, 5)] + [["v", v] for v in vals]
            for k, (a, b, st) in enumerate(itertools.product(ends, ends, (None, 1, 2, -1, -2))):
                if k % 2 != shard[2] and tier != "thorough":
                    continue
                for t, tem in enumerate(ts):
                    if t == (k // 2) % len(ts) or t == 0 or tier == "thorough":
                        yield ["glob", shard[1], [a, b, st], tem, "fj"[k % 3 == 0]]
            if shard[2] == 0:
                for e in ends[1:]:
                    for tem in ts:
                        for suf in "fjFJ":
                            yield ["globone", shard[1], e, tem, suf]
        elif kind == "plain":
            for s in SETS:
                for tem in TEMPL + list(NODIR):
                    for w in ("*", "?", "[0-9]*", "0??", SETS[s][0]):
                        yield ["plain", s, tem, w]
                for tem in NODIR:
                    for w in ("[:]", "[0]", "[1f:]", "[::-1]"):
                        yield ["none", s, tem, w]
        elif kind == "load":
            for s in ("wide", "len", "two", "one"):
                for w in ("[:]", "[::2]", "[1:]", "[-1]", "[0]", "[::-1]", "[5f:20f]", "*"):
                    for how in ("str", "list", "two"):
                        yield ["load", s, w, how]
        else:
            for t in range(6):
                for n in (1, 2, 3):
                    for p in itertools.product(PATS, repeat=n):
                        for slash in ("", "/") if n < 3 else ("",):
                            yield ["tree", shard[1], t, slash + "/".join(p)]

    def run_case(self, case, rec):
        rec.step()
        rec.state(repr(case))
        d = os.path.join(os.path.realpath(boot.scratch()), "n%d" % os.getpid())
        cwd = os.getcwd()
        keep = {e: os.environ.get(e) for e in ("VMC_NAMES", "HOME")}
        os.makedirs(os.path.join(d, "sub"), exist_ok=True)
        if case[0] != "tree" and self.dirs.get(d) != case[1]:
            for f in os.listdir(d):
                if f.endswith((".txt", ".dat", ".log")):
                    os.unlink(os.path.join(d, f))
            for s in SETS[case[1]]:
                with open(os.path.join(d, "file.%s.txt" % s), "w") as f:
                    f.write("# x a\n%s\n" % "\n".join("%d %g" % (i, float(s) + i) for i in range(4)))
            for f in ("file.abc.txt", "file.020.dat", "other.020.txt", "file..txt", "file.txt", "file.010.txt.log"):
                open(os.path.join(d, f), "w").close()
            self.dirs[d] = case[1]
        os.environ["VMC_NAMES"] = os.environ["HOME"] = d
        os.chdir(d)
        try:
            return getattr(self, "run_" + case[0])(case[1:], rec, d)
        finally:
            os.chdir(cwd)
            for e, x in keep.items():
                if x is None:
                    os.environ.pop(e, None)
                else:
                    os.environ[e] = x

    @staticmethod
    def end(e, suf):
        if e is None:
            return ""
        return str(e[1]) if e[0] == "i" else ("%r" % e[1]) + suf

    def files(self, s, tem):
        """names which the template stands for, in order of their numbers"""
        nums = SETS[s]
        pat = tem.split("/")[-1]
        got = sorted((float(n), "file.%s.txt" % n) for n in nums)
        extra = [(20.0, "other.020.txt")] if pat.startswith("*") else []
        return sorted(got + extra)

    def run_glob(self, case, rec, d):
        s, (a, b, st), tem, suf = case
        fl = self.files(s, tem)
        x = np.array([f[0] for f in fl])
        if len(set(x)) < len(x):
            return "same number"
        inds = pick(x, a, b, st or 1, 1e-6)
        txt = self.end(a, suf) + ":" + self.end(b, suf) + ("" if st is None else ":%d" % st)
        pat = tem.format("[" + txt + "]")
        try:
            got = self.u.slice_globbed_filenames(pat)
        except Exception:
            if not inds:
                return "empty"
            raise
        if not inds:
            return "empty"
        want = [os.path.join(d, fl[i][1]) for i in inds]
        require(list(got) == want, "{0}: {1}, want {2}", pat, [os.path.basename(g) for g in got], [os.path.basename(g) for g in want])
        require(list(self.u.glob2(pat)) == want, "glob2 of {0} differs", pat)
        return "slice"

    def run_globone(self, case, rec, d):
        s, e, tem, suf = case
        fl = self.files(s, tem)
        x = np.array([f[0] for f in fl])
        if len(set(x)) < len(x):
            return "same number"
        if e[0] == "i" and not -len(x) <= e[1] < len(x):
            return "no such"
        pat = tem.format("[" + self.end(e, suf) + "]")
        got = [os.path.basename(g) for g in self.u.slice_globbed_filenames(pat)]
        if e[0] == "i":
            ok = [e[1] % len(x)]
        else:
            dist = abs(x - e[1])
            ok = [i for i in range(len(x)) if dist[i] <= dist.min() + 1e-9]
        require(len(got) == 1 and got[0] in [fl[i][1] for i in ok], "{0}: {1}, want {2}", pat, got, [fl[i][1] for i in ok])
        return "one"

    def run_plain(self, case, rec, d):
        s, tem, w = case
        pat = tem.format(w)
        got = sorted(self.u.slice_globbed_filenames(pat))
        base = pat.split("/")[-1]
        want = sorted(os.path.join(d, f) for f in os.listdir(d) if fnmatch.fnmatchcase(f, base))
        require(got == want and sorted(self.u.glob2(pat)) == want, "{0}: {1}, want {2}", pat, got, want)
        return "plain"

    def run_none(self, case, rec, d):
        s, tem, w = case
        require(list(self.u.glob2(tem.format(w))) == [], "glob2 finds {0}", tem.format(w))
        try:
            got = self.u.slice_globbed_filenames(tem.format(w))
        except IOError:
            return "none"
        raise Fail("slice_globbed_filenames of {0} is {1}".format(tem.format(w), got))

    def run_load(self, case, rec, d):
        s, w, how = case
        x = sorted(float(n) for n in SETS[s])
        n = len(x)
        want = {"[:]": x, "[::2]": x[::2], "[1:]": x[1:], "[-1]": x[-1:], "[0]": x[:1], "[::-1]": x[::-1], "[5f:20f]": [q for q in x if 5 <= q <= 20], "*": x}[w]
        if not want or w == "*":
            if w == "*":
                return "others match"
            return "empty"
        pat = os.path.join(d, "file.%s.txt" % w)
        fns = sorted(SETS[s], key=float)
        try:
            if how == "str":
                fs = self.v.load_files(pat)
            elif how == "list":
                fs = self.v.load_files([pat])
            else:
                fs = self.v.load_files([pat, os.path.join(d, "file.%s.txt" % fns[0])])
                want = want + x[:1]
            got = sorted(float(f["c1"].data[0]) for f in fs)
            require(sorted(set(got)) == sorted(set(want)), "{0} loads {1}, want {2}", w, got, want)
        finally:
            self.v.unload_all_files()
        return "load"

    # ----------------------------------------------------------------- trees
    @staticmethod
    def tree(t):
        leaf = itertools.count(1)

        def mk(depth, keys):
            if depth == 0:
                return next(leaf)
            out = {}
            for i, k in enumerate(keys):
                out[k] = mk(depth - 1 if (i + t) % 3 else 0, keys[::-1] if (t + depth) % 2 else keys[1:] or keys) if (i + t + depth) % 4 else {}
            return out
        return mk(3, KEYS[t % 3:] + (KEYS[:1] if t % 3 else ()))

    @staticmethod
    def want(tree, pat):
        """(path, value) of every match, exact keys first"""
        level = [((), tree)]
        for p in pat.strip("/").split("/"):
            nxt = []
            for path, v in level:
                if not isinstance(v, dict):
                    continue
                if p in v:
                    nxt.append((path + (p,), v[p]))
                else:
                    nxt += [(path + (k,), x) for k, x in v.items() if fnmatch.fnmatchcase(k, p)]
            level = nxt
        return [("/".join(p), v) for p, v in level]

    def plainly(self, v):
        if hasattr(v, "items"):
            return {k: self.plainly(x) for k, x in v.items()}
        return int(np.asarray(v[()])) if hasattr(v, "shape") else v

    def run_tree(self, case, rec, d):
        how, t, pat = case
        tree = self.tree(t)
        want = self.want(tree, pat)
        root, f = tree, None
        if how == "h5":
            import h5py
            fn = os.path.join(d, "t%d.h5" % t)
            if not os.path.exists(fn):
                def put(g, v):
                    for k, x in v.items():
                        if isinstance(x, dict):
                            put(g.create_group(k, track_order=True), x)
                        else:
                            g[k] = x
                with h5py.File(fn, "w", track_order=True) as f:
                    put(f, tree)
            root = f = h5py.File(fn, "r")
        try:
            try:
                vals, paths = self.u.resolve_path(root, pat)
                vals = [self.plainly(v) for v in vals]
            except KeyError:
                require(not want, "{0} is not found", pat)
                for fun in (lambda: self.u.find_item(root, pat), lambda: self.u.find_items(root, pat), lambda: self.u.resolve_path(root, pat, first=True)):
                    try:
                        fun()
                    except KeyError:
                        continue
                    raise Fail("{0} is found and is not".format(pat))
                return "none"
            require(bool(want), "{0} is found: {1}", pat, paths)
            strip = [p.strip("/") for p in paths]
            require(sorted(strip) == sorted(w[0] for w in want), "paths of {0}: {1}, want {2}", pat, paths, [w[0] for w in want])
            for p, v in zip(strip, vals):
                require(v == dict(want)[p], "{0} at {1} is {2}, want {3}", pat, p, v, dict(want)[p])
            require([self.plainly(v) for v in self.u.find_items(root, pat)] == vals, "find_items of {0}", pat)
            v1, p1 = self.u.resolve_path(root, pat, first=True)
            require(p1.strip("/") in strip and self.plainly(v1) == dict(want)[p1.strip("/")], "the first of {0}: {1} {2}", pat, p1, v1)
            require(self.plainly(self.u.find_item(root, pat)) == self.plainly(v1), "find_item of {0}", pat)
        finally:
            if f is not None:
                f.close()
        return "found"
