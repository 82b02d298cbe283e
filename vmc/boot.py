"""Environment for the checks: runs the code of /repo's *current* working tree.

 * python sources are imported straight from /repo (PYTHONPATH), nothing is written there
 * compiled extensions: the .so files beside the sources are used only when /opt/viscid-build/stamp (written by the
   project's build) proves, by content digest, that they were built from the present sources; otherwise the stale ones
   are rebuilt from the present .pyx/.f90 into a scratch directory and an import hook serves them from there
 * HOME, MPLCONFIGDIR and the temporary directory are scratch directories removed at the end
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VMC_REPO", "/repo")
STAMP = "/opt/viscid-build/stamp"
CY = ["cyamr", "cycalc", "cyfield", "integrate", "null_tools", "streamline"]
EXT_SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _digest_files():
    """the files build.sh digests: sources of the extensions and the products"""
    ret = {}
    cands = []
    for top in ("setup.py", "setup.cfg"):
        if os.path.isfile(os.path.join(REPO, top)):
            cands.append(top)
    for root, dirs, files in os.walk(os.path.join(REPO, "viscid")):
        for fn in files:
            rel = os.path.relpath(os.path.join(root, fn), REPO)
            low = fn.lower()
            if (low.endswith((".pyx", ".pxd", ".pxi", ".f90", ".h", ".pyf", ".so"))
                    or fn in ("setup.py", "setup.cfg")
                    or rel == "viscid/cython/__init__.py"):
                cands.append(rel)
    for rel in cands:
        ret[rel] = _sha(os.path.join(REPO, rel))
    return ret


def stale_extensions():
    """names of extensions whose .so in /repo can not be shown to be current"""
    every = set("viscid.cython." + e for e in CY) | {"viscid.readers._jrrle"}
    cur = _digest_files()
    old = {}
    try:
        with open(STAMP) as f:
            for line in f:
                h, rel = line.rstrip("\n").split("  ", 1)
                old[rel] = h
    except (OSError, ValueError):
        return every
    stale = set()
    for rel in set(cur) | set(old):
        if cur.get(rel) == old.get(rel):
            continue
        base = os.path.basename(rel)
        if rel.endswith(".pyx"):
            nm = "viscid.cython." + base[:-4]
            if nm in every:
                stale.add(nm)
        elif rel.endswith(".so"):
            nm = os.path.dirname(rel).replace("/", ".") + "." + base.split(".")[0]
            if nm in every:
                stale.add(nm)
        elif rel.lower().endswith(".f90"):
            stale.add("viscid.readers._jrrle")
        elif rel == "viscid/cython/__init__.py":
            pass
        else:
            return every
    for nm in every:
        so = os.path.join(REPO, *nm.split(".")) + EXT_SUFFIX
        if not os.path.isfile(so):
            stale.add(nm)
    return stale


class BuildError(Exception):
    pass


def build_extensions(names, outdir):
    """Build the named extensions from /repo's present sources into outdir"""
    import numpy as np
    src = os.path.join(outdir, "src")
    os.makedirs(src)
    procs = []
    cyn = [n for n in names if n.startswith("viscid.cython.")]
    if cyn:
        d = os.path.join(src, "viscid", "cython")
        os.makedirs(d)
        open(os.path.join(src, "viscid", "__init__.py"), "w").close()
        for fn in os.listdir(os.path.join(REPO, "viscid", "cython")):
            if fn.endswith((".pyx", ".pxd", ".pxi", ".h")):
                shutil.copy(os.path.join(REPO, "viscid", "cython", fn), d)
        # the package marker only: the real __init__ imports things
        open(os.path.join(d, "__init__.py"), "w").close()
        inc = " ".join("-I'%s'" % p for p in
                       {np.get_include(), sysconfig.get_paths()["include"],
                        sysconfig.get_paths()["platinclude"]})
        for n in cyn:
            e = n.rsplit(".", 1)[1]
            out = os.path.join(outdir, n + EXT_SUFFIX)
            cmd = ("cd '{src}' && '{py}' -m cython viscid/cython/{e}.pyx -o {e}.c && "
                   "gcc -DNDEBUG -fno-strict-overflow -fwrapv -O2 -fPIC -w {inc} -shared {e}.c -o '{out}' -lm"
                   "".format(src=src, py=sys.executable, e=e, inc=inc, out=out))
            procs.append((n, cmd))
    if "viscid.readers._jrrle" in names:
        m = os.path.join(outdir, "fsrc")
        shutil.copytree(REPO, m, symlinks=True, ignore=shutil.ignore_patterns(
            ".git", "*.so", "*.o", "*.pyx", "*.c", "__pycache__", "tests", "doc", "sample", "build"))
        # empty sources in place of the other extensions, which are built above
        for fn in os.listdir(os.path.join(REPO, "viscid", "cython")):
            if fn.endswith(".pyx"):
                open(os.path.join(m, "viscid", "cython", fn[:-4] + ".c"), "w").close()
        cmd = ("cd '{m}' && '{py}' setup.py build_ext -i && "
               "cp viscid/readers/_jrrle*.so '{o}'".format(
                   m=m, py=sys.executable,
                   o=os.path.join(outdir, "viscid.readers._jrrle" + EXT_SUFFIX)))
        procs.append(("viscid.readers._jrrle", cmd))
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    running = [(n, subprocess.Popen(["bash", "-c", c], stdout=subprocess.PIPE,
                                    stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL))
               for n, c in procs]
    bad = []
    for n, p in running:
        out, _ = p.communicate()
        if p.returncode != 0 or not os.path.isfile(os.path.join(outdir, n + EXT_SUFFIX)):
            bad.append("%s:\n%s" % (n, out.decode("utf8", "replace")[-3000:]))
    shutil.rmtree(src, ignore_errors=True)
    shutil.rmtree(os.path.join(outdir, "fsrc"), ignore_errors=True)
    if bad:
        raise BuildError("\n".join(bad))


class _ExtFinder(object):
    def __init__(self, extdir):
        self.extdir = extdir

    def find_spec(self, name, path=None, target=None):
        fn = os.path.join(self.extdir, name + EXT_SUFFIX)
        if name.startswith("viscid.") and os.path.isfile(fn):
            loader = importlib.machinery.ExtensionFileLoader(name, fn)
            return importlib.util.spec_from_file_location(name, fn, loader=loader)
        return None


_scratch = None


def scratch():
    return _scratch


def setup():
    """call once, in the main process, before importing viscid"""
    global _scratch
    _scratch = tempfile.mkdtemp(prefix="vmc-")
    home = os.path.join(_scratch, "home")
    os.makedirs(os.path.join(home, "mpl"))
    os.environ.update(
        HOME=home, LANG="C.UTF-8", MPLBACKEND="Agg", TZ="UTC",
        MPLCONFIGDIR=os.path.join(home, "mpl"), OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1", NUMEXPR_MAX_THREADS="1",
        HDF5_USE_FILE_LOCKING="FALSE", TMPDIR=os.path.join(_scratch, "tmp"))
    os.makedirs(os.environ["TMPDIR"])
    tempfile.tempdir = None
    rc = os.path.join(REPO, "resources", "viscidrc")
    if os.path.isfile(rc):
        shutil.copy(rc, os.path.join(home, ".viscidrc"))
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    names = stale_extensions()
    extdir = None
    if names:
        extdir = os.path.join(_scratch, "ext")
        os.makedirs(extdir)
        build_extensions(sorted(names), extdir)
        sys.meta_path.insert(0, _ExtFinder(extdir))
    return sorted(names)


def cleanup():
    if _scratch and os.path.basename(_scratch).startswith("vmc-"):
        shutil.rmtree(_scratch, ignore_errors=True)
