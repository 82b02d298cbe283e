"""mkseed(id, prop, file, [(old, new), ..], demo_py, needs, breaks): write seeded/<id> from an edit of /repo's HEAD"""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC
W=$(mktemp -d) && trap 'rm -rf "$W"' EXIT
export TMPDIR=$W
timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def mkseed(id, prop, edits, demo, needs, breaks):
    d = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
    for fn, old, new in edits:
        p = os.path.join(d, "r", fn)
        s = open(p).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    patch = subprocess.check_output(["git", "-C", d + "/r", "diff"])
    out = os.path.join(V, "seeded", id)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "wb").write(patch)
    open(out + "/demo.sh", "w").write(DEMO)
    open(out + "/demo.py", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    print(id, "written")
