#!/usr/bin/env python3
"""Writes the parts of DESIGN.md between the markers: a section per property, the findings, and the planted bugs.

run with the project's python: . /opt/vp/env.sh; python tools/design.py
"""
import importlib
import json
import os
import re
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vmc.registry import CHECKS  # noqa
from tools.design_notes import NOTES, SEEDS  # noqa


def wrap(s, ind="", sub=None):
    return textwrap.fill(" ".join(str(s).split()), 118, initial_indent=ind, subsequent_indent=ind if sub is None else sub,
                         break_long_words=False, break_on_hyphens=False)


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    out = []
    for d in sorted(props, key=lambda x: x["id"]):
        mod, cls = CHECKS[d["id"]]
        c = getattr(importlib.import_module("vmc.checks." + mod), cls)
        out.append("### %s  %s\n" % (d["id"], d["title"]))
        out.append(wrap("Check: vmc/checks/%s.py, class %s." % (mod, cls)))
        out.append(wrap("Explored: " + c.rule, "* ", "  "))
        if c.bounds:
            out.append(wrap("Bounds: " + "; ".join("%s: %s" % (k, v) for k, v in c.bounds.items()), "* ", "  "))
        for a in c.assumptions:
            out.append(wrap("Assumed: " + a, "* ", "  "))
        for n in NOTES.get(d["id"], ()):
            out.append(wrap(n, "* ", "  "))
        out.append("")
    sec = {"PROPERTIES": "\n".join(out)}
    out = []
    for e in known:
        out.append(wrap((e["what"] if e["status"] == "fixed" else "KNOWN %s (%s): %s" % (e["id"], e["property"], e["what"])), "* ", "  "))
    sec["FINDINGS"] = "\n".join(sorted(out, key=lambda s: (not s.startswith("* KNOWN"), re.search(r"V\d\d", s).group())))
    out = ["| bug | property | what the change breaks | caught by | at first |", "|---|---|---|---|---|"]
    for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
        by, first = SEEDS.get(s, (m["property"], "caught"))
        out.append("| %s | %s | %s | %s | %s |" % (s, m["property"], " ".join(m["what_it_breaks"].split()), by, first))
    sec["SEEDS"] = "\n".join(out)
    fn = os.path.join(HERE, "DESIGN.md")
    txt = open(fn).read()
    for k, v in sec.items():
        txt = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (k, k), lambda m: m.group(1) + v + "\n" + m.group(2), txt, flags=re.S)
    open(fn, "w").write(txt)


if __name__ == "__main__":
    main()
