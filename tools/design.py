"""Fills the generated sections of DESIGN.md from DESIGN.in.md, props.py and seeded/*/meta.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here); sys.dont_write_bytecode = True
from props import PROPS
root = os.path.dirname(here)
out = ["## Properties\n"]
for p in PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p.get("na"):
        out.append("Not applicable: %s\n" % p["na"]); continue
    out.append("* *Holds for:* %s." % p["text"])
    out.append("* *Decided by:* %s. Level `%s`. %s" % (p["technique"], p["level"], p.get("design", "")))
    out.append("* *Bounds and trust:* %s" % p["note"])
    out.append("* *Beyond the tests:* %s" % p["why"])
    out.append("* *Anchors:* %s.\n" % "; ".join("%s (%s)" % (n, w) for n, w in p["mech"]))
seeds = ["## Planted bugs and what catches them\n", "Each compiles, passes the stable tests and needs something specific. `tools/seed.sh ID` confirms a row.\n",
  "| bug | needs | caught by |", "|---|---|---|"]
caught = json.load(open(os.path.join(here, "caught.json")))
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", s, "meta.json")))
    seeds.append("| %s | %s | %s |" % (s, m["needs"], caught.get(s, "?")))
t = open(os.path.join(root, "tools", "DESIGN.in.md")).read()
open(os.path.join(root, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)))
