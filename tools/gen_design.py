"""Regenerates the findings and planted-bug sections of DESIGN.md.

usage: gen_design.py   (after gen_known.py; tools/caught.json holds the results of trybug.py)
"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
cut = text.find("## Defects found")
if cut < 0:
    cut = text.find("@FINDINGS@")
text = text[:cut]
fixed, known = [], []
for l in open(os.path.join(ROOT, "known_findings.jsonl")):
    e = json.loads(l)
    (fixed if e["status"] == "fixed" else known).append(e)
out = ["## Defects found", "",
       "%d defects of the original tree were found by the checks (or while writing them) and repaired, one `fix:` commit each in" % len(fixed),
       "/repo; the checks pass on the repaired tree and report them again on the original one:", ""]
for e in fixed:
    out.append("* %s %s (%s): %s" % (e["id"], e["property"], e["commit"], e["what"]))
out += ["", "Recorded, not repaired (`known_findings.jsonl`; the check of the property reproduces each one with a fixed program, prints a",
        "KNOWN-FINDING line for it and reports any other violation; they need more than a small patch because clang's type printer or",
        "template machinery is at fault):", ""]
for e in known:
    out.append("* %s: %s" % (e["id"], e["what"]))
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
out += ["", "## Planted bugs", "",
        "Each was confirmed in a scratch copy: builds, passes all stable tests, the demonstration passes before and fails after.",
        "\"by\" is the result of the quick check of its property with seed 1.", "",
        "| bug | property | what it needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "\\|"), caught.get(b, "?")))
open(path, "w").write(text + "\n".join(out) + "\n")
