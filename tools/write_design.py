"""Refreshes the generated tables of DESIGN.md (harnesses, catch table) from the harness modules and the seeds."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine import listing  # noqa: E402


def cell(s):
    return str(s).replace("|", "/").replace("\n", " ")


def harness_table():
    out = []
    titles = {}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        titles[p["id"]] = p["title"]
    for pid, title in titles.items():
        out.append("\n### %s %s\n" % (pid, title))
        if not os.path.exists(os.path.join(ROOT, "harness", pid.lower() + ".py")):
            out.append("not claimed")
            continue
        quick = {h["name"] for h in listing.harnesses(pid, "quick")}
        hs = listing.harnesses(pid, "thorough")
        hs += [h for h in listing.harnesses(pid, "quick") if h["name"] not in {x["name"] for x in hs}]
        fns, stubs = [], []
        for h in hs:
            o = h["opts"]
            out.append("- `%s`%s: %s *Bounds:* %s." % (h["name"], "" if h["name"] in quick else " (thorough)", cell(h["doc"]), cell(o.get("bounds", "see source"))))
            fns += [f for f in o.get("functions", []) if f not in fns]
            stubs += [s for s in o.get("stubs", []) if s not in stubs]
        out.append("- *Encoded:* " + ", ".join("`%s`" % f for f in fns) + ".")
        if stubs:
            out.append("- *Stubs:* " + "; ".join(cell(s) for s in stubs) + ".")
    return "\n".join(out)


def seed_table():
    out = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    d = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, s, "meta.json")))
        out.append("| %s | %s | %s | %s | %s |" % (s, m["property"], cell(m["needs"]), cell(m["what_it_breaks"]), m.get("caught_by", "check of " + m["property"])))
    return "\n".join(out)


def main():
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    for name, text in (("harnesses", harness_table()), ("seeds", seed_table())):
        a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + "\n" + text + "\n" + s[j:]
    open(p, "w").write(s)


main()
