"""Writes DESIGN.md from tools/DESIGN.in.md, the properties, the rules and the planted changes."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/rules", H + "/engine", H + "/tools"]
import properties, props  # noqa
s = open(H + "/tools/DESIGN.in.md").read()
out = []
for p in sorted(properties.ALL, key=lambda p: p["id"]):
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if p["na"]:
        out.append("Not applicable: %s\n" % p["na"])
        continue
    if p["id"] not in props.PROPS:
        continue
    r = props.PROPS[p["id"]]
    out.append("* Decided by: %s" % p["technique"])
    out.append("* Rule: %s" % r.rule_text)
    n = len(r.roots)
    out.append("* Analysed: %d root%s (%s); at least %d obligations must be found." % (n, "" if n == 1 else "s", ", ".join(r.roots[:6]) + (", ..." if n > 6 else ""), r.floor))
    out.append("* For all: %s." % p["forall"].removeprefix("for all "))
    out.append("* Beyond the tests: %s" % p["tests"])
    c = properties.COST.get(p["id"])
    out.append("* Bounds: none on inputs, histories or iterations. Cost: about %s s.\n" % (c or "2"))
s = s.replace("@@PROPS@@", "\n".join(out))
kf = json.load(open(H + "/known_findings.json"))
s = s.replace("@@FIXES@@", "\n".join("* " + x for x in kf["fixed"]))
t = ["| planted change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    t.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
t.append("")
t.append("| mutant | kind | checks run |")
t.append("|---|---|---|")
for f in sorted(glob.glob(H + "/tools/mutants/*.txt")):
    for l in open(f):
        m = re.match(r"@@ (\S+) (bug|same) (\S+)", l)
        if m:
            t.append("| %s | %s | %s |" % (m.group(1), "caught" if m.group(2) == "bug" else "quiet", m.group(3)))
s = s.replace("@@SEEDS@@", "\n".join(t))
open(H + "/DESIGN.md", "w").write(s)
