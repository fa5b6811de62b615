"""rewrites the generated tables of DESIGN.md (bounds per property, planted bugs, fixes)"""
import ast, json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))}
out = []
for i, p in sorted(props.items()):
    f = os.path.join(H, "checks", i + ".py")
    if not os.path.exists(f):
        continue
    t = ast.parse(open(f).read())
    env = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
           and n.targets[0].id in ("BOUNDS", "OUTSIDE")}
    out += ["**%s — %s.** %s" % (i, p["title"], " ".join(ast.get_docstring(t).split())),
            "*Bounds:* %s. *Outside:* %s." % (env["BOUNDS"].rstrip("."), env["OUTSIDE"].rstrip(".")), ""]
seeds = ["| planted bug | property | manifests only with |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    seeds.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], " ".join(m["needs"].split())))
fixes = ["| commit | property | what failed |", "|---|---|---|"]
for k in json.load(open(os.path.join(H, "known_findings.json"))):
    fixes.append("| %s | %s | %s |" % (k.get("commit", "(recorded)"), k["property"], k["what"]))
s = open(os.path.join(H, "DESIGN.md")).read()
for name, lines in (("bounds", out), ("seeds", seeds), ("fixes", fixes)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), s, flags=re.S)
open(os.path.join(H, "DESIGN.md"), "w").write(s)
