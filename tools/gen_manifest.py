"""writes MANIFEST.json from checks/*.py and the reasons below"""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(HERE, "checks", i + ".py")
    if i in NA or not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    t = ast.parse(open(f).read())
    env = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE"):
            env[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": i, "quick_cmd": "./py -m fv.run %s quick" % i, "thorough_cmd": "./py -m fv.run %s thorough" % i,
                   "technique": "symbolic execution of the real Python/Fortran code (NumPy semantics over symbolic arrays, gfortran GIMPLE interpreter), obligations decided by z3, counterexamples replayed on the real code",
                   "level": "other",
                   "level_note": "bounded verification for all real inputs in the stated boxes: %s. Outside: %s. Trusts the interpreters in fv/ (validated against the real code on every run) and z3; exact real arithmetic instead of floating point."
                                 % (env.get("BOUNDS", ""), env.get("OUTSIDE", ""))})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. ./py runs the baseline interpreter in isolated mode; see DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
