"""./py -m fv.run C01 quick|thorough [config-filter]"""
import importlib
import json
import os
import sys
import time
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    """identifiers of listed findings per property"""
    r = {}
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for f in json.load(open(p)):
            if f.get("status") == "known":
                r.setdefault(f["property"], []).append(f)
    return r


def sweep(pre="fv_"):
    """remove what killed workers left behind"""
    import shutil
    d = os.environ["FV_TMP"]
    shutil.rmtree(d, ignore_errors=True)


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    flt = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import tempfile
    tmp = tempfile.mkdtemp(prefix="fvrun_")
    os.environ["FV_TMP"] = tmp
    try:
        rc = go(pid, tier, seed, flt)
    finally:
        sweep()
    sys.exit(rc)


def go(pid, tier, seed, flt):
    from . import core, load
    t0 = time.time()
    m = importlib.import_module("checks." + pid)
    cfgs = m.configs(tier)
    if flt:
        cfgs = [c for c in cfgs if flt in c["name"]]
    total = float(os.environ.get("FV_BUDGET", 420 if tier == "quick" else 840))
    # warm the caches (parsing, compiled kernels, imported SciPy) before forking
    if getattr(m, "WARM", True):
        try:
            for b in ("sym", "real"):
                core.package(b)
            m_k = getattr(m, "KERNELS", [])
            for k in m_k:
                core.package("sym").kernels.signature(k)
                core.package("sym").kernels.table(k)
                core.package("real").kernels.signature(k)
                core.package("real").kernels.shared(k)
        except Exception as e:
            print("NOTE: package does not load: %s: %s" % (type(e).__name__, e))
            core._PK.clear()
    jobs = int(os.environ.get("FV_JOBS", "8"))
    results = core.run_all(pid, cfgs, tier, seed, jobs, total)
    wall = time.time() - t0
    known = known_findings().get(pid, [])
    viol, notes, incon, errors, kf = [], [], [], [], {}
    for r in results:
        for v in r["violations"]:
            v["config"] = r["cfg"]["name"]
            hit = None
            for k in known:
                if k["config"] == r["cfg"]["name"] and v["label"].startswith(k["label"]):
                    hit = k
            if hit:
                kf[hit["id"]] = hit
            else:
                viol.append(v)
        if r["status"] == "error":
            errors.append("%s: %s" % (r["cfg"]["name"], "; ".join(r["note"])))
        if r["status"] == "unsupported":
            incon.append("%s: %s" % (r["cfg"]["name"], "; ".join(r["note"])))
        for u in r["unknown"]:
            incon.append("%s: %s" % (r["cfg"]["name"], u))
    st = {}
    for r in results:
        for k, x in r["stats"].items():
            st[k] = st.get(k, 0) + x
    decided = sum(r["obligations"] for r in results)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(m, "LEVEL", "other"),
          "coverage": {
              "explanation": (m.__doc__ or "").strip(),
              "functions_encoded": sorted({f for r in results for f in r["functions"]}),
              "kernels_encoded": sorted({f for r in results for f in r["kernels"]}),
              "bounds": getattr(m, "BOUNDS", ""),
              "outside": getattr(m, "OUTSIDE", ""),
              "obligations": decided,
              "paths": sum(r["paths"] for r in results),
              "solver": st,
              "solver_time_s": round(st.get("time", 0.0), 3),
              "queries": st.get("queries", 0),
              "encoding_validation_samples": sum(len(r["samples"]) for r in results),
              "samples": [s for r in results for s in r["samples"]][:3],
              "per_config": [{"name": r["cfg"]["name"], "status": r["status"], "obligations": r["obligations"], "paths": r["paths"],
                              "wall_s": round(r["wall"], 2)} for r in results],
              "inconclusive": incon, "errors": errors,
          },
          "wall_s": round(wall, 2), "violations": len(viol)}
    ev["assumptions"] = ["real arithmetic (rounding, overflow, NaN inputs outside)", "inputs inside the stated intervals",
                         "gfortran's GIMPLE dump and the interpreters in fv/ (validated on samples in this run)",
                         "single-precision production kernels analysed in exact arithmetic, replayed in double precision"] + list(getattr(m, "ASSUME", []))
    extra = getattr(m, "evidence", None)
    if extra:
        ev["coverage"].update(extra(results))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d configurations, %d obligations, %d paths, %d solver queries (%.1f s), %.1f s"
          % (pid, tier, len(results), decided, ev["coverage"]["paths"], st.get("queries", 0), st.get("time", 0.0), wall))
    if os.environ.get("FV_VERBOSE"):
        for r in results:
            print("  %-40s %-10s obl %6d paths %5d wall %6.1f q %d refined %d" % (r["cfg"]["name"], r["status"], r["obligations"], r["paths"], r["wall"], r["stats"].get("queries", 0), r["stats"].get("refined", 0)), r["note"], r["unknown"][:3])
            if r.get("tb") and os.environ["FV_VERBOSE"] != "1":
                print(r["tb"])
    if viol:
        import hashlib
        d = os.path.join(os.environ.get("FV_REPLAY", os.path.join(HERE, "evidence")), "replays")
        os.makedirs(d, exist_ok=True)
        v = viol[0]
        p = os.path.join(d, "%s.json" % pid)
        with open(p, "w") as f:
            json.dump({"property": pid, "how": "./py -m fv.replay %s" % p, "violations": viol[:5]}, f, indent=1, default=str)
        print("  config %s: %s: %s" % (v["config"], v["label"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    for i in incon[:20]:
        print("INCONCLUSIVE: " + i)
    for e in errors[:20]:
        print("ERROR: " + e)
    if incon or errors:          # part of the property was not explored: no verdict unless most of it was
        n_ok = sum(1 for r in results if r["status"] == "ok" and not r["unknown"])
        if n_ok < len(results) * 0.5:
            return 2
    return 0


if __name__ == "__main__":
    main()
