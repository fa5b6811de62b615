"""./py -m fv.replay FILE : run the recorded inputs against the real code and print what fails"""
import importlib
import json
import os
import sys
import tempfile


def main():
    d = json.load(open(sys.argv[1]))
    os.environ.setdefault("FV_TMP", tempfile.gettempdir())
    from . import core
    m = importlib.import_module("checks." + d["property"])
    bad = False
    for v in d["violations"]:
        cfg = [c for t in ("quick", "thorough") for c in m.configs(t) if c["name"] == v["config"]][0]
        h, err = core.real_run(m.run, cfg, 1, v["inputs"])
        if err is not None:
            print("%s: %s: %s" % (v["config"], type(err).__name__, err))
            bad = True
        for l, a, b, t in core.bad_real(h)[:10]:
            print("%s: %s: code %r, specification %r, tolerance %.3g" % (v["config"], l, a, b, t))
            bad = True
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
