"""Runs the cases of one property; started by main.py with the built library on the path."""
import importlib
import json
import os
import sys
import warnings


def main():
    req = json.load(open(sys.argv[1]))
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    import finalfusion
    f = os.path.realpath(finalfusion.__file__)
    assert f.startswith(os.path.realpath(req["src"]) + "/"), f
    import finalfusion.subword.hash_indexers as h
    assert os.path.realpath(h.__file__).startswith(os.path.realpath(req["src"]) + "/")
    from ffmon import core
    mod = importlib.import_module(f"ffmon.props.{req['prop'].lower()}")
    if hasattr(mod, "setup"):
        mod.setup(req)
    if req.get("replay"):
        name, idx = req["replay"]
        v, t = core.run_case(mod, req["prop"], req["seed"], req["tier"], name, idx, req["root"])
        res = dict(violations=[v] if v and not v.get("inconclusive") else [],
                   inconclusive=[v] if v and v.get("inconclusive") else [],
                   events=t.events, cases={name: 1}, samples=t.samples, distinct=len(t.sigs),
                   lines=[], planned=1, soft=False)
    else:
        res = core.run_all(mod, req["prop"], req["seed"], req["tier"], req["root"],
                           os.path.realpath(req["src"]), req["workers"], req["soft_s"])
    with open(req["out"], "w") as f:
        json.dump(res, f, default=repr)


if __name__ == "__main__":
    main()
