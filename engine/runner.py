import importlib, sys, time, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import warnings
warnings.simplefilter("ignore")
from engine import core


def run_contract(modname, prop, name, crosscheck=False, budget=240, timescale=1, only=None):
    core.ONLY_KIND = only
    core.TIMESCALE = timescale
    core.VARIANT = 1 if timescale > 1 else 0
    from contracts import spec
    importlib.import_module("contracts." + modname)
    for c in spec.CONTRACTS[prop]:
        if c["name"] == name:
            break
    t0 = time.time()
    rep = core.explore(name, lambda ctx: spec.run_body(c["body"], ctx), max_paths=c.get("max_paths", 400), budget=c.get("budget", budget), crosscheck=crosscheck, arith=c.get("arith", 2))
    s = rep.summary()
    s["relies_on"] = sorted(set(rep.assumed))
    s["functions"] = c["functions"]
    s["wall_s"] = round(time.time() - t0, 2)
    s["all"] = rep.obligations
    return s


if __name__ == "__main__":
    from contracts import spec
    mod, prop = sys.argv[1], sys.argv[2]
    importlib.import_module("contracts." + mod)
    names = sys.argv[3:] or [c["name"] for c in spec.CONTRACTS[prop]]
    for n in names:
        s = run_contract(mod, prop, n)
        a = s.pop("all")
        f = s.pop("failed")
        print(n, "paths", s["paths"], "obl", s["obligations"], "proved", s["proved"], "unsup", s["unsupported"], "wall", s["wall_s"], "solver", s["solver_s"], "q", s["queries"], s["reach"], s["backends"])
        for o in f:
            print("   FAIL", json.dumps(o, indent=1)[:3000])
