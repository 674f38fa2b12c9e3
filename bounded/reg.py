"""registry and runner of bounded stand-ins (contracts evaluated at run time on the real code)"""
import hashlib, importlib, json, os, random, sys, time, traceback, warnings
warnings.simplefilter("ignore")

CHECKS = {}


def bounded(prop, functions, bound):
    """class with gen(rng, tier) yielding JSON cases and check(case) raising model.Fail"""
    def deco(cls):
        CHECKS.setdefault(prop, []).append(dict(prop=prop, name=cls.__name__, functions=functions, bound=bound, cls=cls))
        return cls
    return deco


def load(prop):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return importlib.import_module("bounded.%s" % prop.lower())


def run_one(chk, case):
    """None, or the failure text"""
    import numpy as np
    from . import model
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            chk["cls"].check(case)
        except model.Fail as e:
            return str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
            return "%s: %.200s (%s)" % (type(e).__name__, e, loc)
    return None


def run_shard(prop, tier, seed, shard, nshards, budget):
    load(prop)
    out = []
    t_end = time.time() + budget
    checks = CHECKS.get(prop, [])
    for ci, chk in enumerate(checks):
        t_chk = time.time() + max(0.5, (t_end - time.time()) / (len(checks) - ci))
        rng = random.Random("%s/%s/%d" % (prop, chk["name"], seed))
        n, seen, fails, samples, complete = 0, set(), [], [], True
        for i, case in enumerate(chk["cls"].gen(rng, tier)):
            if i % nshards != shard:
                continue
            if time.time() > t_chk:
                complete = False
                break
            n += 1
            js = json.dumps(case, sort_keys=True)
            seen.add(hashlib.sha1(js.encode()).hexdigest()[:12])
            if len(samples) < 1 and n > 3:
                samples.append(case)
            err = run_one(chk, case)
            if err is not None:
                fails.append((case, err))
                if len(fails) >= 60:
                    complete = False
                    break
        out.append(dict(name=chk["name"], functions=chk["functions"], bound=chk["bound"], n=n, distinct=len(seen), seen=sorted(seen), fails=fails, samples=samples, complete=complete))
    return out
