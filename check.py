#!/opt/venv/bin/python
"""check.py PROP: decide one property on /repo's current tree.

1. deductive part: every contract registered for PROP (contracts/*.py) is run through the verification-condition
   generator on the real sources (engine/), each obligation discharged by z3 (cvc5 as second back end);
2. bounded part: run-time contracts on the real code with the real NumPy (bounded/*.py), labelled bounded.
exit 0 held / 1 VIOLATION
"""
import hashlib, importlib, json, multiprocessing as mp, os, sys, time, traceback, warnings
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(6000)
NPROC = int(os.environ.get("VP_NPROC", "8"))


def proof_job(args):
    prop, mod, name, budget, crosscheck, deadline = args[:6]
    real, name = name, args[7] if len(args) > 7 and args[7] else name
    warnings.simplefilter("ignore")
    budget = min(budget, deadline - time.time())
    if budget < 5:
        return "proof", name, dict(contract=name, error="not started: this check's time for proofs was used up")
    try:
        from engine import runner
        return "proof", name, runner.run_contract(mod, prop, real, crosscheck=crosscheck, budget=budget, timescale=(args[6] if len(args) > 6 else 1), only=(args[8] if len(args) > 8 else None))
    except BaseException as e:
        return "proof", name, dict(contract=name, error="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-2000:])


def bounded_job(args):
    prop, tier, seed, shard, nshards, budget = args
    warnings.simplefilter("ignore")
    try:
        from bounded import reg
        return "bounded", shard, reg.run_shard(prop, tier, seed, shard, nshards, budget)
    except BaseException as e:
        return "bounded", shard, dict(error="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])


def ident_job(args):
    """cross-check of the assumed NumPy operation contracts against the installed NumPy"""
    warnings.simplefilter("ignore")
    seed, n = args
    try:
        from engine import npcheck
        return "npcheck", 0, npcheck.run(seed, n)
    except BaseException as e:
        return "npcheck", 0, dict(error="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-2000:])


def dispatch(job):
    kind, args = job
    return {"proof": proof_job, "bounded": bounded_job, "npcheck": ident_job}[kind](args)


def list_contracts(prop):
    """names of contracts, read in a child so that this process loads neither symbolic nor real awkward0"""
    def child(q):
        warnings.simplefilter("ignore")
        try:
            from contracts import spec, frames
            mods = []
            for fn in sorted(os.listdir(os.path.join(HERE, "contracts"))):
                if fn.startswith("c") and fn.endswith(".py"):
                    importlib.import_module("contracts." + fn[:-3])
                    for p, cs in spec.CONTRACTS.items():
                        for c in cs:
                            c.setdefault("mod", fn[:-3])
            out = []
            for p, cs in spec.CONTRACTS.items():
                for c in cs:
                    if prop == "C24":
                        # the frame obligations of every contract: no buffer or structure of an operand is changed
                        t = frames.tier(c)
                        if t:
                            out.append(dict(prop=c["prop"], mod=c["mod"], real=c["name"], name="%s:%s" % (c["prop"], c["name"]), functions=c["functions"], open=c.get("open"), cost=c.get("cost", 1), tier=t, only="frame"))
                    elif prop in [c["prop"]] + list(c.get("also", ())):
                        n = c["name"] if prop == c["prop"] else "%s:%s" % (c["prop"], c["name"])
                        out.append(dict(prop=c["prop"], mod=c["mod"], real=c["name"], name=n, functions=c["functions"], open=c.get("open"), cost=c.get("cost", 1), tier=c.get("tier", "quick"), only=None))
            bnd = os.path.exists(os.path.join(HERE, "bounded", prop.lower() + ".py"))
            q.put((out, bnd, None))
        except BaseException as e:
            q.put(([], False, traceback.format_exc()))
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=child, args=(q,))
    p.start()
    r = q.get()
    p.join()
    return r


def known_findings():
    out = []
    fn = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return [k for k in out if k.get("status") == "known"]


def match_known(known, prop, check, case, err):
    for k in known:
        if k["property"] == prop and k["check"] == check and all(_lookup(case, p) == v for p, v in k.get("case", {}).items()) and k.get("error", "") in err:
            return k
    return None


def _lookup(case, path):
    for part in path.split("."):
        if not isinstance(case, dict) or part not in case:
            return None
        case = case[part]
    return case


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    contracts, has_bounded, err = list_contracts(prop)
    if err:
        # the repository's sources cannot be loaded under the symbolic numpy
        print("check: contracts cannot be loaded against this tree (deductive part undecided):")
        print(err[-1500:])
    pbudget = 140 if tier == "quick" else 500
    bbudget = 25 if tier == "quick" else 250
    opened = [c for c in contracts if c["open"]]
    contracts = [c for c in contracts if not c["open"] and (tier != "quick" or c["tier"] == "quick")]
    deadline = t0 + (130 if tier == "quick" else 3000)
    jobs = [("proof", (prop_of["prop"], prop_of["mod"], prop_of["real"], pbudget, tier != "quick", deadline, 1, prop_of["name"], prop_of["only"])) for prop_of in sorted(contracts, key=lambda c: -c["cost"])]
    nsh = NPROC
    bjobs = [("bounded", (prop, tier, seed, s, nsh, bbudget)) for s in range(nsh)] if has_bounded else []
    njobs = [("npcheck", (seed, 300 if tier == "quick" else 4000))] if contracts and os.path.exists(os.path.join(HERE, "engine", "npcheck.py")) else []
    ctx = mp.get_context("fork")
    witness, known = False, known_findings()
    with ctx.Pool(NPROC, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(dispatch, bjobs + njobs + jobs, chunksize=1)
        results = []
        while True:
            try:
                results.append(it.next(max(1, (t0 + 60 if witness else deadline + 90) - time.time())))
                kind, _, r = results[-1]
                if kind == "bounded" and not isinstance(r, dict) and any(match_known(known, prop, c["name"], case, e) is None for c in r for case, e in c["fails"]):
                    witness = True     # the property is violated on a replayed input; proofs get a short time only
            except StopIteration:
                break
            except mp.TimeoutError:
                break
        pool.terminate()
    # an obligation counts as refuted only if it is refuted again with the machine to itself and longer solver times
    again = [(name, r) for kind, name, r in results if kind == "proof" and "error" not in r and not r["unsupported"] and any(o["status"] == "refuted" for o in r["all"])]
    if again and not witness:
        end = time.time() + (150 if tier == "quick" else 900)
        meta = {c["name"]: c for c in contracts}
        rer = sorted(again, key=lambda x: x[1]["wall_s"])[:6]
        first = {name: set(o["name"] for o in r["all"] if o["status"] == "refuted") for name, r in again}
        with ctx.Pool(6, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(dispatch, [("proof", (meta[n]["prop"], meta[n]["mod"], meta[n]["real"], 400, False, end, 3, n, meta[n]["only"])) for n, _ in rer], chunksize=1)
            second = {}
            while len(second) < len(rer):
                try:
                    _, n, r = it.next(max(1, end + 20 - time.time()))
                except (StopIteration, mp.TimeoutError):
                    break
                second[n] = r
            pool.terminate()
        results = [x for x in results if not (x[0] == "proof" and x[1] in first)]
        for n, r in again:
            r2 = second.get(n)
            if r2 is None or "error" in r2 or r2["unsupported"]:
                results.append(("proof", n, dict(error="refuted once, not confirmed in the second run: " + str(sorted(first[n]))[:200])))
            else:
                for o in r2["all"]:
                    if o["status"] == "refuted" and o["name"] not in first[n]:
                        o["status"] = "unknown"
                results.append(("proof", n, r2))
    done = set(name for kind, name, _ in results if kind == "proof")
    results += [("proof", c["name"], dict(error="stopped: this check's time was used up")) for c in contracts if c["name"] not in done]
    violations, undecided, notes, knownhit = [], [], [], []
    repdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)

    # ---- bounded part
    agg = {}
    for kind, _, r in results:
        if kind != "bounded":
            continue
        if isinstance(r, dict):
            # the real package cannot be imported, or the harness crashed: the tree does not run
            violations.append(("bounded-harness", None, r["error"] + "\n" + r["tb"]))
            continue
        for c in r:
            a = agg.setdefault(c["name"], dict(name=c["name"], functions=c["functions"], bound=c["bound"], evaluations=0, seen=set(), samples=[], complete=True, failures=0))
            a["evaluations"] += c["n"]
            a["seen"].update(c["seen"])
            a["complete"] = a["complete"] and c["complete"]
            a["samples"] += c["samples"][:1]
            for case, e in c["fails"]:
                a["failures"] += 1
                k = match_known(known, prop, c["name"], case, e)
                if k is not None:
                    knownhit.append(k["id"])
                else:
                    violations.append((c["name"], case, e))
    out = []
    for a in agg.values():
        a["distinct_nontrivial"] = len(a.pop("seen"))
        a["samples"] = a["samples"][:2]

    # ---- deductive part
    obl = dis = 0
    solver_s = 0.0
    proved_c, undec_c, functions, backends, lemmas = [], [], set(), set(), 0
    npc = None
    for kind, name, r in results:
        if kind == "npcheck":
            npc = r
            continue
        if kind != "proof":
            continue
        meta = [c for c in contracts if c["name"] == name][0]
        if "error" in r:
            undec_c.append(dict(contract=name, reason=r["error"]))
            continue
        solver_s += r["solver_s"]
        if r["unsupported"]:
            undec_c.append(dict(contract=name, reason=r["unsupported"]))
            continue
        refuted = [o for o in r["all"] if o["status"] == "refuted"]
        unknown = [o for o in r["all"] if o["status"] == "unknown"]
        if r["obligations"] == 0 or r["reach"].get("pre") == "unsat":
            undec_c.append(dict(contract=name, reason="vacuous: no obligations or unsatisfiable precondition"))
            continue
        if refuted:
            violations.append(("obligation of contract %s" % name, None, json.dumps(dict(functions=meta["functions"], obligations=refuted[:6]), indent=1)))
            obl += r["obligations"]
            dis += r["proved"]
            continue
        if unknown:
            undec_c.append(dict(contract=name, reason="solver gave up on %d of %d obligations" % (len(unknown), r["obligations"]), names=[o["name"] for o in unknown][:5]))
            continue
        obl += r["obligations"]
        dis += r["proved"]
        functions.update(meta["functions"])
        backends.update(r["backends"])
        proved_c.append(dict(contract=name, obligations=r["obligations"], paths=r["paths"], wall_s=r["wall_s"], solver_s=r["solver_s"], precondition_reachable=r["reach"].get("pre"), callee_contracts_used=r.get("relies_on", [])))
    if npc is not None:
        if "error" in npc:
            notes.append("NumPy contract cross-check did not run: " + npc["error"])
        elif npc.get("mismatch"):
            notes.append("NumPy contract mismatch: %s" % npc["mismatch"][:3])

    # ---- report
    seenv, lines = set(), []
    for name, case, e in violations:
        wit = case is not None
        sig = (name, e[:40] if wit else e[:80])
        if sig in seenv or len(seenv) >= 8:
            continue
        seenv.add(sig)
        h = hashlib.sha1((name + json.dumps(case, sort_keys=True) + e).encode()).hexdigest()[:10]
        path = os.path.join(repdir, "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(dict(property=prop, check=name, case=case, error=e, replay="/opt/venv/bin/python %s/replay.py %s" % (HERE, path)), f, indent=1)
        lines.append((not wit, name, e, path))
    lines.sort(key=lambda x: x[0])
    anywit = any(not l[0] for l in lines)
    for nowit, name, e, path in lines:
        print("%s: %s" % (name, e[:600]))
        if nowit and name != "bounded-harness":
            # one witness makes the property violated with a replayed input; obligations are then only listed
            if not anywit:
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        else:
            print("VIOLATION property=%s replay=%s" % (prop, path))
    for k in known:
        if k["property"] == prop and k["id"] in knownhit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    nontriv = sum(a["distinct_nontrivial"] for a in agg.values())
    man = {}
    try:
        man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    except Exception:
        pass
    level = man.get(prop, {}).get("level", "proof")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(lines),
              coverage=dict(obligations=obl, discharged=dis, checker_cmd="/opt/venv/bin/python /verif/check.py %s" % prop,
                            trusted_base=TRUSTED,
                            functions_under_contract=sorted(functions), contracts_proved=proved_c, contracts_undecided=undec_c,
                            contracts_open=[dict(contract=c["name"], functions=c["functions"], why=c["open"]) for c in opened],
                            backends=sorted(backends), solver_s=round(solver_s, 2),
                            numpy_contract_crosscheck=None if npc is None else {k: v for k, v in npc.items() if k != "tb"},
                            bounded=list(agg.values()), evaluations=sum(a["evaluations"] for a in agg.values()), distinct_nontrivial=nontriv,
                            rule="bounded stand-in: run-time contract on the real code; a case is a JSON-described input, distinct by its canonical JSON",
                            samples=[s for a in agg.values() for s in a["samples"][:1]][:6], notes=notes),
              assumptions=ASSUME)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged in %d contracts (%d undecided), %d functions under contract; bounded: %d evaluations, %d distinct; %.1f s" %
          (prop, dis, obl, len(proved_c), len(undec_c), len(functions), ev["coverage"]["evaluations"], nontriv, ev["wall_s"]))
    for u in undec_c:
        print("  undecided contract %s: %s" % (u["contract"], str(u["reason"])[:300]))
    for n in notes:
        print("  note:", n[:300])
    sys.stdout.flush()
    sys.exit(1 if lines else 0)


TRUSTED = ["engine/core.py: ground instantiation of quantified facts, path exploration and the z3/cvc5 solvers",
           "engine/sym.py: contracts of the NumPy operations awkward0 calls (cross-checked against the installed NumPy on concrete inputs each run)",
           "engine/load.py: the sources run unmodified except X.indices(n) -> model of slice.indices and symbolic-aware len/range/min/max/sum/int",
           "CPython semantics of the interpreted control flow (the code under contract is executed by CPython itself on symbolic values)"]
ASSUME = ["machine integers are treated as mathematical integers", "array element values are uninterpreted (Val) or exact reals; floating-point rounding is not modelled",
          "aliasing between distinct input buffers is excluded unless a contract creates it", "allocation never fails"]

if __name__ == "__main__":
    main()
