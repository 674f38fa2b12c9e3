from .reg import bounded
from .model import *
import base64, fnmatch, importlib, pickle, shutil, tempfile, copy
from awkward0 import persist

P = "awkward0/persist.py:"
EVIL = '''
LOG = []
def fire(*args, **kw):
    LOG.append("fire")
    return [1, 2, 3]
class Thing(object):
    def __init__(self, *args, **kw):
        LOG.append("Thing")
    def __reduce__(self):
        return (fire, ())
    def method(*args, **kw):
        LOG.append("method")
        return [1]
    @staticmethod
    def fromany(*args, **kw):
        LOG.append("fromany")
        return [1]
'''
NAMES = ["vpevil_a", "vpevil_b", "vpevil_c"]


class Evil(object):
    """modules that record being imported and called, importable only inside this context"""
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vp20")
        for n in NAMES:
            with open(os.path.join(self.dir, n + ".py"), "w") as f:
                f.write(EVIL)
        sys.dont_write_bytecode = True
        sys.path.insert(0, self.dir)
        importlib.invalidate_caches()
        for n in NAMES:
            sys.modules.pop(n, None)
        return self

    def imported(self):
        return [n for n in NAMES if n in sys.modules]

    def called(self):
        return [(n, x) for n in self.imported() for x in sys.modules[n].LOG]

    def __exit__(self, *exc):
        sys.path.remove(self.dir)
        for n in NAMES:
            sys.modules.pop(n, None)
        shutil.rmtree(self.dir)


def allowed(spec, wl):
    """the documented meaning of a whitelist"""
    if isinstance(wl, str):
        wl = [[wl]]
    elif wl and isinstance(wl[0], str):
        wl = [wl]
    for w in wl:
        w = [w] if isinstance(w, str) else list(w)
        if len(w) <= len(spec) and all(fnmatch.fnmatchcase(n, p) for n, p in zip(spec, w)):
            return True
    return False


def specs(rng):
    m = rng.choice(NAMES)
    return rng.choice([[m, "fire"], [m, "Thing"], [m, "Thing", "method"], [m, "Thing", "fromany"], [m], [m, "LOG"],
                       ["awkward0", "JaggedArray", "fromcounts"], ["numpy", "frombuffer"], ["awkward0", "numpy", "frombuffer"], ["zlib", "decompress"]])


WHITE = [None, None, [], "*", [["*"]], ["vpevil_a", "fire"], [["vpevil_a", "fire"]], [["vpevil_a"]], "vpevil_b", [["vpevil_?", "Thing"]], [["vpevil_a", "Thing", "from*"]], [["vpevil_*", "T*", "m*"], ["numpy", "*"]],
         [["awkward0", "*Array", "from*"]], [["vpevil_c", "fire", "x"]], [["*", "fire"]], [["VPEVIL_a", "fire"]], [["vpevil_a", "fir"]], [["pevil_a", "fire"]], [["[!v]*"]], [["awkward0"]]]


def expression(rng, depth, used):
    """a random deserialization expression; used collects the specs it evaluates, in evaluation order"""
    k = rng.choice(["json", "list", "tuple", "dict", "pairs", "dtype", "function", "call", "call"] if depth > 0 else ["json", "function", "call", "dtype"])
    if k == "json":
        return {"json": rng.choice([1, "x", [1, 2], {"call": ["vpevil_a", "fire"]}])}
    if k == "dtype":
        return {"dtype": "int64"}
    if k == "list" or k == "tuple":
        return {k: [expression(rng, depth - 1, used) for _ in range(rng.randint(0, 2))]}
    if k == "dict":
        return {"dict": {"k%d" % i: expression(rng, depth - 1, used) for i in range(rng.randint(0, 2))}}
    if k == "pairs":
        return {"pairs": [["k%d" % i, expression(rng, depth - 1, used)] for i in range(rng.randint(0, 2))]}
    s = specs(rng)
    used.append(s)
    if k == "function":
        return {"function": s}
    out = {"call": s}
    out["args"] = [expression(rng, depth - 1, used) for _ in range(rng.randint(0, 2))] if depth > 0 else []
    if rng.random() < 0.3:
        out["kwargs"] = {"a": expression(rng, 0, used)}
    if rng.random() < 0.1:
        out["whitelistable"] = True
    if rng.random() < 0.1:
        out["cacheable"] = True
    return out


def read(schema, wl, name=""):
    import json
    st = {name: json.dumps({"awkward0": "0.15.5", "schema": schema}).encode("ascii")}
    return persist.deserialize(st, name) if wl is None else persist.deserialize(st, name, whitelist=wl)


def force(x, depth=0):
    """read everything that was deserialized"""
    if depth > 4:
        return
    if isinstance(x, (list, tuple)):
        for y in x:
            force(y, depth + 1)
    elif isinstance(x, dict):
        for y in x.values():
            force(y, depth + 1)
    elif isinstance(x, AwkwardArray):
        try:
            x.tolist()
        except Exception:
            pass
        try:
            force(list(x), depth + 1)
        except Exception:
            pass
        try:
            x.type
        except Exception:
            pass


@bounded("C20", [P + "deserialize", P + "spec2function"], "random schemas of depth <=3 over 10 paths (3 modules that must not be imported) x 20 whitelists; the documented whitelist rule as oracle")
class Schemas(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 25000):
            used = []
            e = expression(rng, rng.randint(0, 3), used)
            yield dict(e=e, used=used, wl=rng.randrange(len(WHITE)))

    @staticmethod
    def check(c):
        wl = WHITE[c["wl"]]
        eff = persist.whitelist if wl is None else wl
        bad = [s for s in c["used"] if not allowed(s, eff)]
        okmods = {s[0] for s in c["used"] if allowed(s, eff)}
        with Evil() as evil:
            try:
                out = read(c["e"], copy.deepcopy(wl))
                err = None
            except Exception as e:
                out, err = None, e
            if bad and err is None:
                raise Fail("a schema naming %r was read under whitelist %r" % (bad[0], eff if wl is not None else "default"))
            extra = [n for n in evil.imported() if n not in okmods]
            if extra:
                raise Fail("imported %s, which the whitelist %r does not allow" % (extra, wl))
            okcalls = set()
            for s in c["used"]:
                if allowed(s, eff):
                    okcalls.add((s[0], {"fire": "fire", "Thing": "Thing", "method": "method", "fromany": "fromany", "LOG": None}.get(s[-1])))
            extra = [x for x in evil.called() if tuple(x) not in okcalls]
            if extra:
                raise Fail("called %s, which the whitelist %r does not allow" % (extra, wl))
            if not bad and err is not None and "not in whitelist" in str(err):
                raise Fail("refused although the whitelist %r allows %r: %s" % (wl, c["used"], err))


def b64(x):
    return base64.b64encode(pickle.dumps(x)).decode("ascii")


def evilpickle(mod="vpevil_a", name="fire"):
    return base64.b64encode(b"c" + mod.encode() + b"\n" + name.encode() + b"\n(tR.").decode("ascii")


def importpickle():
    return base64.b64encode(b"cbuiltins\n__import__\n(Vvpevil_a\ntR.").decode("ascii")


def J(x):
    return {"json": x}


def C(spec, *args, **kw):
    out = {"call": spec, "args": list(args)}
    out.update(kw)
    return out


V = ["awkward0", "VirtualArray"]
SPEC = ["vpevil_a", "fire"]
FUN = {"function": SPEC}
GADGETS = {
    "python": {"python": evilpickle()},
    "python-import": {"python": importpickle()},
    "python-class": {"python": evilpickle("vpevil_b", "Thing")},
    "python-in-args": C(["awkward0", "JaggedArray", "fromcounts"], {"python": evilpickle()}, J([1])),
    "topython": C(["awkward0.persist", "topython"], J(evilpickle())),
    "topython-virtual": C(V, {"function": ["awkward0.persist", "topython"]}, {"tuple": [J(evilpickle())]}),
    "spec2function": C(["awkward0.persist", "spec2function"], J(SPEC), J([["*"]])),
    "spec2function-run": C(V, C(["awkward0.persist", "spec2function"], J(SPEC), J([["*"]]))),
    "json2type-kw": C(["awkward0.persist", "json2type"], J({"function": SPEC}), kwargs={"whitelist": J([["*"]])}),
    "json2type-kw2": C(["awkward0.persist", "json2type"], J({"function": SPEC}), kwargs={"whitelist": J([["*"]])}, whitelistable=True),
    "json2type-pos": C(["awkward0.persist", "json2type"], J({"function": SPEC}), J([["*"]])),
    "json2type-plain": C(["awkward0.persist", "json2type"], J({"function": SPEC})),
    "json2type-flag": C(["awkward0.persist", "json2type"], J({"function": SPEC}), whitelistable=True),
    "json2type-nested": C(["awkward0.persist", "json2type"], J({"takes": 3, "to": {"fields": [["x", {"function": SPEC}]]}}), whitelistable=True),
    "json2type-union": C(["awkward0.persist", "json2type"], J({"takes": "inf", "to": {"possibilities": [{"dtype": "int64"}, {"type": {"function": SPEC}}]}}), whitelistable=True),
    "json2type-ref": C(["awkward0.persist", "json2type"], J({"set": "T0", "as": {"takes": 1, "to": {"function": SPEC}}}), whitelistable=True),
    "json2type-virtual": C(V, {"function": ["awkward0.persist", "json2type"]}, {"tuple": [J({"function": SPEC}), J([["*"]])]}),
    "json2type-object": C(["awkward0", "ObjectArray"], J([1]), {"function": ["awkward0.persist", "json2type"]}, {"tuple": [J([["*"]])]}),
    "deserialize": C(["awkward0.persist", "deserialize"], J({"": '{"awkward0": "", "schema": {"call": ["vpevil_a", "fire"]}}'}), kwargs={"whitelist": J([["*"]])}),
    "virtual": C(V, FUN),
    "object": C(["awkward0", "ObjectArray"], J([1, 2]), FUN),
    "virtual-alias": C(["awkward", "VirtualArray"], FUN),
    "type-arg": C(V, {"function": ["awkward0", "JaggedArray"]}, kwargs={"type": C(["awkward0.persist", "json2type"], J({"function": SPEC}))}),
    "numpy-load": C(["awkward0", "numpy", "load"], J("x")),
    "numpy-fromfile": C(["numpy", "fromfile"], J("x")),
    "string-spec": C("vpevil_a", J(1)),
    "string-function": {"function": "vpevil_a"},
    "dict-spec": {"function": {"vpevil_a": "fire"}},
    "empty-spec": {"function": []},
    "module": {"function": ["vpevil_a"]},
    "module-persist": {"function": ["awkward0.persist"]},
    "importlib": {"function": ["awkward0.persist", "importlib", "import_module"]},
    "pickle": {"function": ["awkward0.persist", "pickle", "loads"]},
    "os": {"function": ["os", "getpid"]},
    "lookalike": {"function": ["awkward0.vpevil_a", "fire"]},
    "lookalike2": {"function": ["numpy.vpevil", "frombuffer"]},
    "globals": {"function": ["awkward0", "JaggedArray", "copy", "__globals__", "get"]},
    "globals2": {"function": ["awkward0.persist", "json2type", "__globals__", "get"]},
    "globals3": C(["awkward0", "JaggedArray", "copy", "__globals__", "__class__", "get"], C(["awkward0", "JaggedArray", "copy", "__globals__", "get"], J("__builtins__")), J("__import__")),
    "globals-run": C(V, C(["awkward0", "JaggedArray", "copy", "__globals__", "__class__", "get"], C(["awkward0", "JaggedArray", "copy", "__globals__", "get"], J("__builtins__")), J("__import__")), {"tuple": [J("vpevil_a")]}),
    "subclasses": {"function": ["awkward0", "JaggedArray", "__class__", "__subclasses__"]},
    "self": {"function": ["zlib", "decompress", "__self__", "compress"]},
    "init-globals": {"function": ["awkward0", "Table", "__init__", "__globals__", "__getitem__"]},
    "private-pattern": {"function": ["awkward0.arrow", "_ParquetFile", "__init__"]},
}
MUSTRAISE = [g for g in GADGETS if g not in ("topython-virtual", "json2type-virtual", "json2type-object", "type-arg")]


@bounded("C20", [P + f for f in ("deserialize", "spec2function", "json2type", "topython")], "49 hostile schemas (pickles, schemas that bring their own whitelist, internals reached through allowed functions, malformed paths), bare and nested in 5 contexts, with the default and 3 other whitelists; everything read is then forced")
class Gadgets(object):
    @staticmethod
    def gen(rng, tier):
        for g in sorted(GADGETS):
            for ctx in ("bare", "list", "kwargs", "virtual-arg", "table"):
                for wl in (None, [], [["awkward0", "*Array"]], [["vpevil_b", "fire"], ["awkward0", "VirtualArray"], ["awkward0.persist", "json2type"]]):
                    yield dict(g=g, ctx=ctx, wl=wl)

    @staticmethod
    def check(c):
        e = GADGETS[c["g"]]
        if c["ctx"] == "list":
            e = {"list": [J(1), {"tuple": [e]}]}
        elif c["ctx"] == "kwargs":
            e = C(["awkward0", "VirtualArray"], {"function": ["numpy", "frombuffer"]}, kwargs={"args": e})
        elif c["ctx"] == "virtual-arg":
            e = C(["awkward0", "VirtualArray"], {"function": ["awkward0", "JaggedArray", "fromcounts"]}, {"tuple": [e]})
        elif c["ctx"] == "table":
            e = C(["awkward0", "Table", "frompairs"], {"pairs": [["x", e]]}, J(0))
        with Evil() as evil:
            try:
                out, err = read(e, c["wl"]), None
            except Exception as x:
                out, err = None, x
            if err is None:
                force(out)
            if evil.called() or evil.imported():
                raise Fail("%s (%s, whitelist %r): imported %s, called %s" % (c["g"], c["ctx"], c["wl"] or "default", evil.imported(), evil.called()))
            if err is None and c["g"] in MUSTRAISE:
                raise Fail("%s (%s, whitelist %r) was read without an error: %.100r" % (c["g"], c["ctx"], c["wl"] or "default", out))


@bounded("C20", [P + "spec2function"], "paths of length 1..4 against whitelists of 1..3 patterns of length 1..4 with wildcards; read iff the documented rule allows it")
class Rule(object):
    @staticmethod
    def gen(rng, tier):
        names = ["vpevil_a", "vpevil_b", "fire", "Thing", "method", "fromany"]
        for _ in range(2500 if tier == "quick" else 25000):
            spec = rng.choice([["vpevil_a"], ["vpevil_a", "fire"], ["vpevil_a", "Thing"], ["vpevil_a", "Thing", "method"], ["vpevil_b", "Thing", "fromany"], ["vpevil_b", "fire"]])
            wl = []
            for _ in range(rng.randint(1, 3)):
                base = list(rng.choice([spec, spec, ["vpevil_b", "fire"], ["vpevil_a", "Thing", "fromany"]]))
                for i in range(len(base)):
                    u = rng.random()
                    if u < 0.15:
                        base[i] = "*"
                    elif u < 0.3:
                        base[i] = base[i][:rng.randint(0, len(base[i]))] + rng.choice(["*", "?", ""])
                    elif u < 0.35:
                        base[i] = base[i].upper()
                if rng.random() < 0.3:
                    base = base[:rng.randint(1, len(base))]
                if rng.random() < 0.2:
                    base.append(rng.choice(["*", "x", "?"]))
                wl.append(base)
            yield dict(spec=spec, wl=wl, call=rng.random() < 0.5, single=rng.random() < 0.1)

    @staticmethod
    def check(c):
        wl = c["wl"]
        if c["single"]:
            wl = wl[0]
        want = allowed(c["spec"], wl)
        with Evil() as evil:
            try:
                read({"call" if c["call"] and len(c["spec"]) > 1 else "function": c["spec"]}, wl)
                err = None
            except Exception as e:
                err = e
            if want and err is not None:
                raise Fail("%r refused under %r: %s" % (c["spec"], wl, err))
            if not want and (err is None or evil.imported()):
                raise Fail("%r %s under %r" % (c["spec"], "read" if err is None else "imported", wl))
