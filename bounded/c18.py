from .reg import bounded
from .model import *
import gc

V = "awkward0/array/virtual.py:"


class Cache(object):
    """a cache that may forget anything at any call"""
    def __init__(self, rng, p, contains=True):
        self.d, self.rng, self.p, self.evictions = {}, rng, p, 0

    def maybe(self):
        if self.p and self.d and self.rng.random() < self.p:
            self.evictions += 1
            k = self.rng.choice(list(self.d))
            del self.d[k]

    def __getitem__(self, k):
        self.maybe()
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v
        self.maybe()

    def __delitem__(self, k):
        del self.d[k]


class Contains(Cache):
    def __contains__(self, k):
        r = k in self.d
        self.maybe()
        return r


def content(rng, n):
    k = rng.choice(["flat", "flat", "jag", "table", "table", "mask", "idx", "str", "chunk", "jagtable"])
    if k == "flat":
        return flat(rng, n)
    if k == "jag":
        return jag_layout(rng, rand_counts(rng, n, 3), distinct)
    if k == "table":
        return {"k": "table", "cols": {"x": distinct(n), "y": flat(rng, n)}, "view": None}
    if k == "jagtable":
        cs = rand_counts(rng, n, 3)
        m = sum(cs)
        offs = [0]
        for c in cs:
            offs.append(offs[-1] + c)
        return {"k": "off", "offsets": offs, "content": {"k": "table", "cols": {"x": distinct(m), "y": flat(rng, m)}, "view": None}}
    if k == "idx" and n == 0:
        return flat(rng, 0)
    return rand_spec(rng, n, 1, [k])


READS = {
    "tolist": lambda a: a.tolist(),
    "list": lambda a: list(a),
    "len": lambda a: len(a),
    "add": lambda a: a + 1,
    "radd": lambda a: 2 * a,
    "neg": lambda a: -a,
    "self": lambda a: a - a,
    "sum": lambda a: a.sum(),
    "max": lambda a: a.max(),
    "any": lambda a: a.any(),
    "count": lambda a: a.count(),
    "argmax": lambda a: a.argmax(),
    "flatten": lambda a: a.flatten(),
    "counts": lambda a: a.counts,
    "columns": lambda a: sorted(a.columns),
    "x": lambda a: a["x"],
    "xs": lambda a: a[["x"]],
    "type": lambda a: str(a.type),
    "dtype": lambda a: str(a.dtype),
    "shape": lambda a: a.shape,
    "zeros_like": lambda a: a.zeros_like(),
    "ones_like": lambda a: a.ones_like(),
    "pad": lambda a: a.pad(2),
    "fillna": lambda a: a.fillna(9),
    "astype": lambda a: a.astype("f8"),
    "pairs": lambda a: a.pairs(),
    "distincts": lambda a: a.distincts(),
    "cross": lambda a: a.cross(a),
    "choose": lambda a: a.choose(2),
    "argpairs": lambda a: a.argpairs(),
    "boolmask": lambda a: a.boolmask(),
    "regular": lambda a: a.regular(),
    "nbytes": None,
    "copy": lambda a: a.copy(),
    "deepcopy": lambda a: a.deepcopy(),
    "concat": None,
    "eq": lambda a: a == a,
}


STRREADS = ["tolist", "list", "len", "select", "counts", "columns", "type", "dtype", "shape", "eq", "copy", "deepcopy", "boolmask", "x"]


def outcome(f):
    try:
        r = f()
    except Fail:
        raise
    except Exception as e:
        return ("raises", None)
    if isinstance(r, (str, int, float, bool, tuple)) or r is None:
        return ("value", r if not isinstance(r, tuple) else [denote1(x) for x in r])
    return ("value", denote1(r))


def virtual(rng, c, spec, calls, rows=None):
    def generate(*args, **kw):
        calls[0] += 1
        if args != (1, "a") or kw != {"k": 2}:
            raise AssertionError("generator called with other arguments")
        return build(spec)
    cache = None
    if c["cache"] == "dict":
        cache = {}
    elif c["cache"] == "keep":
        cache = Contains(rng, 0.0)
    elif c["cache"] == "nocontains":
        cache = Cache(rng, c["p"])
    elif c["cache"] == "evict":
        cache = Contains(rng, c["p"])
    elif c["cache"] == "never":
        cache = Contains(rng, 1.0)
    kw = {}
    if c["key"] and cache is not None:
        kw["persistentkey"] = "k1"
    if c["type"]:
        kw["type"] = aw.type.fromarray(build(spec))
    return VirtualArray(generate, (1, "a"), {"k": 2}, cache=cache, **kw), cache


def npread(name, f, spec):
    """the same read applied to the array itself; ndarrays have some of these as awkward methods only"""
    a = build(spec)
    return a


CACHES = ["none", "none", "dict", "keep", "nocontains", "evict", "evict", "never"]


@bounded("C18", [V + "VirtualArray." + f for f in ("array", "materialize", "ismaterialized", "__getitem__", "__array_ufunc__", "_reduce", "flatten", "counts", "_gettype", "type", "copy", "deepcopy", "key", "cache")], "random arrays of 9 kinds (length 0..6) behind a VirtualArray with 8 cache behaviours (eviction at any cache call); 6 reads out of 37 plus selectors, each compared with the generated array")
class Reads(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 25000):
            yield dict(content=content(rng, rng.randint(0, 6)), cache=rng.choice(CACHES), p=rng.choice([0.1, 0.5]), key=rng.random() < 0.3, type=rng.random() < 0.3, reads=[rng.choice(sorted(READS)) for _ in range(6)], r=rng.random())

    @staticmethod
    def check(c):
        rng = random.Random(c["r"])
        spec = c["content"]
        calls = [0]
        v, cache = virtual(rng, c, spec, calls)
        if calls[0] != 0:
            raise Fail("the generator was called on construction")
        if v.ismaterialized:
            raise Fail("materialized before the first read")
        vals = value(spec)
        for name in c["reads"]:
            held = v.ismaterialized if cache is None else calls[0] > 0 and c["cache"] in ("dict", "keep") and len(cache if c["cache"] == "dict" else cache.d) > 0
            n0 = calls[0]
            s = rand_selector(rng, len(vals), bad=0.1)
            if READS[name] is None:
                name = "select"
            f = READS.get(name) or (lambda a: a[realsel(s)])
            a = build(spec)
            if spec["k"] == "str" and name not in STRREADS:
                continue
            if name not in ("select", "list", "len", "add", "radd", "neg", "self", "sum", "max", "any", "tolist", "shape", "dtype", "eq", "copy", "x", "xs", "argmax", "astype") and isinstance(a, np.ndarray):
                continue
            if isinstance(a, np.ndarray) and name == "argmax" and len(a) == 0:
                continue
            if isinstance(a, (np.ndarray,)) and name == "type":
                want = ("value", str(aw.type.fromarray(a)))
            elif isinstance(a, np.ndarray) and len(a) == 0 and name in ("max",):
                continue
            else:
                want = outcome(lambda: f(a))
            got = outcome(lambda: f(v))
            what = "%s%s" % (name, " " + json_short(s) if name == "select" else "")
            if got[0] != want[0] or not eq(got[1], want[1]):
                try:
                    f(v)
                    err = ""
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    err = " [%s: %s at %s]" % (type(e).__name__, str(e)[:80], " < ".join("%s:%d" % (os.path.basename(q.filename), q.lineno) for q in tb[-3:]))
                raise Fail("%s gives %.200r through the VirtualArray, %.200r directly%s" % (what, got, want, err))
            if held and calls[0] != n0 and name not in ("copy", "deepcopy"):
                raise Fail("%s called the generator again while its value was held" % what)
        if c["cache"] == "dict" and calls[0]:
            # eviction: generated again, same value
            cache.clear()
            if v.ismaterialized:
                raise Fail("materialized after eviction")
            n0 = calls[0]
            expect(v.array, vals, "after eviction")
            if calls[0] != n0 + 1:
                raise Fail("after eviction the generator was called %d times" % (calls[0] - n0))


@bounded("C18", [V + "VirtualArray." + f for f in ("__setitem__", "__delitem__", "materialize", "array", "copy", "__del__", "deepcopy")], "histories of 1..8 column sets, deletes, reads, evictions, copies and garbage collections on Tables and JaggedArrays of Tables with 8 cache behaviours")
class Edits(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 25000):
            n = rng.randint(0, 5)
            spec = {"k": "table", "cols": {"x": distinct(n), "y": flat(rng, n)}, "view": None}
            steps = []
            for _ in range(rng.randint(1, 8)):
                k = rng.choice(["set", "set", "del", "read", "evict", "copy", "fork", "sets", "dels", "type"])
                steps.append([k, rng.choice(["x", "y", "z", "w"]), rng.randint(0, 99)])
            yield dict(n=n, content=spec, steps=steps, cache=rng.choice(CACHES), p=rng.choice([0.1, 0.5]), key=rng.random() < 0.3, type=rng.random() < 0.3, jag=rng.random() < 0.3, r=rng.random())

    @staticmethod
    def check(c):
        rng = random.Random(c["r"])
        n = c["n"]
        spec = c["content"]
        if c["jag"]:
            k = rng.randint(0, n)
            spec = {"k": "off", "offsets": [0, k, n], "content": spec}
        calls = [0]
        v, cache = virtual(rng, c, spec, calls)
        cols = {m: value(x) for m, x in c["content"]["cols"].items()}
        shape = (lambda rows: [rows[:k], rows[k:]]) if c["jag"] else (lambda rows: rows)

        def current():
            return shape([{m: x[i] for m, x in cols.items()} for i in range(n)]) if cols else None
        done = []
        for kind, name, x in c["steps"]:
            done.append([kind, name])
            what = "after %s" % json_short(done)
            if kind in ("set", "sets"):
                names = [name] if kind == "set" else [name, "q"]
                data = {m: [x * 10 + i + j for i in range(n)] for j, m in enumerate(names)}
                arrs = {m: np.array(d, dtype="i8") for m, d in data.items()}
                if c["jag"]:
                    arrs = {m: JaggedArray.fromcounts([k, n - k], d) for m, d in arrs.items()}
                if kind == "set":
                    def f():
                        v[name] = arrs[name]
                else:
                    if c["jag"]:
                        what_ = JaggedArray.zip(arrs[name], arrs["q"])
                    else:
                        what_ = Table(arrs[name], arrs["q"])

                    def f():
                        v[names] = what_
                run(f, what)
                cols.update(data)
            elif kind in ("del", "dels"):
                names = [name] if kind == "del" else [m for m in (name, "q") if m in cols]
                if any(m not in cols for m in names) or len(cols) <= len(names) or not names:
                    continue

                def f():
                    if kind == "del":
                        del v[name]
                    else:
                        del v[names]
                run(f, what)
                for m in names:
                    del cols[m]
            elif kind == "evict" and cache is not None:
                if isinstance(cache, dict):
                    cache.clear()
                else:
                    cache.d.clear()
            elif kind == "copy" and not c["key"]:
                w = run(lambda: v.copy() if x % 2 else v.deepcopy(), what)
                del v
                gc.collect()
                v = w
                # new VirtualArrays may reuse the address of the old one
                junk = [VirtualArray(lambda: np.array([-1, -2]), cache=cache) for _ in range(5)]
                [j.array for j in junk]
            elif kind == "fork":
                # edits of a copy leave the original as it was (where no array is held: a held array is shared by a shallow copy)
                if v._array is not None or (not x % 2 and cache is not None):
                    continue
                w = run(lambda: v.copy() if x % 2 else v.deepcopy(), what)
                late = np.arange(n, dtype="i8")
                if c["jag"]:
                    late = JaggedArray.fromcounts([k, n - k], late)

                def f():
                    w["late"] = late
                run(f, what)
                expect(run(lambda: v.array, what), current(), what + ", the original")
                if "late" not in run(lambda: w.columns, what):
                    raise Fail("%s: the copy lost its new column" % what)
            elif kind == "type":
                if sorted(run(lambda: v.columns, what)) != sorted(cols):
                    raise Fail("%s: columns %r, expected %r" % (what, v.columns, sorted(cols)))
                if c["type"] and str(v.type) != str(aw.type.fromarray(v.array)):
                    raise Fail("%s: type %s" % (what, v.type))
                continue
            got = run(lambda: v.array, what)
            expect(got, current(), what)
            expect(run(lambda: v[0:n], what), current()[0:n], what)
        # replay on a fresh object
        if cache is not None:
            (cache if isinstance(cache, dict) else cache.d).clear()
            expect(run(lambda: v.array, "regenerated"), current(), "regenerated after %s" % json_short(done))
