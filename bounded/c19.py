from .reg import bounded
from .model import *
import pickle, tempfile, zlib, lzma
from awkward0 import persist
from awkward0.type import fromarray

P = "awkward0/persist.py:"
A = "awkward0/array/"
SER = [A + f for f in ("jagged.py:JaggedArray.__awkward_serialize__", "masked.py:MaskedArray.__awkward_serialize__", "masked.py:BitMaskedArray.__awkward_serialize__", "masked.py:IndexedMaskedArray.__awkward_serialize__", "indexed.py:IndexedArray.__awkward_serialize__", "indexed.py:SparseArray.__awkward_serialize__", "union.py:UnionArray.__awkward_serialize__", "chunked.py:ChunkedArray.__awkward_serialize__", "chunked.py:AppendableArray.__awkward_serialize__", "table.py:Table.__awkward_serialize__", "objects.py:ObjectArray.__awkward_serialize__", "objects.py:StringArray.__awkward_serialize__", "virtual.py:VirtualArray.__awkward_serialize__")]


class Group(object):
    """the part of an h5py.Group that awkward0.hdf5 uses, kept in memory"""
    class Data(object):
        def __init__(self, a):
            self.a = np.array(a)

        def __getitem__(self, where):
            if where != ():
                raise KeyError(where)
            return self.a.copy()

    def __init__(self, name="/"):
        self.d, self.name = {}, name

    def __getitem__(self, k):
        g = self
        for p in k.split("/"):
            g = g.d[p]
        return g

    def __setitem__(self, k, v):
        *path, last = k.split("/")
        g = self
        for p in path:
            g = g.d.setdefault(p, Group())
        if last in g.d:
            raise ValueError("name already exists")
        g.d[last] = Group.Data(v)

    def __delitem__(self, k):
        *path, last = k.split("/")
        g = self
        for p in path:
            g = g.d[p]
        del g.d[last]

    def create_group(self, k):
        if k in self.d:
            raise ValueError("name already exists")
        self.d[k] = Group(k)

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(list(self.d))


DTYPES = ["i8", "i4", "u1", "f4", "f8", "?", ">i4", "c16", "S3", "U2", "M8[s]", "m8[ms]", "i2"]


def genvirtual(n, k=0):
    t = Table({})
    t["x"], t["y"] = np.arange(n), np.arange(n) + k
    return t


def genobj(x, y, z):
    return [int(x), y, z]


def make(c):
    """(array, list of its elements)"""
    rng = random.Random(c["r"])
    n, k = c["n"], c["kind"]
    if k == "np":
        dt = rng.choice(DTYPES)
        if dt in ("S3", "U2"):
            d = np.array([rng.choice(["", "a", "bc"]) for _ in range(2 * n + 1)], dtype=dt)
        elif dt == "?":
            d = np.array([rng.random() < 0.5 for _ in range(2 * n + 1)])
        else:
            d = np.array([rng.randint(0, 99) for _ in range(2 * n + 1)], dtype="i8").astype(dt)
        a = rng.choice([d[:n], d[1::2][:n], d[::-1][:n], d[::-2][:n]])
        return a, a.tolist()
    if k == "nd":
        sh = [n] + [rng.randint(1, 3) for _ in range(rng.randint(1, 2))]
        a = np.arange(int(np.prod(sh)) * 2).reshape([sh[0] * 2] + sh[1:])[::2]
        if rng.random() < 0.3:
            a = np.asfortranarray(a)
        return a, a.tolist()
    if k == "struct":
        dt = np.dtype([("a", "i1"), ("b", "f8"), ("c", "i4", (2,))], align=rng.random() < 0.5)
        a = np.zeros(n, dtype=dt)
        a["a"], a["b"] = np.arange(n), np.arange(n) * 1.5
        a["c"] = np.arange(2 * n).reshape(n, 2)
        if rng.random() < 0.3:
            a = a[["a", "c"]]
        return a, [{m: x[m].tolist() for m in a.dtype.names} for x in a]
    if k == "np.ma":
        a = np.ma.MaskedArray(np.arange(n), [rng.random() < 0.4 for _ in range(n)])
        return a, a.tolist()
    if k == "append":
        a = AppendableArray((3,), np.dtype("f8"), [])
        vals = []
        for _ in range(n):
            x = float(rng.randint(0, 9))
            a.append(x)
            vals.append(x)
        return a, vals
    if k == "shared":
        x = np.arange(n)
        j = JaggedArray.fromcounts([n], x)
        t = Table({})
        t["x"], t["y"] = x, x
        t["v"] = VirtualArray(lambda: x, persistvirtual=False)
        t["w"] = x
        return t, [{"x": i, "y": i, "v": i, "w": i} for i in range(n)]
    if k == "virt":
        extra = {}
        if rng.random() < 0.4:
            extra["persistentkey"] = "k%d" % n
        if rng.random() < 0.4:
            extra["type"] = fromarray(genvirtual(n))
        if rng.random() < 0.4:
            extra["cache"] = {}
        a = VirtualArray(genvirtual, (n,), {"k": 3} if "type" not in extra else {}, **extra)
        v = [{"x": i, "y": i + (3 if "type" not in extra else 0)} for i in range(n)]
        if rng.random() < 0.5:
            a["z"] = np.arange(n) * 2
            v = [dict(x, z=2 * i) for i, x in enumerate(v)]
        if rng.random() < 0.3:
            del a["x"]
            v = [{m: q for m, q in x.items() if m != "x"} for x in v]
        return a, v
    if k == "objarr":
        return ObjectArray(np.arange(n), genobj, (1,), {"z": 2}), [[i, 1, 2] for i in range(n)]
    if k == "obj":
        a = np.empty(n, dtype=object)
        vals = [rng.choice([None, "s", 1, 2.5, (1, 2)]) for _ in range(n)]
        for i, x in enumerate(vals):
            a[i] = x
        return a, [list(x) if isinstance(x, tuple) else x for x in vals]
    s = rand_spec(rng, n, rng.choice([1, 2, 2]))
    a, v = build(s), value(s)
    if k == "view":
        for _ in range(rng.randint(1, 2)):
            sel = rand_selector(rng, len(v), ("slice", "idx", "mask"))
            try:
                a, v = a[realsel(sel)], pysel(v, sel)
            except IndexError:
                pass
    return a, v


KINDS = ["np", "nd", "struct", "append", "np.ma", "shared", "spec", "spec", "spec", "view", "view", "obj", "virt", "objarr"]
COMP = [None, True, False, "zlib", "min", "lzma"]


def options(c):
    o = {}
    if c["comp"] == "zlib":
        o["compression"] = zlib.compress
    elif c["comp"] == "min":
        o["compression"] = [{"minsize": 16, "types": [np.integer], "contexts": "*", "pair": (zlib.compress, ("zlib", "decompress"))}]
    elif c["comp"] == "lzma":
        o["compression"] = (lzma.compress, ("lzma", "decompress"))
    elif c["comp"] is not None:
        o["compression"] = c["comp"]
    return o


def same(got, want, what):
    if isinstance(got, VirtualArray):
        got = got.array
    expect(got, want, what)


@bounded("C19", [P + f for f in ("serialize", "deserialize", "Serializer.store", "Serializer.__call__", "BlobSerializer._encode_numpy", "BlobSerializer.CompressPolicy.test", "dtype2json", "json2dtype", "save", "load", "Load.__getitem__", "hdf5.__getitem__", "hdf5.__setitem__", "hdf5.__delitem__")] + [A + "base.py:AwkwardArray.__reduce__"] + SER, "random arrays of 12 kinds (all classes, views, strided/reversed/Fortran buffers, 13 dtypes, structured and object dtypes), length 0..8, through dict, pickle, .awkd file and an HDF5-like group with 6 compression settings; twice in a row")
class RoundTrip(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 25000):
            yield dict(kind=rng.choice(KINDS), n=rng.choice([0, 1, 2, 3, 4, 5, 6, 8]), r=rng.random(), comp=rng.choice(COMP), where=rng.choice(["dict", "dict", "bytes", "pickle", "file", "hdf5"]), name=rng.choice(["", "x", "a/b" if rng.random() < 0.2 else "ab"]))

    @staticmethod
    def check(c):
        a, v = make(c)
        expect(a, v, "before serialization") if c["kind"] not in ("obj", "np", "struct", "np.ma") else None
        where = c["where"]
        fp = fingerprint(a) if c["kind"] not in ("shared",) else []
        got = run(lambda: roundtrip(a, c), "%s round trip" % where)
        check_fingerprint(fp, "serialization")
        if isinstance(a, np.ndarray) and isinstance(got, np.ndarray) and not isinstance(a, np.ma.MaskedArray) and c["kind"] != "struct" and got.dtype != a.dtype:
            raise Fail("dtype %s became %s" % (a.dtype, got.dtype))
        same(got, v, "%s round trip" % where)
        if not isinstance(got, np.ndarray) and len(got):
            got2 = run(lambda: roundtrip(got, c), "second %s round trip" % where)
            same(got2, v, "second %s round trip" % where)


def roundtrip(a, c):
    where, name, o = c["where"], c["name"], options(c)
    wl = persist.whitelist + ([["awkward0.persist", "topython"]] if c["kind"] == "obj" else []) + [["bounded.c19", "gen*"]]
    if where in ("dict", "bytes") or where == "pickle" and (c["kind"] in ("virt", "objarr") or isinstance(a, np.ndarray)):
        st = {}
        persist.serialize(a, st, name, **o)
        if where == "bytes":
            st = {k: x if isinstance(x, bytes) else np.asarray(x).tobytes() for k, x in st.items()}
        return persist.deserialize(st, name, whitelist=wl)
    if where == "pickle" and c["kind"] not in ("virt", "objarr") and not isinstance(a, np.ndarray):
        return pickle.loads(pickle.dumps(a))
    if where == "file":
        with tempfile.TemporaryDirectory(prefix="vp19") as d:
            fn = os.path.join(d, "f.awkd")
            if name:
                persist.save(fn, {name: a}, **o)
                with persist.load(fn, whitelist=wl) as f:
                    if list(f) != [name]:
                        raise Fail("file contains %r, expected %r" % (list(f), [name]))
                    return f[name]
            persist.save(fn, a, **o)
            return persist.load(fn, whitelist=wl)
    g = Group()
    h = persist.hdf5(g, whitelist=wl, **o)
    h[name.replace("/", "") or "x"] = a
    return h[name.replace("/", "") or "x"]


@bounded("C19", [P + f for f in ("serialize", "deserialize", "save", "load", "keys", "hdf5.__setitem__", "hdf5.__delitem__", "hdf5.__iter__", "Load.__iter__", "Load.__getitem__")], "2..4 random arrays stored in one container under names that do not extend each other by the delimiter, then overwritten or deleted one by one")
class Containers(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(700 if tier == "quick" else 7000):
            names = rng.sample(["x", "y", "xy", "a", "ab", "b0", "0", "1", "10", "x0", "z.z", "zz"], rng.randint(2, 4))
            yield dict(arrays=[[n, dict(kind=rng.choice(["np", "spec", "view", "nd"]), n=rng.choice([0, 1, 3, 5]), r=rng.random())] for n in names], comp=rng.choice(COMP), where=rng.choice(["dict", "file", "append", "hdf5"]), r=rng.random())

    @staticmethod
    def check(c):
        rng = random.Random(c["r"])
        made = {n: make(x) for n, x in c["arrays"]}
        o, where = options(c), c["where"]
        wl = persist.whitelist
        if where == "dict":
            st = {}
            for n, (a, v) in made.items():
                run(lambda: persist.serialize(a, st, n, **o), "serialize")
            for n, (a, v) in made.items():
                same(run(lambda: persist.deserialize(st, n), "deserialize"), v, "array %s of %s" % (n, list(made)))
            n = rng.choice(list(made))
            a, v = make(dict(kind="spec", n=4, r=c["r"]))
            persist.serialize(a, st, n, **o)
            made[n] = (a, v)
            for n, (a, v) in made.items():
                same(run(lambda: persist.deserialize(st, n), "deserialize"), v, "array %s of %s" % (n, list(made)))
        elif where in ("file", "append"):
            with tempfile.TemporaryDirectory(prefix="vp19") as d:
                fn = os.path.join(d, "f.awkd")
                stored = {}
                try:
                    if where == "file":
                        persist.save(fn, {n: a for n, (a, v) in made.items()}, **o)
                        stored = made
                    else:
                        for n, (a, v) in made.items():
                            try:
                                persist.save(fn, {n: a}, **o)
                                stored[n] = (a, v)
                            except KeyError:
                                if not any(n != m and (n.startswith(m) or m.startswith(n)) for m in stored):
                                    raise Fail("%s refused next to %s" % (n, list(stored)))
                except KeyError:
                    names = list(made)
                    if not any(n != m and n.startswith(m) for n in names for m in names):
                        raise Fail("names %r refused" % names)
                    return
                with persist.load(fn) as f:
                    if sorted(f) != sorted(stored) or len(f) != len(stored):
                        raise Fail("file lists %r, stored %r" % (sorted(f), sorted(stored)))
                    for n, (a, v) in stored.items():
                        same(run(lambda: f[n], "load"), v, "array %s of %s" % (n, list(stored)))
        else:
            g = Group()
            h = persist.hdf5(g, **o)
            for n, (a, v) in made.items():
                h[n] = a
            left = dict(made)
            while left:
                if sorted(h) != sorted(left) or len(h) != len(left):
                    raise Fail("group lists %r, stored %r" % (sorted(h), sorted(left)))
                for n, (a, v) in left.items():
                    same(run(lambda: h[n], "read"), v, "array %s of %s" % (n, list(left)))
                n = rng.choice(sorted(left))
                del h[n]
                del left[n]
            if list(g.d):
                raise Fail("after deleting everything the group still has %r" % list(g.d))
