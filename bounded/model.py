"""Independent oracle for the bounded stand-ins: array specifications (JSON trees), the list value each one
means, the real awkward0 array built from it, and a reader of real arrays that uses only their stored
structure (never their own indexing code)."""
import math, os, sys, random
import numpy as np

REPO = os.environ.get("VP_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import awkward0 as aw
from awkward0.array.base import AwkwardArray
from awkward0.array.jagged import JaggedArray
from awkward0.array.table import Table
from awkward0.array.masked import MaskedArray, BitMaskedArray, IndexedMaskedArray
from awkward0.array.indexed import IndexedArray, SparseArray
from awkward0.array.union import UnionArray
from awkward0.array.chunked import ChunkedArray, AppendableArray
from awkward0.array.objects import ObjectArray, StringArray
from awkward0.array.virtual import VirtualArray


class Fail(Exception):
    """the property is violated on this case"""


# ------------------------------------------------------------------ specs
# {"k":"np","dt":"i8","data":[..],"layout":"c"|"strided"|"reversed"}
# {"k":"jag","starts":[..],"stops":[..],"content":spec}
# {"k":"off","offsets":[..],"content":spec}            starts/stops as views of one offsets array
# {"k":"mask","mask":[bool],"mw":bool,"content":spec}
# {"k":"bit","mask":[bool],"mw":bool,"lsb":bool,"content":spec}
# {"k":"imask","mask":[int],"mw":int,"content":spec}
# {"k":"idx","index":[..],"content":spec}
# {"k":"sparse","length":n,"index":[..],"content":spec,"default":x}
# {"k":"union","tags":[..],"index":[..],"contents":[spec..]}
# {"k":"chunk","chunks":[spec..]}
# {"k":"table","cols":{name:spec},"view":null|[start,step,len]|{"index":[..]}}
# {"k":"str","data":[..]}
# {"k":"virt","content":spec}

def value(s):
    k = s["k"]
    if k == "np":
        return list(s["data"])
    if k == "jag":
        c = value(s["content"])
        return [c[a:b] if a != b else [] for a, b in zip(s["starts"], s["stops"])]
    if k == "off":
        c = value(s["content"])
        o = s["offsets"]
        return [c[o[i]:o[i + 1]] for i in range(len(o) - 1)]
    if k in ("mask", "bit"):
        c = value(s["content"])
        return [None if m == s["mw"] else x for m, x in zip(s["mask"], c)]
    if k == "imask":
        c = value(s["content"])
        return [None if m == s["mw"] else c[m] for m in s["mask"]]
    if k == "idx":
        c = value(s["content"])
        return [c[i] for i in s["index"]]
    if k == "sparse":
        c = value(s["content"])
        out = [s["default"]] * s["length"]
        for i, x in zip(s["index"], c):
            out[i] = x
        return out
    if k == "union":
        cs = [value(c) for c in s["contents"]]
        return [cs[t][i] for t, i in zip(s["tags"], s["index"])]
    if k == "chunk":
        return [x for c in s["chunks"] for x in value(c)]
    if k == "table":
        cols = {n: value(c) for n, c in s["cols"].items()}
        n = min(len(c) for c in cols.values()) if cols else 0
        rows = [{m: c[i] for m, c in cols.items()} for i in range(n)]
        v = s.get("view")
        if v is None:
            return rows
        if isinstance(v, dict):
            return [rows[i] for i in v["index"]]
        return [rows[v[0] + v[1] * i] for i in range(v[2])]
    if k == "str":
        return list(s["data"])
    if k == "virt":
        return value(s["content"])
    raise AssertionError(k)


def npdata(s):
    dt = np.dtype(s["dt"])
    d = np.array([x for x in s["data"]], dtype=dt) if len(s["data"]) else np.empty((0,) + tuple(s.get("inner", ())), dtype=dt)
    lay = s.get("layout", "c")
    if lay == "strided":
        big = np.full((2 * len(d) + 1,) + d.shape[1:], 99, dtype=dt) if dt.kind != "b" else np.ones((2 * len(d) + 1,) + d.shape[1:], dtype=dt)
        big[1::2][:len(d)] = d
        return big[1::2][:len(d)]
    if lay == "reversed":
        return d[::-1].copy()[::-1]
    return d


def iarr(x, dt=np.int64):
    return np.array(x, dtype=dt)


def build(s):
    k = s["k"]
    if k == "np":
        return npdata(s)
    if k == "jag":
        dt = s.get("idt", "i8")
        return JaggedArray(iarr(s["starts"], dt), iarr(s["stops"], dt), build(s["content"]))
    if k == "off":
        return JaggedArray.fromoffsets(iarr(s["offsets"]), build(s["content"]))
    if k == "mask":
        return MaskedArray(iarr(s["mask"], bool), build(s["content"]), maskedwhen=s["mw"])
    if k == "bit":
        bits = list(s["mask"]) + [bool(s.get("pad", 0))] * (-len(s["mask"]) % 8)
        by = []
        for i in range(0, len(bits), 8):
            b = 0
            for j in range(8):
                if bits[i + j]:
                    b |= 1 << (j if s["lsb"] else 7 - j)
            by.append(b)
        return BitMaskedArray(iarr(by, np.uint8), build(s["content"]), maskedwhen=s["mw"], lsborder=s["lsb"])
    if k == "imask":
        return IndexedMaskedArray(iarr(s["mask"]), build(s["content"]), maskedwhen=s["mw"])
    if k == "idx":
        return IndexedArray(iarr(s["index"]), build(s["content"]))
    if k == "sparse":
        return SparseArray(s["length"], iarr(s["index"]), build(s["content"]), default=s["default"])
    if k == "union":
        return UnionArray(iarr(s["tags"], np.uint8), iarr(s["index"]), [build(c) for c in s["contents"]])
    if k == "chunk":
        return ChunkedArray([build(c) for c in s["chunks"]])
    if k == "table":
        t = Table({})
        for n, c in s["cols"].items():
            t[n] = build(c)
        v = s.get("view")
        if v is None:
            return t
        if isinstance(v, dict):
            return Table.fromview(iarr(v["index"]), t)
        return Table.fromview(tuple(v), t)
    if k == "str":
        return StringArray.fromiter(s["data"], encoding=s.get("enc", "utf-8"))
    if k == "virt":
        inner = s["content"]
        return VirtualArray(lambda: build(inner), persistvirtual=False)
    raise AssertionError(k)


# ------------------------------------------------------------------ reading real arrays

def scalar(x):
    if x is np.ma.masked or isinstance(x, np.ma.core.MaskedConstant):
        return None
    if isinstance(x, np.generic):
        return x.item()
    return x


def denote(a):
    """the nested Python list a real array means, read from its stored structure"""
    if isinstance(a, np.ma.MaskedArray):
        return a.tolist()
    if isinstance(a, np.ndarray):
        if a.dtype.names is not None:
            return [{n: denote1(x[n]) for n in a.dtype.names} for x in a.reshape(-1)]
        if a.dtype.kind == "O":
            return [denote1(x) for x in a]
        return a.tolist()
    if isinstance(a, StringArray):
        enc = a._encoding
        c = a._content
        raw = np.asarray(c._content)
        st, sp = [int(x) for x in c._starts], [int(x) for x in c._stops]
        isz = np.dtype(raw.dtype).itemsize
        out = []
        for x, y in zip(st, sp):
            b = raw[x:y].tobytes()
            out.append(b if enc is None else b.decode(enc))
        return out
    if isinstance(a, JaggedArray):
        st, sp = np.asarray(a._starts), np.asarray(a._stops)
        if st.ndim != 1:
            sh = st.shape
            c = denote(a._content)
            flat = [c[x:y] for x, y in zip(st.reshape(-1).tolist(), sp[:sh[0]].reshape(-1).tolist())]

            def nest(sh, xs):
                if len(sh) == 1:
                    return list(xs)
                step = len(xs) // sh[0] if sh[0] else 0
                return [nest(sh[1:], xs[i * step:(i + 1) * step]) for i in range(sh[0])]
            return nest(sh, flat)
        c = denote(a._content)
        m = len(c)
        out = []
        if len(sp) < len(st):
            raise Fail("result array has fewer stops than starts")
        for x, y in zip(st.tolist(), sp.tolist()):
            if x < 0 or y < x or (x != y and y > m):
                raise Fail("result array has the range %d:%d of content of length %d" % (x, y, m))
            out.append(c[x:y] if x != y else [])
        return out
    if isinstance(a, BitMaskedArray):
        by = np.asarray(a._mask).view(np.uint8)
        c = denote(a._content)
        out = []
        for i, x in enumerate(c):
            if i // 8 >= len(by):
                raise Fail("bit mask too short for its content")
            bit = (int(by[i // 8]) >> (i % 8 if a._lsborder else 7 - i % 8)) & 1
            out.append(None if bool(bit) == bool(a._maskedwhen) else x)
        return out
    if isinstance(a, IndexedMaskedArray):
        c = denote(a._content)
        return [None if m == a._maskedwhen else c[m] for m in np.asarray(a._mask).tolist()]
    if isinstance(a, MaskedArray):
        c = denote(a._content)
        m = np.asarray(a._mask).tolist()
        if len(m) > len(c):
            raise Fail("mask longer than content")
        return [None if bool(x) == bool(a._maskedwhen) else y for x, y in zip(m, c)]
    if isinstance(a, SparseArray):
        c = denote(a._content)
        d = a._default
        if d is None:
            d = 0 if not c else type(c[0])()
        out = [scalar(d)] * int(a._length)
        for i, x in zip(np.asarray(a._index).tolist(), c):
            out[i] = x
        return out
    if isinstance(a, IndexedArray):
        c = denote(a._content)
        ix = np.asarray(a._index).tolist()
        for i in ix:
            if i < 0 or i >= len(c):
                raise Fail("index %r outside content of length %d" % (i, len(c)))
        return [c[i] for i in ix]
    if isinstance(a, UnionArray):
        cs = [denote(c) for c in a._contents]
        t, ix = np.asarray(a._tags).tolist(), np.asarray(a._index).tolist()
        if len(ix) < len(t):
            raise Fail("union index shorter than tags")
        return [cs[x][y] for x, y in zip(t, ix)]
    if isinstance(a, AppendableArray):
        return [x for n, c in zip(a._chunksizes, a._chunks) for x in denote(c[:n])]
    if isinstance(a, ChunkedArray):
        out = []
        for i, c in enumerate(a._chunks):
            d = denote(c)
            if i < len(a._chunksizes) and a._chunksizes[i] != len(d):
                raise Fail("recorded chunk size %r, chunk has %d" % (a._chunksizes[i], len(d)))
            out += d
        return out
    if isinstance(a, Table):
        cols = {n: denote(c) for n, c in a._contents.items()}
        n = min(len(c) for c in cols.values()) if cols else 0
        v = a._view
        if v is None:
            ix = range(n)
        elif isinstance(v, tuple):
            ix = [v[0] + v[1] * i for i in range(v[2])]
        else:
            ix = np.asarray(v).tolist()
        for i in ix:
            if i < 0 or i >= n:
                raise Fail("table view reaches row %r of %d" % (i, n))
        return [{m: c[i] for m, c in cols.items()} for i in ix]
    if isinstance(a, ObjectArray):
        c = a._content
        if isinstance(c, np.ndarray):
            items = [c[i] for i in range(len(c))]
        else:
            items = [c[i] for i in range(len(c))]
        return [a._generator(x, *a._args, **a._kwargs) for x in items]
    if isinstance(a, VirtualArray):
        return denote(a.array)
    if isinstance(a, (list, tuple)):
        return [denote1(x) for x in a]
    raise Fail("unexpected result of type %s" % type(a).__name__)


def denote1(x):
    """value of one element (scalar, row, or array)"""
    if isinstance(x, Table.Row):
        t, i = x._table, x._index
        while isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        return {n: denote(c)[i] for n, c in t._contents.items()}
    if isinstance(x, (np.ndarray, AwkwardArray)):
        if isinstance(x, np.ndarray) and x.shape == ():
            return scalar(x[()])
        return denote(x)
    if isinstance(x, (list, tuple)):
        return [denote1(y) for y in x]
    return scalar(x)


def eq(a, b, tol=False):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k], tol) for k in a)
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
        return False
    try:
        if tol and not isinstance(a, (str, bytes)) and not isinstance(b, (str, bytes)):
            if a == b:
                return True
            if isinstance(a, complex) or isinstance(b, complex):
                return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        return bool(a == b)
    except Exception:
        return False


def expect(got, want, what, tol=False):
    """got: a real array or element; want: Python value"""
    g = denote1(got)
    if not eq(g, want, tol):
        raise Fail("%s: got %.300r, expected %.300r" % (what, g, want))


def expect_list(got, want, what):
    if not eq(got, want):
        raise Fail("%s: got %.300r, expected %.300r" % (what, got, want))


def raises(excs, fn, what):
    try:
        r = fn()
    except excs:
        return
    except Exception as e:
        raise Fail("%s: raised %s (%.150s), expected %s" % (what, type(e).__name__, e, "/".join(x.__name__ for x in (excs if isinstance(excs, tuple) else (excs,)))))
    try:
        r = denote1(r)
    except Exception:
        pass
    raise Fail("%s: returned %.200r, expected it to raise" % (what, r))


def run(fn, what):
    try:
        return fn()
    except Fail:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        loc = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        raise Fail("%s: raised %s: %.200s (%s)" % (what, type(e).__name__, e, loc))


# ------------------------------------------------------------------ fingerprints (frame conditions)

def buffers(a, seen=None, out=None):
    """every ndarray reachable from an array, with structure path"""
    if seen is None:
        seen, out = set(), []
    if id(a) in seen:
        return out
    seen.add(id(a))
    if isinstance(a, np.ndarray):
        out.append(a)
    elif isinstance(a, (list, tuple)):
        for x in a:
            buffers(x, seen, out)
    elif isinstance(a, dict):
        for x in a.values():
            buffers(x, seen, out)
    elif isinstance(a, AwkwardArray):
        for n in sorted(vars(a)):
            if n in ("_isvalid", "_offsets", "_counts", "_parents", "_types", "_dtype", "_inverse", "_base", "_cache", "_generator"):
                continue
            buffers(vars(a)[n], seen, out)
    return out


def fingerprint(*arrays):
    seen, out = set(), []
    for a in arrays:
        buffers(a, seen, out)
    return [(b, b.shape, str(b.dtype), b.tobytes() if b.dtype.kind != "O" else repr(b.tolist())) for b in out]


def check_fingerprint(fp, what):
    for b, sh, dt, by in fp:
        if b.shape != sh or str(b.dtype) != dt or (b.tobytes() if b.dtype.kind != "O" else repr(b.tolist())) != by:
            raise Fail("%s: an operand's buffer changed" % what)


# ------------------------------------------------------------------ generators

def flat(rng, n, dt=None, nan=False):
    dt = dt or rng.choice(["i8", "f8", "i4"])
    if dt == "?":
        d = [rng.random() < 0.5 for _ in range(n)]
    elif dt.startswith("f"):
        d = [float(rng.randint(-9, 9)) + 0.5 * rng.randint(0, 1) for _ in range(n)]
        if nan:
            d = [float("nan") if rng.random() < 0.2 else x for x in d]
    elif dt.startswith("u"):
        d = [rng.randint(0, 99) for _ in range(n)]
    else:
        d = [rng.randint(-99, 99) for _ in range(n)]
    return {"k": "np", "dt": dt, "data": d, "layout": rng.choice(["c", "c", "strided", "reversed"])}


def distinct(n, dt="i8"):
    """content whose elements identify their position"""
    if dt == "f8":
        return {"k": "np", "dt": dt, "data": [100.5 + i for i in range(n)]}
    return {"k": "np", "dt": dt, "data": [100 + i for i in range(n)]}


def jag_layout(rng, counts, mk, style=None):
    """a jagged spec with the given counts; mk(m) makes content of length m. styles: offsets, compact, gaps, shuffled, overlap, long"""
    style = style or rng.choice(["offsets", "offset0", "compact", "gaps", "shuffled", "long", "allover"])
    n = len(counts)
    tot = sum(counts)
    off = [0]
    for c in counts:
        off.append(off[-1] + c)
    if style == "offsets":
        return {"k": "off", "offsets": off, "content": mk(tot)}
    if style == "offset0":   # first offset positive, surplus content at the end
        a, b = rng.randint(0, 2), rng.randint(0, 2)
        return {"k": "off", "offsets": [x + a for x in off], "content": mk(tot + a + b)}
    if style == "compact":
        return {"k": "jag", "starts": off[:-1], "stops": off[1:], "content": mk(tot)}
    order = list(range(n))
    if style in ("shuffled", "long", "allover"):
        rng.shuffle(order)
    pos, starts, stops = 0, [0] * n, [0] * n
    for i in order:
        if style in ("gaps", "shuffled", "long", "allover"):
            pos += rng.choice([0, 0, 1, 2])
        starts[i], stops[i] = pos, pos + counts[i]
        pos += counts[i]
        if counts[i] == 0 and rng.random() < 0.3:
            starts[i] = stops[i] = pos + rng.randint(0, 3)   # an empty list may point anywhere non-negative
    m = pos + rng.randint(0, 2)
    if style == "overlap" or style == "allover":
        for i in range(n):
            if rng.random() < 0.5 and m >= counts[i]:
                starts[i] = rng.randint(0, m - counts[i])
                stops[i] = starts[i] + counts[i]
    if style in ("long", "allover") and rng.random() < 0.7:
        stops = stops + [rng.randint(0, m) for _ in range(rng.randint(1, 2))]
    return {"k": "jag", "starts": starts, "stops": stops, "content": mk(m)}


def counts_upto(n, c):
    """all count vectors with at most n lists of at most c elements"""
    import itertools
    for k in range(n + 1):
        for t in itertools.product(range(c + 1), repeat=k):
            yield list(t)


def rand_counts(rng, n=None, c=4):
    n = rng.randint(0, 6) if n is None else n
    return [rng.choice([0, 0, 1, 2, 3, c]) for _ in range(n)]


LEAVES = ("np", "mask", "imask", "idx", "chunk")


def rand_spec(rng, n, depth=2, kinds=None, dt=None):
    """a random array spec of length n"""
    kinds = kinds or ["np", "jag", "mask", "bit", "imask", "idx", "sparse", "union", "chunk", "table", "str", "virt"]
    k = rng.choice(kinds)
    if depth <= 0:
        k = "str" if kinds == ["str"] else "np"
    if k == "union" and n == 0:
        k = "np"   # the constructor demands at least one tag
    sub = lambda m: rand_spec(rng, m, depth - 1, kinds, dt)
    if k == "np":
        return flat(rng, n, dt)
    if k == "jag":
        return jag_layout(rng, rand_counts(rng, n, 3), sub)
    if k in ("mask", "bit"):
        mk = [rng.random() < 0.4 for _ in range(n)]
        s = {"k": k, "mask": mk, "mw": rng.random() < 0.5, "content": sub(n)}
        if k == "bit":
            s["lsb"] = rng.random() < 0.5
            s["pad"] = rng.randint(0, 1)
        return s
    if k == "imask":
        m = rng.randint(1, n + 2)
        return {"k": k, "mask": [-1 if rng.random() < 0.4 else rng.randint(0, m - 1) for _ in range(n)], "mw": -1, "content": sub(m)}
    if k == "idx":
        m = rng.randint(1, n + 2)
        return {"k": k, "index": [rng.randint(0, m - 1) for _ in range(n)], "content": sub(m)}
    if k == "sparse":
        ix = sorted(rng.sample(range(n), rng.randint(0, n))) if n else []
        return {"k": k, "length": n, "index": ix, "content": flat(rng, len(ix), dt or "i8"), "default": rng.choice([0, 7])}
    if k == "union":
        tags = [rng.randint(0, 1) for _ in range(n)]
        ix, c = [], [0, 0]
        for t in tags:
            ix.append(c[t])
            c[t] += 1
        perm = [list(range(c[0])), list(range(c[1]))]
        for p in perm:
            rng.shuffle(p)
        return {"k": k, "tags": tags, "index": [perm[t][i] for t, i in zip(tags, ix)], "contents": [sub(c[0]), sub(c[1])]}
    if k == "chunk":
        sizes = []
        left = n
        while left > 0:
            s = rng.randint(0, left)
            sizes.append(s)
            left -= s
        if rng.random() < 0.3:
            sizes.append(0)
        first = flat(rng, 0, dt)["dt"]
        return {"k": k, "chunks": [flat(rng, x, first) for x in sizes]}
    if k == "table":
        v = rng.choice(["none", "slice", "index"])
        if v == "none":
            return {"k": k, "cols": {"x": sub(n), "y": sub(n + rng.randint(0, 1))}, "view": None}
        m = max(1, n) + rng.randint(0, 2)
        if v == "slice":
            step = rng.choice([1, -1])
            if n == 0:
                view = [0, 1, 0]
            else:
                st = rng.randint(0, m - n)
                view = [st, 1, n] if step == 1 else [st + n - 1, -1, n]
        else:
            view = {"index": [rng.randint(0, m - 1) for _ in range(n)]}
        return {"k": k, "cols": {"x": sub(m), "y": sub(m)}, "view": view}
    if k == "str":
        return {"k": k, "data": [rng.choice(["", "a", "bc", "h\u00e9", "\u20ac\u20ac", "xyz"]) for _ in range(n)]}
    if k == "virt":
        return {"k": k, "content": sub(n)}
    raise AssertionError(k)


# ------------------------------------------------------------------ selectors
# {"t":"int","i":k} {"t":"slice","s":[a,b,c]} {"t":"mask","m":[..],"as":"np"|"list"} {"t":"idx","i":[..],"dt":..,"as":..}

def rand_selector(rng, n, kinds=("int", "slice", "mask", "idx"), bad=0.0):
    k = rng.choice(list(kinds))
    if k == "int":
        if n == 0 or rng.random() < bad:
            return {"t": "int", "i": rng.choice([n, n + 1, -n - 1, -n - 2])}
        return {"t": "int", "i": rng.randint(-n, n - 1)}
    if k == "slice":
        e = lambda: rng.choice([None, None] + list(range(-n - 2, n + 3)))
        return {"t": "slice", "s": [e(), e(), rng.choice([None, 1, 1, 2, 3, -1, -1, -2, -3])]}
    if k == "mask":
        return {"t": "mask", "m": [rng.random() < 0.5 for _ in range(n)], "as": rng.choice(["np", "np", "list"])}
    m = rng.randint(0, 5) if n else 0
    return {"t": "idx", "i": [rng.randint(-n, n - 1) for _ in range(m)], "dt": rng.choice(["i8", "i8", "i4"]), "as": rng.choice(["np", "np", "list"]) if m else "np"}


def pysel(lst, s):
    """the element / list the selector picks from a Python list; IndexError when out of range"""
    n = len(lst)
    if s["t"] == "int":
        if not -n <= s["i"] < n:
            raise IndexError
        return lst[s["i"]]
    if s["t"] == "slice":
        return lst[slice(*s["s"])]
    if s["t"] == "mask":
        return [x for x, m in zip(lst, s["m"]) if m]
    out = []
    for i in s["i"]:
        if not -n <= i < n:
            raise IndexError
        out.append(lst[i])
    return out


def realsel(s):
    if s["t"] == "int":
        return s["i"]
    if s["t"] == "slice":
        return slice(*s["s"])
    if s["t"] == "mask":
        return list(s["m"]) if s.get("as") == "list" and s["m"] else np.array(s["m"], dtype=bool)
    return list(s["i"]) if s.get("as") == "list" and s["i"] else np.array(s["i"], dtype=s.get("dt", "i8"))


def all_slices(n):
    for a in [None] + list(range(-n - 1, n + 2)):
        for b in [None] + list(range(-n - 1, n + 2)):
            for c in (None, 1, 2, 3, -1, -2, -3):
                yield {"t": "slice", "s": [a, b, c]}


def all_selectors(n):
    import itertools
    for i in range(-n - 2, n + 2):
        yield {"t": "int", "i": i}
    for s in all_slices(n):
        yield s
    for m in itertools.product([False, True], repeat=n):
        yield {"t": "mask", "m": list(m), "as": "np"}
    if n:
        for k in range(0, 3):
            for t in itertools.product(range(-n, n), repeat=k):
                yield {"t": "idx", "i": list(t), "dt": "i8", "as": "np"}


def check_select(a, want, s, what="selection"):
    """a[selector] on the real array agrees with the list `want`"""
    try:
        w = pysel(want, s)
    except IndexError:
        raises(IndexError, lambda: a[realsel(s)], "%s %s" % (what, json_short(s)))
        return None
    got = run(lambda: a[realsel(s)], "%s %s" % (what, json_short(s)))
    expect(got, w, "%s %s" % (what, json_short(s)))
    return got


def json_short(x):
    import json
    return json.dumps(x)[:160]


def iterate(a, limit=10000):
    out = []
    for x in a:
        out.append(denote1(x))
        if len(out) > limit:
            raise Fail("iteration does not end")
    return out
