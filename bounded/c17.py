from .reg import bounded
from .model import *

O = "awkward0/array/objects.py:"
CALLS = []


def gen_plain(x, *args, **kw):
    CALLS.append(denote1(x))
    return ("obj", denote1(x), args, tuple(sorted(kw.items())))


def objvalue(vals, args, kw):
    return [("obj", v, tuple(args), tuple(sorted(kw.items()))) for v in vals]


def content(rng, n):
    k = rng.choice(["flat", "flat", "jag", "table", "mask", "idx", "str", "chunk"])
    if k == "flat":
        return flat(rng, n)
    if k == "jag":
        return jag_layout(rng, rand_counts(rng, n, 3), distinct)
    if k == "table":
        return {"k": "table", "cols": {"x": distinct(n), "y": flat(rng, n)}, "view": None}
    if k == "idx" and n == 0:
        return flat(rng, 0)
    return rand_spec(rng, n, 1, [k])


ALPHA = ["a", "b", "ab", "", "", "hello", "é", "日本", "\U0001f600", "a\x00b", " ", "aé", "xyz" * 5, "A", "\n", "ß", "b\x7f"]


def strings(rng, n, ascii=False):
    out = []
    for _ in range(n):
        if rng.random() < 0.6:
            s = rng.choice(ALPHA)
        else:
            s = "".join(rng.choice("abcé日\U0001f600 ") for _ in range(rng.randint(0, 5)))
        if ascii:
            s = s.encode("ascii", "ignore").decode()
        out.append(s)
    return out


@bounded("C17", [O + "ObjectArray." + f for f in ("__getitem__", "__iter__", "__len__", "content", "generator", "args", "kwargs", "copy")], "random contents of 8 kinds, length 0..8, with 0..2 extra generator arguments; chains of 2 selectors (all kinds, in and out of range)")
class Objects(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 25000):
            n = rng.randint(0, 8)
            yield dict(content=content(rng, n), args=[rng.randint(0, 5) for _ in range(rng.choice([0, 0, 1, 2]))], kw={"k": 3} if rng.random() < 0.3 else {}, r=rng.random())

    @staticmethod
    def check(c):
        rng = random.Random(c["r"])
        base = build(c["content"])
        a = ObjectArray(base, gen_plain, tuple(c["args"]), c["kw"])
        vals = value(c["content"])
        hist = []
        if len(a) != len(vals):
            raise Fail("length")
        del CALLS[:]
        expect_list(list(a), objvalue(vals, c["args"], c["kw"]), "iteration")
        expect_list(CALLS, vals, "generated objects")
        for _ in range(2):
            s = rand_selector(rng, len(vals), bad=0.15)
            hist.append(s)
            what = "after %s" % json_short(hist)
            try:
                want = pysel(vals, s)
            except IndexError:
                want = IndexError
            del CALLS[:]
            if want is IndexError:
                raises((IndexError, ValueError, TypeError), lambda: a[realsel(s)], what)
                return
            got = run(lambda: a[realsel(s)], what)
            if s["t"] == "int":
                expect_list([got], objvalue([want], c["args"], c["kw"]), what)
                expect_list(CALLS, [want], what + ": generated objects")
                return
            if len(CALLS) > 0:
                raise Fail("%s: a selection generated %d objects" % (what, len(CALLS)))
            if not isinstance(got, ObjectArray) or len(got) != len(want):
                raise Fail("%s: gives %s" % (what, type(got).__name__))
            expect_list([x for x in got], objvalue(want, c["args"], c["kw"]), what)
            expect_list([got[i] for i in range(len(want))], objvalue(want, c["args"], c["kw"]), what + ", one by one")
            a, vals = got, want
        expect_list(list(run(lambda: a.copy(), "copy")), objvalue(vals, c["args"], c["kw"]), "copy")
        if len(vals):
            b = ObjectArray(base, gen_plain, tuple(c["args"]), c["kw"])
            two = run(lambda: ObjectArray.concatenate([a, b]), "concatenate")
            expect_list(list(two), objvalue(vals + value(c["content"]), c["args"], c["kw"]), "concatenate")


def make(how, strs, rng):
    """a StringArray of these Python strings"""
    n = len(strs)
    if how == "fromiter":
        return StringArray.fromiter(strs)
    if how in ("utf-16le", "latin-1", "utf-32le"):
        return StringArray.fromiter(strs, encoding=how)
    if how == "bytes":
        return StringArray.fromiter([s.encode() for s in strs], encoding=None)
    if how == "U":
        a = np.array(strs, dtype="U%d" % max([1] + [len(s) for s in strs]))
        if rng.random() < 0.3:
            big = np.empty(2 * n, dtype=a.dtype)
            big[::2], big[1::2] = a, "zz"
            a = big[::2]
        return StringArray.fromnumpy(a)
    if how == "S":
        a = np.array([s.encode() for s in strs], dtype="S%d" % max([1] + [len(s.encode()) for s in strs]))
        return StringArray.fromnumpy(a)
    enc = [np.frombuffer(s.encode(), dtype=np.uint8) for s in strs]
    c = [len(x) for x in enc]
    flatc = np.concatenate(enc + [np.empty(0, np.uint8)])
    if how == "counts":
        return StringArray.fromcounts(c, flatc)
    if how == "offsets":
        return StringArray.fromoffsets(np.cumsum([0] + c), flatc)
    if how == "gaps":
        order = list(range(n))
        rng.shuffle(order)
        st, sp, parts, k = [0] * n, [0] * n, [], 0
        for i in order:
            junk = rng.randint(0, 2)
            parts += [np.full(junk, 200, np.uint8), enc[i]]
            st[i], sp[i] = k + junk, k + junk + c[i]
            k += junk + c[i]
        return StringArray(np.array(st, dtype=np.int64), np.array(sp, dtype=np.int64), np.concatenate(parts + [np.empty(0, np.uint8)]))
    if how == "jagged":
        return StringArray.fromjagged(JaggedArray.fromcounts(c, flatc))
    raise AssertionError(how)


HOWS = ["fromiter", "utf-16le", "utf-32le", "latin-1", "bytes", "U", "S", "counts", "offsets", "gaps", "jagged"]


def visible(how, strs):
    """the list of strings the array means"""
    if how == "bytes":
        return [s.encode() for s in strs]
    if how == "S":
        return [s.encode().rstrip(b"\x00") for s in strs]
    if how == "U":
        return [s.rstrip("\x00") for s in strs]
    return list(strs)


def restrict(how, strs):
    return [s.encode("latin-1", "ignore").decode("latin-1") for s in strs] if how == "latin-1" else strs


@bounded("C17", [O + "StringArray." + f for f in ("fromiter", "fromnumpy", "fromcounts", "fromoffsets", "fromjagged", "fromstr", "__getitem__", "__iter__", "copy", "starts", "stops", "content", "encoding", "_concatenate_axis0")] + [O + "tostring"], "lists of 0..8 strings (empty, non-ASCII, non-BMP, embedded NUL) built 11 ways; chains of 2 selectors; fromstr; concatenate")
class Strings(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 25000):
            how = rng.choice(HOWS)
            n = rng.randint(0, 8)
            yield dict(how=how, strs=restrict(how, strings(rng, n)), r=rng.random())

    @staticmethod
    def check(c):
        rng = random.Random(c["r"])
        how = c["how"]
        a = run(lambda: make(how, c["strs"], rng), "constructing " + how)
        vals = visible(how, c["strs"])
        expect_list(list(a), vals, "iteration")
        expect_list(run(lambda: a.tolist(), "tolist"), vals, "tolist")
        if len(a) != len(vals):
            raise Fail("length")
        hist = []
        for _ in range(2):
            s = rand_selector(rng, len(vals), bad=0.15)
            hist.append(s)
            what = "%s after %s" % (how, json_short(hist))
            try:
                want = pysel(vals, s)
            except IndexError:
                want = IndexError
            if want is IndexError:
                raises((IndexError, ValueError, TypeError), lambda: a[realsel(s)], what)
                return
            got = run(lambda: a[realsel(s)], what)
            if s["t"] == "int":
                if got != want or type(got) is not type(want):
                    raise Fail("%s: got %r, expected %r" % (what, got, want))
                return
            expect_list(list(got), want, what)
            expect_list([got[i] for i in range(len(want))], want, what + ", one by one")
            a, vals = got, want
        expect_list(list(run(lambda: a.copy(), "copy")), vals, "copy")
        if rng.random() < 0.3 and how != "bytes" and how != "S":
            two = run(lambda: StringArray.concatenate([a, make("fromiter", ["q", "é"], rng)]), "concatenate")
            expect_list(list(two), vals + ["q", "é"], "concatenate")
        if rng.random() < 0.3:
            s, m = rng.choice(ALPHA), rng.randint(0, 4)
            t = run(lambda: StringArray.fromstr(m, s), "fromstr")
            expect_list(list(t), [s] * m, "fromstr(%d, %r)" % (m, s))


@bounded("C17", [O + "StringMethods.__array_ufunc__"], "== and != of lists of 0..8 strings, each operand built 9 ways or given as a Python string, list, or NumPy array")
class Equality(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 25000):
            n = rng.randint(0, 8)
            left = strings(rng, n)
            right = [x if rng.random() < 0.5 else y for x, y in zip(left, strings(rng, n))]
            lh = rng.choice(["fromiter", "fromiter", "utf-16le", "utf-32le", "U", "counts", "offsets", "gaps"])
            rh = rng.choice(["fromiter", "fromiter", "utf-16le", "utf-32le", "U", "counts", "gaps", "gaps", "list", "np", "npobj", "scalar"])
            if rng.random() < 0.1:
                lh, rh = "bytes", rng.choice(["bytes", "S"])
            if rh in ("np", "U") or lh == "U":
                left, right = [s.replace("\x00", "") for s in left], [s.replace("\x00", "") for s in right]
            if lh == "bytes":
                left, right = [s.replace("\x00", "") for s in left], [s.replace("\x00", "") for s in right]
            yield dict(l=left, r=right, lh=lh, rh=rh, ne=rng.random() < 0.4, swap=rng.random() < 0.4, s=rng.random())

    @staticmethod
    def check(c):
        rng = random.Random(c["s"])
        a = make(c["lh"], c["l"], rng)
        right = c["r"]
        rh = c["rh"]
        if rh == "list":
            b = list(right)
        elif rh == "np":
            b = np.array(right, dtype="U%d" % max([1] + [len(s) for s in right]))
        elif rh == "npobj":
            b = np.array(right + [None], dtype=object)[:-1]
        elif rh == "scalar":
            b = right[0] if right else ""
            right = [b] * len(c["l"])
        else:
            b = make(rh, right, rng)
        fp = fingerprint(a)
        op = (lambda x, y: x != y) if c["ne"] else (lambda x, y: x == y)
        swap = c["swap"] and rh not in ("np", "npobj")
        got = run(lambda: op(b, a) if swap else op(a, b), "comparison")
        check_fingerprint(fp, "comparison")
        expect(got, [(x != y) if c["ne"] else (x == y) for x, y in zip(c["l"], right)], "%s %s %s" % (c["lh"], "!=" if c["ne"] else "==", rh))
