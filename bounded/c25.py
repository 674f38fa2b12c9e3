from .reg import bounded
from .model import *
import copy

A = "awkward0/array/"
BAD = (ValueError, TypeError, IndexError)


def reads(a, n):
    """operations that read the elements, each on a fresh array"""
    return [("tolist", lambda a: a.tolist()), ("iteration", lambda a: [denote1(x) for x in a]), ("[:]", lambda a: denote1(a[:])),
            ("[mask]", lambda a: denote1(a[np.ones(n, dtype=bool)])), ("[indices]", lambda a: denote1(a[np.arange(n)])), ("[i] for every i", lambda a: [denote1(a[i]) for i in range(n)])]


def decide(mk, ok, want, n, what, history=None):
    """mk() builds the array; ok: the structure is consistent; want: its items if so"""
    if ok:
        a = run(mk, what + " (consistent)")
        for name, f in reads(a, n):
            got = run(lambda: f(run(mk, what)), "%s of a consistent %s" % (name, what))
            if not eq(got, want):
                raise Fail("%s of a consistent %s: got %.200r, expected %.200r" % (name, what, got, want))
        run(lambda: a.valid(), "valid()")
        if not a.valid():
            raise Fail("valid() is false for a consistent %s" % what)
        return
    try:
        a = mk()
    except BAD:
        return
    for name, f in reads(a, n):
        if n == 0 and name == "[i] for every i":
            continue
        try:
            a = mk()
        except BAD:
            return
        try:
            got = f(a)
        except BAD:
            continue
        raise Fail("%s of an inconsistent %s returned %.200r" % (name, what, got))
    if mk().valid():
        raise Fail("valid() is true for an inconsistent %s" % what)


def ints(rng, k, lo, hi):
    return [rng.randint(lo, hi) for _ in range(k)]


def arr(x, form):
    """a list of numbers as the user may pass it"""
    if form == "list":
        return x
    if form == "float":
        return np.array(x, dtype=float) + (0.5 if len(x) else 0)
    if form == "bool":
        return np.array(x, dtype=bool)
    if form == "2d":
        return np.array(x, dtype=int).reshape(len(x), 1)
    if form == "0d":
        return np.array(3)
    if form == "i4":
        return np.array(x, dtype="i4")
    if form == "strided":
        b = np.full(2 * len(x), 7)
        b[::2] = x
        return b[::2]
    return np.array(x, dtype=int)


FORMS = ["np"] * 6 + ["list", "i4", "strided", "float", "bool", "2d", "0d"]
GOOD = ("np", "list", "i4", "strided")


def inj(rng, x, hi):
    """x with one entry pushed over an edge"""
    x = list(x)
    if x:
        x[rng.randrange(len(x))] = rng.choice([-1, hi, hi + 1, hi - 1, 0, -2])
    return x


@bounded("C25", [A + "jagged.py:JaggedArray._valid", A + "jagged.py:JaggedArray._validstartsstops", A + "jagged.py:JaggedArray.starts", A + "jagged.py:JaggedArray.stops", A + "jagged.py:JaggedArray.offsets", A + "jagged.py:JaggedArray.fromoffsets", A + "jagged.py:JaggedArray.fromcounts", A + "jagged.py:JaggedArray.fromparents", A + "jagged.py:JaggedArray.fromuniques", A + "jagged.py:JaggedArray.fromlocalindex"],
         "all starts/stops of up to 2 lists over contents of up to 2 elements with values -1..3, random ones of up to 5 lists, in every accepted and several unacceptable dtypes and shapes; every constructor")
class jagged(object):
    @staticmethod
    def gen(rng, tier):
        import itertools
        for m in range(3):
            for k in range(3):
                for st in itertools.product(range(-1, 4), repeat=k):
                    for sp in itertools.product(range(-1, 4), repeat=k):
                        yield {"via": "init", "m": m, "st": list(st), "sp": list(sp), "f1": "np", "f2": "np"}
        for _ in range(20000 if tier == "quick" else 200000):
            m = rng.randint(0, 5)
            k = rng.randint(0, 5)
            via = rng.choice(["init", "init", "offsets", "counts", "parents", "uniques", "local"])
            if via == "init":
                st = ints(rng, k, 0, m)
                sp = [rng.randint(s, m) for s in st]
                if rng.random() < 0.3:
                    sp += ints(rng, rng.randint(1, 2), 0, m + 2)
                if rng.random() < 0.2:
                    sp = sp[:rng.randint(0, len(sp))]
                if rng.random() < 0.3:
                    st = inj(rng, st, m)
                if rng.random() < 0.3:
                    sp = inj(rng, sp, m)
                yield {"via": via, "m": m, "st": st, "sp": sp, "f1": rng.choice(FORMS), "f2": rng.choice(FORMS)}
            else:
                x = sorted(ints(rng, k, 0, m)) if via == "offsets" else ints(rng, k, 0, 3) if via == "counts" else ints(rng, m if rng.random() < 0.8 else m + 1, -1, 3)
                if via == "local":
                    x = []
                    while len(x) < m:
                        x += list(range(rng.randint(1, 3)))
                    x = x[:m]
                if via == "parents" and rng.random() < 0.8:
                    x = sorted(x)
                if rng.random() < 0.4:
                    x = inj(rng, x, m)
                yield {"via": via, "m": m, "st": x, "sp": [], "f1": rng.choice(FORMS), "f2": "np"}

    @staticmethod
    def check(c):
        m, st, sp, f1, f2 = c["m"], c["st"], c["sp"], c["f1"], c["f2"]
        data = [100 + i for i in range(m)]
        content = np.array(data, dtype=int)
        v = c["via"]
        n = len(st)
        good = f1 in GOOD and f2 in GOOD
        if v == "init":
            if f1 == "2d" and f2 == "2d":
                return
            ok = good and len(st) <= len(sp) and all(x >= 0 for x in st + sp) and all(a <= b and (a == b or b <= m) for a, b in zip(st, sp))
            want = [data[a:b] if a != b else [] for a, b in zip(st, sp)] if ok else None
            decide(lambda: JaggedArray(arr(st, f1), arr(sp, f2), content), ok, want, n, "JaggedArray")
            return
        if v == "offsets":
            n = max(0, len(st) - 1)
            if n == 0 and st and st[0] < 0:
                return   # no lists at all
            ok = good and len(st) >= 1 and all(x >= 0 for x in st) and all(a <= b for a, b in zip(st, st[1:])) and (st[0] == st[-1] or st[-1] <= m)
            want = [data[a:b] for a, b in zip(st, st[1:])] if ok else None
            decide(lambda: JaggedArray.fromoffsets(arr(st, f1), content), ok, want, n, "JaggedArray.fromoffsets")
        elif v == "counts":
            if f1 == "2d":
                return
            off = [0]
            for x in st:
                off.append(off[-1] + x)
            ok = good and all(x >= 0 for x in st) and (off[-1] == 0 or off[-1] <= m)
            want = [data[a:b] for a, b in zip(off, off[1:])] if ok else None
            decide(lambda: JaggedArray.fromcounts(arr(st, f1), content), ok, want, n, "JaggedArray.fromcounts")
        elif v == "parents":
            # documented precondition: equal parents are contiguous
            runs = [x for i, x in enumerate(st) if i == 0 or st[i - 1] != x]
            if len(set(x for x in runs if x >= 0)) != len([x for x in runs if x >= 0]):
                return
            n = max(st + [-1]) + 1
            if any(x < -1 for x in st):
                return
            ok = good and len(st) == m
            want = [[d for d, p in zip(data, st) if p == i] for i in range(n)] if ok else None
            decide(lambda: JaggedArray.fromparents(arr(st, f1), content), ok, want, n, "JaggedArray.fromparents")
        elif v == "uniques":
            ok = good and len(st) == m
            want = []
            if ok:
                for i, (x, d) in enumerate(zip(st, data)):
                    if i == 0 or st[i - 1] != x:
                        want.append([])
                    want[-1].append(d)
            decide(lambda: JaggedArray.fromuniques(arr(st, f1), content), ok, want, len(want), "JaggedArray.fromuniques")
        else:
            ok = good and len(st) == m and all(x == 0 or (i > 0 and x == st[i - 1] + 1) for i, x in enumerate(st)) and all(x >= 0 for x in st)
            want = []
            if ok:
                for x, d in zip(st, data):
                    if x == 0:
                        want.append([])
                    want[-1].append(d)
            decide(lambda: JaggedArray.fromlocalindex(arr(st, f1), content), ok, want, len(want) if ok else sum(x == 0 for x in st), "JaggedArray.fromlocalindex")


@bounded("C25", [A + f for f in ("masked.py:MaskedArray._valid", "masked.py:BitMaskedArray._valid", "masked.py:IndexedMaskedArray._valid", "indexed.py:IndexedArray._valid", "indexed.py:SparseArray._valid", "union.py:UnionArray._valid", "union.py:UnionArray.tags", "union.py:UnionArray.index", "chunked.py:ChunkedArray._valid")],
         "structure arrays of up to 5 entries, consistent or with one entry, length, dtype or dimension wrong")
class others(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(30000 if tier == "quick" else 300000):
            yield gencase(rng)

    @staticmethod
    def check(c):
        check_other(c)


def gencase(rng):
    k = rng.choice(["mask", "bit", "imask", "idx", "sparse", "union", "union", "chunk"])
    m = rng.randint(0, 5)
    n = rng.randint(0, 6)
    f = rng.choice(FORMS)
    c = {"k": k, "m": m, "f": f}
    if k == "mask":
        c["x"] = ints(rng, n if rng.random() < 0.5 else m, 0, 1)
        c["mw"] = rng.random() < 0.5
        c["f"] = rng.choice(["np", "boolarr", "2d", "0d"])
    elif k == "bit":
        m = c["m"] = rng.randint(0, 20)
        c["x"] = ints(rng, max(0, -(-m // 8) + rng.choice([-1, 0, 0, 1])), 0, 255)
        c["mw"], c["lsb"] = rng.random() < 0.5, rng.random() < 0.5
        c["f"] = rng.choice(["np", "np", "np", "2d"])
    elif k == "imask":
        c["x"] = [rng.choice([-1] + list(range(m))) for _ in range(n)]
        if rng.random() < 0.3:
            c["x"] = inj(rng, c["x"], m)
    elif k == "idx":
        c["x"] = ints(rng, n, 0, m - 1) if m else []
        if rng.random() < 0.4:
            c["x"] = inj(rng, c["x"] or [0], m)
    elif k == "sparse":
        c["len"] = rng.randint(0, 8)
        c["x"] = sorted(rng.sample(range(c["len"]), rng.randint(0, min(c["len"], m))))
        if rng.random() < 0.3:
            c["x"] = c["x"] + [rng.randint(-1, c["len"] - 1)] if c["len"] else c["x"]
        if rng.random() < 0.2:
            rng.shuffle(c["x"])
        if rng.random() < 0.1:
            c["len"] = -1
    elif k == "union":
        ms = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
        c["ms"] = ms
        n = rng.randint(1, 5)
        c["x"] = ints(rng, n, 0, len(ms) - 1)
        c["y"] = [rng.randint(0, ms[t] - 1) for t in c["x"]]
        r = rng.random()
        if r < 0.2:
            c["x"] = inj(rng, c["x"], len(ms))
        elif r < 0.4:
            c["y"] = inj(rng, c["y"], rng.choice(ms))
        elif r < 0.5:
            c["y"] = c["y"][:-1]
        elif r < 0.6:
            c["y"] = c["y"] + [rng.randint(-1, 9)]
        c["f2"] = rng.choice(FORMS)
    else:
        c["ms"] = [rng.randint(0, 3) for _ in range(rng.randint(1, 4))]
        c["x"] = list(c["ms"])
        r = rng.random()
        if r < 0.3:
            c["x"] = inj(rng, c["x"], 3)
        elif r < 0.5:
            c["x"] = c["x"][:rng.randint(0, len(c["x"]))]
        elif r < 0.6:
            c["x"] = c["x"] + [0]
        c["f"] = "list"
    return c


def other(c):
    """(constructor, consistent?, items, length)"""
    k, m, f, x = c["k"], c["m"], c["f"], c["x"]
    data = [100 + i for i in range(m)]
    content = np.array(data, dtype=int)
    good = f in GOOD
    n = len(x)
    if k == "mask":
        ok = f in ("np", "boolarr") and n <= m
        b = np.array(x, dtype=bool)
        b = {"np": b, "boolarr": b, "2d": b.reshape(-1, 1), "0d": np.array(True)}[f]
        return (lambda: MaskedArray(b, content, maskedwhen=c["mw"])), ok, [None if bool(q) == c["mw"] else d for q, d in zip(x, data)], n
    if k == "bit":
        ok = f == "np" and n >= -(-m // 8)
        b = np.array(x, dtype=np.uint8)
        if f == "2d":
            b = b.reshape(-1, 1)
        want = [None if bool((x[i // 8] >> (i % 8 if c["lsb"] else 7 - i % 8)) & 1) == c["mw"] else data[i] for i in range(m)] if ok else None
        return (lambda: BitMaskedArray(b, content, maskedwhen=c["mw"], lsborder=c["lsb"])), ok, want, m
    if k == "imask":
        ok = good and all(-1 <= q < m for q in x)
        return (lambda: IndexedMaskedArray(arr(x, f), content)), ok, [None if q == -1 else data[q] for q in x] if ok else None, n
    if k == "idx":
        if f == "2d":
            good = True
        ok = good and all(0 <= q < m for q in x)
        want = [[data[q]] if f == "2d" else data[q] for q in x] if ok else None
        return (lambda: IndexedArray(arr(x, f), content)), ok, want, n
    if k == "sparse":
        ok = good and c["len"] >= 0 and n <= m and all(q >= 0 for q in x) and all(a <= b for a, b in zip(x, x[1:]))
        want = None
        if ok:
            want = [0] * c["len"]
            for i in range(n - 1, -1, -1):
                if x[i] < c["len"]:
                    want[x[i]] = data[i]
        return (lambda: SparseArray(c["len"], arr(x, f), content)), ok, want, max(0, c["len"])
    if k == "union":
        y, ms, f2 = c["y"], c["ms"], c["f2"]
        ds = [[100 * t + i for i in range(q)] for t, q in enumerate(ms)]
        ok = good and f2 in GOOD and n >= 1 and n <= len(y) and all(0 <= t < len(ms) for t in x) and all(q >= 0 for q in y) and all(q < ms[t] for t, q in zip(x, y))
        want = [ds[t][q] for t, q in zip(x, y)] if ok else None
        return (lambda: UnionArray(arr(x, f), arr(y, f2), [np.array(d) for d in ds])), ok, want, n
    ms = c["ms"]
    ds = [[100 * t + i for i in range(q)] for t, q in enumerate(ms)]
    ok = n <= len(ms) and all(a == b for a, b in zip(x, ms))
    return (lambda: ChunkedArray([np.array(d, dtype=int) for d in ds], chunksizes=list(x))), ok, [q for d in ds for q in d], sum(ms)


def check_other(c):
    if c["k"] == "union" and c["f"] == "2d" and c["f2"] == "2d":
        return
    if c["k"] == "sparse" and len(set(c["x"])) != len(c["x"]):
        return   # repeated positions: which entry counts is not specified
    mk, ok, want, n = other(c)
    if c["k"] == "chunk" and n == 0 and not ok:
        # nothing to read: only the declared validity can be asked
        try:
            if mk().valid():
                raise Fail("valid() is true for chunk sizes that differ from the chunks")
        except BAD:
            pass
        return
    if n == 0 and not ok and c["k"] in ("sparse", "bit"):
        return
    decide(mk, ok, want, n, c["k"])


@bounded("C25", [A + f for f in ("masked.py:IndexedMaskedArray.maskedwhen", "jagged.py:JaggedArray.parents", "jagged.py:JaggedArray.counts", "jagged.py:JaggedArray.content", "masked.py:MaskedArray.copy", "indexed.py:IndexedArray.copy", "union.py:UnionArray.copy", "masked.py:MaskedArray.mask", "indexed.py:IndexedArray.index", "union.py:UnionArray.contents")],
         "histories: a consistent array is read, then one or two of its parts are replaced (by assignment or copy(part=...)) by a consistent or inconsistent one, then it is read again")
class histories(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(20000 if tier == "quick" else 200000):
            k = rng.choice(["jag", "jagparents", "jagcounts", "jagoffsets", "mask", "bit", "imask", "imaskwhen", "idx", "union", "sparse"])
            m = rng.randint(1, 5)
            yield {"k": k, "m": m, "m2": rng.choice([None, rng.randint(0, 6)]), "x": ints(rng, rng.randint(1, 4), 0, m), "y": ints(rng, rng.randint(1, 4), -1, m), "via": rng.choice(["set", "copy"]), "r": rng.randint(0, 10 ** 6)}

    @staticmethod
    def check(c):
        rng = random.Random(c["r"])
        k, m = c["k"], c["m"]
        m2 = m if c["m2"] is None else c["m2"]
        d2 = [500 + i for i in range(m2)]
        content, content2 = np.arange(100, 100 + m), np.array(d2, dtype=int)
        changes = {}
        if c["m2"] is not None:
            changes["content"] = content2
        data = d2 if c["m2"] is not None else list(range(100, 100 + m))
        x, y = c["x"], c["y"]
        if k.startswith("jag"):
            st = [min(v, m) for v in x]
            sp = [min(m, v + rng.randint(0, 2)) for v in st]
            base = lambda: JaggedArray(np.array(st), np.array(sp), content)
            if k == "jag":
                st2 = [abs(v) for v in y]
                sp2 = [v + rng.randint(0, 2) for v in st2]
                changes["starts"], changes["stops"] = np.array(st2), np.array(sp2)
            elif c["via"] == "copy":
                return
            elif k == "jagparents":
                p = sorted(y)
                changes["parents"] = np.array(p)
                n2 = max(p) + 1
                st2 = [p.index(i) if i in p else 0 for i in range(n2)]
                sp2 = [a + p.count(i) for i, a in enumerate(st2)]
            elif k == "jagcounts":
                cs = [abs(v) for v in y]
                changes["counts"] = np.array(cs)
                st2, sp2 = [sum(cs[:i]) for i in range(len(cs))], [sum(cs[:i + 1]) for i in range(len(cs))]
            else:
                o = sorted(abs(v) for v in y)
                changes["offsets"] = np.array(o)
                st2, sp2 = o[:-1], o[1:]
            ok = all(a == b or b <= m2 for a, b in zip(st2, sp2))
            want, n = [data[a:b] if a != b else [] for a, b in zip(st2, sp2)], len(st2)
        elif k == "mask":
            base = lambda: MaskedArray(np.zeros(m, dtype=bool), content)
            mk2 = [bool(v % 2) for v in y]
            changes["mask"] = np.array(mk2)
            ok, want, n = len(mk2) <= m2, [None if b else d for b, d in zip(mk2, data)], len(mk2)
        elif k == "bit":
            base = lambda: BitMaskedArray(np.zeros(1, dtype=np.uint8), content)
            changes["mask"] = np.zeros(rng.randint(0, 1), dtype=np.uint8)
            ok, want, n = m2 <= 8 * len(changes["mask"]), data, m2
        elif k in ("imask", "imaskwhen"):
            if k == "imask":
                base = lambda: IndexedMaskedArray(np.arange(m), content)
                changes["mask"] = np.array(y)
                ok, want, n = all(v < m2 for v in y), None, len(y)
                want = [None if v == -1 else data[v] for v in y] if ok else None
            else:
                x = [rng.choice([-1, 0]) for _ in range(3)]
                base = lambda: IndexedMaskedArray(np.array(x), content)
                changes["maskedwhen"] = rng.choice([-1, -2])
                ok, n = all(v < m2 and (v >= 0 or v == changes["maskedwhen"]) for v in x), 3
                want = [None if v == -1 else data[v] for v in x] if ok else None
        elif k == "idx":
            base = lambda: IndexedArray(np.arange(m), content)
            changes["index"] = np.array(y)
            ok, n = all(0 <= v < m2 for v in y), len(y)
            want = [data[v] for v in y] if ok else None
        elif k == "sparse":
            base = lambda: SparseArray(10, np.arange(m), content)
            y2 = sorted(set(y))
            changes["index"] = np.array(y2)
            ok, n = y2[0] >= 0 and len(y2) <= m2, 10
            want = [data[y2.index(i)] if i in y2 else 0 for i in range(10)] if ok else None
        else:
            base = lambda: UnionArray(np.zeros(m, dtype=int), np.arange(m), [content, np.arange(3)])
            changes = {}
            t = [v % 3 for v in y]
            if c["m2"] is not None:
                changes["contents"] = [content2, np.arange(3)]
            changes["tags"], changes["index"] = np.array(t), np.array([abs(v) for v in y])
            ds = [data, [0, 1, 2]]
            ok, n = all(a < 2 and abs(v) < len(ds[a]) for a, v in zip(t, y)), len(y)
            want = [ds[a][abs(v)] for a, v in zip(t, y)] if ok else None

        def mk():
            a = base()
            a.tolist()
            a.valid()
            if c["via"] == "copy":
                return a.copy(**changes)
            for p in sorted(changes, key=lambda p: (rng.random(), p)):
                setattr(a, p, changes[p])
            return a
        decide(mk, ok, want, n, "%s after %s of %s" % (k, c["via"], "/".join(sorted(changes))))
