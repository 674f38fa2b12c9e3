"""every structure is accepted exactly when it is consistent: construction, or the first use after construction or assignment, raises otherwise"""
from .spec import *

A = "awkward0/array/"
J = A + "jagged.py:JaggedArray."


class Consistent(object):
    """consistent: every condition holds at every index; otherwise one of them fails at some index (Skolem constants)"""

    def __init__(self, v):
        self.v, self.ok, self.bad = v, v.ctx.bool("consistent"), []
        self.at = []

    def plain(self, f):
        self.v.assume(z3.Implies(self.ok, f))
        self.bad.append(z3.Not(f))

    def forall(self, fn, lo, hi):
        k = self.v.skolem("bad")
        self.v.assume_forall(lambda i: z3.Implies(self.ok, fn(i)), lo, hi)
        self.bad.append(z3.And(lo <= k, k < hi, z3.Not(fn(k))))
        self.v.touch(k)
        self.at.append(k)

    def ghost(self):
        """ghost (after the code): where the failing index went in every selection the code made"""
        self.v.ghost_positions(*self.at)

    def inconsistent(self):
        self.v.assume(z3.Implies(z3.Not(self.ok), z3.Or(*self.bad)))
        return z3.Not(self.ok)


def jagged_condition(v, sf, tf, n, ns, m, ranges=True):
    c = Consistent(v)
    c.plain(n <= ns)
    c.forall(lambda i: sf(i) >= 0, IV(0), n)
    c.forall(lambda i: tf(i) >= 0, IV(0), ns)
    c.forall(lambda i: z3.Implies(i < ns, tf(i) >= sf(i)), IV(0), n)
    c.forall(lambda i: z3.Implies(z3.And(i < ns, sf(i) != tf(i)), tf(i) <= m), IV(0), n)
    return c


@contract("C25", [J + "__init__", J + "starts", J + "stops", J + "content", J + "_valid", J + "_validstartsstops"])
def jagged_startsstops(v):
    n, ns, m = v.int("n", 0), v.int("ns", 0), v.int("m", 0)
    starts, stops, content = v.array("starts", n), v.array("stops", ns), v.vals("content", m)
    c = jagged_condition(v, starts.buf.fn, stops.buf.fn, n, ns, m)
    bad = c.inconsistent()
    v.reach()

    def use():
        a = v.aw.JaggedArray(starts, stops, content)
        a._valid()
        c.ghost()
        return a
    a = v.call(use, label="JaggedArray(starts, stops, content) and its first use", raises={ValueError: bad})
    v.ensure("marked valid only when it is", z3.Implies(bool(a._isvalid), c.ok) if isinstance(a._isvalid, bool) else z3.BoolVal(False))
    v.ensure_unmodified()


def reassigned(which):
    """a validated array, one of whose parts is replaced: validity is decided again"""
    def body(v):
        a, w = v.jagged("j", kind="longstops")
        a._isvalid = True
        n, ns, m = w.n, I(vp_len(a._stops)), w.m
        sf, tf = w.start, a._stops.snapshot()
        if which == "starts":
            n = v.int("n2", 0)
            new = v.array("new", n)
            sf = new.buf.fn
        elif which == "stops":
            ns = v.int("n2", 0)
            new = v.array("new", ns)
            tf = new.buf.fn
        else:
            m = v.int("n2", 0)
            new = v.vals("new", m)
        c = jagged_condition(v, sf, tf, n, ns, m)
        bad = c.inconsistent()
        v.reach()

        def use():
            setattr(a, which, new)
            a._valid()
            c.ghost()
        v.call(use, label="assigning %s and the next use" % which, raises={ValueError: bad})
        v.ensure("the part is the one assigned", getattr(a, "_" + which) is new)
    return body


for _w in ("starts", "stops", "content"):
    contract("C25", [J + _w, J + "_valid", J + "_validstartsstops"])(named("reassign_jagged_" + _w, reassigned(_w)))


@contract("C25", [J + "fromoffsets", J + "offsets", J + "_valid"])
def jagged_offsets(v):
    n, m = v.int("n", 0), v.int("m", 0)
    off, content = v.array("offsets", n), v.vals("content", m)
    f = off.buf.fn
    c = Consistent(v)
    c.plain(n >= 1)
    c.forall(lambda i: f(i) >= 0, IV(0), n)
    c.forall(lambda i: f(i) <= f(i + 1), IV(0), n - 1)
    # positions beyond the content are allowed only where no list reaches them
    c.plain(z3.Or(f(IV(0)) == f(n - 1), f(n - 1) <= m))
    v.ctx.forall(lambda i, j: z3.Implies(z3.And(c.ok, 0 <= i, i <= j, j < n), f(i) <= f(j)), 2, maxgen=2, name="offsets monotone (transitive)")
    bad = c.inconsistent()
    v.reach()

    def use():
        a = v.aw.JaggedArray.fromoffsets(off, content)
        a._valid()
        return a
    v.call(use, label="fromoffsets and its first use", raises={ValueError: bad})
    v.ensure_unmodified()


@contract("C25", [J + "fromcounts", J + "counts2offsets"])
def jagged_counts(v):
    n, m = v.int("n", 0), v.int("m", 0)
    cnt, content = v.array("counts", n), v.vals("content", m)
    f = cnt.buf.fn
    c = Consistent(v)
    c.forall(lambda i: f(i) >= 0, IV(0), n)
    bad = c.inconsistent()
    v.reach()
    # a total beyond the content is refused on use (contract jagged_offsets)
    v.call(lambda: v.aw.JaggedArray.fromcounts(cnt, content), label="fromcounts", raises={ValueError: bad})
    v.ensure_unmodified()


@contract("C25", [A + "indexed.py:IndexedArray." + f for f in ("__init__", "index", "content", "_valid")])
def indexed_first_use(v):
    n, m = v.int("n", 0), v.int("m", 0)
    index, content = v.array("index", n), v.vals("content", m)
    f = index.buf.fn
    c = Consistent(v)
    c.forall(lambda i: z3.And(0 <= f(i), f(i) < m), IV(0), n)
    bad = c.inconsistent()
    v.reach()

    def use():
        a = v.aw.IndexedArray(index, content)
        a._valid()
    v.call(use, label="IndexedArray and its first use", raises={ValueError: bad})
    v.ensure_unmodified()


def reindexed(which):
    def body(v):
        n, m = v.int("n", 0), v.int("m", 0)
        index, content = v.array("index", n, lo=0), v.vals("content", m)
        v.assume_forall(lambda i, f=index.buf.fn: f(i) < m, IV(0), n)
        a = v.call(lambda: v.aw.IndexedArray(index, content), label="IndexedArray")
        a._isvalid = True
        if which == "index":
            n = v.int("n2", 0)
            new = index = v.array("new", n)
        else:
            m = v.int("m2", 0)
            new = v.vals("new", m)
        f = index.buf.fn
        c = Consistent(v)
        c.forall(lambda i: z3.And(0 <= f(i), f(i) < m), IV(0), n)
        bad = c.inconsistent()
        v.reach()

        def use():
            setattr(a, which, new)
            a._valid()
            c.ghost()
        v.call(use, label="assigning %s and the next use" % which, raises={ValueError: bad})
    return body


for _w in ("index", "content"):
    contract("C25", [A + "indexed.py:IndexedArray." + f for f in (_w, "_valid")])(named("reassign_indexed_" + _w, reindexed(_w)))


@contract("C25", [A + "indexed.py:SparseArray." + f for f in ("__init__", "index", "content", "_valid")])
def sparse_first_use(v):
    n, m, L = v.int("n", 0), v.int("m", 0), v.int("length", 0)
    index, content = v.array("index", n), v.vals("content", m)
    f = index.buf.fn
    c = Consistent(v)
    c.plain(n <= m)
    c.forall(lambda i: f(i) >= 0, IV(0), n)
    c.forall(lambda i: f(i) <= f(i + 1), IV(0), n - 1)
    bad = c.inconsistent()
    v.reach()

    def use():
        a = v.aw.SparseArray(SymInt(L), index, content)
        a._valid()
    v.call(use, label="SparseArray and its first use", raises={ValueError: bad})
    v.ensure_unmodified()


@contract("C25", [A + "masked.py:MaskedArray." + f for f in ("__init__", "mask", "content", "_valid")])
def masked_first_use(v):
    n, m = v.int("n", 0), v.int("m", 0)
    mask, content = v.bools("mask", n), v.vals("content", m)
    v.reach()

    def use():
        a = v.aw.MaskedArray(mask, content)
        a._valid()
        return a
    a = v.call(use, label="MaskedArray and its first use", raises={ValueError: n > m})
    m2 = v.int("m2", 0)
    new = v.vals("new", m2)

    def reuse():
        a.content = new
        a._valid()
    v.call(reuse, label="assigning content and the next use", raises={ValueError: n > m2})
    v.ensure_unmodified()


@contract("C25", [A + "masked.py:IndexedMaskedArray." + f for f in ("__init__", "mask", "content", "maskedwhen", "_valid")])
def indexedmasked_first_use(v):
    n, m, w = v.int("n", 0), v.int("m", 0), v.int("maskedwhen")
    mask, content = v.array("mask", n), v.vals("content", m)
    f = mask.buf.fn
    v.assume(w < 0)
    c = Consistent(v)
    c.forall(lambda i: z3.Or(f(i) == w, z3.And(0 <= f(i), f(i) < m)), IV(0), n)
    bad = c.inconsistent()
    v.reach()

    def use():
        a = v.aw.IndexedMaskedArray(mask, content, maskedwhen=SymInt(w))
        a._valid()
        c.ghost()
    v.call(use, label="IndexedMaskedArray and its first use", raises={ValueError: bad})
    v.ensure_unmodified()


@contract("C25", [A + "masked.py:IndexedMaskedArray." + f for f in ("maskedwhen", "_valid")])
def indexedmasked_new_maskedwhen(v):
    n, m, w = v.int("n", 0), v.int("m", 0), v.int("maskedwhen")
    mask, content = v.array("mask", n), v.vals("content", m)
    f = mask.buf.fn
    v.assume_forall(lambda i: z3.Or(f(i) == -1, z3.And(0 <= f(i), f(i) < m)), IV(0), n)
    v.assume(w < 0)
    a = v.call(lambda: v.aw.IndexedMaskedArray(mask, content, maskedwhen=-1), label="IndexedMaskedArray")
    v.call(lambda: a._valid(), label="first use")
    c = Consistent(v)
    c.forall(lambda i: z3.Or(f(i) == w, z3.And(0 <= f(i), f(i) < m)), IV(0), n)
    bad = c.inconsistent()
    v.reach()

    def use():
        a.maskedwhen = SymInt(w)
        a._valid()
        c.ghost()
    v.call(use, label="assigning maskedwhen and the next use", raises={ValueError: bad})


def union(k):
    def body(v):
        n, nx = v.int("n", 0), v.int("nx", 0)
        tags, index = v.array("tags", n), v.array("index", nx)
        ms = [v.int("m%d" % i, 0) for i in range(k)]
        contents = [v.vals("content%d" % i, m) for i, m in enumerate(ms)]
        t, x = tags.buf.fn, index.buf.fn
        v.assume_forall(lambda i: t(i) < 128, IV(0), n)      # tags that fit int8; wider tag types keep their values (bounded)
        c = Consistent(v)
        c.plain(z3.And(n >= 1, n <= nx))
        c.forall(lambda i: z3.And(0 <= t(i), t(i) < k), IV(0), n)
        c.forall(lambda i: x(i) >= 0, IV(0), nx)
        c.forall(lambda i: z3.Implies(i < nx, z3.And(*[z3.Implies(t(i) == j, x(i) < m) for j, m in enumerate(ms)])), IV(0), n)
        bad = c.inconsistent()
        v.reach()

        def use():
            a = v.aw.UnionArray(tags, index, contents)
            a._valid()
            c.ghost()
        v.call(use, label="UnionArray and its first use", raises={ValueError: bad})
        v.ensure_unmodified()
    return body


for _k in (1, 2, 3):
    contract("C25", [A + "union.py:UnionArray." + f for f in ("__init__", "tags", "index", "contents", "_valid")])(named("union%d_first_use" % _k, union(_k)))
