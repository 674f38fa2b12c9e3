from .spec import *

J = "awkward0/array/jagged.py:JaggedArray."


@contract("C01", [J + "counts2offsets"])
def counts2offsets(v):
    n = v.int("n", 0)
    counts = v.array("counts", n, lo=0)
    v.reach()
    out = v.call(v.aw.JaggedArray.counts2offsets, counts)
    v.is1d(out, "offsets")
    v.ensure("length is len(counts)+1", out.n == n + 1)
    v.ensure("starts at zero", out.at(IV(0)) == 0)
    v.ensure_forall("each step is the count", lambda i: out.at(i + 1) == out.at(i) + counts.at(i), IV(0), n)
    v.ensure_unmodified()


@contract("C01", [J + "offsets2parents"])
def offsets2parents(v):
    n = v.int("n", 0)
    off = v.array("off", n + 1, lo=0)
    of = off.buf.fn
    v.assume_forall(lambda i: of(i) <= of(i + 1), IV(0), n)
    v.ctx.forall(lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= n), of(i) <= of(j)), 2, maxgen=2)
    v.reach()
    out = v.call(v.aw.JaggedArray.offsets2parents, off)
    v.is1d(out, "parents")
    v.ensure("one entry per content position up to the last offset", out.n == of(n))
    i, k = v.skolem("i"), v.skolem("k")
    v.ensure("position in list i has parent i", z3.Implies(z3.And(0 <= i, i < n, of(i) <= k, k < of(i + 1)), out.at(k) == i))
    v.ensure("position before the first list has parent -1", z3.Implies(z3.And(0 <= k, k < of(IV(0))), out.at(k) == -1))
    v.ensure_unmodified()


@contract("C01", [J + "startsstops2parents"])
def startsstops2parents(v):
    n = v.int("n", 1)
    starts, stops = v.array("starts", n, lo=0), v.array("stops", n, lo=0)
    sf, tf = starts.buf.fn, stops.buf.fn
    v.assume_forall(lambda i: sf(i) <= tf(i), IV(0), n)
    v.ctx.forall(lambda i, j: z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j, sf(i) < tf(i), sf(j) < tf(j)), z3.Or(tf(i) <= sf(j), tf(j) <= sf(i))), 2, maxgen=3, name="disjoint")
    v.reach()
    out = v.call(v.aw.JaggedArray.startsstops2parents, starts, stops)
    v.is1d(out, "parents")
    w = type("W", (), {})()
    w.n, w.start, w.stop = n, sf, tf
    v.ensure_parents("parents", out, w)
    v.ensure_unmodified()


def flags_ghost(v, eqf, n):
    """ghost: the run structure of a sequence p of length n>=0: r(k) = number of changes before position k"""
    fl = lambda t: z3.Not(eqf(t, t + 1))
    C, pos = positions(fl, simp(n - 1) if False else z3.If(n - 1 > 0, n - 1, IV(0)))
    return C, pos


@contract("C01", [J + "parents2startsstops"], open="one obligation (every position lies in its parent's range) is not discharged within budget; bounded stand-in only")
def parents2startsstops(v):
    n = v.int("n", 0)
    parents = v.array("parents", n, lo=-1)
    p = parents.buf.fn
    st, en = v.ctx.fun("st", Int, Int), v.ctx.fun("en", Int, Int)
    v.ctx.forall(lambda k: z3.Implies(z3.And(0 <= k, k < n, p(k) >= 0), z3.And(0 <= st(p(k)), st(p(k)) <= k, k < en(p(k)), en(p(k)) <= n)), 1, name="contiguous")
    v.ctx.forall(lambda i, k: z3.Implies(z3.And(0 <= i, st(i) <= k, k < en(i)), z3.And(0 <= k, k < n, p(k) == i)), 2, triggers=[[("st", 0, 1, None), ("en", 0, 1, None)], [("parents", 0, 1, None)]], maxgen=1, name="contiguous2")
    v.reach()
    starts, stops = v.call(v.aw.JaggedArray.parents2startsstops, parents)
    v.is1d(starts, "starts")
    v.is1d(stops, "stops")
    i, k = v.skolem("i"), v.skolem("k")
    # ghost: run index of a position; the parent value is constant inside a run
    nm1 = simp(z3.If(n - 1 >= 0, n - 1, IV(0)))
    for ps in list(v.ctx.prefixfuns):
        for key, val in list(v.ctx.cache.items()):
            if isinstance(key, tuple) and key[0] == "pos" and val[2] is ps:
                chg = lambda r, pos=val[0]: z3.If(r == 0, IV(0), pos(r - 1) + 1)
                induct(lambda t, ps=ps, chg=chg: z3.And(p(t) == p(chg(ps(t))), chg(ps(t)) <= t), IV(0), n - 1, "run")
                pk = p(k)
                v.touch(ps(k), ps(st(pk)), ps(k) + 1, ps(st(pk)) + 1, p(st(pk)), st(pk), p(en(pk) - 1), p(en(pk)), ps(en(pk) - 1), ps(en(pk)))
                v.touch(ps(st(i)), st(i), p(st(i)), ps(st(i) - 1), p(st(i) - 1), p(en(i)), ps(en(i) - 1), ps(en(i)))
    v.ensure("as many starts as stops", starts.n == stops.n)
    v.ensure("every position's parent is a list", z3.Implies(z3.And(0 <= k, k < n, p(k) >= 0), p(k) < starts.n))
    v.ensure("every position is in its parent's range", z3.Implies(z3.And(0 <= k, k < n, p(k) >= 0), z3.And(starts.at(p(k)) <= k, k < stops.at(p(k)))))
    v.ensure("ranges hold only their own positions", z3.Implies(z3.And(0 <= i, i < starts.n, starts.at(i) <= k, k < stops.at(i)), z3.And(0 <= k, k < n, p(k) == i)))
    v.ensure("ranges are not inverted", z3.Implies(z3.And(0 <= i, i < starts.n), z3.And(0 <= starts.at(i), starts.at(i) <= stops.at(i))))
    v.ensure_unmodified()


@contract("C01", [J + "uniques2offsetsparents"], open="link between the flag sum and the change positions is not discharged; bounded stand-in only")
def uniques2offsetsparents(v):
    n = v.int("n", 1)
    u = v.array("uniques", n)
    uf = u.buf.fn
    v.reach()
    off, par = v.call(v.aw.JaggedArray.uniques2offsetsparents, u)
    v.is1d(off, "offsets")
    v.is1d(par, "parents")
    L = simp(off.n - 1)
    v.ensure("offsets start at zero", off.at(IV(0)) == 0)
    v.ensure("offsets end at the length", off.at(L) == n)
    v.ensure("one parent per position", par.n == n)
    v.ensure_forall("no list is empty", lambda i: off.at(i) < off.at(i + 1), IV(0), L)
    k = v.skolem("k")
    v.ensure("parents step exactly where the value changes", z3.Implies(z3.And(0 <= k, k < n - 1), par.at(k + 1) == par.at(k) + z3.If(uf(k + 1) != uf(k), IV(1), IV(0))))
    v.ensure("parents start at zero", par.at(IV(0)) == 0)
    # parents and offsets describe the same structure
    off_, par_ = off.snapshot(), par.snapshot()
    induct(lambda t: z3.And(0 <= par_(t), par_(t) < L, off_(par_(t)) <= t, t < off_(par_(t) + 1)), IV(0), n - 1, "in-range")
    v.ensure("position lies in its parent's range", z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= par_(k), par_(k) < L, off_(par_(k)) <= k, k < off_(par_(k) + 1))))
    v.ensure_unmodified()


# ---- constructors and accessors (callers of the converters above)

@contract("C01", [J + "fromcounts", J + "__init__", J + "starts", J + "stops", J + "content"])
def fromcounts(v):
    n, m = v.int("n", 0), v.int("m", 0)
    counts, content = v.array("counts", n, lo=0), v.vals("content", m)
    v.reach()
    out = v.call(v.aw.JaggedArray.fromcounts, counts, content)
    w = JView(out)
    v.ensure("one list per count", w.n == n)
    v.ensure("no gap before the first list", z3.Implies(n > 0, w.start(IV(0)) == 0))
    v.ensure_forall("list i has counts[i] elements", lambda i: w.count(i) == counts.at(i), IV(0), n)
    v.ensure_forall("list i starts where list i-1 ends", lambda i: w.start(i) == w.stop(i - 1), IV(1), n)
    v.ensure("content is kept", out._content is content)
    v.ensure_caches("result", out, w)
    v.ensure_unmodified()


@contract("C01", [J + "fromoffsets", J + "__init__", J + "offsetsaliased"])
def fromoffsets(v):
    n, m = v.int("n", 0), v.int("m", 0)
    off, content = v.array("off", n + 1, lo=0), v.vals("content", m)
    v.reach()
    out = v.call(v.aw.JaggedArray.fromoffsets, off, content)
    w = JView(out)
    v.ensure("one list per offset but the last", w.n == n)
    v.ensure_forall("list i spans offsets[i]:offsets[i+1]", lambda i: z3.And(w.start(i) == off.at(i), w.stop(i) == off.at(i + 1)), IV(0), n)
    v.ensure_caches("result", out, w)
    v.ensure_unmodified()


@contract("C01", [J + "fromoffsets"])
def fromoffsets_empty(v):
    m = v.int("m", 0)
    off, content = v.array("off", 0), v.vals("content", m)
    v.reach()
    v.call(v.aw.JaggedArray.fromoffsets, off, content, raises={ValueError: True})


def getter(kind):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        v.reach()
        c = v.call(lambda: j.counts, label="counts")
        v.ensure_array("counts", c, w.n, w.count)
        v.ensure("the cache is what was returned", j._counts is c)
        v.ensure_unmodified()
    return body


for _k in ("startsstops", "longstops", "offsets"):
    _f = getter(_k)
    _f.__name__ = "counts_of_" + _k
    contract("C01", [J + "counts", J + "stops", J + "_valid", J + "_validstartsstops"])(_f)


@contract("C01", [J + "offsets", J + "_valid", J + "offsetsaliased"])
def offsets_of_offsets(v):
    j, w = v.jagged("j", kind="offsets")
    v.reach()
    o = v.call(lambda: j.offsets, label="offsets")
    v.is1d(o, "offsets")
    v.ensure("length", o.n == w.n + 1)
    v.ensure_forall("values", lambda i: z3.And(o.at(i) == w.start(i), o.at(i + 1) == w.stop(i)), IV(0), w.n)
    v.ensure_unmodified()


@contract("C01", [J + "offsets", J + "_valid", J + "_validstartsstops"])
def offsets_of_startsstops(v):
    j, w = v.jagged("j", kind="longstops")
    bad = v.skolem("bad")
    chained = v.ctx.bool("chained")
    # ghost: `chained` says that every list starts where the previous one stops; `bad` witnesses its failure
    v.assume(z3.Implies(z3.Not(chained), z3.And(0 < bad, bad < w.n, w.start(bad) != w.stop(bad - 1))))
    v.assume_forall(lambda i: z3.Implies(chained, w.start(i) == w.stop(i - 1)), IV(1), w.n)
    v.reach()
    o = v.call(lambda: j.offsets, label="offsets", raises={ValueError: z3.Not(chained)})
    v.is1d(o, "offsets")
    v.ensure("length", o.n == w.n + 1)
    v.ensure("no list: the offset is zero", z3.Implies(w.n == 0, o.at(IV(0)) == 0))
    v.ensure_forall("values", lambda i: z3.And(o.at(i) == w.start(i), o.at(i + 1) == w.stop(i)), IV(0), w.n)
    v.ensure_unmodified()


@contract("C01", [J + "parents", J + "_canuseoffset", J + "offsets2parents"])
def parents_of_offsets(v):
    j, w = v.jagged("j", kind="offsets")
    v.reach()
    p = v.call(lambda: j.parents, label="parents")
    v.is1d(p, "parents")
    v.ensure_parents("parents", p, w)
    v.ensure_unmodified()


@contract("C01", [J + "parents", J + "_canuseoffset", J + "startsstops2parents"])
def parents_of_startsstops(v):
    j, w = v.jagged("j", kind="startsstops", disjoint=True)
    v.reach()
    p = v.call(lambda: j.parents, label="parents")
    v.is1d(p, "parents")
    v.ensure_parents("parents", p, w)
    v.ensure_unmodified()


def localindex(kind):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        v.reach()
        v.ghost_threshold(w.start(IV(0)))
        out = v.call(lambda: j.localindex, label="localindex")
        i, k = v.skolem("i"), v.skolem("k")
        v.ghost_segment(i, k)
        v.touch(w.start(i) + k, w.start(i) + k - w.start(IV(0)))
        v.ensure_jagged("localindex", out, w.n, w.count, lambda i, k: k)
        v.ensure_unmodified()
    return body


for _k in ("startsstops", "longstops", "offsets"):
    _f = localindex(_k)
    _f.__name__ = "localindex_of_" + _k
    contract("C01", [J + "localindex", J + "counts2offsets"])(_f)


def setter(kind, how):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        j.counts    # fill the caches so that a stale one would be visible
        try:
            if how != "counts":
                j.offsets
        except ValueError:
            pass
        n2 = v.int("n2", 0)
        if how == "counts":
            c = v.array("c", n2, lo=0)
            v.reach()
            v.call(lambda: setattr(j, "counts", c), label="counts.setter")
            w2 = JView(j)
            v.ensure("list count", w2.n == n2)
            v.ensure_forall("counts", lambda i: w2.count(i) == c.at(i), IV(0), n2)
            v.ensure("first list starts at zero", z3.Implies(n2 > 0, w2.start(IV(0)) == 0))
            v.ensure_forall("contiguous", lambda i: w2.start(i) == w2.stop(i - 1), IV(1), n2)
        elif how == "offsets":
            o = v.array("o", n2 + 1, lo=0)
            v.reach()
            v.call(lambda: setattr(j, "offsets", o), label="offsets.setter")
            w2 = JView(j)
            v.ensure("list count", w2.n == n2)
            v.ensure_forall("ranges", lambda i: z3.And(w2.start(i) == o.at(i), w2.stop(i) == o.at(i + 1)), IV(0), n2)
        else:
            a = v.array("a", n2 if how == "starts" else w.n, lo=0)
            v.reach()
            v.call(lambda: setattr(j, how, a), label=how + ".setter")
            w2 = JView(j)
            got = w2.start if how == "starts" else w2.stop
            v.ensure_forall("the given part is stored", lambda i: got(i) == a.at(i), IV(0), a.n)
            v.ensure("caches are dropped", j._offsets is None and j._counts is None and j._parents is None)
        v.ensure_caches("after assignment", j, w2)
        v.ensure("validity is asked again", j._isvalid is False)
        v.ensure_unmodified()
    return body


for _k in ("startsstops", "offsets"):
    for _h in ("counts", "offsets", "starts", "stops"):
        _f = setter(_k, _h)
        _f.__name__ = "set_%s_on_%s" % (_h, _k)
        contract("C01", [J + _h])(_f)


@contract("C01", [J + "fromfolding", J + "fromoffsets"], arith=6)
def fromfolding(v):
    m, s = v.int("m", 0), v.int("size", 1)
    content = v.vals("content", m)
    v.reach()
    out = v.call(v.aw.JaggedArray.fromfolding, content, SymInt(s))
    w = JView(out)
    v.ensure("as many lists as needed", z3.And((w.n - 1) * s < m, m <= w.n * s))
    v.ensure_forall("list i covers the next size elements", lambda i: z3.And(w.start(i) == i * s, w.stop(i) == z3.If((i + 1) * s < m, (i + 1) * s, m)), IV(0), w.n)
    v.ensure_unmodified()


@contract("C01", [J + "fromlocalindex"])
def fromlocalindex(v):
    m = v.int("m", 0)
    li, content = v.array("li", m, lo=0), v.vals("content", m)
    lf = li.buf.fn
    v.assume(z3.Implies(m > 0, lf(IV(0)) == 0))
    v.assume_forall(lambda k: z3.Or(lf(k) == 0, lf(k) == lf(k - 1) + 1), IV(1), m)
    v.reach()
    out = v.call(v.aw.JaggedArray.fromlocalindex, li, content)
    w = JView(out)
    v.ensure_forall("every list starts at a zero of the local index", lambda i: lf(w.start(i)) == 0, IV(0), w.n)
    v.ensure("lists begin at position zero", z3.Implies(m > 0, w.start(IV(0)) == 0))
    v.ensure_forall("lists are contiguous", lambda i: w.stop(i) == w.start(i + 1), IV(0), w.n - 1)
    v.ensure("lists end at the end of the content", z3.Implies(m > 0, z3.And(w.n > 0, w.stop(w.n - 1) == m)))
    i, k = v.skolem("i"), v.skolem("k")
    v.ghost_positions(k, i, i + 1)
    v.ensure("no zero inside a list", z3.Implies(z3.And(0 <= i, i < w.n, w.start(i) < k, k < w.stop(i)), lf(k) != 0))
    v.ensure_unmodified()
