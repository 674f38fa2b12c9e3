from .spec import *

J = "awkward0/array/jagged.py:JaggedArray."
G = [J + "__getitem__", J + "_valid", J + "copy", J + "stops"]


def column(kind):
    """j[:, k]"""
    def body(v):
        j, w = v.jagged("j", kind=kind)
        k = v.int("k")
        bad, fits = v.skolem("bad"), v.ctx.bool("fits")
        v.assume_forall(lambda i: z3.Implies(fits, z3.And(-w.count(i) <= k, k < w.count(i))), IV(0), w.n)
        v.assume(z3.Implies(z3.Not(fits), z3.And(0 <= bad, bad < w.n, z3.Or(k < -w.count(bad), k >= w.count(bad)))))
        v.touch(w.start(bad), w.stop(bad))
        v.reach()
        out = v.call(lambda: j[:, SymInt(k)], label="getitem", raises={IndexError: z3.Not(fits)})
        v.ensure_array("one element per list", out, w.n, lambda i: w.item(i, wrap(k, w.count(i))))
        v.ensure_unmodified()
    return body


def rowlemma(v, sp, c):
    """lemma: the number of selected cells of row i left of column j, by induction on j.
    The code lays each list's positions out along one row, from some extreme position e on, in steps of +-1, and marks
    those in the slice; (first, length) of row i is given by sp(i)."""
    s = abs(c)

    def hook(D, mf, n, m):
        ctx = v.ctx
        for e in reversed(getattr(ctx, "extrema", [])):
            def F(i, j):
                first, length = sp(i)
                q = (j + e - first) if c > 0 else (j - e + first)
                r = (q + s - 1) / IV(s)
                return z3.If(q <= 0, IV(0), z3.If(r > length, length, r))
            i, j = ctx.int("row"), ctx.int("colj")
            inside = z3.And(0 <= i, i < n)
            if not ctx.entails(z3.Implies(inside, F(i, IV(0)) == 0), 2, 15000):
                continue
            if not ctx.entails(z3.Implies(z3.And(inside, 0 <= j, j < m), F(i, j + 1) == F(i, j) + z3.If(mf(i, j), IV(1), IV(0))), 3, 20000):
                continue
            ctx.report.lemmas += 1
            ctx.forall_apps([D.name()], lambda i, j: z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j <= m), D(i, j) == F(i, j)), name="rowlemma")
            found.append((D, n, m, e))
            return
    found = []
    v.ctx.rowcount_hook = hook

    def cells(w):
        """lemma: the r-th selected cell of row i is the one holding position first + r*c"""
        ctx = v.ctx
        v.on_index = lambda i: [w.start(i), w.stop(i)] + [t for D, n, m, e in found for t in (D(i, m), D(i, IV(0)))]
        for D, n, m, e in found:
            if ("col", D.name()) not in ctx.cache:
                continue
            col = ctx.cache[("col", D.name())][0]
            i, r = ctx.int("rowc"), ctx.int("r")

            def fact(i, r):
                first, length = sp(i)
                x = first + r * c
                return z3.Implies(z3.And(0 <= i, i < n, 0 <= r, r < length), col(i, r) == (x - e if c > 0 else e - x))
            if ctx.entails(fact(i, r), 3, 15000):
                ctx.report.lemmas += 1
                ctx.forall_apps([col.name()], fact, name="cell")
    return cells


def inner(kind, form, step):
    """j[:, a:b:c] is list[a:b:c] for every list"""
    def body(v):
        j, w = v.jagged("j", kind=kind)
        s, a, b, c = symslice(v, form, step)
        v.reach()
        sp = lambda i: pyslice(w.count(i), a, b, c)
        cc = IV(1) if c is None else c
        v.segments = True
        cells = rowlemma(v, sp, 1 if step is None else step)
        out = v.call(lambda: j[:, s], label="getitem")
        cells(w)
        v.ensure_jagged("the slices", out, w.n, lambda i: sp(i)[1], lambda i, k: w.item(i, sp(i)[0] + k * cc))
        v.ensure_unmodified()
    return body


def perlist(kind):
    """j[rows, ks]: element ks[i] of list rows[i]"""
    def body(v):
        j, w = v.jagged("j", kind=kind)
        m = v.int("m", 0)
        rows, ks = v.array("rows", m), v.array("ks", m)
        r, kf = rows.buf.fn, ks.buf.fn
        bad, inside = v.skolem("bad"), v.ctx.bool("inside")
        ok = lambda i: z3.And(-w.n <= r(i), r(i) < w.n, -w.count(wrap(r(i), w.n)) <= kf(i), kf(i) < w.count(wrap(r(i), w.n)))
        v.assume_forall(lambda i: z3.Implies(inside, ok(i)), IV(0), m)
        v.assume(z3.Implies(z3.Not(inside), z3.And(0 <= bad, bad < m, z3.Not(ok(bad)))))
        v.touch(w.start(wrap(r(bad), w.n)), w.stop(wrap(r(bad), w.n)), w.start(r(bad)), w.start(r(bad) + w.n), w.stop(r(bad)), w.stop(r(bad) + w.n))
        v.reach()
        out = v.call(lambda: j[rows, ks], label="getitem", raises={IndexError: z3.Not(inside)})
        g = lambda i: wrap(r(i), w.n)
        v.ensure_array("one element per row", out, m, lambda i: w.item(g(i), wrap(kf(i), w.count(g(i)))))
        v.ensure_unmodified()
    return body


def element(kind):
    """j[i, k]"""
    def body(v):
        j, w = v.jagged("j", kind=kind)
        i, k = v.int("i"), v.int("k")
        g = wrap(i, w.n)
        bad = z3.Or(i < -w.n, i >= w.n, k < -w.count(g), k >= w.count(g))
        v.touch(w.start(g), w.stop(g))
        v.reach()
        out = v.call(lambda: j[SymInt(i), SymInt(k)], label="getitem", raises={IndexError: bad})
        v.ensure("the element", I_or_val(out) == w.item(g, wrap(k, w.count(g))))
        v.ensure_unmodified()
    return body


def I_or_val(x):
    if isinstance(x, SymArray):
        return x.at()
    return x.e


QUICK = {"inner_ab_startsstops", "inner_a_offsets", "inner_reverse_offsets", "inner_every2_offsets", "inner_reverse_longstops", "perlist_startsstops", "perlist_longstops"}
for _k in KINDS:
    contract("C03", G)(named("column_" + _k, column(_k)))
    contract("C03", G)(named("element_" + _k, element(_k)))
    _n = "perlist_" + _k
    contract("C03", G, tier="quick" if _n in QUICK else "thorough", budget=400)(named(_n, perlist(_k)))
    for _n, _f, _s in [("inner_ab_", "ab", None), ("inner_a_", "a", None), ("inner_b_", "b", None), ("inner_astep_", "a", -1), ("inner_bstep_", "b", -1), ("inner_reverse_", "", -1),
                       ("inner_every2_", "", 2), ("inner_every2back_", "", -2), ("inner_every3_", "", 3), ("inner_step-1_", "ab", -1), ("inner_step2_", "ab", 2), ("inner_step-2_", "ab", -2)]:
        _n += _k
        _q = _n in QUICK or (_k == "startsstops" and "step-" not in _n and "step2" not in _n)
        contract("C03", G, tier="quick" if _q else "thorough", budget=600, cost=5 if "_ab" in _n else 3)(named(_n, inner(_k, _f, _s)))
