"""callee contracts used in place of callee bodies: precondition proved at the call, postcondition assumed.
Each is discharged against the callee's own body by the contract named in `by`."""
from .spec import *
from engine.sym import entails_forall, owner, ensure_monotone


def startsstops2parents(v):
    JA = v.aw.JaggedArray

    def stub(cls, starts, stops):
        if starts.ndim != 1 or stops.ndim != 1:
            raise Unsupported("multidimensional starts")
        n = I(vp_len(starts))
        sf, tf = starts.snapshot(), stops.snapshot()
        c = v.ctx
        v.ensure("call startsstops2parents: at least one list, a stop for each", z3.And(n >= 1, I(vp_len(stops)) == n), kind="pre")
        v.ensure_forall("call startsstops2parents: ranges ordered and non-negative", lambda i: z3.And(0 <= sf(i), sf(i) <= tf(i)), IV(0), n)
        i, j = v.skolem("i"), v.skolem("j")
        v.ensure("call startsstops2parents: ranges disjoint", z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j, sf(i) < tf(i), sf(j) < tf(j)), z3.Or(tf(i) <= sf(j), tf(j) <= sf(i))), kind="pre")
        p, L, last = c.fun("parents", Int, Int), c.int("parents_n"), c.int("last")
        v.assume(z3.And(0 <= last, last < n, L == tf(last)))
        v.assume_forall(lambda i: tf(i) <= L, IV(0), n, name="parents cover")
        v.assume_forall(lambda k: z3.And(p(k) >= -1, p(k) < n, z3.Implies(p(k) >= 0, z3.And(sf(p(k)) <= k, k < tf(p(k))))), IV(0), L, name="parents sound")
        c.forall(lambda i, k: z3.Implies(z3.And(0 <= i, i < n, sf(i) <= k, k < tf(i)), p(k) == i), 2, maxgen=3, name="parents complete",
                 triggers=[[("$idx", 0, 1, None)], [(p.name(), 0, 1, None)]])
        return SymArray([L], lambda k: p(k), INT64, Int)
    v.patch(JA, "startsstops2parents", classmethod(stub), by="C01:startsstops2parents")


def tojagged(v):
    """JaggedArray._tojagged(starts, stops): the same lists stored at the given (disjoint) ranges"""
    JA = v.aw.JaggedArray
    real = JA._tojagged

    def stub(self, starts=None, stops=None, copy=True):
        if starts is None or stops is None or not isinstance(starts, SymArray) or not isinstance(stops, SymArray):
            return real(self, starts, stops, copy)
        if starts.ndim != 1 or stops.ndim != 1 or not isinstance(self._content, SymArray) or self._content.ndim != 1:
            raise Unsupported("_tojagged outside the stubbed contract")
        c = v.ctx
        w = JView(self)
        n = I(vp_len(starts))
        sf, tf = starts.snapshot(), stops.snapshot()
        ns = I(vp_len(stops))
        if not SymBool(ns == n):
            raise Unsupported("_tojagged with surplus stops")
        same = c.bool("samecounts")
        bad = v.skolem("bad")
        v.assume_forall(lambda i: z3.Implies(same, tf(i) - sf(i) == w.count(i)), IV(0), n, name="same counts")
        v.assume(z3.Implies(z3.Not(same), z3.Or(n != w.n, z3.And(0 <= bad, bad < n, tf(bad) - sf(bad) != w.count(bad)))))
        v.assume(z3.Implies(same, n == w.n))
        if not SymBool(same):
            e = ValueError("cannot fit contents of JaggedArray into the given starts and stops arrays")
            e._modelled = True
            raise e
        v.ensure_forall("call _tojagged: ranges ordered and non-negative", lambda i: z3.And(0 <= sf(i), sf(i) <= tf(i)), IV(0), n)
        i, j = v.skolem("i"), v.skolem("j")
        k = c.int("gen")
        contiguous = c.entails(z3.Implies(z3.And(0 <= k, k < n - 1), sf(k + 1) == tf(k)), 1)
        if contiguous:     # contiguous lists are in order
            for a in (i, j):
                c.inst.scan(z3.And(sf(a) >= 0, tf(a) >= 0), 0)
                induct(lambda t, a=a: z3.Implies(0 <= a, tf(a) <= sf(simp(a + 1 + t))), IV(0), n - 2 - a, "in order")
        v.touch(simp(j - 1 - i), simp(i - 1 - j))
        v.ensure("call _tojagged: ranges disjoint", z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j, sf(i) < tf(i), sf(j) < tf(j)), z3.Or(tf(i) <= sf(j), tf(j) <= sf(i))), kind="pre")
        src = self._content
        m, f, kept, last = c.int("relaid_m"), c.fun("relaid", Int, src.sort), c.bool("kept"), c.int("last")
        v.assume(m >= 0)
        v.assume(z3.Implies(kept, m == w.m))
        v.assume_forall(lambda i: z3.Implies(kept, z3.And(sf(i) == w.start(i), tf(i) == w.stop(i))), IV(0), n, name="kept")
        c.forall(lambda t: z3.Implies(kept, f(t) == w.celem(t)), 1, name="kept content", triggers=[[(f.name(), 0, 1, None)]])
        v.assume(z3.Implies(z3.Not(kept), z3.Or(n == 0, z3.And(w.m == 0, m == 0), z3.And(0 <= last, last < n, m == tf(last)))))
        v.assume_forall(lambda i: z3.Implies(z3.And(z3.Not(kept), w.m != 0), tf(i) <= m), IV(0), n, name="all inside")
        v.assume_forall(lambda i: z3.Implies(sf(i) != tf(i), tf(i) <= m), IV(0), n, name="relaid inside")
        c.forall(lambda i, t: z3.Implies(z3.And(0 <= i, i < n, sf(i) <= t, t < tf(i)), f(t) == w.celem(w.start(i) + t - sf(i))), 2, maxgen=3, name="relaid items")
        own = v.owner_of(sf, tf, n)
        if own is not None:     # the same, seen from a position (a consequence of the previous one and of the ranges being contiguous)
            c.forall(lambda t: z3.Implies(z3.And(n >= 1, 0 <= t, t < tf(n - 1)), f(t) == w.celem(w.start(own(t)) + t - sf(own(t)))), 1, triggers=[[(f.name(), 0, 1, None)]], name="relaid positions")
        for i, k in v.points:
            v.touch(sf(i), tf(i), f(simp(sf(i) + k)))
        # lemma where the target is contiguous: once something was listed, the lists end inside the content
        induct(lambda t: z3.Implies(z3.And(t >= 1, sf(IV(0)) < tf(t - 1)), tf(t - 1) <= m), IV(0), n, "ends inside")
        if contiguous:
            induct(lambda t: z3.And(sf(IV(0)) <= tf(t), z3.Implies(tf(t) != sf(IV(0)), tf(t) <= m)), IV(0), n - 1, "ends inside")
        content = SymArray([m], lambda t: f(t), src.dtype, src.sort)
        content.buf.frozen = True     # it may be the content of an input
        out = self.copy(content=content)
        out._starts, out._stops = starts, stops
        out._offsets = out._counts = out._parents = None
        out._isvalid = False
        return out
    v.patch(JA, "_tojagged", stub, by="C05:relayout_*")


def offsets2parents(v):
    JA = v.aw.JaggedArray

    def stub(cls, offsets):
        if not isinstance(offsets, SymArray) or offsets.ndim != 1:
            raise Unsupported("offsets2parents outside the stubbed contract")
        c = v.ctx
        n1 = I(vp_len(offsets))
        n = simp(n1 - 1)
        of = offsets.snapshot()
        v.ensure("call offsets2parents: at least one offset, none negative", z3.And(n1 >= 1, of(IV(0)) >= 0), kind="pre")
        v.ensure_forall("call offsets2parents: offsets increasing", lambda i: of(i) <= of(i + 1), IV(0), n)
        p = c.fun("parents", Int, Int)
        L = of(n)
        induct(lambda i: z3.And(of(IV(0)) <= of(i)), IV(0), n, "offsets from the first")
        v.assume_forall(lambda k: z3.And(p(k) >= -1, p(k) < n, z3.If(p(k) >= 0, z3.And(of(p(k)) <= k, k < of(p(k) + 1)), k < of(IV(0)))), IV(0), L, name="parents sound")
        c.forall(lambda i, k: z3.Implies(z3.And(0 <= i, i < n, of(i) <= k, k < of(i + 1)), p(k) == i), 2, maxgen=3, name="parents complete")
        for i, k in v.points:
            v.touch(p(simp(of(i) + k)))
        return SymArray([L], lambda k: p(k), INT64, Int)
    v.patch(JA, "offsets2parents", classmethod(stub), by="C01:offsets2parents")


def broadcast(v):
    """JaggedArray.tojagged(x) for a flat array x with one element per list"""
    JA = v.aw.JaggedArray
    real = JA.tojagged

    def stub(self, data):
        if not isinstance(data, SymArray):
            return real(self, data)
        if data.ndim != 1 or self._starts.ndim != 1:
            raise Unsupported("tojagged outside the stubbed contract")
        c = v.ctx
        self._valid()
        w = JView(self)
        v.ensure("call tojagged: one element per list", I(vp_len(data)) == w.n, kind="pre")
        if not z3.is_true(z3.simplify(w.n > 0)) and SymBool(w.n == 0):
            raise Unsupported("tojagged of no lists")
        if not self._canuseoffset():
            i, j = v.skolem("i"), v.skolem("j")
            v.ensure("call tojagged: lists share no positions", z3.Implies(z3.And(0 <= i, i < w.n, 0 <= j, j < w.n, i != j, w.start(i) < w.stop(i), w.start(j) < w.stop(j)), z3.Or(w.stop(i) <= w.start(j), w.stop(j) <= w.start(i))), kind="pre")
        df = data.snapshot()
        m, f = c.int("bc_m"), c.fun("bc", Int, data.sort)
        last = c.int("last")
        v.assume(z3.And(0 <= last, last < w.n, m == w.stop(last)))
        v.assume_forall(lambda i: w.stop(i) <= m, IV(0), w.n, name="bc inside")
        sf, tf, n = w.start, w.stop, w.n
        c.forall(lambda i, t: z3.Implies(z3.And(0 <= i, i < n, sf(i) <= t, t < tf(i)), f(t) == df(i)), 2, maxgen=3, name="bc items")
        own = v.owner_of(sf, tf, n)
        if own is not None:
            c.forall(lambda t: z3.Implies(z3.And(n >= 1, 0 <= t, t < tf(n - 1)), f(t) == df(own(t))), 1, triggers=[[(f.name(), 0, 1, None)]], name="bc positions")
        for i, k in v.points:
            v.touch(sf(i), tf(i), f(simp(sf(i) + k)))
        content = SymArray([m], lambda t: f(t), data.dtype, data.sort)
        out = self.copy(content=content)
        return out
    v.patch(JA, "tojagged", stub, by="C05:broadcast_*")


def union_onetag(v):
    """UnionArray[mask] where all selected entries have one tag: the flat array of the elements selected"""
    UA = v.aw.UnionArray
    real = UA.__getitem__

    def stub(self, where):
        if not isinstance(where, SymArray) or where.dtype != BOOL or where.ndim != 1 or self._tags.ndim != 1 or not all(isinstance(x, SymArray) and x.ndim == 1 for x in self._contents):
            return real(self, where)
        n, t, x, m = I(vp_len(self._tags)), self._tags.snapshot(), self._index.snapshot(), where.snapshot()
        for k in range(len(self._contents)):
            if entails_forall(lambda i: z3.Implies(m(i), t(i) == k), IV(0), n):
                break
        else:
            return real(self, where)
        v.ensure("call UnionArray.__getitem__: a mask of the same length", where.n == n, kind="pre")
        self._valid()
        v.ctx.report.lemmas += 1
        C, pos = positions(lambda i: m(i), n)
        c = self._contents[k].snapshot()
        return SymArray([C(n)], lambda j: c(x(pos(j))), self._contents[k].dtype, self._contents[k].sort)
    v.patch(UA, "__getitem__", stub, by="C14:mask_onetag")


def flatten(v):
    """JaggedArray.flatten() of flat content: the lists one after another"""
    JA = v.aw.JaggedArray
    real = JA.flatten

    def stub(self, axis=0):
        if axis != 0 or self._starts.ndim != 1 or not isinstance(self._content, SymArray) or self._content.ndim != 1:
            return real(self, axis)
        w = JView(self)
        v.ensure("call flatten: a stop for each start", I(vp_len(self._stops)) >= w.n, kind="pre")
        k = v.ctx.int("gen")
        if v.ctx.entails(z3.Implies(z3.And(0 <= k, k < w.n - 1), w.start(k + 1) == w.stop(k)), 1):      # contiguous lists end in order
            induct(lambda t: w.stop(simp(w.n - 1 - t)) <= w.stop(w.n - 1), IV(0), w.n - 1, "ends in order")
        v.ensure_forall("call flatten: ranges inside the content", lambda i: z3.And(0 <= w.start(i), w.start(i) <= w.stop(i), z3.Implies(w.start(i) != w.stop(i), w.stop(i) <= w.m)), IV(0), w.n)
        ps = v.total(w)
        ensure_monotone(ps, w.n)
        own = owner(ps, w.n)
        return SymArray([ps(w.n)], lambda t: w.celem(w.start(own(t)) + t - ps(own(t))), self._content.dtype, self._content.sort)
    v.patch(JA, "flatten", stub, by="C05:flatten_*")


def offsets(v):
    """JaggedArray.offsets: the common offsets where lists follow each other, else ValueError"""
    JA = v.aw.JaggedArray
    real = JA.__dict__["offsets"]

    def get(self):
        if self._offsets is not None or not isinstance(self._starts, SymArray) or self._starts.ndim != 1 or self.offsetsaliased(self._starts, self._stops):
            return real.fget(self)
        c = v.ctx
        w = JView(self)
        v.ensure("call offsets: a stop for each start", I(vp_len(self._stops)) >= w.n, kind="pre")
        v.ensure_forall("call offsets: ranges inside the content", lambda i: z3.And(0 <= w.start(i), w.start(i) <= w.stop(i), z3.Implies(w.start(i) != w.stop(i), w.stop(i) <= w.m)), IV(0), w.n)
        b, gap = c.bool("contiguous"), v.skolem("gap")
        c.forall(lambda i: z3.Implies(z3.And(b, 0 <= i, i < w.n - 1), w.start(i + 1) == w.stop(i)), 1, maxgen=3, name="contiguous")
        c.fact(z3.Implies(z3.Not(b), z3.And(0 <= gap, gap < w.n - 1, w.start(gap + 1) != w.stop(gap))))
        self._isvalid = True
        if not SymBool(b):
            e = ValueError("starts and stops are not compatible with a single offsets array")
            e._modelled = True
            raise e
        out = SymArray([w.n + 1], lambda i: z3.If(w.n == 0, IV(0), z3.If(i < w.n, w.start(i), w.stop(w.n - 1))), INT64, Int)
        if not SymBool(w.n == 0):
            self._offsets = out
        return out
    v.patch(JA, "offsets", property(get, real.fset), by="C01:offsets_of_*")
