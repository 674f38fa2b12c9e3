from .spec import *
from . import stubs

J = "awkward0/array/jagged.py:JaggedArray."


def relayout(kind, target):
    """_tojagged(starts, stops): same lists, stored at the given positions"""
    def body(v):
        j, w = v.jagged("j", kind=kind)
        t, u = v.jagged("t", kind=target, n=w.n, disjoint=True)
        same = v.ctx.bool("same")
        bad = v.skolem("bad")
        v.assume_forall(lambda i: z3.Implies(same, u.count(i) == w.count(i)), IV(0), w.n)
        v.assume(z3.Implies(z3.Not(same), z3.And(0 <= bad, bad < w.n, u.count(bad) != w.count(bad))))
        v.touch(w.start(bad), w.stop(bad), u.start(bad), u.stop(bad))
        if target == "offsets":
            v.assume(z3.Implies(w.n == 0, t._starts.buf.fn(IV(0)) == 0))
        v.reach()
        v.segments = True
        stubs.startsstops2parents(v)
        out = v.call(lambda: j._tojagged(t._starts, t._stops, copy=False), label="_tojagged", raises={ValueError: z3.Not(same)})
        v.ensure_jagged("the lists", out, w.n, w.count, w.item)
        z = JView(out)
        mx = v.max_of(u.stop, w.n)
        if out._content is j._content:
            v.ensure_forall("content kept only where nothing moves (or when empty)", lambda i: z3.Or(w.m == 0, z3.And(u.start(i) == w.start(i), u.stop(i) == w.stop(i))), IV(0), w.n)
        else:
            v.ensure("content as long as needed", z3.Or(w.n == 0, z.m == mx))
        v.ensure_forall("stored where asked", lambda i: z3.And(z.start(i) == u.start(i), z.stop(i) == u.stop(i)), IV(0), w.n)
        v.ensure_unmodified()
    return body


def flatten(kind):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        v.reach()
        v.segments = True
        stubs.tojagged(v)
        out = v.call(lambda: j.flatten(), label="flatten")
        ps = v.total(w)
        # lemma (holds when the lists are contiguous): once something was listed, the lists end inside the content
        induct(lambda t: z3.Implies(z3.And(t >= 1, ps(t) > 0), w.stop(t - 1) <= w.m), IV(0), w.n, "ends inside")
        v.is1d(out, "the concatenation")
        v.ensure("length", out.n == ps(w.n))
        i, k = v.skolem("i"), v.skolem("k")
        v.ghost_segment(i, k)
        v.ensure("list i starts at the total of the counts before it", z3.Implies(z3.And(0 <= i, i < w.n, 0 <= k, k < w.count(i)), out.at(ps(i) + k) == w.item(i, k)))
        v.ensure_unmodified()
    return body


def compact(kind):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        v.reach()
        v.segments = True
        stubs.tojagged(v)
        out = v.call(lambda: j.compact(), label="compact")
        v.ensure_jagged("the lists", out, w.n, w.count, w.item)
        z = JView(out)
        v.ensure_forall("no gap between lists, in order", lambda i: z.stop(i) == z.start(i + 1), IV(0), w.n - 1)
        v.ensure_unmodified()
    return body


def broadcast(kind):
    """tojagged(x): x[i] once per element of list i"""
    def body(v):
        j, w = v.jagged("j", kind=kind, disjoint=True)
        x = v.vals("x", w.n)
        v.reach()
        v.assume(w.n >= 1)
        stubs.startsstops2parents(v)
        stubs.offsets2parents(v)
        v.segments = True
        out = v.call(lambda: j.tojagged(x), label="tojagged")
        if j._canuseoffset():
            # lemma where the lists are contiguous: they end in order
            induct(lambda t: w.stop(w.n - 1 - t) <= w.stop(w.n - 1), IV(0), w.n - 1, "ends in order")
        v.ensure_jagged("the lists", out, w.n, w.count, lambda i, k: x.buf.fn(i))
        z = JView(out)
        v.ensure("content as long as needed", z.m == v.max_of(w.stop, w.n))
        v.ensure_forall("stored in the same places", lambda i: z3.And(z.start(i) == w.start(i), z.stop(i) == w.stop(i)), IV(0), w.n)
        v.ensure_unmodified()
    return body


def refuse(kind, target):
    """_tojagged(starts, stops) of other counts: refused, whatever their total"""
    def body(v):
        j, w = v.jagged("j", kind=kind)
        t, u = v.jagged("t", kind=target, n=w.n, disjoint=True)
        v.assume(w.n == 2)
        v.assume(u.count(0) != w.count(0))
        v.touch(w.start(0), w.stop(0), u.start(0), u.stop(0), w.start(1), w.stop(1), u.start(1), u.stop(1))
        v.reach()
        v.segments = True
        stubs.startsstops2parents(v)
        stubs.offsets2parents(v)
        v.call(lambda: j._tojagged(t._starts, t._stops, copy=False), label="_tojagged of other counts", raises={ValueError: z3.BoolVal(True)})
        v.ensure_unmodified()
    return body


for _k in KINDS:
    for _t in ("offsets", "startsstops"):
        contract("C05", [J + "_tojagged"], tier="quick" if _k != "longstops" else "thorough")(named("refuse_%s_to_%s" % (_k, _t), refuse(_k, _t)))
        contract("C05", [J + "_tojagged", J + "startsstops2parents", J + "offsets2parents"], also=("C04", "C06"), tier="quick" if _k == "offsets" else "thorough")(named("relayout_%s_to_%s" % (_k, _t), relayout(_k, _t)))
    contract("C05", [J + "flatten", J + "_tojagged"])(named("flatten_" + _k, flatten(_k)))
    contract("C05", [J + "compact", J + "_tojagged"])(named("compact_" + _k, compact(_k)))
    contract("C05", [J + "tojagged", J + "parents"])(named("broadcast_" + _k, broadcast(_k)))
