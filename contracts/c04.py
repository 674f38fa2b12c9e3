from .spec import *
from . import stubs

J = "awkward0/array/jagged.py:JaggedArray."
G = [J + "__getitem__", J + "tojagged", J + "copy", J + "counts2offsets"]


def intindex(kind, hkind, inside):
    """j[jagged integers]: list i gathers its own elements at the positions in list i of the index"""
    def body(v):
        j, w = v.jagged("j", kind=kind)
        v.assume(w.n >= 1)
        hm = v.int("h_m", 0)
        hc = v.array("h_content", hm)
        h, u = v.jagged("h", kind=hkind, n=w.n, content=hc)
        ok = lambda i, x: z3.And(-w.count(i) <= x, x < w.count(i))
        if inside:
            v.ctx.forall(lambda i, t: z3.Implies(z3.And(0 <= i, i < w.n, u.start(i) <= t, t < u.stop(i)), ok(i, hc.buf.fn(t))), 2, maxgen=3, name="inside")
        else:
            bi, bk = v.skolem("bi"), v.skolem("bk")
            v.assume(z3.And(0 <= bi, bi < w.n, 0 <= bk, bk < u.count(bi), z3.Not(ok(bi, u.item(bi, bk)))))
            v.touch(w.start(bi), w.stop(bi), u.start(bi), u.stop(bi), u.item(bi, bk))
            v.ghost_point(bi, bk)
        v.reach()
        v.segments = True
        stubs.tojagged(v)
        stubs.broadcast(v)
        if inside:
            out = v.call(lambda: j[h], label="getitem")
            v.ensure_jagged("the lists", out, w.n, u.count, lambda i, k: w.item(i, wrap(u.item(i, k), w.count(i))))
        else:
            v.call(lambda: j[h], label="getitem", raises={IndexError: z3.BoolVal(True)})
        v.ensure_unmodified()
    return body


QUICK = {"int_offsets_by_offsets_inside": 38, "int_startsstops_by_offsets_inside": 65, "int_offsets_by_offsets_outside": 22,
         "int_startsstops_by_offsets_outside": 34, "int_offsets_by_startsstops_outside": 36}
for _k in KINDS:
    for _h in KINDS:
        for _in in (True, False):
            _name = "int_%s_by_%s_%s" % (_k, _h, "inside" if _in else "outside")
            contract("C04", G, tier="quick" if _name in QUICK else "thorough", cost=QUICK.get(_name, 100), budget=900)(named(_name, intindex(_k, _h, _in)))
