from .spec import *
from .selectors import *

M = "awkward0/array/masked.py:"


def masked(v, when, name="a", n=None):
    """an arbitrary valid MaskedArray (content may be longer than the mask)"""
    MA = v.aw.MaskedArray
    n = v.int(name + "_n", 0) if n is None else n
    m = v.int(name + "_m")
    v.assume(m >= n)
    mask, content = v.bools(name + "_mask", n), v.vals(name + "_content", m)
    a = v.call(lambda: MA(mask, content, maskedwhen=when), label="MaskedArray")
    return a, mview(v, a)


def mview(v, a):
    """element view of a MaskedArray / IndexedMaskedArray, read off its buffers"""
    t = type(a).__name__
    if not isinstance(a, v.aw.MaskedArray):
        v.ensure("the result is a masked array", False)
        raise PathAbort()
    mf, cf = a._mask.snapshot(), elem_fn(a._content)
    n = I(vp_len(a._mask))
    if isinstance(a, v.aw.IndexedMaskedArray):
        w = I(a._maskedwhen)
        return View(n, lambda i: (mf(i) == w, cf(mf(i))), option_eq)
    if isinstance(a, v.aw.BitMaskedArray):
        raise Unsupported("bit masks")
    when = z3.BoolVal(bool(a._maskedwhen)) if isinstance(a._maskedwhen, bool) else B(a._maskedwhen)
    v.ensure("mask not longer than content", n <= I(vp_len(a._content)))
    return View(n, lambda i: (coerce(mf(i), Bool) == when, cf(i)), option_eq)


def indexedmasked(v, when=None, name="a", n=None):
    IM = v.aw.IndexedMaskedArray
    n = v.int(name + "_n", 0) if n is None else n
    m = v.int(name + "_m", 0)
    mask, content = v.array(name + "_mask", n), v.vals(name + "_content", m)
    w = v.int(name + "_when") if when is None else IV(when)
    f = mask.buf.fn
    v.assume_forall(lambda i: z3.Or(f(i) == w, z3.And(0 <= f(i), f(i) < m)), IV(0), n)
    if when is None:
        v.assume(w < m)       # (documented limit of the class's own validity check)
    a = v.call(lambda: IM(mask, content, maskedwhen=SymInt(w) if when is None else when), label="IndexedMaskedArray")
    return a, mview(v, a)


register("C11", [M + "MaskedArray.__getitem__", M + "MaskedArray._valid", M + "MaskedArray.copy", M + "MaskedArray.__init__"], "masked_true", lambda v: masked(v, True), mview, option_item)
register("C11", [M + "MaskedArray.__getitem__", M + "MaskedArray._valid", M + "MaskedArray.copy", M + "MaskedArray.__init__"], "masked_false", lambda v: masked(v, False), mview, option_item, which=("integer", "mask", "fancy"))
register("C11", [M + "IndexedMaskedArray.__getitem__", M + "IndexedMaskedArray._valid", M + "IndexedMaskedArray.copy", M + "IndexedMaskedArray.__init__"], "indexed", indexedmasked, mview, option_item)


def boolmask(make, label, functions):
    def body(which):
        def f(v):
            a, w = make(v)
            v.reach()
            out = v.call(lambda: a.boolmask(maskedwhen=which), label="boolmask")
            v.ensure_array("boolmask", out, w.n, lambda i: w.elem(i)[0] if which else z3.Not(w.elem(i)[0]))
            v.ensure_unmodified()
        return f
    for which in (True, False):
        contract("C11", functions)(named("boolmask_%s_%s" % (label, which), body(which)))

    def isun(v):
        a, w = make(v)
        v.reach()
        out = v.call(lambda: a.isunmasked, label="isunmasked")
        v.ensure_array("isunmasked", out, w.n, lambda i: z3.Not(w.elem(i)[0]))
        out = v.call(lambda: a.ismasked, label="ismasked")
        v.ensure_array("ismasked", out, w.n, lambda i: w.elem(i)[0])
        v.ensure_unmodified()
    contract("C11", functions)(named("ismasked_" + label, isun))


boolmask(lambda v: masked(v, True), "masked_true", [M + "MaskedArray.boolmask", "awkward0/array/base.py:AwkwardArray.ismasked"])
boolmask(lambda v: masked(v, False), "masked_false", [M + "MaskedArray.boolmask", "awkward0/array/base.py:AwkwardArray.ismasked"])
boolmask(indexedmasked, "indexed", [M + "IndexedMaskedArray.boolmask", "awkward0/array/base.py:AwkwardArray.ismasked"])


def convert(when):
    def body(v):
        a, w = masked(v, when)
        v.reach()
        out = v.call(lambda: a.indexed(), label="indexed")
        ensure_view(v, "the indexed encoding", mview(v, out), w.n, w.elem)
        v.ensure_unmodified()
    return body


for _w in (True, False):
    contract("C11", [M + "MaskedArray.indexed"])(named("indexed_of_masked_%s" % _w, convert(_w)))


@contract("C11", [M + "MaskedArray.fromcontent"])
def fromcontent_masked(v):
    n = v.int("n", 0)
    c = v.vals("content", n)
    v.reach()
    for when in (True, False):
        out = v.call(lambda: v.aw.MaskedArray.fromcontent(c, maskedwhen=when), label="fromcontent")
        ensure_view(v, "nothing masked", mview(v, out), n, lambda i: (z3.BoolVal(False), c.buf.fn(i)))
    out = v.call(lambda: v.aw.IndexedMaskedArray.fromcontent(c), label="fromcontent")
    ensure_view(v, "nothing masked", mview(v, out), n, lambda i: (z3.BoolVal(False), c.buf.fn(i)))
    v.ensure_unmodified()
