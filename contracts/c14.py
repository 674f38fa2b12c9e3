from .spec import *
from .selectors import *
from . import stubs

U = "awkward0/array/union.py:"


def union(v, name="a", n=None, parts=2):
    """an arbitrary valid UnionArray over `parts` flat contents (index may be longer than tags)"""
    n = v.int(name + "_n", 1) if n is None else n
    ni = v.int(name + "_ni")
    v.assume(ni >= n)
    tags, index = v.array(name + "_tags", n, lo=0, hi=parts - 1), v.array(name + "_index", ni, lo=0)
    contents, lens = [], []
    for k in range(parts):
        lens.append(v.int("%s_m%d" % (name, k), 0))
        contents.append(v.vals("%s_content%d" % (name, k), lens[k]))
    t, x = tags.buf.fn, index.buf.fn
    for k in range(parts):
        v.assume_forall(lambda i, k=k: z3.Implies(t(i) == k, x(i) < lens[k]), IV(0), n)
    a = v.call(lambda: v.aw.UnionArray(tags, index, contents), label="UnionArray")
    return a, uview(v, a)


def uview(v, a):
    """element view of a union (or of the flat array a selection collapses to)"""
    if isinstance(a, SymArray):
        v.ensure("one-dimensional", a.ndim == 1)
        f = a.snapshot()
        return View(a.n, lambda i: (f(i),))
    if not isinstance(a, v.aw.UnionArray):
        v.ensure("the result is an array", False)
        raise PathAbort()
    t, x = a._tags.snapshot(), a._index.snapshot()
    cs = [elem_fn(c) for c in a._contents]
    ms = [I(vp_len(c)) for c in a._contents]
    n = I(vp_len(a._tags))
    v.ensure("an index for every tag", I(vp_len(a._index)) >= n)
    v.ensure_forall("tags and indexes inside the contents", lambda i: z3.And(0 <= t(i), t(i) < len(cs), 0 <= x(i), *[z3.Implies(t(i) == k, x(i) < ms[k]) for k in range(len(cs))]), IV(0), n)

    def elem(i):
        e = cs[-1](x(i))
        for k in range(len(cs) - 2, -1, -1):
            e = z3.If(t(i) == k, cs[k](x(i)), e)
        return (e,)
    w = View(n, elem)
    w.tag, w.index, w.contents = t, x, cs
    return w


def onetag(k):
    def body(v):
        a, w = union(v)
        mk = v.bools("where", w.n)
        f = mk.buf.fn
        v.assume_forall(lambda i: z3.Implies(f(i), w.tag(i) == k), IV(0), w.n)
        v.reach()
        C, pos = pick_mask(v, mk, w.n)
        out = v.call(lambda: a[mk], label="getitem")
        v.ensure("a flat array", isinstance(out, SymArray))
        v.ensure_array("the selection", out, C(w.n), lambda j: w.contents[k](w.index(pos(j))))
        v.ensure_unmodified()
    return body


GET = [U + "UnionArray.__getitem__", U + "UnionArray._valid", U + "UnionArray.copy", U + "UnionArray.__init__"]
register("C14", GET, "union", union, uview, plain_item)
register("C14", GET, "union3", lambda v: union(v, parts=3), uview, plain_item, which=("integer", "fancy"))


for _k in (0, 1):
    contract("C14", GET)(named("mask_onetag_%d" % _k, onetag(_k)))


def fromtags(parts):
    def body(v):
        n = v.int("n", 1)
        tags = v.array("tags", n, lo=0, hi=parts - 1)
        t = tags.buf.fn
        contents = [v.vals("content%d" % k, v.int("m%d" % k, 0)) for k in range(parts)]
        v.reach()
        out = v.call(lambda: v.aw.UnionArray.fromtags(tags, contents), label="fromtags")
        ranks = [positions(lambda i, k=k: t(i) == k, n) for k in range(parts)]
        v.ensure_array("tags", out._tags, n, t)
        i = v.skolem("i")
        v.touch(*[C(i) for C, pos in ranks])
        x = v.is1d(out._index, "index").snapshot()
        v.ensure("index length", out._index.n == n)
        for k, (C, pos) in enumerate(ranks):
            v.ensure("index is the next unused position of content %d" % k, z3.Implies(z3.And(0 <= i, i < n, t(i) == k), x(i) == C(i)))
            v.ensure("content %d kept" % k, out._contents[k] is contents[k])
        v.ensure_unmodified()
    return body


for _p in (1, 2, 3):
    contract("C14", [U + "UnionArray.fromtags"])(named("fromtags_%d" % _p, fromtags(_p)))


def uufunc(op, other):
    def body(v):
        stubs.union_onetag(v)
        a, w = union(v)
        u = getattr(np, op)
        if other == "flat":
            b = v.vals("b", w.n)
            bf = b.buf.fn
        elif other == "scalar":
            sc = z3.Const("b", Val)
            b, bf = SymVal(sc), lambda i: sc
        elif other == "union":
            b, x = union(v, "b", n=w.n)
            bf = lambda i: x.elem(i)[0]
        v.reach()
        out = v.call(lambda: u(a, b) if other else u(a), label=op)
        want = (lambda i: (elementwise_term(op, w.elem(i)[0], bf(i)),)) if other else (lambda i: (elementwise_term(op, w.elem(i)[0]),))
        v.on_index = lambda k: [t for ps, pos, n in v._positions() for t in (ps(k), ps(k + 1), pos(ps(k)))]
        ensure_view(v, "the result", uview(v, out), w.n, want)
        v.ensure_unmodified()
    return body


for _op, _other in (("negative", None), ("add", "flat"), ("less", "scalar"), ("add", "union")):
    contract("C14", [U + "UnionArray.__array_ufunc__", U + "UnionArray.__getitem__"], **(dict(open="time budget exhausted; operations on two unions are bounded only") if _other == "union" else {}))(named("ufunc_%s_%s" % (_op, _other or "unary"), uufunc(_op, _other)))


@contract("C14", [U + "UnionArray.issequential"])
def issequential(v):
    a, w = union(v)
    v.reach()
    out = v.call(lambda: a.issequential, label="issequential")
    ranks = [positions(lambda i, k=k: w.tag(i) == k, w.n) for k in range(2)]
    if isinstance(out, SymBool):
        out = bool(out)
    i = v.skolem("i")
    v.touch(*[C(i) for C, pos in ranks])
    if out:
        for k, (C, pos) in enumerate(ranks):
            v.ensure("sequential in content %d" % k, z3.Implies(z3.And(0 <= i, i < w.n, w.tag(i) == k), w.index(i) == C(i)))
    v.ensure_unmodified()


@contract("C14", [U + "UnionArray.boolmask", U + "UnionArray.counts"])
def boolmask_union(v):
    a, w = union(v)
    v.reach()
    out = v.call(lambda: a.boolmask(), label="boolmask")
    v.on_index = lambda k: [t for ps, pos, n in v._positions() for t in (ps(k), ps(k + 1), pos(ps(k)))]
    v.ensure_array("nothing missing", out, w.n, lambda i: z3.BoolVal(False))
    v.ensure_unmodified()
