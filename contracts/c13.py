from .spec import *
from .selectors import *

X = "awkward0/array/indexed.py:"


def indexedarray(v, name="a", n=None, content=None):
    """an arbitrary valid IndexedArray: any positions inside the content, with repeats"""
    IA = v.aw.IndexedArray
    n = v.int(name + "_n", 0) if n is None else n
    if content is None:
        m = v.int(name + "_m", 0)
        content = v.vals(name + "_content", m)
    m = I(vp_len(content))
    index = v.array(name + "_index", n)
    f, c = index.buf.fn, elem_fn(content)
    v.assume_forall(lambda i: z3.And(0 <= f(i), f(i) < m), IV(0), n)
    a = v.call(lambda: IA(index, content), label="IndexedArray")
    return a, View(n, lambda i: (c(f(i)),))


def gview(v, a):
    """element view of what a selection of an IndexedArray returns: a flat array or another IndexedArray"""
    if isinstance(a, SymArray):
        v.ensure("one-dimensional", a.ndim == 1)
        f = a.snapshot()
        return View(a.n, lambda i: (f(i),))
    if isinstance(a, v.aw.IndexedArray):
        f, c = a._index.snapshot(), elem_fn(a._content)
        return View(I(vp_len(a._index)), lambda i: (c(f(i)),))
    v.ensure("the result is an array", False)
    raise PathAbort()


GET = [X + "IndexedArray.__getitem__", X + "IndexedArray._valid", X + "IndexedArray.__init__"]
register("C13", GET, "indexed", indexedarray, gview, plain_item)


@contract("C13", [X + "IndexedArray.invert"])
def invert_permutation(v):
    n = v.int("n", 1)
    p = v.array("permutation", n)
    f = p.buf.fn
    v.assume_forall(lambda i: z3.And(0 <= f(i), f(i) < n), IV(0), n)
    v.assume_forall2(lambda i, j: z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), f(i) != f(j)))
    v.reach()
    out = v.call(lambda: v.aw.IndexedArray.invert(p), label="invert")
    g = v.is1d(out, "the inverse").snapshot()
    v.ensure("the inverse is long enough", z3.And(out.n <= n))
    v.ensure_forall("inverse after permutation is the identity", lambda i: z3.And(f(i) < out.n, g(f(i)) == i), IV(0), n)
    v.ensure_unmodified()


@contract("C13", [X + "IndexedArray.invert"])
def invert_duplicates(v):
    n = v.int("n", 2)
    p = v.array("permutation", n, lo=0)
    f = p.buf.fn
    i, j = v.skolem("i"), v.skolem("j")
    v.assume(z3.And(0 <= i, i < j, j < n, f(i) == f(j)))
    v.reach()
    v.call(lambda: v.aw.IndexedArray.invert(p), label="invert", raises={ValueError: z3.BoolVal(True)})


for _op in ("add", "less", "negative"):
    def _ufunc(v, op=_op):
        a, w = indexedarray(v)
        u = getattr(np, op)
        if op == "negative":
            v.reach()
            out = v.call(lambda: u(a), label=op)
            want = lambda i: elementwise_term(op, w.elem(i)[0])
        else:
            b, x = indexedarray(v, "b", n=w.n)
            v.reach()
            out = v.call(lambda: u(a, b), label=op)
            want = lambda i: elementwise_term(op, w.elem(i)[0], x.elem(i)[0])
        v.ensure_array("the result", out, w.n, want)
        v.ensure_unmodified()
    contract("C13", [X + "IndexedArray.__array_ufunc__", X + "IndexedArray.__getitem__"])(named("ufunc_%s_indexed" % _op, _ufunc))


@contract("C13", [X + "IndexedArray.__array_ufunc__", X + "IndexedArray.__getitem__"])
def ufunc_add_flat(v):
    a, w = indexedarray(v)
    b = v.vals("b", w.n)
    bf = b.buf.fn
    v.reach()
    out = v.call(lambda: np.add(a, b), label="add")
    v.ensure_array("the result", out, w.n, lambda i: elementwise_term("add", w.elem(i)[0], bf(i)))
    v.ensure_unmodified()


@contract("C13", [X + "IndexedArray._concatenate_axis0", "awkward0/array/base.py:AwkwardArray.concatenate"], also=("C10",))
def concatenate_indexed(v):
    a, w = indexedarray(v)
    b, x = indexedarray(v, "b")
    v.reach()
    out = v.call(lambda: v.aw.IndexedArray._concatenate_axis0([a, b]), label="concatenate")
    ensure_view(v, "the result", gview(v, out), w.n + x.n, lambda i: (z3.If(i < w.n, w.elem(i)[0], x.elem(i - w.n)[0]),))
    v.ensure_unmodified()


@contract("C13", [X + "IndexedArray._prepare", X + "IndexedArray.copy"])
def prepare_indexed(v):
    a, w = indexedarray(v)
    v.reach()
    out = v.call(lambda: a._prepare(np.add, 0, None), label="_prepare")
    v.ensure_array("the gathered values", out, w.n, lambda i: w.elem(i)[0])
    n2 = v.int("n2", 0)
    v.ensure_unmodified()


# ---- SparseArray

def sparse(v, name="a", default=True):
    """an arbitrary valid SparseArray without repeated positions (positions beyond the length are allowed)"""
    SA = v.aw.SparseArray
    L, n, m = v.int(name + "_length", 0), v.int(name + "_n", 0), v.int(name + "_m")
    v.assume(m >= n)
    index, content = v.array(name + "_index", n, lo=0), v.vals(name + "_content", m)
    f, c = index.buf.fn, content.buf.fn
    v.ctx.forall(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), f(i) < f(j)), 2, maxgen=3, name="positions increasing")
    d = v.ctx.const(name + "_default", Val) if hasattr(v.ctx, "const") else z3.Const(name + "_default", Val)
    a = v.call(lambda: SA(SymInt(L), index, content, default=SymVal(d)), label="SparseArray")
    return a, Sparse(v, L, n, f, c, d)


class Sparse(View):
    """at(x): the slot holding position x, if any (a Skolem function of the specification)"""

    def __init__(self, v, L, n, f, c, d):
        self.ix, self.stored, self.default, self.c = f, n, d, c
        at = v.ctx.fun("at", Int, Int)
        has = v.ctx.fun("has", Int, Bool)
        self.at, self.has = at, has
        v.ctx.forall(lambda x: z3.Implies(has(x), z3.And(0 <= at(x), at(x) < n, f(at(x)) == x)), 1, triggers=[[(has.name(), 0, 1, None)], [(at.name(), 0, 1, None)]], name="has sound")
        v.ctx.forall(lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(has(f(j)), at(f(j)) == j)), 1, name="has complete")
        View.__init__(self, L, lambda x: (z3.If(has(x), c(at(x)), d),))


def sview(v, a):
    w = _sview(v, a)
    w.short = I(vp_len(a._content)) >= w.stored
    return w


def _sview(v, a):
    if not isinstance(a, v.aw.SparseArray):
        v.ensure("the result is a SparseArray", False)
        raise PathAbort()
    return Sparse(v, I(a._length), I(vp_len(a._index)), a._index.snapshot(), elem_fn(a._content), I(a._default) if isinstance(a._default, SymInt) else a._default.e)


SG = [X + "SparseArray.__getitem__", X + "SparseArray._valid", X + "SparseArray.copy", X + "SparseArray.__init__"]


@contract("C13", SG)
def integer_sparse(v):
    a, w = sparse(v)
    i = v.int("i")
    v.reach()
    out = v.call(lambda: a[SymInt(i)], label="getitem", raises={IndexError: z3.Or(i < -w.n, i >= w.n)})
    plain_item(v, "the element", out, w.elem(wrap(i, w.n)))
    v.ensure_unmodified()


def sparse_view(v, name, got, w, n, source):
    """got is the sparse array whose entry i is entry source(i) of w"""
    v.ensure(name + " length", got.n == n)
    v.ensure(name + " has content for every stored position", got.short)
    i = v.skolem("i")
    x = source(i)
    v.touch(x, w.at(x), got.at(i))
    v.ghost_positions(w.at(x))
    inside = z3.And(0 <= i, i < n)
    v.ensure(name + " stores what was stored", z3.Implies(inside, z3.Implies(w.has(x), got.has(i))))
    v.ensure(name + " stores nothing else", z3.Implies(inside, z3.Implies(got.has(i), w.has(x))))
    v.ensure(name + " elements", z3.Implies(inside, got.elem(i)[0] == w.elem(x)[0]))
    k = v.skolem("k")
    v.ensure(name + " positions sorted", z3.Implies(z3.And(0 <= k, k < got.stored - 1), got.ix(k) < got.ix(k + 1)))


def sparse_slice(form, step):
    def body(v):
        a, w = sparse(v)
        s, x, y, c = symslice(v, form, step)
        v.reach()
        first, length = pyslice(w.n, x, y, c)
        cc = IV(1) if c is None else c
        out = v.call(lambda: a[s], label="getitem")
        sparse_view(v, "the slice", sview(v, out), w, length, lambda i: first + i * cc)
        v.ensure_unmodified()
    return body


for _name, _form, _step in (("nostep", "ab", None), ("reverse", "ab", -1), ("to", "b", 1), ("two", "ab", 2), ("back_two", "ab", -2)):
    contract("C13", SG, arith=6)(named("slice_%s_sparse" % _name, sparse_slice(_form, _step)))


@contract("C13", SG)
def fancy_sparse(v):
    a, w = sparse(v)
    m = v.int("m", 0)
    idx = v.array("where", m)
    f = idx.buf.fn
    bad, inside = v.skolem("bad"), v.ctx.bool("inside")
    v.assume_forall(lambda i: z3.Implies(inside, z3.And(-w.n <= f(i), f(i) < w.n)), IV(0), m)
    v.assume(z3.Implies(z3.Not(inside), z3.And(0 <= bad, bad < m, z3.Or(f(bad) < -w.n, f(bad) >= w.n))))
    v.reach()
    out = v.call(lambda: a[idx], label="getitem", raises={IndexError: z3.Not(inside)})
    dense_or_union(v, out, m, lambda i: w.elem(wrap(f(i), w.n))[0])
    v.ensure_unmodified()


def dense_or_union(v, out, m, want):
    if isinstance(out, SymArray):
        # lemma (proved by induction where it holds): a selection of everything keeps every position
        for ps, pos, n in v._positions():
            induct(lambda t: ps(t) == t, IV(0), n, "everything selected")
        v.on_index = lambda k: [t for ps, pos, n in v._positions() for t in (ps(k), ps(k + 1), pos(k), pos(ps(k)))]
        v.ensure_array("the selection", out, m, want)
        return
    if not isinstance(out, v.aw.UnionArray):
        v.ensure("the selection is an array or a union", False)
        raise PathAbort()
    t, x = out._tags.snapshot(), out._index.snapshot()
    v.ensure("the selection length", z3.And(I(vp_len(out._tags)) == m, I(vp_len(out._index)) >= m))
    parts = [(elem_fn(c), I(vp_len(c))) for c in out._contents]
    i = v.skolem("i")
    v.touch(t(i), x(i))
    v.ghost_positions(i)
    inside = z3.And(0 <= i, i < m)
    v.ensure("tags name a content", z3.Implies(inside, z3.And(0 <= t(i), t(i) < len(parts))))
    for k, (c, n) in enumerate(parts):
        v.ensure("position inside content %d" % k, z3.Implies(z3.And(inside, t(i) == k), z3.And(0 <= x(i), x(i) < n)))
        v.ensure("element from content %d" % k, z3.Implies(z3.And(inside, t(i) == k), coerce(c(x(i)), Val) == want(i)))


@contract("C13", SG)
def mask_sparse(v):
    a, w = sparse(v)
    mk = v.bools("where", w.n)
    v.reach()
    C, pos = pick_mask(v, mk, w.n)
    out = v.call(lambda: a[mk], label="getitem")
    dense_or_union(v, out, C(w.n), lambda i: w.elem(pos(i))[0])
    v.ensure_unmodified()


@contract("C13", [X + "SparseArray.boolmask", X + "SparseArray._getinverse"])
def boolmask_sparse(v):
    a, w = sparse(v)
    v.reach()
    out = v.call(lambda: a.boolmask(), label="boolmask")
    v.on_index = lambda k: (w.at(k),)
    v.ensure_array("stored where", out, w.n, lambda i: w.has(i))
    out = v.call(lambda: a.boolmask(maskedwhen=False), label="boolmask")
    v.ensure_array("not stored where", out, w.n, lambda i: z3.Not(w.has(i)))
    v.ensure_unmodified()


@contract("C13", [X + "SparseArray.dense", X + "SparseArray.boolmask", X + "SparseArray._getinverse"])
def dense_sparse(v):
    a, w = sparse(v)
    v.reach()
    out = v.call(lambda: a.dense, label="dense")
    v.on_index = lambda k: (w.at(k),)
    v.ensure_array("the dense array", out, w.n, lambda i: w.elem(i)[0])
    v.ensure_unmodified()


@contract("C13", [X + "SparseArray.__array_ufunc__", X + "SparseArray.dense"])
def ufunc_add_sparse(v):
    a, w = sparse(v)
    b = v.vals("b", w.n)
    bf = b.buf.fn
    v.reach()
    out = v.call(lambda: np.add(a, b), label="add")
    v.on_index = lambda k: (w.at(k),)
    v.ensure_array("the result", out, w.n, lambda i: elementwise_term("add", w.elem(i)[0], bf(i)))
    v.ensure_unmodified()
