from .spec import *
from .selectors import *

O = "awkward0/array/objects.py:ObjectArray."
S = "awkward0/array/objects.py:StringArray."


class Obj(object):
    """what the generator made: of which element"""

    def __init__(self, x):
        self.x = x


class Gen(object):
    def __init__(self, v):
        self.v, self.calls = v, 0

    def __call__(self, x, *args, **kwargs):
        self.calls += 1
        self.v.ensure("the generator gets its arguments", args == (3, "a") and kwargs == {"q": 7})
        return Obj(x)


def objects(v, name="content", n=None):
    n = v.int(name + "_n", 0) if n is None else n
    c = v.vals(name, n)
    v.gen = getattr(v, "gen", None) or Gen(v)
    a = v.call(lambda: v.aw.ObjectArray(c, v.gen, (3, "a"), {"q": 7}), label="ObjectArray")
    return a, View(n, lambda i, f=c.buf.fn: (f(i),))


def oview(v, out):
    if not isinstance(out, v.aw.ObjectArray):
        v.ensure("the result is an ObjectArray", False)
        raise PathAbort()
    v.ensure("selecting generates nothing", v.gen.calls == 0)
    v.ensure("same generator and arguments", out._generator is v.gen and out._args == (3, "a") and out._kwargs == {"q": 7})
    c = v.is1d(out._content, "content")
    return View(c.n, lambda i, f=c.snapshot(): (f(i),))


def obj_item(v, name, out, want):
    v.ensure(name + " is one generated object", isinstance(out, Obj) and v.gen.calls == 1)
    if isinstance(out, Obj):
        plain_item(v, name, out.x, want)


register("C17", [O + "__getitem__", O + "copy", O + "content"], "objects", objects, oview, obj_item)


@contract("C17", [O + "__iter__"])
def iterate_objects(v):
    a, w = objects(v)
    v.assume(w.n >= 2)
    v.reach()
    it = v.call(lambda: a.__iter__(), label="ObjectArray.__iter__")
    for k in range(2):
        obj = v.call(lambda: next(it), label="next")
        v.ensure("one object per element asked for", isinstance(obj, Obj) and v.gen.calls == k + 1)
        plain_item(v, "element %d" % k, obj.x, w.elem(IV(k)))


def oufunc(op, other):
    def body(v):
        a, w = objects(v)
        if other == "objects":
            b, x = objects(v, "other", w.n)
            g = lambda i: x.elem(i)[0]
        elif other == "scalar":
            k = z3.Const("k", Val)
            b, g = SymVal(k), lambda i: k
        v.reach()
        u = getattr(np, op)
        out = v.call(lambda: u(a, b) if other else u(a), label=op)
        want = lambda i: elementwise_term(op, *([w.elem(i)[0]] + ([g(i)] if other else [])))
        if op in COMPARE:
            v.ensure_array("the result", out, w.n, want)
        else:
            z = oview(v, out)
            ensure_view(v, "the result", z, w.n, lambda i: (want(i),))
        v.ensure_unmodified()
    return body


for _op, _o in (("negative", None), ("add", "scalar"), ("less", "objects"), ("subtract", "objects")):
    contract("C17", [O + "__array_ufunc__"])(named("ufunc_%s_%s" % (_op, _o or "unary"), oufunc(_op, _o)))


@contract("C17", [O + "_concatenate_axis0"], also=("C10",))
def concatenate_objects(v):
    a, w = objects(v)
    b, x = objects(v, "other")
    v.reach()
    out = v.call(lambda: a.concatenate([b]), label="concatenate")
    z = oview(v, out)
    ensure_view(v, "the result", z, w.n + x.n, lambda i: (z3.If(i < w.n, w.elem(i)[0], x.elem(i - w.n)[0]),))
    v.ensure_unmodified()


@contract("C17", [O + "copy"])
def copy_objects(v):
    a, w = objects(v)
    c = v.vals("replacement", w.n)
    v.reach()
    out = v.call(lambda: a.copy(content=c), label="copy")
    ensure_view(v, "the copy", oview(v, out), w.n, lambda i: (c.buf.fn(i),))
    ensure_view(v, "the original", oview(v, a), w.n, w.elem)
    ensure_view(v, "the plain copy", oview(v, v.call(lambda: a.copy(), label="copy")), w.n, w.elem)


# ---- strings: list i of a jagged array of characters, decoded
def strings(kind):
    def make(v, name="s", n=None):
        m = v.int(name + "_m", 0)
        chars = v.array(name + "_chars", m, np.dtype("uint8"), lo=0, hi=255)
        j, w = v.jagged(name, kind=kind, content=chars, n=n)
        a = v.aw.StringArray.__new__(v.aw.StringArray)
        a._content, a._generator, a._kwargs = j, v.aw.array.objects.tostring, {}
        a.encoding = "utf-8"
        v.decoded = []

        def decode(x, errors):
            v.decoded.append(x)
            return (Obj(x), 1)
        a._args = (decode,)
        return a, w
    return make


def string_jagged(v, out):
    if not isinstance(out, v.aw.StringArray):
        v.ensure("the result is a StringArray", False)
        raise PathAbort()
    v.ensure("selecting decodes nothing", not v.decoded)
    v.ensure("same encoding", out.encoding == "utf-8")
    return out._content


def string_item(kind):
    def body(v):
        a, w = strings(kind)(v)
        i = v.int("i")
        v.reach()
        out = v.call(lambda: a[SymInt(i)], label="getitem", raises={IndexError: z3.Or(i < -w.n, i >= w.n)})
        v.ensure("one string decoded", isinstance(out, Obj) and len(v.decoded) == 1)
        k = wrap(i, w.n)
        v.ensure_array("its characters", out.x, w.count(k), lambda t: w.item(k, t))
        v.ensure_unmodified()
    return body


def string_slice(kind, form, step):
    def body(v):
        a, w = strings(kind)(v)
        s, x, y, c = symslice(v, form, step)
        v.reach()
        first, length = pyslice(w.n, x, y, c)
        cc = IV(1) if c is None else c
        out = string_jagged(v, v.call(lambda: a[s], label="getitem"))
        v.on_index = lambda k: (simp(first + k * cc),)
        v.ensure_jagged("the strings", out, length, lambda i: w.count(first + i * cc), lambda i, k: w.item(first + i * cc, k))
        v.ensure_unmodified()
    return body


def string_mask(kind):
    def body(v):
        a, w = strings(kind)(v)
        mk = v.bools("where", w.n)
        v.reach()
        C, pos = pick_mask(v, mk, w.n)
        out = string_jagged(v, v.call(lambda: a[mk], label="getitem"))
        v.ensure_jagged("the strings", out, C(w.n), lambda i: w.count(pos(i)), lambda i, k: w.item(pos(i), k))
        v.ensure_unmodified()
    return body


def string_fancy(kind):
    def body(v):
        a, w = strings(kind)(v)
        m = v.int("m", 0)
        idx = v.array("where", m)
        f = idx.buf.fn
        bad, inside = v.skolem("bad"), v.ctx.bool("inside")
        v.assume_forall(lambda i: z3.Implies(inside, z3.And(-w.n <= f(i), f(i) < w.n)), IV(0), m)
        v.assume(z3.Implies(z3.Not(inside), z3.And(0 <= bad, bad < m, z3.Or(f(bad) < -w.n, f(bad) >= w.n))))
        v.reach()
        out = string_jagged(v, v.call(lambda: a[idx], label="getitem", raises={IndexError: z3.Not(inside)}))
        g = lambda i: wrap(f(i), w.n)
        v.ensure_jagged("the strings", out, m, lambda i: w.count(g(i)), lambda i, k: w.item(g(i), k))
        v.ensure_unmodified()
    return body


FS = [S + "__getitem__", S + "__init__", S + "encoding", O + "__getitem__"]
for _k in KINDS:
    contract("C17", FS)(named("string_integer_" + _k, string_item(_k)))
    contract("C17", FS, arith=6)(named("string_slice_" + _k, string_slice(_k, "ab", None)))
    contract("C17", FS, arith=6)(named("string_reverse_" + _k, string_slice(_k, "", -1)))
    contract("C17", FS)(named("string_mask_" + _k, string_mask(_k)))
    contract("C17", FS)(named("string_fancy_" + _k, string_fancy(_k)))
