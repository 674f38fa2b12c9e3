from .spec import *
from .selectors import *
from .c11 import masked, indexedmasked, mview, M

ENC = {"mt": lambda v, name="a", n=None: masked(v, True, name, n), "mf": lambda v, name="a", n=None: masked(v, False, name, n),
       "ix": lambda v, name="a", n=None: indexedmasked(v, None, name, n)}
UF = [M + "MaskedArray.__array_ufunc__", M + "MaskedArray.boolmask", M + "IndexedMaskedArray.boolmask", M + "IndexedMaskedArray.__init__"]


def ranks(v, *extra):
    v.on_index = lambda k: [t for ps, pos, n in v._positions() for t in (ps(k), ps(k + 1), pos(ps(k)))] + [x for f in extra for x in f(k)]


def missing_or(v, name, out, n, missing, value):
    """out is a masked array: missing exactly where `missing`, otherwise `value`; no entry reaches outside its content"""
    if not isinstance(out, v.aw.MaskedArray):
        v.ensure(name + " is a masked array", False)
        raise PathAbort()
    got = mview(v, out)
    ensure_view(v, name, got, n, lambda i: (missing(i), value(i)))
    if isinstance(out, v.aw.IndexedMaskedArray):
        f, m, w = out._mask.snapshot(), I(vp_len(out._content)), I(out._maskedwhen)
        v.ensure_forall(name + " positions inside the content", lambda i: z3.Or(f(i) == w, z3.And(0 <= f(i), f(i) < m)), IV(0), n)


def unary(op, enc):
    def body(v):
        a, w = ENC[enc](v)
        v.reach()
        ranks(v)
        out = v.call(lambda: getattr(np, op)(a), label=op)
        missing_or(v, "the result", out, w.n, lambda i: w.elem(i)[0], lambda i: elementwise_term(op, w.elem(i)[1]))
        v.ensure_unmodified()
    return body


def scalar(op, enc, left=False):
    def body(v):
        a, w = ENC[enc](v)
        c = z3.Const("c", Val)
        v.reach()
        ranks(v)
        u = getattr(np, op)
        out = v.call(lambda: u(SymVal(c), a) if left else u(a, SymVal(c)), label=op)
        missing_or(v, "the result", out, w.n, lambda i: w.elem(i)[0], lambda i: elementwise_term(op, *((c, w.elem(i)[1]) if left else (w.elem(i)[1], c))))
        v.ensure_unmodified()
    return body


def flat(op, enc, left=False):
    def body(v):
        a, w = ENC[enc](v)
        b = v.vals("b", w.n)
        f = b.buf.fn
        v.reach()
        ranks(v)
        u = getattr(np, op)
        out = v.call(lambda: u(b, a) if left else u(a, b), label=op)
        missing_or(v, "the result", out, w.n, lambda i: w.elem(i)[0], lambda i: elementwise_term(op, *((f(i), w.elem(i)[1]) if left else (w.elem(i)[1], f(i)))))
        v.ensure_unmodified()
    return body


def two(op, e1, e2):
    def body(v):
        a, w = ENC[e1](v, "a")
        b, x = ENC[e2](v, "b", w.n)
        v.reach()
        ranks(v)
        out = v.call(lambda: getattr(np, op)(a, b), label=op)
        missing_or(v, "the result", out, w.n, lambda i: z3.Or(w.elem(i)[0], x.elem(i)[0]), lambda i: elementwise_term(op, w.elem(i)[1], x.elem(i)[1]))
        v.ensure_unmodified()
    return body


for _e in ENC:
    contract("C12", UF)(named("unary_negative_" + _e, unary("negative", _e)))
    contract("C12", UF)(named("scalar_subtract_" + _e, scalar("subtract", _e)))
    contract("C12", UF)(named("flat_subtract_" + _e, flat("subtract", _e, left=_e == "ix")))
    for _f in ENC:
        contract("C12", UF)(named("two_%s_%s_%s" % ("less" if _e == _f else "subtract", _e, _f), two("less" if _e == _f else "subtract", _e, _f)))
contract("C12", UF)(named("scalar_less_mt", scalar("less", "mt", left=True)))


def prepare(enc, op, identity):
    def body(v):
        a, w = ENC[enc](v)
        v.reach()
        ranks(v)
        out = v.call(lambda: a._prepare(getattr(np, op), identity, None), label="_prepare")
        ident = coerce(IV(identity), Val)
        v.ensure_array("the values a reduction uses", out, w.n, lambda i: z3.If(w.elem(i)[0], ident, w.elem(i)[1]))
        v.ensure_unmodified()
    return body


def fillna(enc):
    def body(v):
        a, w = ENC[enc](v)
        c = z3.Const("c", Val)
        v.reach()
        ranks(v)
        out = v.call(lambda: a.fillna(SymVal(c)), label="fillna")
        isnan = lambda e: elementwise("isnan", [e], Bool)
        v.ensure_array("the filled values", out, w.n, lambda i: z3.If(z3.Or(w.elem(i)[0], isnan(w.elem(i)[1])), c, w.elem(i)[1]))
        v.ensure_unmodified()
    return body


for _e in ENC:
    _c = "IndexedMaskedArray" if _e == "ix" else "MaskedArray"
    contract("C12", [M + _c + "._prepare"])(named("prepare_add_" + _e, prepare(_e, "add", 0)))
    contract("C12", [M + _c + "._prepare"])(named("prepare_multiply_" + _e, prepare(_e, "multiply", 1)))
    contract("C12", [M + _c + ".fillna", "awkward0/array/base.py:AwkwardArray._util_fillna"])(named("fillna_" + _e, fillna(_e)))


def concat(e1, e2):
    def body(v):
        a, w = ENC[e1](v, "a")
        b, x = ENC[e2](v, "b")
        v.reach()
        out = v.call(lambda: v.aw.array.base.AwkwardArray.concatenate([a, b]), label="concatenate")
        ensure_view(v, "the result", mview(v, out), w.n + x.n, lambda i: (z3.If(i < w.n, w.elem(i)[0], x.elem(i - w.n)[0]), z3.If(i < w.n, w.elem(i)[1], x.elem(i - w.n)[1])))
        v.ensure_unmodified()
    return body


for _e, _f in (("mt", "mt"), ("mt", "mf"), ("mf", "mf"), ("ix", "ix")):
    contract("C12", [M + ("IndexedMaskedArray" if _e == "ix" else "MaskedArray") + "._concatenate_axis0", "awkward0/array/base.py:AwkwardArray.concatenate"], also=("C10",))(named("concatenate_%s_%s" % (_e, _f), concat(_e, _f)))
