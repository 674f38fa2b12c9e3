from .spec import *
from .selectors import *

T = "awkward0/array/table.py:"
COLS = ("x", "y")


def table(view, step=None):
    """an arbitrary table of two columns in any state a chain of selections can reach (the representation invariant):
    no view (columns may have different lengths), a (start, step, length) view or a view by positions, all positions inside both columns"""
    def make(v, name="t", n=None):
        ms = [v.int("%s_%s_m" % (name, c), 0) for c in COLS]
        cols = [v.vals("%s_%s" % (name, c), m) for c, m in zip(COLS, ms)]
        fs = [c.buf.fn for c in cols]
        t = v.call(lambda: v.aw.Table.frompairs(zip(COLS, cols)), label="Table.frompairs")
        if view is None:
            length = z3.If(ms[0] < ms[1], ms[0], ms[1])
            if n is None:
                n = v.int(name + "_n", 0)
            v.assume(n == length)
            pos = lambda i: i
        elif view == "slice":
            n = v.int(name + "_n", 0) if n is None else n
            start = v.int(name + "_start")
            st = IV(step) if step is not None else v.int(name + "_step")
            pos = lambda i: start + st * i
            for m in ms:
                v.assume_forall(lambda i, m=m: z3.And(0 <= pos(i), pos(i) < m), IV(0), n)
                if step is not None:    # consequences at the ends
                    v.assume(z3.Implies(n >= 1, z3.And(0 <= pos(IV(0)), pos(IV(0)) < m, 0 <= pos(n - 1), pos(n - 1) < m)))
            v.assume(st != 0)
            t._view = (SymInt(start), step if step is not None else SymInt(st), SymInt(n))
        else:
            n = v.int(name + "_n", 0) if n is None else n
            index = v.array(name + "_view", n, lo=0)
            pos = index.buf.fn
            for m in ms:
                v.assume_forall(lambda i, m=m: pos(i) < m, IV(0), n)
            t._view = index
        return t, View(n, lambda i: tuple(f(pos(i)) for f in fs))
    return make


def tview(v, t):
    """rows of a table, read off its view; its positions must lie inside every column (the invariant, proved)"""
    if not isinstance(t, v.aw.Table):
        v.ensure("the result is a Table", False)
        raise PathAbort()
    v.ensure("same columns", tuple(t._contents) == COLS)
    cols = [t._contents[c] for c in COLS]
    fs = [elem_fn(c) for c in cols]
    if t._view is None:
        n = v.ctx.int("len")
        a, b = [I(vp_len(c)) for c in cols]
        v.assume(n == z3.If(a < b, a, b))
        return View(n, lambda i: tuple(f(i) for f in fs))
    if isinstance(t._view, tuple):
        start, step, n = [I(x) for x in t._view]
        pos = lambda i: start + step * i
    else:
        n, pos = I(vp_len(t._view)), t._view.snapshot()
    v.ensure("view length", n >= 0)
    for c in cols:
        v.ensure_forall("positions inside the columns", lambda i: z3.And(0 <= pos(i), pos(i) < I(vp_len(c))), IV(0), n)
    return View(n, lambda i: tuple(f(pos(i)) for f in fs))


def row_item(v, name, out, want):
    if not isinstance(out, v.aw.Table.Row):
        v.ensure(name + " is a row", False)
        return
    for c, w in zip(COLS, want):
        x = v.call(lambda: out[c], label="Row.__getitem__")
        t = scalar_term(x)
        if t is None:
            raise Unsupported("row element of type %r" % type(x))
        v.ensure("%s column %s" % (name, c), coerce(t, Val) == w)


F = [T + "Table.__getitem__", T + "Table._newslice", T + "Table._length", T + "Table._index", T + "Table.copy", T + "Table.Row.__getitem__"]
register("C16", F, "noview", table(None), tview, row_item, divmod=True)
register("C16", F, "positions", table("array"), tview, row_item)
for _s in (1, -1, 2, -3):
    register("C16", F, "view%s" % str(_s).replace("-", "m"), table("slice", _s), tview, row_item, divmod=True)

# any step: only the selections whose arithmetic stays within the solver's reach
register("C16", F, "viewany", table("slice"), tview, row_item, hint=True, divmod=True, arith=6)


def columns(view, step=None):
    def body(v):
        t, w = table(view, step)(v)
        v.reach()
        v.ensure("len", I(vp_len(t)) == w.n)
        for k, c in enumerate(COLS):
            out = v.call(lambda: t[c], label="column")
            if view is None:
                f = v.is1d(out, "column " + c).snapshot()
                v.ensure("column is long enough", out.n >= w.n)
                v.ensure_forall("column " + c, lambda i: f(i) == w.elem(i)[k], IV(0), w.n)
            else:
                v.ensure_array("column " + c, out, w.n, lambda i: w.elem(i)[k])
        out = v.call(lambda: t[["y"]], label="columns")
        v.ensure("selected columns", isinstance(out, v.aw.Table) and list(out._contents) == ["y"])
        y = v.call(lambda: out["y"], label="column")
        v.ensure("the selected table has as many rows", I(vp_len(out)) == w.n)
        v.ensure_array("the selected column", y, w.n, lambda i: w.elem(i)[1])
        v.ensure_unmodified()
    return body


STATES = [("noview", None, None), ("positions", "array", None), ("view1", "slice", 1), ("viewm1", "slice", -1), ("view2", "slice", 2), ("viewm3", "slice", -3)]
for _n, _v, _s in STATES:
    contract("C16", F, arith=6)(named("columns_" + _n, columns(_v, _s)))


def tufunc(view, step, op, other):
    def body(v):
        t, w = table(view, step)(v)
        u = getattr(np, op)
        if other == "flat":
            b = v.vals("b", w.n)
            bf = lambda k: (lambda i: b.buf.fn(i))
        elif other == "table":
            b, x = table("array")(v, "u", n=w.n)
            bf = lambda k: (lambda i: x.elem(i)[k])
        v.reach()
        out = v.call(lambda: u(t, b) if other else u(t), label=op)
        if op in COMPARE:
            want = [lambda i, k=k: elementwise_term(op, w.elem(i)[k], bf(k)(i)) for k in (0, 1)]
            v.ensure_array("equal in every column", out, w.n, lambda i: z3.And(want[0](i), want[1](i)))
        else:
            got = tview(v, out)
            v.ensure("rows", got.n == w.n)
            for k, c in enumerate(COLS):
                v.ensure_forall("column " + c, lambda i: got.elem(i)[k] == (elementwise_term(op, w.elem(i)[k], bf(k)(i)) if other else elementwise_term(op, w.elem(i)[k])), IV(0), w.n)
        v.ensure_unmodified()
    return body


for _n, _v, _s in STATES[:4]:
    for _op, _o in (("negative", None), ("add", "flat"), ("equal", "table"), ("add", "table")):
        contract("C16", [T + "Table.__array_ufunc__", T + "Table.empty_like", T + "Table._index", T + "Table.__setitem__"], arith=6)(named("ufunc_%s_%s_%s" % (_op, _o or "unary", _n), tufunc(_v, _s, _op, _o)))


@contract("C16", [T + "Table.__setitem__", T + "Table.__getitem__"])
def set_column(v):
    t, w = table(None)(v)
    z = v.vals("z", w.n)
    f = z.buf.fn
    v.reach()
    v.call(lambda: t.__setitem__("z", z), label="setitem")
    v.ensure_array("the new column", v.call(lambda: t["z"], label="column"), w.n, f)
    for k, c in enumerate(COLS):
        g = v.is1d(v.call(lambda: t[c], label="column"), c).snapshot()
        v.ensure_forall("column %s kept" % c, lambda i: g(i) == w.elem(i)[k], IV(0), w.n)
    v.ensure("as many rows", I(vp_len(t)) == w.n)
    v.call(lambda: t.__setitem__("x", z), label="setitem")
    v.ensure_array("the replaced column", v.call(lambda: t["x"], label="column"), w.n, f)
    v.ensure_unmodified()


def setview(view, step):
    def body(v):
        t, w = table(view, step)(v)
        z = v.vals("z", w.n)
        v.reach()
        v.call(lambda: t.__setitem__("z", z), label="setitem", raises={ValueError: z3.BoolVal(True)})
    return body


for _n, _v, _s in STATES[1:3]:
    contract("C16", [T + "Table.__setitem__"])(named("set_column_refused_" + _n, setview(_v, _s)))


def tconcat(view, step):
    def body(v):
        t, w = table(view, step)(v)
        u, x = table("array")(v, "u")
        v.reach()
        out = v.call(lambda: v.aw.Table._concatenate_axis0([t, u]), label="concatenate")
        got = tview(v, out)
        v.ensure("rows", got.n == w.n + x.n)
        v.ensure_forall("rows one after another", lambda i: z3.And(*[got.elem(i)[k] == z3.If(i < w.n, w.elem(i)[k], x.elem(i - w.n)[k]) for k in (0, 1)]), IV(0), w.n + x.n)
        v.ensure_unmodified()
    return body


for _n, _v, _s in STATES[:4]:
    contract("C10", [T + "Table._concatenate_axis0", T + "Table.deepcopy"], arith=6)(named("concatenate_tables_" + _n, tconcat(_v, _s)))
