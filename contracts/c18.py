"""VirtualArray: a state machine over (cache, held array or key, edits). The representation invariant is established by the
constructor, preserved by every operation, and implies that every read sees the generated array with the edits applied.
The cache is any object that returns what was last stored under a key or raises KeyError: it may evict at every access."""
from .spec import *
from .selectors import *

VA = "awkward0/array/virtual.py:VirtualArray."
STATES = ("fresh", "held", "cachefresh", "cachekey", "persistent", "cacheremoved", "cacheadded")


class AnyCache(object):
    """contract of a cache: a stored entry may be gone at any access"""

    def __init__(self, v, entries=()):
        self.v, self.store, self.evictions, self.stores = v, dict(entries), 0, 0

    def _present(self, key):
        if key not in self.store:
            return False
        if SymBool(self.v.ctx.bool("evicted")):
            del self.store[key]
            self.evictions += 1
            return False
        return True

    def __getitem__(self, key):
        if not self._present(key):
            e = KeyError(key)
            e._modelled = True
            raise e
        return self.store[key]

    def __setitem__(self, key, value):
        self.stores += 1
        self.store[key] = value

    def __delitem__(self, key):
        if key not in self.store:
            e = KeyError(key)
            e._modelled = True
            raise e
        del self.store[key]

    def __contains__(self, key):
        return self._present(key)


class Gen(object):
    """the generator: returns equal but distinct arrays each time, counts its calls, checks its arguments"""

    def __init__(self, v, make, args=(), kwargs={}):
        self.v, self.make, self.calls, self.args, self.kwargs = v, make, 0, args, kwargs

    def __call__(self, *args, **kwargs):
        self.calls += 1
        self.v.ensure("the generator gets its arguments", args == self.args and kwargs == self.kwargs)
        return self.make()


def virtual(v, state, make, value=None):
    """a VirtualArray in an arbitrary state of that kind; make() generates, value() is an array equal to the generated one with edits"""
    value = value or make
    g = Gen(v, make, (3, "a"), {"q": 7})
    cache = AnyCache(v) if state in ("cachefresh", "cachekey", "persistent", "cacheadded") else None
    a = v.call(lambda: v.aw.VirtualArray(g, (3, "a"), {"q": 7}, cache=cache, persistentkey="pk" if state == "persistent" else None), label="VirtualArray")
    v.ensure("constructing generates nothing", g.calls == 0)
    held = None
    if state in ("held", "cacheadded"):
        a._array = held = value()
    elif state == "cacheremoved":
        a._array = a.key
    elif state == "cachefresh":
        a._array = None
    elif cache is not None:
        v.ensure("the key is the array's own", a._array == a.key)
        if SymBool(v.ctx.bool("stored")):
            cache.store[a._array] = held = value()
    return a, g, cache, held


def flat(v, name="content"):
    n = v.int(name + "_n", 0)
    c = v.vals(name, n)
    f = c.buf.fn

    def make():
        x = SymArray([n], lambda i: f(i), F64, Val)
        x.buf.frozen = True     # reading may not change it
        return x
    return make, View(n, lambda i: (f(i),))


def invariant(v, a, same):
    """what is held, or stored in the cache under the array's key, is what it stands for"""
    if a._array is None:
        return
    if isinstance(a._array, (str, v.aw.VirtualArray.TransientKey)):
        v.ensure("the key is the array's own", a._array == a.key)
        if a._cache is not None and a._array in a._cache.store:
            same("the stored array", a._cache.store[a._array])
    else:
        same("the held array", a._array)


def read(state):
    def body(v):
        make, w = flat(v)
        a, g, cache, held = virtual(v, state, make)
        v.reach()
        same = lambda name, x: v.ensure_array(name, x, w.n, lambda i: w.elem(i)[0])
        out = v.call(lambda: a.array, label="VirtualArray.array")
        same("the array", out)
        kept = held is not None and (cache is None or cache.evictions == 0)
        v.ensure("generated exactly when nothing was held", g.calls == (0 if kept else 1))
        invariant(v, a, same)
        v.ensure("something is held now", a._array is not None and (cache is None or cache.stores > 0 or kept))
        for again in range(2):
            calls, gone = g.calls, cache.evictions if cache is not None else 0
            out = v.call(lambda: a.array, label="VirtualArray.array")
            same("the array read again", out)
            v.ensure("generated again exactly when evicted", g.calls - calls == (cache.evictions if cache is not None else 0) - gone)
            invariant(v, a, same)
        v.ensure_unmodified()
    return body


def materialized(state):
    def body(v):
        make, w = flat(v)
        a, g, cache, held = virtual(v, state, make)
        v.reach()
        out = v.call(lambda: a.ismaterialized, label="ismaterialized")
        out = bool(out) if isinstance(out, SymBool) else out
        kept = held is not None and (cache is None or cache.evictions == 0)
        v.ensure("ismaterialized says whether reading would generate", (out is True) == kept)
        v.ensure("asking generates nothing", g.calls == 0)
    return body


def copy(state):
    """a copy reads the same, and neither disturbs the other's entry in the cache"""
    def body(v):
        make, w = flat(v)
        a, g, cache, held = virtual(v, state, make)
        v.reach()
        same = lambda name, x: v.ensure_array(name, x, w.n, lambda i: w.elem(i)[0])
        b = v.call(lambda: a.copy(), label="VirtualArray.copy")
        v.ensure("copying generates nothing", g.calls == 0)
        invariant(v, b, same)
        same("the copy", v.call(lambda: b.array, label="VirtualArray.array"))
        invariant(v, a, same)
        if isinstance(b._array, v.aw.VirtualArray.TransientKey):
            del b
            b = v.call(lambda: v.aw.VirtualArray(Gen(v, make, (3, "a"), {"q": 7}), (3, "a"), {"q": 7}), label="VirtualArray")
        same("the original", v.call(lambda: a.array, label="VirtualArray.array"))
        invariant(v, a, same)
        v.ensure_unmodified()
    return body


for _s in STATES:
    contract("C18", [VA + "array", VA + "materialize", VA + "__init__", VA + "key"])(named("array_" + _s, read(_s)))
    contract("C18", [VA + "ismaterialized"])(named("ismaterialized_" + _s, materialized(_s)))
    contract("C18", [VA + "copy", VA + "array", VA + "materialize", VA + "__del__"])(named("copy_" + _s, copy(_s)))


# ---- selections are those of the array
def mk(state):
    def make(v):
        make, w = flat(v)
        return virtual(v, state, make)[0], w
    return make


def plain(v, out):
    v.is1d(out, "the result")
    return View(out.n, lambda i, f=out.snapshot(): (f(i),))


for _s in ("held", "cachekey"):
    register("C18", [VA + "__getitem__", VA + "array", VA + "materialize"], _s, mk(_s), plain, plain_item, divmod=False)


def uf(op, other):
    def body(v):
        make, w = flat(v)
        a = virtual(v, "cachekey", make)[0]
        if other == "virtual":
            c = v.vals("other", w.n)
            f = c.buf.fn
            b = virtual(v, "held", lambda: c)[0]
            g = lambda i: f(i)
        elif other == "scalar":
            k = z3.Const("k", Val)
            b, g = SymVal(k), lambda i: k
        v.reach()
        u = getattr(np, op)
        out = v.call(lambda: u(a, b) if other else u(a), label=op)
        v.ensure_array("the result", out, w.n, lambda i: elementwise_term(op, w.elem(i)[0], g(i)) if other else elementwise_term(op, w.elem(i)[0]))
        v.ensure_unmodified()
    return body


for _op, _o in (("negative", None), ("less", "scalar"), ("subtract", "virtual")):
    contract("C18", [VA + "__array_ufunc__", VA + "array"])(named("ufunc_%s_%s" % (_op, _o or "unary"), uf(_op, _o)))


# ---- edits of a virtual Table
def edited(v, deleted, added, n):
    """(generate, current value, columns): a table of columns x, y generated, then `deleted` removed and `added` set"""
    gen = {c: v.vals("gen_" + c, n) for c in ("x", "y")}
    new = {c: v.vals("set_" + c, n) for c in added}
    Table = v.aw.Table

    def fresh(cols):
        out = []
        for c, x in cols:
            f = x.snapshot()
            out.append((c, SymArray([n], lambda i, f=f: f(i), F64, Val)))
        return v.call(lambda: Table.frompairs(out), label="Table.frompairs")
    make = lambda: fresh(list(gen.items()))
    cols = {c: x for c, x in gen.items() if c not in deleted}
    cols.update(new)
    value = lambda: fresh(list(cols.items()))
    return make, value, cols, new


def table_same(v, cols, n):
    def same(name, t):
        if not isinstance(t, v.aw.Table):
            v.ensure(name + " is a Table", False)
            return
        v.ensure(name + " has the columns", sorted(t._contents) == sorted(cols))
        for c in cols:
            if c in t._contents:
                v.ensure_array("%s column %s" % (name, c), v.call(lambda: t[c], label="column"), n, lambda i, c=c: cols[c].buf.fn(i))
    return same


def history(a, deleted, added, new):
    from collections import OrderedDict
    if added:
        a._setitem = OrderedDict((c, new[c]) for c in added)
    if deleted:
        a._delitem = list(deleted)


def editing(state, deleted, added, action):
    def body(v):
        n = v.int("n", 0)
        make, value, cols, new = edited(v, deleted, added, n)
        a, g, cache, held = virtual(v, state, make, value)
        history(a, deleted, added, new)
        v.reach()
        kind, names = action
        cols = dict(cols)
        if kind == "set":
            x = v.vals("what", n)
            v.call(lambda: a.__setitem__(names, x), label="VirtualArray.__setitem__")
            cols[names] = x
        elif kind == "del":
            v.call(lambda: a.__delitem__(names), label="VirtualArray.__delitem__")
            del cols[names]
        same = table_same(v, cols, n)
        for again in range(2):
            same("the array", v.call(lambda: a.array, label="VirtualArray.array"))
            invariant(v, a, same)
        # whatever is held is given up: the edits survive regeneration
        a._array = None
        same("the array generated again", v.call(lambda: a.array, label="VirtualArray.array"))
        b = v.call(lambda: a.copy(), label="VirtualArray.copy")
        b._array = None
        same("a copy generated again", v.call(lambda: b.array, label="VirtualArray.array"))
        v.ensure_unmodified()
    return body


def fork(deleted, added, action):
    """edits of a copy are replayed on the copy only (nothing is held: an array both hold is one array)"""
    def body(v):
        n = v.int("n", 0)
        make, value, cols, new = edited(v, deleted, added, n)
        a, g, cache, held = virtual(v, "fresh", make, value)
        history(a, deleted, added, new)
        v.reach()
        b = v.call(lambda: a.copy(), label="VirtualArray.copy")
        y = v.vals("later", n)
        then = dict(cols)
        if action == "set":
            v.call(lambda: b.__setitem__("q", y), label="VirtualArray.__setitem__")
            then["q"] = y
        else:
            v.call(lambda: b.__delitem__("x"), label="VirtualArray.__delitem__")
            del then["x"]
        table_same(v, cols, n)("the array after a copy was edited", v.call(lambda: a.array, label="VirtualArray.array"))
        table_same(v, then, n)("the edited copy", v.call(lambda: b.array, label="VirtualArray.array"))
        v.ensure_unmodified()
    return body


HIST = {"none": ((), ()), "deleted": (("y",), ()), "set": ((), ("z",)), "replaced": ((), ("y",)), "both": (("y",), ("z",)), "deletedset": (("y",), ("y",))}
for _h, (_d, _a) in HIST.items():
    for _c in ("set", "del"):
        contract("C18", [VA + "copy", VA + "__setitem__", VA + "__delitem__", VA + "materialize"])(named("edits_%s_fork_%s" % (_h, _c), fork(_d, _a, _c)))
for _s in ("held", "cachekey"):
    for _h, (_d, _a) in HIST.items():
        contract("C18", [VA + "materialize", VA + "array", VA + "copy"])(named("edits_%s_%s_read" % (_h, _s), editing(_s, _d, _a, ("read", None))))
        for _c in ("x", "y", "z"):
            contract("C18", [VA + "__setitem__", VA + "_edited", VA + "materialize", VA + "copy"])(named("edits_%s_%s_set_%s" % (_h, _s, _c), editing(_s, _d, _a, ("set", _c))))
            present = set("xy") - set(_d) | set(_a)
            if _c in present:
                contract("C18", [VA + "__delitem__", VA + "_edited", VA + "materialize", VA + "copy"])(named("edits_%s_%s_del_%s" % (_h, _s, _c), editing(_s, _d, _a, ("del", _c))))
