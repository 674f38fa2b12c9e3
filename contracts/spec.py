"""Specification API: symbolic inputs satisfying stated preconditions, calls of the real code, postconditions."""
import sys, traceback
from engine import load
from engine.core import *
from engine import core
from engine.sym import *
from engine.sym import SymArray, SymInt, SymBool, SymVal, PrefixSum

CONTRACTS = {}


def contract(prop, functions, **kw):
    """register a contract: body(v) states precondition, call and postcondition of the named functions of /repo"""
    def deco(f):
        CONTRACTS.setdefault(prop, []).append(dict(prop=prop, name=f.__name__, functions=functions, body=f, **kw))
        return f
    return deco


def run_body(body, ctx):
    v = V(ctx)
    try:
        body(v)
    finally:
        v.unpatch()


ENGINE_DIR = core.__file__.rsplit("/", 1)[0]
CONTRACT_DIR = __file__.rsplit("/", 1)[0]


def is_engine_limit(err):
    tb = traceback.extract_tb(err.__traceback__)
    inner = tb[-1].filename if tb else ""
    msg = str(err)
    line = (tb[-1].line or "").strip() if tb else ""
    if "/repo/" in inner and (line.startswith("raise ") or line.startswith("assert")):
        return False
    if any(w in msg for w in ("SymArray", "SymInt", "SymBool", "SymVal", "FakeNumpy", "Abstract", "z3")):
        return True
    if inner.startswith(ENGINE_DIR) or inner.startswith(CONTRACT_DIR):
        if getattr(err, "_modelled", False):
            return False
        return not isinstance(err, (ValueError, IndexError, ZeroDivisionError)) or "z3" in type(err).__module__
    if "z3" in type(err).__module__ or "z3" in inner:
        return True
    if getattr(err, "_modelled", False):
        return False
    # raised by a statement of the code under contract (raise/assert); anything CPython itself raised on a
    # symbolic stand-in (TypeError, AttributeError...) is a limit of this verifier, not a finding
    return True


STRUCTURE = ("_starts", "_stops", "_content", "_contents", "_index", "_tags", "_mask", "_maskedwhen", "_view", "_default", "_length", "_inverse_index", "_chunks", "_generator", "_args", "_kwargs")


def same_items(a, b):
    if isinstance(a, dict):
        return list(a) == list(b) and all(a[k] is b[k] for k in a)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def track(v):
    """record the awkward objects made on this path (object identity only)"""
    base = v.aw.array.base.AwkwardArray
    if "__new__" not in base.__dict__:
        def new(cls, *args, **kwargs):
            o = object.__new__(cls)
            if core.CUR is not None and getattr(core.CUR, "v", None) is not None:
                core.CUR.v.objs.append(o)
            return o
        base.__new__ = staticmethod(new)


class Raised(object):
    def __init__(self, err):
        self.err = err


class V(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.aw = load.load()
        self.frames = []
        self.patches = []
        self.points = []
        self.segments = False   # ghost instantiation of segment boundaries in element obligations
        self.objs = []          # every awkward object made on this path, with the structure it had when the code was called
        self.structure = []
        track(self)
        self.on_index = None    # ghost: terms to look at for the index an obligation is about
        ctx.v = self

    def patch(self, cls, name, stub, by):
        """verify the caller against a callee's contract: `stub` proves the callee's precondition and assumes its postcondition"""
        self.patches.append((cls, name, cls.__dict__.get(name)))
        self.ctx.report.assumed.append(by)
        setattr(cls, name, stub)

    def unpatch(self):
        for cls, name, old in reversed(self.patches):
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)
        self.patches = []

    # ---- symbolic inputs
    def int(self, name, lo=None, hi=None):
        x = self.ctx.int(name)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        self.ctx.note_index(x)
        return x

    def sint(self, name, lo=None, hi=None):
        return SymInt(self.int(name, lo, hi))

    def array(self, name, n, dtype=INT64, sort=None, lo=None, hi=None):
        dtype = np.dtype(dtype)
        sort = sort if sort is not None else sort_of(dtype)
        f = self.ctx.fun(name, Int, sort)
        a = SymArray([Z(n)], lambda i: f(i), dtype, sort)
        a.buf.name = name
        self.frames.append((name, a, a.buf, a.buf.fn, a.buf.writes))
        if lo is not None:
            self.assume_forall(lambda i: f(i) >= lo, IV(0), Z(n))
        if hi is not None:
            self.assume_forall(lambda i: f(i) <= hi, IV(0), Z(n))
        return a

    def vals(self, name, n):
        return self.array(name, n, F64, Val)

    def bools(self, name, n):
        return self.array(name, n, BOOL, Bool)

    # ---- assumptions and obligations
    def assume(self, f):
        self.ctx.fact(B(f) if not isinstance(f, z3.ExprRef) else f)

    def assume_forall(self, fn, lo, hi, name="pre"):
        self.ctx.forall(lambda i: z3.Implies(z3.And(lo <= i, i < hi), fn(i)), 1, name=name)

    def assume_forall2(self, fn, name="pre"):
        self.ctx.forall(fn, 2, name=name, maxgen=3)

    def reach(self):
        """vacuity guard: the precondition must be satisfiable on at least one path"""
        r = self.ctx.check([], 1, 4000)
        self.structure = [] if core.ONLY_KIND != "frame" else [(o, {k: o.__dict__[k] for k in STRUCTURE if k in o.__dict__}) for o in self.objs if type(o).__name__ != "VirtualArray"]
        for o, d in self.structure:
            for k, x in d.items():
                if isinstance(x, (dict, list)):
                    d[k] = (x, type(x)(x))
        self.ctx.report.reach["pre"] = r if self.ctx.report.reach.get("pre") != "sat" else "sat"

    def ensure(self, name, f, kind="post"):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        elif not isinstance(f, z3.ExprRef):
            f = B(f)
        return prove(self.ctx, name, f, kind=kind)

    def skolem(self, name="k"):
        k = self.ctx.int(name)
        self.ctx.note_index(k)
        return k

    def touch(self, *es):
        """ghost: make ground terms available for instantiation (adds no assumption)"""
        for e in es:
            self.ctx.inst.scan(e, 0)
            self.ctx.note_index(e)

    def ghost_segment(self, i, d):
        """ghost: position d of segment i, for every prefix-sum function the code built"""
        for ps in list(self.ctx.prefixfuns):
            t = simp(ps(i) + d)
            self.touch(t)
            for key, val in list(self.ctx.cache.items()):
                if isinstance(key, tuple) and key[0] == "own" and val[2] is ps:
                    self.touch(val[0](t))

    def _positions(self):
        return [(val[2], val[0], val[1]) for key, val in list(self.ctx.cache.items()) if isinstance(key, tuple) and key[0] == "pos" and val[2].decl is not None]

    def ghost_positions(self, *ks):
        """ghost: rank of index k in every selection the code made"""
        for ps, pos, n in self._positions():
            for k in ks:
                k = Z(k)
                self.touch(ps(k), ps(k + 1), pos(ps(k)), pos(k), ps(pos(k)))

    def ghost_threshold(self, t0, count=None):
        """lemma (proved by induction where it holds): a selection of everything from position t0 on has rank max(0, t - t0)"""
        self.ctx.hooks.setdefault("positions", []).append(lambda ps, pos, n: induct(lambda t: ps(t) == zmax(IV(0), t - t0), IV(0), n, "threshold"))

    def ensure_forall(self, name, fn, lo, hi, hints=()):
        k = self.skolem("i")
        if self.on_index is not None:
            self.touch(*self.on_index(k))
        g = z3.Implies(z3.And(lo <= k, k < hi), fn(k))
        return prove(self.ctx, name, g)

    def ensure_forall2(self, name, fn, lo, hi, lo2, hi2):
        """forall i in [lo,hi), k in [lo2(i), hi2(i)): fn(i,k)"""
        i, k = self.skolem("i"), self.skolem("k")
        if self.on_index is not None:
            self.touch(*self.on_index(i))
        if self.segments:
            self.ghost_segment(i, k)
        return prove(self.ctx, name, z3.Implies(z3.And(lo <= i, i < hi, lo2(i) <= k, k < hi2(i)), fn(i, k)))

    def call(self, fn, *args, **kw):
        """call real code; raises={ExceptionType: condition}: exactly under `condition` that exception"""
        raises = kw.pop("raises", {})
        label = kw.pop("label", getattr(fn, "__qualname__", getattr(fn, "__name__", "call")))
        self.ctx.report.calls.add(label)
        try:
            out = fn(*args, **kw)
        except (Unsupported, PathAbort):
            raise
        except Exception as err:
            if is_engine_limit(err):
                u = Unsupported("%s: %s" % (type(err).__name__, str(err)[:200]))
                u.__traceback__ = err.__traceback__
                raise u
            for t, cond in raises.items():
                if isinstance(err, t):
                    prove(self.ctx, "%s raises %s only when specified" % (label, t.__name__), B(cond) if not isinstance(cond, z3.ExprRef) else cond, kind="exc")
                    raise PathAbort()
            tb = traceback.extract_tb(err.__traceback__)
            where = ["%s:%d" % (fr.filename.split("/repo/")[-1], fr.lineno) for fr in tb if load.REPO in fr.filename]
            ok = prove(self.ctx, "%s returns normally (%s: %s at %s)" % (label, type(err).__name__, str(err)[:80], " < ".join(where[-2:])), z3.BoolVal(False), kind="exc")
            raise PathAbort()
        for t, cond in raises.items():
            c = B(cond) if not isinstance(cond, z3.ExprRef) else cond
            prove(self.ctx, "%s does not return when it must raise %s" % (label, t.__name__), z3.Not(c), kind="exc")
        return out

    def ensure_unmodified(self, *skip):
        """frame: no input buffer changed"""
        for name, a, buf, fn, writes in self.frames:
            if name in skip:
                continue
            if buf.writes == writes:
                self.ctx.report.obligations.append(dict(name="frame: %s unmodified" % name, kind="frame", path="", status="proved", backend="no-write", seconds=0.0))
                continue
            idx = [self.skolem("f") for _ in buf.dims]
            g = z3.Implies(z3.And(*[z3.And(0 <= i, i < d) for i, d in zip(idx, buf.dims)]), buf.fn(*idx) == fn(*idx))
            prove(self.ctx, "frame: %s unmodified" % name, g, kind="frame")
        if skip or core.ONLY_KIND != "frame":
            return
        for o, d in self.structure:
            for k, x in d.items():
                now = o.__dict__.get(k)
                kept, was = x if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], (dict, list)) else (x, None)
                name = "frame: %s.%s unmodified" % (type(o).__name__, k)
                if now is kept and (was is None or same_items(now, was)):
                    self.ctx.report.obligations.append(dict(name=name, kind="frame", path="", status="proved", backend="no-write", seconds=0.0))
                elif isinstance(now, SymArray) and isinstance(kept, SymArray) and now.ndim == kept.ndim:
                    f, g = now.snapshot(), kept.snapshot()
                    idx = [self.skolem("f") for _ in range(now.ndim)]
                    prove(self.ctx, name, z3.And(*[a == b for a, b in zip(now.dims, kept.dims)]), kind="frame")
                    prove(self.ctx, name, z3.Implies(z3.And(*[z3.And(0 <= i, i < m) for i, m in zip(idx, kept.dims)]), f(*idx) == g(*idx)), kind="frame")
                elif isinstance(now, (SymInt, int)) and isinstance(kept, (SymInt, int)):
                    prove(self.ctx, name, I(now) == I(kept), kind="frame")
                else:
                    prove(self.ctx, name, z3.BoolVal(False), kind="frame")

    # ---- array structure
    def is1d(self, a, name):
        if not isinstance(a, SymArray):
            raise Unsupported("%s is not a symbolic array: %r" % (name, type(a)))
        self.ensure(name + " one-dimensional", a.ndim == 1)
        return a

    def ensure_array(self, name, a, n, fn=None):
        """a is one-dimensional of length n with elements fn(i)"""
        a = self.is1d(a, name)
        if a.ndim != 1:
            return
        self.ensure(name + " length", a.n == Z(n))
        if fn is not None:
            af = a.snapshot()
            self.ensure_forall(name + " elements", lambda i: coerce(af(i), fn(i).sort()) == fn(i), IV(0), Z(n))

    # ---- jagged arrays
    def jagged(self, name="j", kind="startsstops", content=None, n=None, disjoint=False, cached=False, full=False):
        """an arbitrary valid JaggedArray; kind: 'startsstops' | 'longstops' | 'offsets'"""
        JA = self.aw.JaggedArray
        n = self.int(name + "_n", 0) if n is None else n
        if content is None:
            m = self.int(name + "_m", 0)
            content = self.vals(name + "_content", m)
        m = I(vp_len(content))
        obj = JA.__new__(JA)
        if kind == "offsets":
            off = self.array(name + "_off", n + 1, lo=0)
            of = off.buf.fn
            self.ctx.forall(lambda i: z3.Implies(z3.And(0 <= i, i < n), of(i) <= of(i + 1)), 1, maxgen=2, name="offsets increasing")
            self.ctx.forall(lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= n), of(i) <= of(j)), 2, maxgen=2, name="offsets monotone (transitive)")
            self.assume(of(n) <= m)
            self.assume(of(IV(0)) >= 0)
            if full:
                self.assume(of(IV(0)) == 0)
                self.assume(of(n) == m)
            starts, stops = off[:-1], off[1:]
        else:
            starts = self.array(name + "_starts", n, lo=0)
            ns = n
            if kind == "longstops":
                ns = self.int(name + "_nstops")
                self.assume(ns >= n)
            stops = self.array(name + "_stops", ns, lo=0)
            sf, tf = starts.buf.fn, stops.buf.fn
            self.assume_forall(lambda i: sf(i) <= tf(i), IV(0), n)
            self.assume_forall(lambda i: z3.Implies(sf(i) != tf(i), tf(i) <= m), IV(0), n)
            if disjoint:
                self.ctx.forall(lambda i, j: z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j, sf(i) < tf(i), sf(j) < tf(j)), z3.Or(tf(i) <= sf(j), tf(j) <= sf(i))), 2, maxgen=3, name="disjoint")
        obj._starts, obj._stops, obj._content = starts, stops, content
        obj._offsets = obj._counts = obj._parents = None
        obj._isvalid = False
        return obj, JView(obj)

    def ensure_jagged(self, name, out, n, count, item, caches=True):
        """out is a valid JaggedArray of n lists, list i having count(i) elements item(i,k)"""
        if not isinstance(out, self.aw.JaggedArray):
            self.ensure(name + " is a JaggedArray", False)
            return
        w = JView(out)
        self.ensure(name + " length", w.n == Z(n))
        self.ensure(name + " has a stop for every start", I(vp_len(out._stops)) >= Z(n))
        self.ensure_forall(name + " counts", lambda i: w.count(i) == count(i), IV(0), Z(n))
        self.ensure_forall(name + " ranges inside content", lambda i: z3.And(w.start(i) >= 0, w.stop(i) >= w.start(i), z3.Implies(w.start(i) != w.stop(i), w.stop(i) <= w.m)), IV(0), Z(n))
        if item is not None:
            self.ensure_forall2(name + " elements", lambda i, k: self.eqv(w.item(i, k), item(i, k)), IV(0), Z(n), lambda i: IV(0), count)
        if caches:
            self.ensure_caches(name, out, w)

    def total(self, w, count=None):
        """the specification's prefix sum: number of elements in the lists before list i"""
        from engine.sym import prefix_sum, _telescope, ConstPrefixSum
        count = count or w.count
        ps = prefix_sum(lambda i: count(i), w.n)
        if not isinstance(ps, ConstPrefixSum):
            _telescope(ps, ps.c, w.n)     # may only be provable now, on this path
        return ps

    def ghost_point(self, i, k):
        """ghost (BEFORE the code): element k of list i is of interest in whatever flat layout the code builds"""
        self.points.append((i, k))
        self.ctx.hooks.setdefault("prefix", []).append(lambda ps: self.touch(ps(i), ps(i + 1), simp(ps(i) + k)))
        self.ctx.hooks.setdefault("owner", []).append(lambda own, ps: self.touch(own(simp(ps(i) + k))))

    def max_of(self, fn, n, name="mx"):
        """the specification's maximum of fn over [0, n), n >= 1 (a definitional extension)"""
        mx, at = self.ctx.int(name), self.ctx.int(name + "_at")
        self.assume(z3.Implies(n >= 1, z3.And(0 <= at, at < n, mx == fn(at))))
        self.assume_forall(lambda i: fn(i) <= mx, IV(0), n, name=name)
        return mx

    def owner_of(self, sf, tf, n):
        """where the ranges [sf(i), tf(i)) follow each other from 0 (proved): the i whose range holds t, else None"""
        from engine import core
        c = self.ctx
        key = ("rangeowner", simp(sf(core._PH[0])).get_id(), simp(tf(core._PH[0])).get_id(), simp(n).get_id())
        if key not in c.cache:
            k = c.int("gen")
            d = None
            if c.entails(z3.Implies(n >= 1, sf(IV(0)) == 0), 1) and c.entails(z3.Implies(z3.And(0 <= k, k < n - 1), sf(k + 1) == tf(k)), 1):
                c.report.lemmas += 1
                d = c.fun("rangeown", Int, Int)
                c.forall(lambda t: z3.Implies(z3.And(n >= 1, 0 <= t, t < tf(n - 1)), z3.And(0 <= d(t), d(t) < n, sf(d(t)) <= t, t < tf(d(t)))), 1, triggers=[[(d.name(), 0, 1, None)]], name="rangeown")
            c.cache[key] = (d, simp(sf(core._PH[0])), simp(tf(core._PH[0])), simp(n))
        return c.cache[key][0]

    def ghost_total(self, w, i, k):
        """ghost: position k of list i in the concatenation of w's lists"""
        ps = self.total(w)
        self.touch(ps(i) + k, ps(i), ps(i + 1))

    def eqv(self, a, b):
        if isinstance(a, tuple):
            return z3.And(*[self.eqv(x, y) for x, y in zip(a, b)])
        if a.sort() != b.sort():
            b = coerce(b, a.sort())
        return a == b

    def ensure_caches(self, name, out, w):
        if out._offsets is not None:
            o = out._offsets
            self.ensure(name + " cached offsets length", o.n == w.n + 1)
            self.ensure_forall(name + " cached offsets", lambda i: z3.And(o.at(i) == w.start(i), o.at(i + 1) == w.stop(i)), IV(0), w.n)
        if out._counts is not None:
            c = out._counts
            self.ensure(name + " cached counts length", c.n == w.n)
            self.ensure_forall(name + " cached counts", lambda i: c.at(i) == w.count(i), IV(0), w.n)
        if out._parents is not None:
            self.ensure_parents(name + " cached parents", out._parents, w)

    def ensure_parents(self, name, p, w):
        """p[k] = i exactly when content position k lies in list i; -1 when in no list"""
        k = self.skolem("k")
        self.ensure(name + " entries in range", z3.Implies(z3.And(0 <= k, k < p.n), z3.And(p.at(k) >= -1, p.at(k) < w.n)))
        self.ensure(name + " entry names a list containing it", z3.Implies(z3.And(0 <= k, k < p.n, p.at(k) >= 0), z3.And(w.start(p.at(k)) <= k, k < w.stop(p.at(k)))))
        i, j = self.skolem("i"), self.skolem("j")
        self.ghost_segment(i, j - w.start(i))
        self.ensure(name + " every listed position is assigned", z3.Implies(z3.And(0 <= i, i < w.n, w.start(i) <= j, j < w.stop(i)), z3.And(j < p.n, p.at(j) == i)))


class JView(object):
    """abstract view of a JaggedArray: n lists, list i has count(i) elements item(i, k)"""

    def __init__(self, j):
        self.n = I(vp_len(j._starts))
        self.start, self.stop = j._starts.snapshot(), j._stops.snapshot()
        if isinstance(j._starts, SymArray) and j._starts.ndim != 1:
            raise Unsupported("multidimensional starts")
        self.content = j._content
        self.m = I(vp_len(j._content))
        self.celem = elem_fn(j._content)

    def count(self, i):
        return self.stop(i) - self.start(i)

    def item(self, i, k):
        return self.celem(self.start(i) + k)


def elem_fn(content):
    """element function of an array-like: SymArray, Table (tuple of columns), or nested awkward array"""
    if isinstance(content, SymArray):
        return content.snapshot()
    if hasattr(content, "vp_elem"):
        return content.vp_elem
    t = type(content).__name__
    if t == "Table":
        cols = [elem_fn(c) for c in content._contents.values()]
        idx = content._index()
        if isinstance(idx, slice):
            return lambda i: tuple(c(i) for c in cols)
        ix = idx.snapshot()
        return lambda i: tuple(c(ix(i)) for c in cols)
    raise Unsupported("element view of %s" % t)


KINDS = ("startsstops", "longstops", "offsets")


def named(name, f):
    f.__name__ = name
    return f


def wrap(i, n):
    """Python's index normalisation"""
    return z3.If(i < 0, i + n, i)


def pyslice(n, a, b, c, divmod=False):
    """(first, length) of list[a:b:c] on a list of n elements, from the language definition; a, b, c: z3 ints or None; c != 0"""
    def clip(x, lo, hi):
        y = z3.If(x < 0, x + n, x)
        return z3.If(y < lo, lo, z3.If(y > hi, hi, y))
    c = IV(1) if c is None else c
    pos = c > 0
    first = z3.If(pos, IV(0), n - 1) if a is None else z3.If(pos, clip(a, IV(0), n), clip(a, IV(-1), n - 1))
    last = z3.If(pos, n, IV(-1)) if b is None else z3.If(pos, clip(b, IV(0), n), clip(b, IV(-1), n - 1))
    if divmod and not z3.is_int_value(simp(c)):     # ceil(x/c), written as the quotient, plus one where there is a remainder
        up = lambda x, d: x / d + z3.If(x % d != 0, IV(1), IV(0))
        from engine.core import cur
        cur().slice_terms = [(last - first, c), (first - last, -c)]
        return first, z3.If(pos, z3.If(last > first, up(last - first, c), IV(0)), z3.If(first > last, up(first - last, -c), IV(0)))
    length = z3.If(pos, z3.If(last > first, (last - first + c - 1) / c, IV(0)), z3.If(first > last, (first - last - c - 1) / (-c), IV(0)))
    return first, length


def ceil_lemma(x, d):
    """x > 0, d > 0: ceil(x/d) steps of d stay below x (discharged by contract lemma_ceil)"""
    n = x / d + z3.If(x % d != 0, IV(1), IV(0))
    return z3.Implies(z3.And(x > 0, d > 0), z3.And(n >= 1, d * (n - 1) < x, d * n >= x))


def slice_inside(v, first, length, c, n, k):
    """ghost: first + k*c is a position of the list, for 0 <= k < length (theorems of arithmetic on the terms of pyslice)"""
    for d in (c, -c):
        v.assume(z3.Implies(z3.And(d > 0, k <= length - 1), d * k <= d * (length - 1)))
        v.assume(z3.Implies(z3.And(d > 0, k >= 0), d * k >= 0))
    v.ctx.report.assumed.append("C02:lemma_ceil")
    v.assume(z3.And(*[ceil_lemma(x, d) for x, d in getattr(v.ctx, "slice_terms", ())]))


def symslice(v, form, step=None):
    """a slice with symbolic parts where form has a letter: 'abc', 'ab', 'a', 'b', ''; constant step otherwise"""
    a = v.int("sa") if "a" in form else None
    b = v.int("sb") if "b" in form else None
    c = v.int("sc") if "c" in form else (None if step is None else IV(step))
    if "c" in form:
        v.assume(c != 0)
    w = lambda x: None if x is None else SymInt(x)
    return slice(w(a), w(b), w(c) if "c" in form else step), a, b, c


def pick_mask(v, mask, n):
    """ghost: (count, position) of the true entries of a boolean array, as the specification's own functions"""
    mf = mask.snapshot()
    C, pos = positions(lambda i: mf(i), n)
    return C, pos
