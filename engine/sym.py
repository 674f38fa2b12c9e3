"""Symbolic values and the contract (model) of the NumPy operations awkward0 uses.

Arrays are `pull arrays`: symbolic lengths plus a function from z3 index terms to z3 elements, with
NumPy's view/copy semantics (views share a buffer; writes go through).  Integers are mathematical.
Elements of non-integer, non-boolean arrays are of the uninterpreted sort Val (so a result proved here
holds for every element type), or exact reals when computed from integers (sqrt, true division).
"""
import numbers, operator, itertools
import numpy as np
from .core import *
from .core import is_const_int
from . import core

Int, Bool, Real = z3.IntSort(), z3.BoolSort(), z3.RealSort()
INT64 = np.dtype(np.int64)
BOOL = np.dtype(np.bool_)
F64 = np.dtype(np.float64)
IV = z3.IntVal


def sort_of(dtype):
    k = dtype.kind
    if k == "b":
        return Bool
    if k in "iu":
        return Int
    return Val


int2val = z3.Function("int2val", Int, Val)
real2val = z3.Function("real2val", Real, Val)
val2int = z3.Function("val2int", Val, Int)
val2bool = z3.Function("val2bool", Val, Bool)
CAST = {}


def coerce(e, sort):
    s = e.sort()
    if s == sort:
        return e
    if sort == Int:
        if s == Bool:
            return z3.If(e, IV(1), IV(0))
        if s == Real:  # truncation toward zero
            f = z3.ToInt(e)
            return z3.If(z3.Or(e >= 0, z3.ToReal(f) == e), f, f + 1)
        return val2int(e)
    if sort == Bool:
        if s == Int:
            return e != 0
        if s == Real:
            return e != 0
        return val2bool(e)
    if sort == Real:
        if s == Int:
            return z3.ToReal(e)
        if s == Bool:
            return z3.If(e, z3.RealVal(1), z3.RealVal(0))
        raise Unsupported("Val to Real")
    if s == Int:
        return int2val(e)
    if s == Bool:
        return int2val(z3.If(e, IV(1), IV(0)))
    if s == Real:
        return real2val(e)
    raise Unsupported("coerce %s to %s" % (s, sort))


# ------------------------------------------------------------------ scalars

def I(x):
    """z3 Int of a Python/NumPy/symbolic integer"""
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, IV(1), IV(0))
    if isinstance(x, (bool, np.bool_)):
        return IV(int(x))
    if isinstance(x, (int, np.integer)):
        return IV(int(x))
    if isinstance(x, SymArray) and x.ndim == 0:
        return coerce(x.at(), Int)
    if isinstance(x, np.ndarray) and x.shape == ():
        return IV(int(x))
    raise Unsupported("not an integer: %r" % type(x))


def W(e, dtype=None):
    """wrap a z3 expression as a Python-level value"""
    e = simp(e)
    s = e.sort()
    if s == Int:
        if z3.is_int_value(e):
            v = e.as_long()
            return v if dtype is None else dtype.type(v)
        return SymInt(e, dtype)
    if s == Bool:
        if z3.is_true(e):
            return True if dtype is None else np.bool_(True)
        if z3.is_false(e):
            return False if dtype is None else np.bool_(False)
        return SymBool(e)
    if s == Real:
        return SymVal(e, F64)
    return SymVal(e, dtype)


class SymBool(object):
    __slots__ = ("e",)
    shape = ()
    ndim = 0
    dtype = BOOL
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().decide(self.e)

    def __and__(self, o):
        if isinstance(o, SymArray):
            return NotImplemented
        return W(z3.And(self.e, B(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymArray):
            return NotImplemented
        return W(z3.Or(self.e, B(o)))
    __ror__ = __or__

    def __invert__(self):
        return W(z3.Not(self.e))

    def __eq__(self, o):
        return W(self.e == B(o))

    def __ne__(self, o):
        return W(self.e != B(o))
    __hash__ = None

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def any(self):
        return self
    all = any

    def item(self):
        return self


def B(x):
    if isinstance(x, z3.ExprRef):
        return x if x.sort() == Bool else x != 0
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (SymInt, int, np.integer)):
        return I(x) != 0
    raise Unsupported("not a boolean: %r" % type(x))


def floordiv(a, b):
    b = simp(b)
    if z3.is_int_value(b):
        v = b.as_long()
        if v > 0:
            return a / b
        if v < 0:
            return (-a) / IV(-v)
        raise Unsupported("division by zero")
    # theorems of integer division the solvers are slow to find
    if cur().entails(b > 0, 1):
        cur().fact(z3.Implies(a >= 0, z3.And(0 <= a / b, a / b <= a)))
        return a / b
    if cur().entails(b < 0, 1):
        cur().fact(z3.Implies(a <= 0, z3.And(0 <= (-a) / (-b), (-a) / (-b) <= -a)))
        return (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))


def floormod(a, b):
    b = simp(b)
    if z3.is_int_value(b):
        v = b.as_long()
        if v > 0:
            return a % b
        if v < 0:
            return -((-a) % IV(-v))
        raise Unsupported("division by zero")
    if cur().entails(b > 0, 1):
        return a % b
    return z3.If(b > 0, a % b, -((-a) % (-b)))


def zmin(a, b):
    return z3.If(a <= b, a, b)


def zmax(a, b):
    return z3.If(a >= b, a, b)


SMALL = 4


def small_int(e):
    """case split on an integer known to be one of 0..SMALL-1; None if it is not"""
    c = cur()
    if not c.entails(z3.And(0 <= e, e < SMALL), 1):
        return None
    for k in range(SMALL - 1):
        if c.decide(e == k):
            return k
    return SMALL - 1


class SymInt(object):
    __slots__ = ("e", "_dt")
    shape = ()
    ndim = 0
    __array_priority__ = 1000

    def __init__(self, e, dtype=None):
        self.e = e
        self._dt = dtype

    @property
    def dtype(self):
        return INT64 if self._dt is None else self._dt

    def _bin(self, o, f):
        if isinstance(o, (SymInt, int, np.integer, SymBool, np.bool_)):
            return W(f(self.e, I(o)), self._dt if self._dt is not None else getattr(o, "_dt", None))
        if isinstance(o, float):
            return W(f(z3.ToReal(self.e), z3.RealVal(repr(o))))
        return NotImplemented

    def _rbin(self, o, f):
        return self._bin(o, lambda a, b: f(b, a))

    def _cmp(self, o, f, name):
        if isinstance(o, (SymInt, int, np.integer, SymBool, np.bool_)):
            return W(f(self.e, I(o)))
        if isinstance(o, float):
            if o == float("inf"):
                return name in ("lt", "le", "ne")
            if o == float("-inf"):
                return name in ("gt", "ge", "ne")
            return W(f(z3.ToReal(self.e), z3.RealVal(repr(o))))
        if name in ("eq", "ne") and not isinstance(o, (SymArray,)) and not hasattr(o, "__array_ufunc__"):
            return name == "ne"
        return NotImplemented

    def __add__(self, o): return self._bin(o, operator.add)
    def __radd__(self, o): return self._rbin(o, operator.add)
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __rsub__(self, o): return self._rbin(o, operator.sub)
    def __mul__(self, o): return self._bin(o, operator.mul)
    def __rmul__(self, o): return self._rbin(o, operator.mul)
    def __floordiv__(self, o): return self._bin(o, floordiv)
    def __rfloordiv__(self, o): return self._rbin(o, floordiv)
    def __mod__(self, o): return self._bin(o, floormod)
    def __rmod__(self, o): return self._rbin(o, floormod)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if isinstance(o, (SymInt, int, np.integer)):
            return W(z3.ToReal(self.e) / z3.ToReal(I(o)))
        return NotImplemented

    def __pow__(self, o):
        if o == 2:
            return self * self
        raise Unsupported("power")

    def __rshift__(self, o):
        if isinstance(o, int):
            return W(self.e / IV(2 ** o), self._dt)
        return NotImplemented

    def __lshift__(self, o):
        if isinstance(o, int):
            return W(self.e * IV(2 ** o), self._dt)
        return NotImplemented

    def __neg__(self): return W(-self.e, self._dt)
    def __pos__(self): return self
    def __abs__(self):
        if cur().entails(self.e >= 0, 1):
            return self
        if cur().entails(self.e <= 0, 1):
            return -self
        return W(z3.If(self.e >= 0, self.e, -self.e), self._dt)
    def __lt__(self, o): return self._cmp(o, operator.lt, "lt")
    def __le__(self, o): return self._cmp(o, operator.le, "le")
    def __gt__(self, o): return self._cmp(o, operator.gt, "gt")
    def __ge__(self, o): return self._cmp(o, operator.ge, "ge")
    def __eq__(self, o): return self._cmp(o, operator.eq, "eq")
    def __ne__(self, o): return self._cmp(o, operator.ne, "ne")
    __hash__ = None

    def __bool__(self):
        return cur().decide(self.e != 0)

    def __index__(self):
        e = simp(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        k = small_int(e)
        if k is None:
            raise Unsupported("a concrete integer is needed where the value is symbolic")
        return k
    __int__ = __index__

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __repr__(self):
        return "SymInt(%s)" % self.e

    def __format__(self, spec):
        return repr(self)

    def reshape(self, *shape):
        return scalar_array(self).reshape(*shape)

    def astype(self, dtype):
        dtype = np.dtype(dtype)
        return W(coerce(self.e, sort_of(dtype)), dtype)

    def item(self):
        return W(self.e)
    tolist = item

    def max(self):
        return self
    min = max

    def copy(self):
        return self


numbers.Integral.register(SymInt)


class SymVal(object):
    """a scalar array element of uninterpreted (or real) sort"""
    __slots__ = ("e", "dtype")
    shape = ()
    ndim = 0
    __array_priority__ = 1000

    def __init__(self, e, dtype=None):
        self.e = e
        self.dtype = F64 if dtype is None else dtype

    __hash__ = None

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __bool__(self):
        return cur().decide(coerce(self.e, Bool))

    def __repr__(self):
        return "SymVal(%s)" % self.e

    def item(self):
        return self
    tolist = item


def _mkop(name, uf, refl=False):
    def f(self, o):
        if isinstance(o, (str, bytes, type(None), tuple, dict)):
            return NotImplemented
        if hasattr(o, "__array_ufunc__") and not isinstance(o, (SymArray, SymInt, SymBool, SymVal, np.generic, np.ndarray)):
            return NotImplemented
        return array_ufunc(uf, "__call__", (o, self) if refl else (self, o), {})
    f.__name__ = name
    return f


_OPS = dict(add=np.add, sub=np.subtract, mul=np.multiply, truediv=np.true_divide, floordiv=np.floor_divide, mod=np.remainder, pow=np.power, lshift=np.left_shift, rshift=np.right_shift, xor=np.bitwise_xor)
_OPS["and"] = np.bitwise_and
_OPS["or"] = np.bitwise_or
_CMPS = dict(lt=np.less, le=np.less_equal, gt=np.greater, ge=np.greater_equal, eq=np.equal, ne=np.not_equal)
for _n, _u in list(_OPS.items()) + list(_CMPS.items()):
    setattr(SymVal, "__%s__" % _n, _mkop("__%s__" % _n, _u))
    if _n in _OPS:
        setattr(SymVal, "__r%s__" % _n, _mkop("__r%s__" % _n, _u, True))
SymVal.__neg__ = lambda self: array_ufunc(np.negative, "__call__", (self,), {})
SymVal.__abs__ = lambda self: array_ufunc(np.absolute, "__call__", (self,), {})

# ------------------------------------------------------------------ arrays

_bufid = itertools.count(1)


class Buf(object):
    __slots__ = ("fn", "dims", "dtype", "sort", "owner", "addr", "writes", "name", "frozen")

    def __init__(self, fn, dims, dtype, sort):
        self.fn, self.dims, self.dtype, self.sort = fn, dims, dtype, sort
        self.addr = next(_bufid) << 60
        self.writes = 0
        self.frozen = False
        self.owner = None
        self.name = None


class _CTypes(object):
    def __init__(self, data):
        self.data = data


class _Flags(object):
    """owndata: False for a view; for a whole buffer either value (an input may itself be a view of something else)"""

    def __init__(self, a):
        self._a = a

    @property
    def owndata(self):
        a = self._a
        if a.buf.owner is not a:
            return False
        c = cur()
        key = ("owndata", id(a.buf))
        if key not in c.cache:
            c.cache[key] = (c.decide(c.bool("owndata")), a.buf)
        return c.cache[key][0]

    @property
    def writeable(self):
        return True

    def __getattr__(self, n):
        raise Unsupported("ndarray.flags." + n)


class SymMeta(type):
    pass


def Z(x):
    return x if isinstance(x, z3.ExprRef) else I(x)


class SymArray(object):
    __array_priority__ = 1000

    def __init__(self, dims, fn, dtype=INT64, sort=None, buf=None, vmap=None, inv=None):
        self.dims = [simp(Z(d)) for d in dims]
        if buf is None:
            buf = Buf(_memo(fn), list(self.dims), np.dtype(dtype), sort if sort is not None else sort_of(np.dtype(dtype)))
            buf.owner = self
        self.buf = buf
        self.vmap = vmap   # None: identity
        self.inv = inv

    # ---- basic attributes
    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def sort(self):
        return self.buf.sort

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def shape(self):
        return tuple(W(d) for d in self.dims)

    @shape.setter
    def shape(self, sh):
        r = self.reshape(sh)
        self.dims, self.vmap, self.inv = r.dims, r.vmap, r.inv

    @property
    def size(self):
        out = 1
        for d in self.shape:
            out = out * d
        return out

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def base(self):
        return None if self.buf.owner is self else self.buf.owner

    @property
    def ctypes(self):
        if self.vmap is None:
            off = IV(0)
        else:
            if len(self.buf.dims) != 1:
                raise Unsupported("address of a multidimensional view")
            off = self.vmap(*[IV(0)] * self.ndim)[0]
        return _CTypes(W(IV(self.buf.addr) + off * self.dtype.itemsize))

    @property
    def flags(self):
        return _Flags(self)

    @property
    def T(self):
        if self.ndim == 1:
            return self
        if self.ndim == 2:
            fn = self.snapshot()
            return SymArray([self.dims[1], self.dims[0]], lambda i, j: fn(j, i), self.dtype, self.sort)
        raise Unsupported("T")

    def at(self, *idx):
        b = idx if self.vmap is None else self.vmap(*idx)
        return self.buf.fn(*b)

    def snapshot(self):
        fn = self.buf.fn
        vm = self.vmap
        if vm is None:
            return fn
        return lambda *idx: fn(*vm(*idx))

    @property
    def n(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        return self.dims[0]

    def __vplen__(self):
        return W(self.n)

    def __len__(self):
        v = W(self.n)
        if isinstance(v, int):
            return v
        raise Unsupported("native len() of a symbolic array")

    def __bool__(self):
        if self.ndim == 0:
            return bool(W(coerce(self.at(), Bool)))
        n = W(self.n)
        if self.ndim == 1:
            if n == 1:
                return bool(W(coerce(self.at(IV(0)), Bool)))
            if n == 0:
                return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __iter__(self):
        n = W(self.n)
        if not isinstance(n, int):
            return self._iter_symbolic()
        return iter([self[i] for i in range(n)])

    def _iter_symbolic(self):
        # a loop that stops by itself after a few elements is executed; an unbounded one needs an invariant
        for i in range(2):
            if not cur().decide(self.n > i):
                return
            yield self[i]
        if cur().decide(self.n > 2):
            raise Unsupported("loop over an array of symbolic length")

    __hash__ = None

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic array to a concrete one")

    def __repr__(self):
        return "<SymArray %s %s>" % (self.dims, self.dtype)

    def __format__(self, spec):
        return repr(self)

    def view(self, kind, dims=None, vmap=None, inv=None):
        """a view of this array: vmap maps new indices to indices of self; inv back"""
        if dims is None:
            return retyped(self, kind)
        pv, pi = self.vmap, self.inv
        if pv is None:
            nv = vmap
        else:
            nv = lambda *idx: pv(*vmap(*idx))
        if inv is None:
            ni = None
        elif pv is None:
            ni = inv
        elif pi is None:
            ni = None
        else:
            def ni(*b):
                c1, i1 = pi(*b)
                c2, i2 = inv(*i1)
                return z3.And(c1, c2), i2
        return SymArray(dims, None, buf=self.buf, vmap=nv, inv=ni)

    def write(self, cond, value):
        """self[idx] = value(idx) where cond(idx)"""
        buf = self.buf
        old = buf.fn
        inv = self.inv
        dims = self.dims
        sort = buf.sort
        if self.vmap is not None and inv is None:
            raise Unsupported("assignment through this kind of view")

        def new(*b):
            if inv is None:
                c, idx = z3.BoolVal(True), b
            else:
                c, idx = inv(*b)
            cc = c if cond is None else z3.And(c, cond(*idx))
            cc = simp(cc)
            if z3.is_false(cc):
                return old(*b)
            return z3.If(cc, coerce(value(*idx), sort), old(*b))
        if buf.frozen:
            raise Unsupported("write into a buffer that may be shared")
        buf.fn = freeze(_memo(new), len(buf.dims), sort)
        buf.writes += 1

    # ---- indexing
    def __getitem__(self, where):
        return getitem(self, where)

    def __setitem__(self, where, what):
        setitem(self, where, what)

    # ---- methods
    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self):
        return self.reshape(-1)

    def flatten(self):
        return self.reshape(-1).copy()

    def copy(self):
        return SymArray(self.dims, self.snapshot(), self.dtype, self.sort)

    def astype(self, dtype, copy=True, **kw):
        dtype = np.dtype(dtype)
        if not copy and dtype == self.dtype:
            return self
        fn = self.snapshot()
        sort = sort_of(dtype)
        if self.sort == Real and sort == Val:
            sort = Real
        if self.sort == Val and sort == Val:
            if dtype == self.dtype:
                return self.copy()
            g = z3.Function("astype_%s" % dtype, Val, Val)
            return SymArray(self.dims, lambda *i: g(fn(*i)), dtype, Val)
        return SymArray(self.dims, lambda *i: coerce(fn(*i), sort), dtype, sort)

    def any(self, axis=None):
        return np_any(self)

    def all(self, axis=None):
        return np_all(self)

    def max(self, axis=None):
        return np_max(self, True)

    def min(self, axis=None):
        return np_max(self, False)

    def sum(self, axis=None, **kw):
        if self.ndim != 1:
            raise Unsupported("sum of a multidimensional array")
        if self.sort == Val:
            raise Unsupported("sum of uninterpreted values")
        fn = self.snapshot()
        ps = prefix_sum(lambda i: coerce(fn(i), Int), self.n)
        return W(ps(self.n))

    def nonzero(self):
        return np_nonzero(self)

    def tolist(self):
        n = W(self.n)
        if isinstance(n, int):
            return [W(self.at(IV(i))) for i in range(n)]
        raise Unsupported("tolist of a symbolic array")

    def item(self):
        if self.ndim == 0:
            return W(self.at())
        return W(self.at(IV(0)))

    def fill(self, x):
        self[...] = x

    def repeat(self, counts):
        return np_repeat(self, counts)

    def cumsum(self):
        return np_cumsum(self)

    def tobytes(self):
        raise Unsupported("tobytes")

    def sort_(self):
        raise Unsupported("sort")

    def argsort(self, *a, **k):
        raise Unsupported("argsort")


for _n, _u in list(_OPS.items()) + list(_CMPS.items()):
    setattr(SymArray, "__%s__" % _n, _mkop("__%s__" % _n, _u))
    if _n in _OPS:
        setattr(SymArray, "__r%s__" % _n, _mkop("__r%s__" % _n, _u, True))

        def _mki(u):
            def f(self, o):
                if hasattr(o, "__array_ufunc__") and not isinstance(o, (SymArray, SymInt, SymBool, SymVal, np.generic, np.ndarray)):
                    return NotImplemented
                return array_ufunc(u, "__call__", (self, o), {"out": (self,)})
            return f
        setattr(SymArray, "__i%s__" % _n, _mki(_u))
SymArray.__neg__ = lambda self: array_ufunc(np.negative, "__call__", (self,), {})
SymArray.__invert__ = lambda self: array_ufunc(np.invert, "__call__", (self,), {})
SymArray.__abs__ = lambda self: array_ufunc(np.absolute, "__call__", (self,), {})

for _n, _u in list(_OPS.items()):
    if not hasattr(SymInt, "__%s__" % _n):
        setattr(SymInt, "__%s__" % _n, _mkop("__%s__" % _n, _u))


def ite_count(e):
    seen, st, n = set(), [e], 0
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            n += 1
        st.extend(x.children())
    return n


FREEZE = 2


def freeze(fn, nd, sort):
    """name a complicated element function: fresh symbol d with the definition d(i) == fn(i) (a definitional extension)"""
    if core.CUR is None or nd != 1:
        return fn
    c = core.CUR
    body = simp(fn(core._PH[0]))
    if ite_count(body) < FREEZE:
        return fn
    key = ("def", body.get_id())
    if key in c.cache:
        return c.cache[key][0]
    d = c.fun("def", Int, sort)
    c.forall(lambda i: d(i) == fn(i), 1, triggers=[[(d.name(), 0, 1, None)]], maxgen=8, name="definition")
    out = _memo(lambda i: d(i))
    c.cache[key] = (out, body)
    return out


def _memo(fn):
    cache = {}

    def f(*idx):
        idx = tuple(simp(Z(i)) for i in idx)
        key = tuple(i.get_id() for i in idx)
        r = cache.get(key)
        if r is None:
            r = (idx, simp(fn(*idx)))
            cache[key] = r
        return r[1]
    return f


def scalar_array(x):
    e, dt, sort = scal(x)
    return SymArray([], lambda: e, dt, sort)


def scal(x):
    """(z3 expr, dtype, sort) of a scalar"""
    if isinstance(x, SymInt):
        return x.e, x.dtype, Int
    if isinstance(x, SymBool):
        return x.e, BOOL, Bool
    if isinstance(x, SymVal):
        return x.e, x.dtype, x.e.sort()
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x)), BOOL, Bool
    if isinstance(x, np.integer):
        return IV(int(x)), x.dtype, Int
    if isinstance(x, int):
        return IV(x), INT64, Int
    if isinstance(x, (float, np.floating)):
        if float(x) == int(x) if x == x and abs(x) != float("inf") else False:
            return z3.RealVal(int(x)), F64, Real
        if x == x and abs(x) != float("inf"):
            import fractions
            fr = fractions.Fraction(float(x))
            return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)), F64, Real
        return z3.Const("val_%r" % float(x), Val), F64, Val
    if isinstance(x, SymArray) and x.ndim == 0:
        return x.at(), x.dtype, x.sort
    if isinstance(x, np.ndarray) and x.shape == ():
        return scal(x[()])
    raise Unsupported("scalar of type %r" % type(x))


def from_concrete(a):
    a = np.asarray(a)
    if a.dtype.kind not in "biuf":
        raise Unsupported("concrete array of dtype %s" % a.dtype)
    if a.dtype.kind == "f" and a.size:
        vals = [scal(float(x)) for x in a.reshape(-1)]
        if any(v[2] == Val for v in vals):
            vals = [(coerce(v[0], Val), v[1], Val) for v in vals]
        sort = vals[0][2]
        flat = [v[0] for v in vals]
    else:
        sort = sort_of(a.dtype)
        flat = [z3.BoolVal(bool(x)) if sort == Bool else IV(int(x)) for x in a.reshape(-1)] if sort != Val else []
    if a.ndim == 0:
        return SymArray([], lambda: flat[0], a.dtype, sort)

    default = {Int: IV(0), Bool: z3.BoolVal(False), Real: z3.RealVal(0)}.get(sort, z3.Const("val_none", Val))

    def fn(*idx):
        k = idx[0]
        for d, i in zip(a.shape[1:], idx[1:]):
            k = k * d + i
        k = simp(k)
        if z3.is_int_value(k):
            v = k.as_long()
            return flat[v] if 0 <= v < len(flat) else default
        out = flat[-1] if flat else default
        for i in range(len(flat) - 2, -1, -1):
            out = z3.If(k == i, flat[i], out)
        return out
    return SymArray(list(a.shape), fn, a.dtype, sort)


def as_sym(x, dtype=None, copy=False):
    """np.asarray for symbolic things"""
    if isinstance(x, SymArray):
        out = x
    elif isinstance(x, np.ndarray):
        out = from_concrete(x)
        if x.base is not None or True:
            out._real = x
    elif isinstance(x, (SymInt, SymBool, SymVal, np.generic, int, float, bool)):
        out = scalar_array(x)
    elif isinstance(x, range):
        out = from_concrete(np.arange(x.start, x.stop, x.step))
    elif isinstance(x, (list, tuple)):
        if any(isinstance(y, (SymInt, SymBool, SymVal)) for y in x):
            es = [scal(y) for y in x]
            dts = [e[1] for e in es]
            dt = np.result_type(*dts)
            sort = sort_of(dt)
            if any(e[2] == Real for e in es) and not any(e[2] == Val for e in es):
                sort = Real
            vals = [coerce(e[0], sort) for e in es]

            def fn(k):
                out = vals[-1]
                for i in range(len(vals) - 2, -1, -1):
                    out = z3.If(k == i, vals[i], out)
                return out
            out = SymArray([len(vals)], fn, dt, sort)
        elif any(isinstance(y, SymArray) for y in x):
            return np_stack0(list(x))
        else:
            arr = np.array(x) if dtype is None else np.array(x, dtype=dtype)
            out = from_concrete(arr)
    else:
        raise Unsupported("array from %r" % type(x))
    if dtype is not None and out.dtype != np.dtype(dtype):
        out = out.astype(dtype)
    elif copy and out is x:
        out = out.copy()
    return out


def is_symbolic(x):
    if isinstance(x, (SymArray, SymInt, SymBool, SymVal)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(y) for y in x)
    return False


# ------------------------------------------------------------------ quantified scalars

def sym_all(dims, fn, what="all"):
    """SymBool for  forall idx in dims: fn(idx)  (fn gives Bool exprs)"""
    c = cur()
    ph = core._PH[:len(dims)]
    body = simp(fn(*ph))
    rng = simp(z3.And(*[z3.And(0 <= p, p < d) for p, d in zip(ph, dims)]))
    whole = simp(z3.Implies(rng, body))
    if z3.is_true(whole):
        return True
    if len(dims) == 1 and z3.is_int_value(simp(dims[0])) and simp(dims[0]).as_long() <= 4:
        return W(z3.And(*[fn(IV(i)) for i in range(simp(dims[0]).as_long())]))
    key = ("all", whole.get_id())
    if key in c.cache:
        return SymBool(c.cache[key][0])
    b = c.bool(what)
    sks = [c.int("sk_" + what) for _ in dims]
    c.cache[key] = (b, whole)
    c.forall(lambda *i: z3.Implies(b, z3.Implies(z3.And(*[z3.And(0 <= p, p < d) for p, d in zip(i, dims)]), fn(*i))), len(dims),
             triggers=None if len(dims) <= 2 else None, name=what)
    for s in sks:
        c.note_index(s)
    c.fact(z3.Or(b, z3.And(*([z3.And(0 <= p, p < d) for p, d in zip(sks, dims)] + [z3.Not(fn(*sks))]))))
    return SymBool(b)


def np_all(a):
    a = as_sym(a)
    if a.ndim == 0:
        return W(coerce(a.at(), Bool))
    fn = a.snapshot()
    return sym_all(a.dims, lambda *i: coerce(fn(*i), Bool), "all")


def np_any(a):
    a = as_sym(a)
    if a.ndim == 0:
        return W(coerce(a.at(), Bool))
    fn = a.snapshot()
    r = sym_all(a.dims, lambda *i: z3.Not(coerce(fn(*i), Bool)), "none")
    if isinstance(r, bool):
        return not r
    return W(z3.Not(r.e))


def np_max(a, ismax):
    a = as_sym(a)
    if a.sort != Int:
        raise Unsupported("max/min of uninterpreted values")
    c = cur()
    fn = a.snapshot()
    for d in a.dims:
        if c.decide(d <= 0):
            raise ValueError("zero-size array to reduction operation %s which has no identity" % ("maximum" if ismax else "minimum"))
    body = simp(fn(*core._PH[:a.ndim]))
    key = ("max" if ismax else "min", body.get_id(), tuple(simp(d).get_id() for d in a.dims))
    if key in c.cache:
        return W(c.cache[key][0], a.dtype)
    m = c.int("max" if ismax else "min")
    wit = [c.int("argmax" if ismax else "argmin") for _ in a.dims]
    c.cache[key] = (m, body, a.dims)
    dims = a.dims
    c.forall(lambda *i: z3.Implies(z3.And(*[z3.And(0 <= p, p < d) for p, d in zip(i, dims)]), (fn(*i) <= m) if ismax else (fn(*i) >= m)), a.ndim, name="max")
    c.fact(z3.And(*([z3.And(0 <= p, p < d) for p, d in zip(wit, dims)] + [fn(*wit) == m])))
    for w in wit:
        c.note_index(w)
    c.extrema = getattr(c, "extrema", []) + [m]
    return W(m, a.dtype)


# ------------------------------------------------------------------ prefix sums, counting, ownership

class PrefixSum(object):
    """S(0)=0, S(i+1)=S(i)+c(i): a definitional extension for any total c"""

    def __init__(self, decl, c, body):
        self.decl, self.c, self.body = decl, c, body
        self.nonneg = []    # lengths n for which c>=0 on [0,n) is proved (monotone lemma asserted)
        self.owners = {}

    def __call__(self, i):
        i = simp(Z(i))
        if z3.is_int_value(i) and i.as_long() == 0:
            return IV(0)
        return self.decl(i)


def entails_forall(fn, lo, hi, rounds=2):
    """is  forall i in [lo,hi): fn(i)  provable here?"""
    c = cur()
    k = c.int("gen")
    f = z3.Implies(z3.And(lo <= k, k < hi), fn(k))
    return c.entails(f, rounds)


def lemma_forall(fn, lo, hi, name):
    """assert forall i in [lo,hi): fn(i) after proving it"""
    if entails_forall(fn, lo, hi):
        c = cur()
        c.forall(lambda i: z3.Implies(z3.And(lo <= i, i < hi), fn(i)), 1, name=name)
        return True
    return False


def induct(fn, lo, hi, name="ind", triggers=None):
    """prove forall i in [lo,hi]: fn(i) by induction, then assert it"""
    c = cur()
    if not c.entails(z3.Implies(lo <= hi, fn(lo))):
        return False
    k = c.int("ind")
    if not c.entails(z3.Implies(z3.And(lo <= k, k < hi, fn(k)), fn(k + 1)), 3):
        return False
    c.report.lemmas += 1
    c.forall(lambda i: z3.Implies(z3.And(lo <= i, i <= hi), fn(i)), 1, triggers=triggers, name=name)
    return True


def prefix_sum(c_fn, n, want_nonneg=True):
    """prefix sum function of the counts c_fn; for the range [0,n) prove c>=0 and add the monotonicity lemma"""
    ctx = cur()
    n = simp(Z(n))
    body = simp(c_fn(core._PH[0]))
    key = ("psum", body.get_id())
    if key in ctx.cache:
        ps = ctx.cache[key]
    else:
        if z3.is_int_value(body):  # constant count
            v = body.as_long()
            ps = PrefixSum(None, c_fn, body)
            ps.__class__ = ConstPrefixSum
            ps.v = v
        else:
            decl = ctx.fun("S", Int, Int)
            ps = PrefixSum(decl, c_fn, body)
            ctx.fact(decl(IV(0)) == 0)
            ctx.forall(lambda i: z3.Implies(i >= 0, decl(i + 1) == decl(i) + c_fn(i)), 1,
                       triggers=[[(decl.name(), 0, 1, None), (decl.name(), 0, 1, IV(1))]], maxgen=2, name="psum")
            if body.sort() == Int:
                _telescope(ps, c_fn, n)
            for other in ctx.prefixfuns:
                _congruent(ps, other, n)
            ctx.prefixfuns.append(ps)
            for h in ctx.hooks.get("prefix", ()):
                h(ps)
        ctx.cache[key] = ps
    if want_nonneg:
        ensure_monotone(ps, n)
    return ps


class ConstPrefixSum(PrefixSum):
    def __call__(self, i):
        i = simp(Z(i))
        return simp(i * self.v)


def _is01(e):
    return z3.is_app_of(e, z3.Z3_OP_ITE) and is_const_int(e.arg(1)) and is_const_int(e.arg(2))


def _congruent(ps, other, n):
    c = cur()
    if ps.body.sort() != other.body.sort() or _is01(ps.body) != _is01(other.body):
        return     # counts of a mask against lengths of lists: not attempted
    if entails_forall(lambda i: ps.c(i) == other.c(i), IV(0), n):
        a, b = ps.decl, other.decl
        c.report.lemmas += 1
        c.forall(lambda i: z3.Implies(z3.And(0 <= i, i <= n), a(i) == b(i)), 1, triggers=[[(a.name(), 0, 1, None), (b.name(), 0, 1, None)]], name="psum-congruence")


def _telescope(ps, c_fn, n):
    """c(i) = p(i) - q(i) with q(i+1) = p(i): S(i) = q(i) - q(0) on [0,n), S(n) = p(n-1)-q(0)"""
    c = cur()
    body = ps.body
    terms = body.children() if z3.is_add(body) else [body]
    neg = None
    for t in terms:
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() == -1:
            neg = t.arg(1)
    if neg is None:
        return
    ph = core._PH[0]
    q = lambda i: z3.substitute(neg, (ph, Z(i)))
    S = ps
    k = c.int("tel")
    if c.entails(z3.Implies(z3.And(0 <= k, k < n - 1), q(k) + c_fn(k) == q(k + 1)), 2):
        c.report.lemmas += 1
        d = ps.decl
        q0 = simp(q(IV(0)))
        c.forall(lambda i: z3.Implies(z3.And(0 <= i, i < n), d(i) == q(i) - q0), 1, name="telescope")
        c.fact(z3.Implies(n >= 1, d(n) == q(n - 1) + c_fn(n - 1) - q0))


def ensure_monotone(ps, n):
    c = cur()
    n = simp(Z(n))
    for m in ps.nonneg:
        if m.eq(n):
            return True
    if isinstance(ps, ConstPrefixSum):
        return ps.v >= 0
    if not entails_forall(lambda i: ps.c(i) >= 0, IV(0), n):
        return False
    S = ps.decl
    ps.nonneg.append(n)
    c.report.lemmas += 1
    c.forall(lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= n), S(i) <= S(j)), 2,
             triggers=[[(S.name(), 0, 1, None)], [(S.name(), 0, 1, None)]], maxgen=2, name="psum-monotone")
    c.forall(lambda i: z3.Implies(z3.And(0 <= i, i <= n), z3.And(S(i) >= 0, S(i) <= S(n))), 1,
             triggers=[[(S.name(), 0, 1, None)]], name="psum-bounds")
    if entails_forall(lambda i: ps.c(i) <= 1, IV(0), n):
        c.forall(lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= n), S(j) - S(i) <= j - i), 2,
                 triggers=[[(S.name(), 0, 1, None)], [(S.name(), 0, 1, None)]], maxgen=1, name="count-bound")
        c.forall(lambda i: z3.Implies(z3.And(0 <= i, i <= n), S(i) <= i), 1, triggers=[[(S.name(), 0, 1, None)]], name="count-bound0")
    return True


def owner(ps, n):
    """own(k) = the i with S(i) <= k < S(i+1), for 0 <= k < S(n)"""
    c = cur()
    n = simp(Z(n))
    key = ("own", id(ps), n.get_id())
    if key in c.cache:
        return c.cache[key][0]
    if isinstance(ps, ConstPrefixSum):
        if ps.v <= 0:
            own = lambda k: IV(0)   # the domain [0, S(n)) is empty
            c.cache[key] = (own, n, ps)
            return own
        own = lambda k: Z(k) / IV(ps.v)
        c.cache[key] = (own, n, ps)
        return own
    d = c.fun("own_" + ps.decl.name(), Int, Int)
    S = ps
    c.forall(lambda k: z3.Implies(z3.And(0 <= k, k < S(n)), z3.And(0 <= d(k), d(k) < n, S(d(k)) <= k, k < S(d(k) + 1))), 1,
             triggers=[[(d.name(), 0, 1, None)]], name="own")
    own = lambda k: d(Z(k))
    c.cache[key] = (own, n, ps)
    for h in c.hooks.get("owner", ()):
        h(own, ps)
    return own


def count_fn(mask_fn, n):
    """prefix count of true entries"""
    ps = prefix_sum(lambda i: z3.If(coerce(mask_fn(i), Bool), IV(1), IV(0)), n)
    return ps


def positions(mask_fn, n):
    """(C, pos): C(i) = number of true entries before i; pos(k) = index of the k-th true entry"""
    c = cur()
    n = simp(Z(n))
    mf = lambda i: coerce(mask_fn(i), Bool)
    C = count_fn(mask_fn, n)
    key = ("pos", id(C), n.get_id())
    if key in c.cache:
        return C, c.cache[key][0]
    if isinstance(C, ConstPrefixSum):
        if C.v == 1:
            pos = lambda k: Z(k)
        else:
            pos = lambda k: IV(0)
        c.cache[key] = (pos, n, C)
        return C, pos
    d = c.fun("pos_" + C.decl.name(), Int, Int)
    c.forall(lambda k: z3.Implies(z3.And(0 <= k, k < C(n)), z3.And(0 <= d(k), d(k) < n, mf(d(k)), C(d(k)) == k)), 1,
             triggers=[[(d.name(), 0, 1, None)]], name="pos")
    c.forall(lambda i: z3.Implies(z3.And(0 <= i, i < n, mf(i)), z3.And(d(C(i)) == i, C(i) < C(n))), 1,
             triggers=[[(C.decl.name(), 0, 1, None)]], maxgen=2, name="pos-inverse")
    # if every entry is true, C is the identity; if none is, C is zero
    if entails_forall(lambda i: mf(i), IV(0), n):
        c.forall(lambda i: z3.Implies(z3.And(0 <= i, i <= n), C(i) == i), 1, triggers=[[(C.decl.name(), 0, 1, None)]], name="count-all")
        c.forall(lambda i: z3.Implies(z3.And(0 <= i, i < n), d(i) == i), 1, triggers=[[(d.name(), 0, 1, None)]], name="pos-all")
    elif entails_forall(lambda i: z3.Not(mf(i)), IV(0), n):
        c.forall(lambda i: z3.Implies(z3.And(0 <= i, i <= n), C(i) == 0), 1, triggers=[[(C.decl.name(), 0, 1, None)]], name="count-none")
    pos = lambda k: d(Z(k))
    c.cache[key] = (pos, n, C)
    for hook in c.hooks.get("positions", ()):
        hook(C, pos, n)
    return C, pos


# ------------------------------------------------------------------ shapes

def dims_of(shape):
    if isinstance(shape, SymArray):
        if shape.ndim == 0:
            return [shape.at()]
        return [I(x) for x in shape]
    if isinstance(shape, (tuple, list)):
        return [I(x) for x in shape]
    return [I(shape)]


def check_dims(dims):
    for d in dims:
        if cur().decide(d < 0):
            raise ValueError("negative dimensions are not allowed")


def same_dim(a, b):
    a, b = simp(a), simp(b)
    if a.eq(b):
        return True
    return cur().decide(a == b)


def broadcast_dims(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    c = cur()
    for k in range(nd):
        ds = [s[len(s) - nd + k] for s in shapes if len(s) - nd + k >= 0]
        res = ds[0]
        for d in ds[1:]:
            if simp(d).eq(simp(res)):
                continue
            if z3.is_int_value(simp(d)) and simp(d).as_long() == 1:
                continue
            if z3.is_int_value(simp(res)) and simp(res).as_long() == 1:
                res = d
                continue
            if c.decide(res == d):
                continue
            if c.decide(d == 1):
                continue
            if c.decide(res == 1):
                res = d
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(res)
    return out


def reshape(a, shape):
    c = cur()
    shape = [Z(s) if not (isinstance(s, int) and s == -1) else None for s in shape]
    shape = [None if s is not None and z3.is_int_value(simp(s)) and simp(s).as_long() == -1 else s for s in shape]
    if len(shape) == a.ndim and all(s is None or simp(s).eq(simp(d)) for s, d in zip(shape, a.dims)) and sum(s is None for s in shape) <= 1:
        return a.view("reshape", a.dims, lambda *i: i, lambda *i: (z3.BoolVal(True), i))
    if len(shape) == 1 and a.ndim == 1:
        if shape[0] is not None and not same_dim(shape[0], a.n):
            raise ValueError("cannot reshape array")
        return a.view("reshape", a.dims, lambda *i: i, lambda *i: (z3.BoolVal(True), i))
    # general: row-major
    total = IV(1)
    for d in a.dims:
        total = total * d
    total = simp(total)
    known = IV(1)
    for s in shape:
        if s is not None:
            known = known * s
    known = simp(known)
    if any(s is None for s in shape):
        if z3.is_int_value(known) and known.as_long() == 1:
            rest = total
        else:
            if c.decide(known == 0):
                raise ValueError("cannot reshape array into an unknown dimension of size 0")
            rest = None
            # total = rows*known syntactically?
            if a.ndim == 1 and getattr(a, "_factors", None) is not None:
                p, q = a._factors
                if same_dim(q, known):
                    rest = p
            if rest is None:
                if z3.is_int_value(known):
                    rest = simp(total / known)
                else:
                    rest = c.int("rows")
                    if c.decide(z3.Not(total == (total / known) * known)):
                        raise ValueError("cannot reshape array")
                    c.fact(z3.And(rest * known == total, rest >= 0))
        dims = [rest if s is None else s for s in shape]
    else:
        dims = shape
    newtotal = IV(1)
    for d in dims:
        newtotal = newtotal * d
    if not same_dim(simp(newtotal), total):
        raise ValueError("cannot reshape array")
    ones = lambda ds: [k for k, d in enumerate(ds) if z3.is_int_value(simp(d)) and simp(d).as_long() == 1]
    # only unit dimensions added or removed: no arithmetic needed
    core_old = [k for k in range(a.ndim) if k not in ones(a.dims)]
    core_new = [k for k in range(len(dims)) if k not in ones(dims)]
    if len(core_old) == len(core_new) and all(simp(a.dims[x]).eq(simp(dims[y])) for x, y in zip(core_old, core_new)):
        def vmap(*idx):
            out = [IV(0)] * a.ndim
            for x, y in zip(core_old, core_new):
                out[x] = idx[y]
            return tuple(out)

        def inv(*idx):
            out = [IV(0)] * len(dims)
            for x, y in zip(core_old, core_new):
                out[y] = idx[x]
            return z3.BoolVal(True), tuple(out)
        return a.view("reshape", dims, vmap, inv)

    adims = list(a.dims)

    def lin(idx, ds):
        k = idx[0]
        for d, i in zip(ds[1:], idx[1:]):
            k = k * d + i
        return k

    def unlin(k, ds):
        out = []
        for d in reversed(ds[1:]):
            out.append(k % d)
            k = k / d
        out.append(k)
        return tuple(reversed(out))

    def vm(*idx):
        k = lin(idx, dims)
        return (k,) if len(adims) == 1 else unlin(k, adims)

    def inv2(*idx):
        k = lin(idx, adims)
        return z3.BoolVal(True), ((k,) if len(dims) == 1 else unlin(k, dims))
    return a.view("reshape", dims, vm, inv2)


# ------------------------------------------------------------------ indexing

def slice_params(s, n):
    """(start, step, length) of a slice over a sequence of length n, Python semantics"""
    c = cur()
    n = Z(n)
    step = s.step
    if step is None:
        step = 1
    if isinstance(step, SymInt):
        if c.decide(step.e == 0):
            raise ValueError("slice step cannot be zero")
        pos = c.decide(step.e > 0)
        stp = step.e
    else:
        step = operator.index(step)
        if step == 0:
            raise ValueError("slice step cannot be zero")
        pos = step > 0
        stp = IV(step)

    def norm(x, lo, hi):
        x = I(x)
        x = simp(x)
        # avoid case splits when the sign and bounds are known
        if z3.is_int_value(x):
            neg = x.as_long() < 0
            y = simp(x + n) if neg else x
            if z3.is_int_value(y) and y.as_long() == 0 and not neg and pos:
                return IV(0)
        else:
            if c.entails(x >= 0, 1):
                y = x
            else:
                y = z3.If(x < 0, x + n, x)
        if c.entails(z3.And(lo <= y, y <= hi), 1):
            return simp(y)
        return simp(z3.If(y < lo, lo, z3.If(y > hi, hi, y)))
    if pos:
        start = IV(0) if s.start is None else norm(s.start, IV(0), n)
        stop = n if s.stop is None else norm(s.stop, IV(0), n)
        d = simp(stop - start)
        if z3.is_int_value(stp) and stp.as_long() == 1:
            ln = d if c.entails(d >= 0, 1) else z3.If(d > 0, d, IV(0))
        else:
            ln = z3.If(d > 0, (d + stp - 1) / stp, IV(0))
    else:
        start = n - 1 if s.start is None else norm(s.start, IV(-1), n - 1)
        stop = IV(-1) if s.stop is None else norm(s.stop, IV(-1), n - 1)
        d = simp(start - stop)
        if z3.is_int_value(stp) and stp.as_long() == -1:
            ln = d if c.entails(d >= 0, 1) else z3.If(d > 0, d, IV(0))
        else:
            ln = z3.If(d > 0, (d - stp - 1) / (-stp), IV(0))
    return simp(start), simp(stp), simp(ln)


def slice_indices(s, n):
    """Python's slice.indices"""
    c = cur()
    n = Z(n)
    start, step, ln = slice_params(s, n)
    pos = c.decide(step > 0)
    # stop as CPython gives it
    def clip(x, lo, hi):
        x = I(x)
        y = z3.If(x < 0, x + n, x)
        return z3.If(y < lo, lo, z3.If(y > hi, hi, y))
    if pos:
        stop = n if s.stop is None else clip(s.stop, IV(0), n)
    else:
        stop = IV(-1) if s.stop is None else clip(s.stop, IV(-1), n - 1)
    return W(start), W(simp(stop)), W(step)


def is_intlike(x):
    return isinstance(x, (SymInt, int, np.integer)) and not isinstance(x, (bool, np.bool_))


def getitem(a, where):
    c = cur()
    if isinstance(where, (str, bytes)):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(where, tuple):
        if len(where) == 1:
            return getitem(a, where[0])
        if len(where) == 0:
            return a.view("all", a.dims, lambda *i: i, lambda *i: (z3.BoolVal(True), i)) if a.ndim else a
        return getitem_nd(a, where)
    if where is Ellipsis:
        return a.view("all", a.dims, lambda *i: i, lambda *i: (z3.BoolVal(True), i))
    if isinstance(where, SymArray) and where.ndim == 0 and where.sort == Int:
        where = W(where.at())
    if isinstance(where, np.ndarray) and where.shape == () and where.dtype.kind in "iu":
        where = int(where)
    if a.ndim == 0:
        raise IndexError("too many indices for array")
    if is_intlike(where):
        w = simp(I(where))
        n = a.n
        ok = z3.And(-n <= w, w < n)
        if not c.decide(ok):
            raise IndexError("index is out of bounds for axis 0")
        if c.entails(w >= 0, 1):
            i = w
        elif c.entails(w < 0, 1):
            i = simp(w + n)
        else:
            i = simp(z3.If(w < 0, w + n, w))
        if a.ndim == 1:
            c.note_index(i)
            return W(a.at(i), a.dtype)
        return a.view("row", a.dims[1:], lambda *r: (i,) + r, lambda *b: (b[0] == i, b[1:]))
    if isinstance(where, slice):
        start, step, ln = slice_params(where, a.n)
        if z3.is_int_value(step) and step.as_long() == 1:
            vm = lambda i, *r: (simp(start + i),) + r
            inv = lambda b, *r: (z3.And(b >= start, b < start + ln), (simp(b - start),) + r)
        else:
            vm = lambda i, *r: (simp(start + step * i),) + r
            if z3.is_int_value(step) and step.as_long() == -1:
                inv = lambda b, *r: (z3.And(b <= start, b > start - ln), (simp(start - b),) + r)
            elif z3.is_int_value(step):
                st = step.as_long()
                if st > 0:
                    inv = lambda b, *r: (z3.And(b >= start, (b - start) % st == 0, (b - start) / st < ln), (simp((b - start) / st),) + r)
                else:
                    inv = lambda b, *r: (z3.And(b <= start, (start - b) % (-st) == 0, (start - b) / (-st) < ln), (simp((start - b) / (-st)),) + r)
            else:
                inv = None
        return a.view("slice", [ln] + a.dims[1:], vm, inv)
    if where is None:
        return a.view("newaxis", [IV(1)] + a.dims, lambda i, *r: r, lambda *b: (z3.BoolVal(True), (IV(0),) + tuple(b)))
    if isinstance(where, (list, np.ndarray, SymArray, range)):
        if isinstance(where, list) and len(where) == 0:
            where = np.array([], dtype=np.int64)
        w = as_sym(where)
        if w.sort == Bool:
            if w.ndim == 1:
                if not same_dim(w.n, a.n):
                    if cur().decide(w.n == 0):      # NumPy accepts an empty mask for any array
                        return SymArray([IV(0)] + a.dims[1:], a.snapshot(), a.dtype, a.sort)
                    raise IndexError("boolean index did not match indexed array along dimension 0")
                C, pos = positions(w.snapshot(), w.n)
                fn = a.snapshot()
                return SymArray([C(w.n)] + a.dims[1:], lambda k, *r: fn(pos(k), *r), a.dtype, a.sort)
            if w.ndim == 2 and a.ndim == 2:
                return select2d(a, w)
            raise Unsupported("boolean index of %d dimensions" % w.ndim)
        if w.sort == Int:
            return take(a, w)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    raise Unsupported("index of type %r" % type(where))


def norm_index(w, n):
    """bounds-check an integer index array against n (raising IndexError on the failing branch); normalised element function"""
    c = cur()
    wf = w.snapshot()
    dims = w.dims
    guard = lambda *i: z3.And(*[z3.And(0 <= p, p < d) for p, d in zip(i, dims)])
    ks = [c.int("gen") for _ in dims]
    nonneg = c.entails(z3.Implies(guard(*ks), wf(*ks) >= 0), 2)
    if nonneg:
        ok = sym_all(dims, lambda *i: wf(*i) < n, "inbounds")
        norm = wf
    else:
        ok = sym_all(dims, lambda *i: z3.And(-n <= wf(*i), wf(*i) < n), "inbounds")
        norm = lambda *i: z3.If(wf(*i) < 0, wf(*i) + n, wf(*i))
    if not ok:
        raise IndexError("index is out of bounds for axis 0")
    return norm


def take(a, w):
    fn = a.snapshot()
    norm = norm_index(w, a.n)
    k = w.ndim
    return SymArray(w.dims + a.dims[1:], lambda *i: fn(norm(*i[:k]), *i[k:]), a.dtype, a.sort)


def getitem_nd(a, where):
    # [:, :], [i, :], [..., None], [:, None] ...
    if Ellipsis in [x for x in where if x is Ellipsis or isinstance(x, type(Ellipsis))]:
        k = [i for i, x in enumerate(where) if x is Ellipsis][0]
        n = sum(1 for x in where if x is not None and x is not Ellipsis)
        where = where[:k] + (slice(None),) * (a.ndim - n) + where[k + 1:]
    cura = a
    axis = 0
    for x in where:
        if x is None:
            ax = axis
            cura = cura.view("newaxis", cura.dims[:ax] + [IV(1)] + cura.dims[ax:], lambda *i, ax=ax: i[:ax] + i[ax + 1:], lambda *b, ax=ax: (z3.BoolVal(True), tuple(b[:ax]) + (IV(0),) + tuple(b[ax:])))
            axis += 1
        elif isinstance(x, slice):
            if axis >= cura.ndim:
                raise IndexError("too many indices for array")
            if x.start is None and x.stop is None and x.step is None:
                axis += 1
                continue
            start, step, ln = slice_params(x, cura.dims[axis])
            if not (z3.is_int_value(step) and abs(step.as_long()) == 1):
                raise Unsupported("strided multidimensional slice")
            st = step.as_long()
            ax = axis
            cura = cura.view("slice", cura.dims[:ax] + [ln] + cura.dims[ax + 1:],
                             lambda *i, ax=ax, start=start, st=st: i[:ax] + (start + st * i[ax],) + i[ax + 1:],
                             lambda *b, ax=ax, start=start, st=st, ln=ln: (z3.And((b[ax] - start) * st >= 0, (b[ax] - start) * st < ln), tuple(b[:ax]) + ((b[ax] - start) * st,) + tuple(b[ax + 1:])))
            axis += 1
        elif is_intlike(x):
            if axis >= cura.ndim:
                raise IndexError("too many indices for array")
            w = I(x)
            n = cura.dims[axis]
            if not cur().decide(z3.And(-n <= w, w < n)):
                raise IndexError("index out of bounds")
            i0 = z3.If(w < 0, w + n, w)
            ax = axis
            cura = cura.view("pick", cura.dims[:ax] + cura.dims[ax + 1:], lambda *i, ax=ax, i0=i0: i[:ax] + (i0,) + i[ax:],
                             lambda *b, ax=ax, i0=i0: (b[ax] == i0, tuple(b[:ax]) + tuple(b[ax + 1:])))
        else:
            if axis >= cura.ndim:
                raise IndexError("too many indices for array")
            raise Unsupported("multidimensional index %r" % (type(x),))
    if cura.ndim == 0:
        return W(cura.at(), cura.dtype)
    return cura


def setitem(a, where, what):
    c = cur()
    if isinstance(where, tuple) and len(where) == 1:
        where = where[0]
    if isinstance(where, SymArray) and where.ndim == 0 and where.sort == Int:
        where = W(where.at())
    if where is Ellipsis or isinstance(where, (slice, tuple)) or is_intlike(where):
        if is_intlike(where) and a.ndim == 1:
            w = simp(I(where))
            if not c.decide(z3.And(-a.n <= w, w < a.n)):
                raise IndexError("index is out of bounds")
            i0 = w if c.entails(w >= 0, 1) else simp(z3.If(w < 0, w + a.n, w))
            e = scal(what)[0]
            a.write(lambda i: i == i0, lambda i: e)
            return
        t = a if where is Ellipsis else getitem(a, where)
        if not isinstance(t, SymArray):
            raise Unsupported("assignment to a scalar view")
        assign_all(t, what)
        return
    w = as_sym(where if not (isinstance(where, list) and len(where) == 0) else np.array([], dtype=np.int64))
    if w.sort == Bool:
        if w.ndim == 1:
            if not same_dim(w.n, a.n):
                if c.decide(w.n == 0):
                    raise Unsupported("assignment through an empty mask of another length")
                raise IndexError("boolean index did not match indexed array along dimension 0")
            wf = w.snapshot()
            if isscalar(what):
                e = scal(what)[0]
                a.write(lambda i, *r: coerce(wf(i), Bool), lambda *i: e)
            else:
                v = as_sym(what)
                if a.ndim != 1 or v.ndim != 1:
                    raise Unsupported("masked assignment in several dimensions")
                C, pos = positions(wf, w.n)
                vf = v.snapshot()
                if z3.is_int_value(simp(v.n)) and simp(v.n).as_long() == 1:
                    a.write(lambda i: coerce(wf(i), Bool), lambda i: vf(IV(0)))
                    return
                if not same_dim(v.n, C(w.n)):
                    if not c.decide(v.n == 1):
                        raise ValueError("NumPy boolean array indexing assignment cannot assign values")
                    a.write(lambda i: coerce(wf(i), Bool), lambda i: vf(IV(0)))
                    return
                a.write(lambda i: coerce(wf(i), Bool), lambda i: vf(C(i)))
            return
        if w.ndim == a.ndim and isscalar(what):
            wf = w.snapshot()
            for p, q in zip(w.dims, a.dims):
                if not same_dim(p, q):
                    raise IndexError("boolean index did not match")
            e = scal(what)[0]
            a.write(lambda *i: coerce(wf(*i), Bool), lambda *i: e)
            return
        raise Unsupported("boolean assignment in several dimensions")
    if w.sort == Int:
        scatter(a, w, what)
        return
    raise IndexError("arrays used as indices must be of integer (or boolean) type")


def isscalar(x):
    return isinstance(x, (SymInt, SymBool, SymVal, int, float, bool, np.generic)) or (isinstance(x, SymArray) and x.ndim == 0) or (isinstance(x, np.ndarray) and x.shape == ())


def assign_all(t, what):
    if isscalar(what):
        e = scal(what)[0]
        t.write(None, lambda *i: e)
        return
    v = as_sym(what)
    c = cur()
    if v.ndim > t.ndim:
        raise ValueError("could not broadcast input array")
    one = []
    for p, q in zip(reversed(v.dims), reversed(t.dims)):
        if z3.is_int_value(simp(p)) and simp(p).as_long() == 1:
            one.insert(0, True)
            continue
        one.insert(0, False)
        if not same_dim(p, q):
            if not c.decide(p == 1):
                raise ValueError("could not broadcast input array from shape into shape")
            one[0] = True
    vf = v.snapshot()
    off = t.ndim - v.ndim

    def val(*i):
        return vf(*[IV(0) if o else x for o, x in zip(one, i[off:])])
    t.write(None, val)


def scatter(a, w, what):
    """a[w] = what for an integer index array (last write wins)"""
    c = cur()
    if a.ndim != 1 or w.ndim != 1:
        raise Unsupported("scatter in several dimensions")
    norm = norm_index(w, a.n)
    n = w.n
    body = simp(norm(core._PH[0]))
    key = ("scatter", body.get_id(), n.get_id())
    if key in c.cache:
        last = c.cache[key][0]
    else:
        last = c.fun("last", Int, Int)
        c.cache[key] = (last, body, n)
        c.forall(lambda j: z3.Or(last(j) == -1, z3.And(0 <= last(j), last(j) < n, norm(last(j)) == j)), 1,
                 triggers=[[(last.name(), 0, 1, None)]], name="scatter")
        tr = auto_triggers(simp(norm(core._PH[0])), 1)[0] or [("$idx", 0, 1, None)]
        c.forall(lambda k: z3.Implies(z3.And(0 <= k, k < n), k <= last(norm(k))), 1, triggers=[tr], maxgen=3, name="scatter-last")
    if isscalar(what):
        e = scal(what)[0]
        a.write(lambda j: last(j) >= 0, lambda j: e)
    else:
        v = as_sym(what)
        vf = v.snapshot()
        if z3.is_int_value(simp(v.n)) and simp(v.n).as_long() == 1:
            a.write(lambda j: last(j) >= 0, lambda j: vf(IV(0)))
            return
        if not same_dim(v.n, n):
            if not c.decide(v.n == 1):
                raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
            a.write(lambda j: last(j) >= 0, lambda j: vf(IV(0)))
            return
        a.write(lambda j: last(j) >= 0, lambda j: vf(last(j)))


def row_counts(mask):
    """per-row prefix counts of a 2-d mask: D(i,j) = number of true entries in row i before column j"""
    c = cur()
    fn = mask.snapshot()
    mf = lambda i, j: coerce(fn(i, j), Bool)
    body = simp(mf(core._PH[0], core._PH[1]))
    key = ("rowcount", body.get_id())
    if key in c.cache:
        return c.cache[key][0]
    D = c.fun("D", Int, Int, Int)
    nm = D.name()
    n, m = mask.dims
    step = lambda i, j: z3.And(D(i, IV(0)) == 0, z3.Implies(j >= 0, D(i, j + 1) == D(i, j) + z3.If(mf(i, j), IV(1), IV(0))))
    c.forall_apps([nm], lambda i, j: z3.And(step(i, j), step(i, j - 1)), maxgen=1, name="rowcount")
    c.forall_apps([nm], lambda i, j: z3.Implies(j >= 0, z3.And(D(i, j) >= 0, D(i, j) <= j)), maxgen=3, name="rowcount-bounds")
    c.cache[key] = (D, body)
    c.rowcounts = getattr(c, "rowcounts", []) + [(D, mf, n, m)]
    hook = getattr(c, "rowcount_hook", None)
    if hook is not None:
        hook(D, mf, n, m)
    return D


def count_nonzero(a, axis=None):
    a = as_sym(a)
    fn = a.snapshot()
    if a.ndim == 1:
        C = count_fn(lambda i: coerce(fn(i), Bool), a.n)
        return W(C(a.n))
    if a.ndim == 2 and axis == 1:
        D = row_counts(a)
        m = a.dims[1]
        return SymArray([a.dims[0]], lambda i: D(i, m), INT64)
    raise Unsupported("count_nonzero")


def select2d(a, mask):
    """a[mask] for 2-d a and mask: row-major order; entry k belongs to row own(k)"""
    c = cur()
    for p, q in zip(a.dims, mask.dims):
        if not same_dim(p, q):
            raise IndexError("boolean index did not match indexed array")
    D = row_counts(mask)
    n, m = mask.dims
    fnm = mask.snapshot()
    mf = lambda i, j: coerce(fnm(i, j), Bool)
    R = prefix_sum(lambda i: D(i, m), n)
    row = owner(R, n)
    key = ("col", D.name())
    if key in c.cache:
        col = c.cache[key][0]
    else:
        col = c.fun("col_" + D.name(), Int, Int, Int)   # col(i, r): column of the r-th true entry of row i
        c.forall_apps([col.name()], lambda i, r: z3.Implies(z3.And(0 <= r, r < D(i, m)), z3.And(0 <= col(i, r), col(i, r) < m, mf(i, col(i, r)), D(i, col(i, r)) == r)), name="col")
        c.cache[key] = (col,)
    fa = a.snapshot()
    return SymArray([R(n)], lambda k: fa(row(k), col(row(k), k - R(row(k)))), a.dtype, a.sort)


# ------------------------------------------------------------------ ufuncs

def sample(x):
    """a concrete stand-in with the same dtype behaviour"""
    if isinstance(x, SymArray):
        return np.ones((1,) * x.ndim if x.ndim else (), dtype=x.dtype) if x.ndim else x.dtype.type(1)
    if isinstance(x, SymInt):
        return 1 if x._dt is None else x._dt.type(1)
    if isinstance(x, SymBool):
        return np.bool_(True)
    if isinstance(x, SymVal):
        return x.dtype.type(1)
    return x


_sqrt = z3.Function("sqrt", Real, Real)


def elementwise(name, es, outsort):
    """z3 expression of ufunc `name` on element expressions"""
    sorts = [e.sort() for e in es]
    if any(s == Val for s in sorts):
        if name == "positive":
            return es[0]
        f = z3.Function("U_" + name, *([Val] * len(es) + [outsort if outsort != Real else Val]))
        return f(*[coerce(e, Val) for e in es])
    num = Real if Real in sorts else Int
    if name in ("add", "subtract", "multiply", "minimum", "maximum", "less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
        if name in ("equal", "not_equal") and all(s == Bool for s in sorts):
            a, b = es
            return a == b if name == "equal" else a != b
        if all(s == Bool for s in sorts) and name in ("add", "maximum"):
            return z3.Or(*es)
        if all(s == Bool for s in sorts) and name in ("multiply", "minimum"):
            return z3.And(*es)
        if name == "multiply" and Bool in sorts and sorts[0] != sorts[1]:
            k = 0 if sorts[0] == Bool else 1
            o = es[1 - k]
            return z3.If(es[k], o, IV(0) if o.sort() == Int else z3.RealVal(0))
        a, b = [coerce(e, num) for e in es]
        return {"add": lambda: a + b, "subtract": lambda: a - b, "multiply": lambda: a * b, "minimum": lambda: zmin(a, b), "maximum": lambda: zmax(a, b),
                "less": lambda: a < b, "less_equal": lambda: a <= b, "greater": lambda: a > b, "greater_equal": lambda: a >= b,
                "equal": lambda: a == b, "not_equal": lambda: a != b}[name]()
    if name in ("bitwise_and", "logical_and"):
        if all(s == Bool for s in sorts) or name == "logical_and":
            return z3.And(*[coerce(e, Bool) for e in es])
        a, b = es
        for x, y in ((a, b), (b, a)):
            if z3.is_int_value(simp(y)):
                v = simp(y).as_long()
                if v & (v + 1) == 0:   # 2**k - 1
                    return x % IV(v + 1)
                if v > 0 and v & (v - 1) == 0:  # single bit
                    return ((x / IV(v)) % 2) * IV(v)
        raise Unsupported("bitwise_and of integers")
    if name in ("bitwise_or", "logical_or"):
        if all(s == Bool for s in sorts) or name == "logical_or":
            return z3.Or(*[coerce(e, Bool) for e in es])
        raise Unsupported("bitwise_or of integers")
    if name in ("bitwise_xor", "logical_xor"):
        if all(s == Bool for s in sorts) or name == "logical_xor":
            return z3.Xor(*[coerce(e, Bool) for e in es])
        raise Unsupported("bitwise_xor of integers")
    if name in ("invert", "logical_not"):
        if sorts[0] == Bool or name == "logical_not":
            return z3.Not(coerce(es[0], Bool))
        return -es[0] - 1
    if name == "negative":
        return -coerce(es[0], num)
    if name == "positive":
        return es[0]
    if name == "absolute":
        a = coerce(es[0], num)
        return z3.If(a >= 0, a, -a)
    if name == "floor_divide" and num == Int:
        a, b = [coerce(e, Int) for e in es]
        q = cur().cache.get("ghostdiv")
        return floordiv0(a, b)
    if name == "remainder" and num == Int:
        a, b = [coerce(e, Int) for e in es]
        return floormod0(a, b)
    if name in ("true_divide", "divide"):
        a, b = [coerce(e, Real) for e in es]
        return a / b
    if name == "right_shift" and z3.is_int_value(simp(es[1])):
        return es[0] / IV(2 ** simp(es[1]).as_long())
    if name == "left_shift" and z3.is_int_value(simp(es[1])):
        return es[0] * IV(2 ** simp(es[1]).as_long())
    if name == "isnan":
        return z3.BoolVal(False)
    if name == "sqrt":
        a = coerce(es[0], Real)
        c = cur()
        if "sqrtax" not in c.cache:
            c.cache["sqrtax"] = True
            c.forall_real = True
        r = _sqrt(a)
        c.sqrt_terms = getattr(c, "sqrt_terms", {})
        return r
    if name in ("floor", "rint"):
        if name == "floor":
            a = coerce(es[0], Real)
            return z3.ToReal(z3.ToInt(a))
    if name == "power" and z3.is_int_value(simp(es[1])) and 0 <= simp(es[1]).as_long() <= 3:
        out = IV(1)
        for _ in range(simp(es[1]).as_long()):
            out = out * es[0]
        return out
    if name == "sign" or True:
        f = z3.Function("U_" + name, *([Val] * len(es) + [outsort if outsort != Real else Val]))
        return f(*[coerce(e, Val) for e in es])


def floordiv0(a, b):
    b = simp(b)
    if z3.is_int_value(b):
        if b.as_long() == 0:
            return IV(0)   # NumPy: 0 with a warning
        return floordiv(a, b)
    return z3.If(b == 0, IV(0), floordiv(a, b))


def floormod0(a, b):
    b = simp(b)
    if z3.is_int_value(b):
        if b.as_long() == 0:
            return IV(0)
        return floormod(a, b)
    return z3.If(b == 0, IV(0), floormod(a, b))


SYMS = None


def array_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    for x in inputs:
        if hasattr(x, "__array_ufunc__") and not isinstance(x, (SymArray, SymInt, SymBool, SymVal, np.ndarray, np.generic)):
            return NotImplemented
    if method == "reduceat":
        return reduceat(ufunc, *inputs)
    if method == "reduce":
        return ufunc_reduce(ufunc, *inputs, **kw)
    if method != "__call__":
        raise Unsupported("ufunc.%s" % method)
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0]
    kw.pop("casting", None)
    if kw:
        raise Unsupported("ufunc keyword %s" % list(kw))
    if getattr(ufunc, "nout", 1) != 1:
        if ufunc.__name__ == "divmod":
            return (array_ufunc(np.floor_divide, "__call__", inputs, {}), array_ufunc(np.remainder, "__call__", inputs, {}))
        n = ufunc.__name__
        return tuple(generic_ufunc("%s_%d" % (n, k), inputs) for k in range(ufunc.nout))
    name = ufunc.__name__
    ins = []
    for x in inputs:
        if isinstance(x, (list, np.ndarray)):
            x = as_sym(x)
        ins.append(x)
    with np.errstate(all="ignore"):
        try:
            odt = np.asarray(ufunc(*[sample(x) for x in ins])).dtype
        except TypeError:
            if len(ins) == 2 and name in ("equal", "not_equal"):
                return name == "not_equal"
            raise
    ops = []
    for x in ins:
        if isinstance(x, SymArray) and x.ndim > 0:
            ops.append((x.dims, x.snapshot()))
        else:
            e = scal(x)[0]
            ops.append(([], (lambda *i, e=e: e)))
    dims = broadcast_dims([o[0] for o in ops]) if any(o[0] for o in ops) else []
    nd = len(dims)
    outsort = sort_of(odt)

    def pick(d, f):
        k = len(d)
        flags = []
        for p, q in zip(d, dims[nd - k:]):
            flags.append(z3.is_int_value(simp(p)) and simp(p).as_long() == 1 and not simp(q).eq(simp(p)))
        def g(*i):
            j = i[nd - k:]
            return f(*[IV(0) if fl else x for fl, x in zip(flags, j)])
        if k and not all(simp(p).eq(simp(q)) for p, q in zip(d, dims[nd - k:])):
            # symbolic length-1 operands
            def g(*i):
                j = i[nd - k:]
                jj = []
                for p, q, x in zip(d, dims[nd - k:], j):
                    if simp(p).eq(simp(q)):
                        jj.append(x)
                    elif z3.is_int_value(simp(p)):
                        jj.append(IV(0) if simp(p).as_long() == 1 else x)
                    else:
                        jj.append(x if cur().entails(p == q, 1) else simp(z3.If(p == 1, IV(0), x)))
                return f(*jj)
        return g
    picks = [pick(d, f) for d, f in ops]

    def elem(*i):
        return elementwise(name, [p(*i) for p in picks], outsort)
    if not dims:
        r = elem()
        if out is not None:
            assign_all(out, W(r, odt))
            return out
        if isinstance(inputs[0], SymArray) or True:
            return W(r, odt)
    probe = elem(*core._PH[:nd])
    sort = probe.sort()
    if out is not None:
        if not isinstance(out, SymArray):
            raise Unsupported("ufunc out=")
        if len(out.dims) != nd or not all(same_dim(p, q) for p, q in zip(out.dims, dims)):
            raise ValueError("non-broadcastable output operand")
        if not np.can_cast(odt, out.dtype, "same_kind"):
            raise np.core._exceptions.UFuncTypeError("Cannot cast ufunc output") if False else TypeError("Cannot cast ufunc '%s' output from %s to %s" % (name, odt, out.dtype))
        out.write(None, elem)
        return out
    return SymArray(dims, elem, odt, sort)


def generic_ufunc(name, inputs):
    class U(object):
        nout = 1
        __name__ = name

        def __call__(self, *a):
            return np.float64(1)
    u = U()
    u.__name__ = name
    return array_ufunc(u, "__call__", inputs, {})


FOLDS = {}


def fold_term(ufname, fn, sort, lo, hi):
    """F(lo,hi): the ufunc folded over elements lo..hi-1 of the sequence fn (uninterpreted, extensional)"""
    c = cur()
    body = simp(fn(core._PH[0]))
    key = ("fold", ufname, body.get_id())
    if key not in c.cache:
        F = c.fun("fold_" + ufname, Int, Int, body.sort())
        c.cache[key] = (F, body)
        others = [v for k, v in list(c.cache.items()) if isinstance(k, tuple) and k[0] == "foldrec" and k[1] == ufname]
        c.cache[("foldrec", ufname, body.get_id())] = (F, fn, body)
        # singleton: the fold of one element is that element
        c.forall_apps([F.name()], lambda a, b: z3.Implies(b == a + 1, F(a, b) == fn(a)), maxgen=2, name="fold1")
        for G, gn, _ in others + [(F, fn, body)]:
            if G.range() != F.range():
                continue
            # congruence: equal-length ranges with equal elements fold to equal values (skolemised difference witness)
            d = c.fun("diff", Int, Int, Int, Int, Int)
            ftr, gtr = (F.name(), 0, 1, None), (G.name(), 0, 1, None)

            def cong(a, b, a2, b2, F=F, G=G, fn=fn, gn=gn, d=d):
                w = d(a, b, a2, b2)
                return z3.Implies(z3.And(b - a == b2 - a2, z3.Or(b <= a, fn(a + w) == gn(a2 + w), z3.Not(z3.And(0 <= w, w < b - a)))), F(a, b) == G(a2, b2))
            c.foldcong = getattr(c, "foldcong", []) + [(F, G, cong)]
            c.forall_apps([F.name(), G.name()], cong, maxgen=2, name="fold-congruence")
    F = c.cache[key][0]
    return F(lo, hi)


def reduceat(ufunc, content, indices):
    raise Unsupported("reduceat")


def ufunc_reduce(ufunc, a, axis=0, **kw):
    raise Unsupported("ufunc.reduce")


# ------------------------------------------------------------------ numpy functions

def np_nonzero(a):
    a = as_sym(a)
    if a.ndim != 1:
        raise Unsupported("nonzero of a multidimensional array")
    fn = a.snapshot()
    C, pos = positions(lambda i: coerce(fn(i), Bool), a.n)
    return (SymArray([C(a.n)], lambda k: pos(k), INT64),)


def np_repeat(a, counts, axis=None):
    c = cur()
    a = as_sym(a)
    if a.ndim == 0:
        a = reshape(a, [IV(1)])
    if a.ndim != 1:
        raise Unsupported("repeat of a multidimensional array")
    fn = a.snapshot()
    if isscalar(counts):
        k = scal(counts)[0]
        if c.decide(k < 0):
            raise ValueError("repeats may not contain negative values.")
        out = SymArray([a.n * k], lambda i: fn(i / k), a.dtype, a.sort)
        out._factors = (a.n, k)
        return out
    cnt = as_sym(counts)
    if cnt.ndim == 0:
        return np_repeat(a, W(cnt.at()))
    if cnt.sort != Int and cnt.sort != Bool:
        raise TypeError("Cannot cast array data from %s to int64" % cnt.dtype)
    cf = cnt.snapshot()
    if not same_dim(cnt.n, a.n):
        if c.decide(cnt.n == 1):
            return np_repeat(a, W(cf(IV(0))))
        raise ValueError("operands could not be broadcast together")
    if not sym_all([cnt.n], lambda i: coerce(cf(i), Int) >= 0, "nonneg"):
        raise ValueError("repeats may not contain negative values.")
    S = prefix_sum(lambda i: coerce(cf(i), Int), cnt.n)
    own = owner(S, cnt.n)
    return SymArray([S(cnt.n)], lambda k: fn(own(k)), a.dtype, a.sort)


def np_cumsum(a, out=None, dtype=None, axis=None):
    a = as_sym(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of a multidimensional array")
    fn = a.snapshot()
    S = prefix_sum(lambda i: coerce(fn(i), Int), a.n)
    dt = a.dtype if a.dtype.kind in "iu" and a.dtype.itemsize == 8 else INT64
    if out is not None:
        if not same_dim(out.n, a.n):
            raise ValueError("provided out is the wrong size for the reduction")
        out.write(None, lambda i: S(i + 1))
        return out
    return SymArray([a.n], lambda i: S(i + 1), dt)


def np_concatenate(arrays, axis=0):
    arrays = [as_sym(x) for x in arrays]
    if len(arrays) == 0:
        raise ValueError("need at least one array to concatenate")
    if any(a.ndim != arrays[0].ndim for a in arrays) or arrays[0].ndim == 0:
        raise ValueError("all the input array dimensions must match")
    if axis not in (0, -1) or arrays[0].ndim != 1:
        raise Unsupported("concatenate of multidimensional arrays")
    dt = np.result_type(*[a.dtype for a in arrays])
    sort = sort_of(dt)
    if sort == Val and all(a.sort != Val for a in arrays):
        sort = Real if any(a.sort == Real for a in arrays) else Val
    fns = [a.snapshot() for a in arrays]
    ns = [a.n for a in arrays]
    offs = [IV(0)]
    for n in ns:
        offs.append(simp(offs[-1] + n))

    def fn(k):
        out = coerce(fns[-1](k - offs[-2]), sort)
        for i in range(len(fns) - 2, -1, -1):
            out = z3.If(k < offs[i + 1], coerce(fns[i](k - offs[i]), sort), out)
        return out
    return SymArray([offs[-1]], fn, dt, sort)


def np_stack0(arrays):
    arrays = [as_sym(x) for x in arrays]
    n = arrays[0].dims
    for a in arrays[1:]:
        if a.ndim != arrays[0].ndim:
            raise Unsupported("ragged stack")
        for p, q in zip(a.dims, n):
            if not same_dim(p, q):
                raise ValueError("all input arrays must have the same shape")
    fns = [a.snapshot() for a in arrays]
    dt = np.result_type(*[a.dtype for a in arrays])
    sort = sort_of(dt)

    def fn(r, *i):
        out = coerce(fns[-1](*i), sort)
        for k in range(len(fns) - 2, -1, -1):
            out = z3.If(r == k, coerce(fns[k](*i), sort), out)
        return out
    return SymArray([IV(len(arrays))] + n, fn, dt, sort)


def np_array_equal(a, b):
    a, b = as_sym(a), as_sym(b)
    if a.ndim != b.ndim:
        return False
    fa, fb = a.snapshot(), b.snapshot()
    for p, q in zip(a.dims, b.dims):
        if not same_dim(p, q):
            return False
    if a.ndim == 0:
        return W(elementwise("equal", [fa(), fb()], Bool))
    return sym_all(a.dims, lambda *i: coerce(elementwise("equal", [fa(*i), fb(*i)], Bool), Bool), "equal")


def np_arange(*args, **kw):
    dtype = kw.pop("dtype", None)
    if kw:
        raise Unsupported("arange keywords")
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        (start, stop), step = args, 1
    else:
        start, stop, step = args[:3]
        if len(args) == 4:
            dtype = args[3]
    s, e, st = I(start), I(stop), simp(I(step))
    c = cur()
    if not z3.is_int_value(st):
        if c.decide(st == 0):
            raise ZeroDivisionError("arange step")
        d = simp(e - s)
        count = None
        if z3.is_mul(d):
            ch = d.children()
            for j, x in enumerate(ch):
                if x.eq(st) and len(ch) == 2 and c.entails(ch[1 - j] >= 0, 1):
                    count = ch[1 - j]     # arange(s, s + st*count, st)
        if count is not None:
            n = count
        elif c.decide(st > 0):
            d = e - s
            n = z3.If(d > 0, (d + st - 1) / st, IV(0))
            # exact multiples stay linear
            q = c.fun("nsteps", Int, Int)
        else:
            raise Unsupported("arange with symbolic negative step")
    else:
        k = st.as_long()
        if k == 0:
            raise ZeroDivisionError("arange step")
        d = simp((e - s) if k > 0 else (s - e))
        a = abs(k)
        if a == 1:
            n = d if c.entails(d >= 0, 1) else z3.If(d > 0, d, IV(0))
        else:
            n = z3.If(d > 0, (d + (a - 1)) / a, IV(0))
    dt = np.dtype(dtype) if dtype is not None else INT64
    return SymArray([simp(n)], lambda i: s + st * i, dt, Int if sort_of(dt) == Int else Real)


def np_full(shape, value, dtype=None, **kw):
    dims = dims_of(shape)
    check_dims(dims)
    e, dt, sort = scal(value)
    if dtype is not None:
        dt = np.dtype(dtype)
        s2 = sort_of(dt)
        if not (s2 == Val and sort == Real):
            e = coerce(e, s2)
    sort = e.sort()
    return SymArray(dims, lambda *i: e, dt, sort)


def np_empty(shape, dtype=np.float64, **kw):
    dims = dims_of(shape)
    check_dims(dims)
    dt = np.dtype(dtype)
    sort = sort_of(dt)
    if not dims:
        k = z3.Const(cur().name("uninit"), sort)
        return SymArray([], lambda: k, dt, sort)
    f = cur().fun("uninit", *([Int] * len(dims) + [sort]))
    return SymArray(dims, lambda *i: f(*i), dt, sort)


def np_zeros(shape, dtype=np.float64, **kw):
    dt = np.dtype(dtype)
    return np_full(shape, dt.type(0), dt)


def np_ones(shape, dtype=np.float64, **kw):
    dt = np.dtype(dtype)
    return np_full(shape, dt.type(1), dt)


def np_diff(a):
    a = as_sym(a)
    return a[1:] - a[:-1]


def np_append(a, b):
    a = as_sym(a).reshape(-1)
    b = as_sym(b)
    if b.ndim == 0:
        b = reshape(b, [IV(1)])
    return np_concatenate([a, b])


def np_put(a, ind, v):
    ind, v = as_sym(ind), as_sym(v)
    c = cur()
    if v.ndim == 1 and not same_dim(v.n, ind.n):
        raise Unsupported("put with cycling values")
    scatter(a, ind, v)


def np_where(cond, x=None, y=None):
    if x is None:
        return np_nonzero(cond)
    cond = as_sym(cond)
    ops = []
    for z in (cond, x, y):
        if isscalar(z):
            e, dt, so = scal(z)
            ops.append(([], (lambda *i, e=e: e), dt, so))
        else:
            z = as_sym(z)
            ops.append((z.dims, z.snapshot(), z.dtype, z.sort))
    dims = broadcast_dims([o[0] for o in ops])
    if any(o[0] and len(o[0]) != len(dims) for o in ops):
        raise Unsupported("where broadcasting")
    dt = np.result_type(ops[1][2], ops[2][2])
    sort = sort_of(dt)
    f = lambda *i: z3.If(coerce(ops[0][1](*i), Bool), coerce(ops[1][1](*i), sort), coerce(ops[2][1](*i), sort))
    return SymArray(dims, f, dt, sort)


def np_resize(a, shape):
    c = cur()
    a = as_sym(a)
    dims = dims_of(shape)
    if a.ndim != 1 or len(dims) != 1:
        raise Unsupported("resize in several dimensions")
    n = a.n
    fn = a.snapshot()
    m = dims[0]
    if c.decide(n == 0):
        return np_full([W(m)], a.dtype.type(0), a.dtype)
    if c.entails(m <= n, 1):
        return SymArray([m], lambda i: fn(i), a.dtype, a.sort)
    wrap = c.fun("wrap", Int, Int)
    c.forall(lambda i: z3.And(z3.Implies(z3.And(0 <= i, i < n), wrap(i) == i), z3.Implies(i >= 0, z3.And(0 <= wrap(i), wrap(i) < n))), 1, triggers=[[(wrap.name(), 0, 1, None)]], name="resize")
    return SymArray([m], lambda i: fn(wrap(i)), a.dtype, a.sort)


def np_tile(a, reps):
    a = as_sym(a)
    c = cur()
    if a.ndim != 1:
        raise Unsupported("tile")
    r = I(reps)
    n = a.n
    fn = a.snapshot()
    if c.decide(n == 0):
        out = SymArray([IV(0)], fn, a.dtype, a.sort)
        return out
    out = SymArray([r * n], lambda i: fn(i % n), a.dtype, a.sort)
    out._factors = (r, n)
    return out


def np_searchsorted(a, v, side="left", sorter=None):
    """requires a sorted (the caller's obligation is recorded as a precondition)"""
    c = cur()
    if sorter is not None:
        raise Unsupported("searchsorted with sorter")
    a = as_sym(a)
    fa = a.snapshot()
    n = a.n
    if not entails_forall(lambda i: fa(i) <= fa(i + 1), IV(0), simp(n - 1)):
        from .core import prove
        k = c.int("srt")
        prove(c, "precondition of searchsorted: first argument sorted", z3.Implies(z3.And(0 <= k, k < n - 1), fa(k) <= fa(k + 1)), kind="pre")
    key = ("ss", side, simp(fa(core._PH[0])).get_id(), n.get_id())
    if key in c.cache:
        ss = c.cache[key][0]
    else:
        ss = c.fun("ss_" + side, Int, Int)
        c.cache[key] = (ss, fa, n)
        lt = (lambda x, y: x < y) if side == "left" else (lambda x, y: x <= y)
        tr = auto_triggers(simp(fa(core._PH[0])), 1)[0] or [("$idx", 0, 1, None)]
        c.forall(lambda x: z3.And(0 <= ss(x), ss(x) <= n, z3.Implies(ss(x) < n, z3.Not(lt(fa(ss(x)), x))), z3.Implies(ss(x) > 0, lt(fa(ss(x) - 1), x))), 1,
                 triggers=[[(ss.name(), 0, 1, None)]], name="searchsorted")
        c.forall(lambda x, i: z3.And(z3.Implies(z3.And(0 <= i, i < ss(x)), lt(fa(i), x)), z3.Implies(z3.And(ss(x) <= i, i < n), z3.Not(lt(fa(i), x)))), 2,
                 triggers=[[(ss.name(), 0, 1, None)], tr], maxgen=3, name="searchsorted-all")
    if isscalar(v):
        return W(ss(I(v)), INT64)
    v = as_sym(v)
    vf = v.snapshot()
    return SymArray(v.dims, lambda *i: ss(vf(*i)), INT64)


def present(mask):
    """case split: does a boolean array hold anywhere?  Where it does, a witness is named, and its rank in later selections"""
    if not np_any(mask):
        return False
    c = cur()
    f = mask.snapshot()
    w = c.int("present")
    c.fact(z3.And(0 <= w, w < mask.n, f(w)))
    c.note_index(w)

    def ranks(ps, pos, n):
        for e in (ps(w), ps(w + 1), pos(ps(w))):
            c.inst.scan(simp(e), 0)
            c.note_index(simp(e))
    c.hooks.setdefault("positions", []).append(ranks)
    return True


def np_unique(a):
    """the values present, in increasing order; by case split, for elements known to be among 0..SMALL-1"""
    if isinstance(a, SymRecords):
        if not all(entails_forall(lambda i: z3.And(0 <= f(i), f(i) < SMALL), IV(0), a.n_) for f in a.fields):
            raise Unsupported("numpy.unique of records with unbounded values")
        return [combo for combo in itertools.product(range(SMALL), repeat=len(a.fields)) if present(a == combo)]
    a = as_sym(a)
    if a.sort != Int or a.ndim != 1:
        raise Unsupported("numpy.unique outside its contract")
    f = a.snapshot()
    if not entails_forall(lambda i: z3.And(0 <= f(i), f(i) < SMALL), IV(0), a.n):
        raise Unsupported("numpy.unique of values without a small bound")
    out = [k for k in range(SMALL) if present(a == k)]
    return from_concrete(np.array(out, dtype=a.dtype))


class SymRecords(object):
    """numpy.stack(integer arrays, axis=-1) viewed as records with one field per array"""

    def __init__(self, fields, n, dtype):
        self.fields, self.n_, self.dtype_ = fields, n, dtype

    def reshape(self, shape):
        if len(shape) != 1 or not cur().entails(I(shape[0]) == self.n_, 1):
            raise Unsupported("reshaped records")
        return self

    def __eq__(self, combo):
        if not isinstance(combo, tuple):
            raise Unsupported("records compared with something else than a record")
        fs = self.fields
        return SymArray([self.n_], lambda i: z3.And(*[f(i) == x for f, x in zip(fs, combo)]), BOOL, Bool)
    __hash__ = None


def retyped(a, dtype):
    """array.view(dtype)"""
    if isinstance(dtype, list) and a.ndim == 2 and a.sort == Int and z3.is_int_value(simp(a.dims[1])) and simp(a.dims[1]).as_long() == len(dtype) and all(np.dtype(d) == a.dtype for _, d in dtype):
        f = a.snapshot()
        return SymRecords([lambda i, k=k: f(i, IV(k)) for k in range(len(dtype))], a.dims[0], a.dtype)
    raise Unsupported("view as another dtype")


class _R(object):
    def __getitem__(self, items):
        if not isinstance(items, tuple):
            items = (items,)
        parts = []
        for x in items:
            if isscalar(x):
                parts.append(reshape(scalar_array(x), [IV(1)]))
            elif isinstance(x, slice):
                raise Unsupported("r_ with slices")
            else:
                parts.append(as_sym(x))
        return np_concatenate(parts)


class NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArray, np.ndarray))

    def __subclasscheck__(cls, c):
        return c is SymArray or (isinstance(c, type) and type.__subclasscheck__(np.ndarray, c)) or type.__subclasscheck__(cls, c)

    def __eq__(cls, o):     # type(x) == numpy.ndarray
        return o is cls or o is SymArray or o is np.ndarray

    def __ne__(cls, o):
        return not (cls == o)

    __hash__ = type.__hash__


class ndarray(metaclass=NDMeta):
    pass


class FakeMA(object):
    """no symbolic array is a numpy.ma.MaskedArray"""

    def getdata(self, a, *x):
        return a if isinstance(a, SymArray) else np.ma.getdata(a, *x)

    def getmask(self, a):
        return np.ma.nomask if isinstance(a, SymArray) else np.ma.getmask(a)

    def __getattr__(self, n):
        return getattr(np.ma, n)


class FakeNumpy(object):
    """stands for the numpy module inside the code under verification"""
    ndarray = ndarray
    r_ = _R()
    ma = FakeMA()
    _passthrough = set("dtype inf nan newaxis pi e generic number integer floating complexfloating inexact signedinteger unsignedinteger character bool_ bool object object_ str_ bytes_ "
                       "int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 float64 complex64 complex128 void flexible datetime64 timedelta64 "
                       "iinfo finfo errstate issubdtype ufunc lib core char rec random result_type promote_types can_cast intp int_ float_ little_endian __version__ __name__ float int complex set_printoptions testing linalg".split())

    def __getattr__(self, n):
        if n in FakeNumpy._passthrough:
            return getattr(np, n)
        real = getattr(np, n)
        if isinstance(real, np.ufunc):
            return real
        if n.startswith("__") or (isinstance(real, type) and (issubclass(real, np.generic) or real.__module__ == "builtins")):
            return real
        if callable(real):
            def wrapped(*args, **kw):
                if any(is_symbolic(x) for x in args) or any(is_symbolic(x) for x in kw.values()):
                    raise Unsupported("numpy.%s has no contract here" % n)
                r = real(*args, **kw)
                if isinstance(r, np.ndarray) and r.dtype.kind in "biuf":
                    return from_concrete(r)
                return r
            wrapped.__name__ = n
            return wrapped
        return real

    def array(self, x, dtype=None, copy=True, **kw):
        if isinstance(x, SymArray):
            if dtype is not None and x.dtype != np.dtype(dtype):
                return x.astype(dtype)
            return x.copy() if copy else x
        if is_symbolic(x):
            return as_sym(x, dtype=dtype)
        if hasattr(x, "_util_columns"):   # awkward array: numpy would call __array__
            raise Unsupported("numpy.array(awkward array)")
        r = np.array(x, dtype=dtype, copy=copy, **kw)
        if r.dtype.kind in "biuf":
            return from_concrete(r)
        return r

    def asarray(self, x, dtype=None):
        return self.array(x, dtype=dtype, copy=False)

    def empty(self, *a, **k): return np_empty(*a, **k)
    def zeros(self, *a, **k): return np_zeros(*a, **k)
    def ones(self, *a, **k): return np_ones(*a, **k)
    def full(self, *a, **k): return np_full(*a, **k)
    def arange(self, *a, **k): return np_arange(*a, **k)

    def empty_like(self, a, dtype=None, **k):
        a = as_sym(a)
        return np_empty(a.shape, a.dtype if dtype is None else dtype)

    def zeros_like(self, a, dtype=None, **k):
        a = as_sym(a)
        return np_zeros(a.shape, a.dtype if dtype is None else dtype)

    def ones_like(self, a, dtype=None, **k):
        a = as_sym(a)
        return np_ones(a.shape, a.dtype if dtype is None else dtype)

    def full_like(self, a, v, dtype=None, **k):
        a = as_sym(a)
        return np_full(a.shape, v, a.dtype if dtype is None else dtype)

    def cumsum(self, *a, **k): return np_cumsum(*a, **k)
    def repeat(self, *a, **k): return np_repeat(*a, **k)
    def nonzero(self, a): return np_nonzero(a)
    def flatnonzero(self, a): return np_nonzero(a)[0]
    def where(self, *a): return np_where(*a)
    def concatenate(self, *a, **k): return np_concatenate(*a, **k)
    def append(self, a, b): return np_append(a, b)
    def diff(self, a): return np_diff(a)
    def put(self, *a, **k): return np_put(*a, **k)
    def array_equal(self, a, b): return np_array_equal(a, b)
    def resize(self, a, s): return np_resize(a, s)
    def tile(self, a, s): return np_tile(a, s)
    def searchsorted(self, *a, **k): return np_searchsorted(*a, **k)
    def any(self, a, **k): return np_any(a)
    def all(self, a, **k): return np_all(a)
    def max(self, a): return np_max(as_sym(a), True)
    def min(self, a): return np_max(as_sym(a), False)
    amax, amin = max, min
    def sum(self, a): return as_sym(a).sum()
    def reshape(self, a, s): return as_sym(a).reshape(s)
    def vstack(self, arrays): return np_stack0(list(arrays))
    def unique(self, a, **kw):
        if kw:
            raise Unsupported("numpy.unique with options")
        return np_unique(a)

    def stack(self, arrays, axis=0):
        arrays = list(arrays)
        if axis == 0:
            return np_stack0(arrays)
        arrays = [as_sym(x) for x in arrays]
        if axis != -1 or any(x.ndim != 1 or x.sort != arrays[0].sort or x.dtype != arrays[0].dtype for x in arrays):
            raise Unsupported("numpy.stack outside its contract")
        for x in arrays[1:]:
            if not same_dim(x.dims[0], arrays[0].dims[0]):
                raise ValueError("all input arrays must have the same shape")
        fs = [x.snapshot() for x in arrays]

        def fn(i, k):
            e = fs[-1](i)
            for j in range(len(fs) - 2, -1, -1):
                e = z3.If(k == j, fs[j](i), e)
            return e
        return SymArray([arrays[0].dims[0], IV(len(fs))], fn, arrays[0].dtype, arrays[0].sort)

    def take(self, a, i): return take(as_sym(a), as_sym(i))
    def copy(self, a): return as_sym(a).copy()
    def ravel(self, a): return as_sym(a).reshape(-1)
    def logical_not(self, a): return array_ufunc(np.logical_not, "__call__", (a,), {})
    def compress(self, m, a): return as_sym(a)[m]
    def delete(self, *a): raise Unsupported("numpy.delete")
    def ascontiguousarray(self, a): return as_sym(a)

    class _CNZ(object):
        def __call__(self, a, axis=None):
            return count_nonzero(a, axis)
    count_nonzero = _CNZ()


# ------------------------------------------------------------------ builtins seen by the code under verification

def vp_len(x):
    if isinstance(x, SymArray):
        return x.__vplen__()
    if isinstance(x, (str, bytes, list, tuple, dict, set, frozenset, range, np.ndarray)):
        return len(x)
    m = getattr(type(x), "__len__", None)
    if m is None:
        raise TypeError("object of type '%s' has no len()" % type(x).__name__)
    return m(x)


def vp_range(*args):
    args = [a if not isinstance(a, SymInt) else a.__index__() for a in args]
    return range(*args)


def vp_min(*args, **kw):
    if len(args) == 1 and not kw and isinstance(args[0], (list, tuple)) and len(args[0]) == 1:
        return args[0][0]
    if len(args) == 2 and any(isinstance(a, SymInt) for a in args):
        return W(zmin(I(args[0]), I(args[1])))
    if len(args) == 1 and isinstance(args[0], SymArray):
        return args[0].min()
    if len(args) == 1 and is_symbolic(list(args[0]) if not isinstance(args[0], list) else args[0]):
        return vp_min(*list(args[0]))
    if len(args) > 2 and any(isinstance(a, SymInt) for a in args):
        return vp_min(args[0], vp_min(*args[1:]))
    return min(*args, **kw)


def vp_max(*args, **kw):
    if len(args) == 1 and not kw and isinstance(args[0], (list, tuple)) and len(args[0]) == 1:
        return args[0][0]
    if len(args) == 2 and any(isinstance(a, SymInt) for a in args):
        return W(zmax(I(args[0]), I(args[1])))
    if len(args) == 1 and isinstance(args[0], SymArray):
        return args[0].max()
    if len(args) == 1 and isinstance(args[0], (list, tuple)) and is_symbolic(list(args[0])):
        return vp_max(*list(args[0]))
    if len(args) > 2 and any(isinstance(a, SymInt) for a in args):
        return vp_max(args[0], vp_max(*args[1:]))
    return max(*args, **kw)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return W(x.e)
        if isinstance(x, SymBool):
            return W(z3.If(x.e, IV(1), IV(0)))
        if isinstance(x, SymVal):
            return W(coerce(x.e, Int))
        return int(x, *a)


def vp_slice_indices(s, n):
    if isinstance(s, slice):
        if is_symbolic([s.start, s.stop, s.step, n]):
            return slice_indices(s, I(n))
        return s.indices(n)
    return s.indices(n)


def vp_sum(xs, start=0):
    if isinstance(xs, SymArray):
        return xs.sum()
    out = start
    for x in xs:
        out = out + x
    return out


def vp_abs(x):
    return abs(x)
