"""cross-check of the assumed contracts of NumPy operations (engine/sym.py) against the installed NumPy.

Every trial fixes concrete inputs as *facts* about symbolic arrays of symbolic length, runs one operation of the symbolic
NumPy, and asks the solver whether the contract implies exactly the value NumPy computes.  A contract that implies a
different value (or shape, or exception) is a mismatch; one that implies nothing is only reported as incomplete."""
import os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from engine import core
from engine.core import z3
from engine import sym, load
from engine.sym import SymArray, SymInt, SymBool, IV, I, INT64, BOOL, Int, Bool, Unsupported, as_sym, simp, coerce

FN = None


def ops(r):
    """(name, function of (numpy-like, arrays), list of (kind, length, low, high))"""
    n, m = r.randint(0, 4), r.randint(0, 4)
    a, b = (None if r.random() < .3 else r.randint(-6, 6) for _ in range(2))
    c = r.choice([None, 1, -1, 2, -2])
    i = r.randint(-5, 5)
    A, P, M = ("i", n, -3, 4), ("i", n, 0, 3), ("b", n, 0, 1)
    return [
        ("slice", lambda np_, x: x[a:b:c], [A]), ("item", lambda np_, x: x[i], [A]), ("mask", lambda np_, x, k: x[k], [A, M]),
        ("mask of another length", lambda np_, x, k: x[k], [A, ("b", m, 0, 1)]),
        ("take", lambda np_, x, j: x[j], [A, ("i", m, -n - 1 if n and r.random() < .2 else -n, max(0, n - 1))]),
        ("cumsum", lambda np_, x: np_.cumsum(x), [A]), ("repeat", lambda np_, x, k: np_.repeat(x, k), [A, P]),
        ("concatenate", lambda np_, x, y: np_.concatenate([x, y]), [A, ("i", m, -2, 2)]), ("append", lambda np_, x: np_.append(x, 7), [A]),
        ("nonzero", lambda np_, k: np_.nonzero(k)[0], [M]), ("nonzero of integers", lambda np_, x: np_.nonzero(x)[0], [A]),
        ("where", lambda np_, k, x, y: np_.where(k, x, y), [M, A, ("i", n, 10, 12)]), ("diff", lambda np_, x: np_.diff(x), [A]),
        ("array_equal", lambda np_, x, y: np_.array_equal(x, y), [("i", n, 0, 1), ("i", r.choice([n, m]), 0, 1)]),
        ("max", lambda np_, x: x.max(), [A]), ("min", lambda np_, x: x.min(), [A]), ("all", lambda np_, k: k.all(), [M]), ("any", lambda np_, k: k.any(), [M]),
        ("resize", lambda np_, x: np_.resize(x, m), [A]), ("tile", lambda np_, x: np_.tile(x, m), [A]),
        ("searchsorted", lambda np_, x, y: np_.searchsorted(np_.cumsum(x), y, side="right"), [P, ("i", m, -1, 7)]),
        ("searchsorted left", lambda np_, x, y: np_.searchsorted(np_.cumsum(x), y, side="left"), [P, ("i", m, -1, 7)]),
        ("r_", lambda np_, x: np_.r_[np.int64(0), x], [A]), ("full", lambda np_, x: np_.full(len_(x), -1), [A]), ("zeros", lambda np_, x: np_.zeros(len_(x), dtype=np.int64), [A]),
        ("arange", lambda np_, x: np_.arange(len_(x)), [A]), ("arange step", lambda np_, x: np_.arange(i, len_(x)), [A]),
        ("add", lambda np_, x, y: x + y, [A, ("i", r.choice([n, n, 1, m]), -2, 2)]), ("subtract", lambda np_, x: 3 - x, [A]), ("multiply", lambda np_, x, k: x * k, [A, M]),
        ("floor_divide", lambda np_, x: x // 2, [A]), ("remainder", lambda np_, x: np.remainder(x, 3) if np_ is np else x % 3, [A]), ("remainder negative", lambda np_, x: x % -2, [A]),
        ("shift", lambda np_, x: x >> 1, [A]), ("compare", lambda np_, x, y: x < y, [A, ("i", n, -2, 2)]), ("minimum", lambda np_, x: np.minimum(x, 1), [A]), ("maximum", lambda np_, x: np.maximum(0, x), [A]),
        ("bitwise_and", lambda np_, k, l: k & l, [M, ("b", n, 0, 1)]), ("invert", lambda np_, k: ~k, [M]), ("xor", lambda np_, k, l: k ^ l, [M, ("b", n, 0, 1)]),
        ("sum of a mask", lambda np_, k: np_.count_nonzero(k), [M]), ("reshape", lambda np_, x: x.reshape(-1), [A]),
        ("row column compare", lambda np_, x, y: x.reshape((len_(x), 1)) < y, [A, ("i", m, -2, 2)]),
        ("count_nonzero by row", lambda np_, x, y: np_.count_nonzero(x.reshape((len_(x), 1)) < y, axis=1), [A, ("i", m, -2, 2)]),
        ("select in two dimensions", lambda np_, x, y: (x.reshape((len_(x), 1)) + y)[x.reshape((len_(x), 1)) < y], [A, ("i", m, -2, 2)]),
        ("assign slice", lambda np_, x: _set(x, slice(a, b), 9), [A]), ("assign mask", lambda np_, x, k: _set(x, k, 5), [A, M]),
        ("assign mask from array", lambda np_, x, k: _set(x, k, x[k] + 20), [A, M]), ("scatter", lambda np_, x, j: _set(x, j, 9), [A, ("i", m, 0, max(0, n - 1))]),
        ("scatter values", lambda np_, x, j: _set(x, j, np_.arange(len_(j))), [A, ("i", m, 0, max(0, n - 1))]), ("put", lambda np_, x, j: _put(np_, x, j), [A, ("i", m, 0, max(0, n - 1))]),
        ("assign all", lambda np_, x, y: _set(x, slice(None), y), [A, ("i", r.choice([n, n, 1, m]), 0, 3)]), ("sum", lambda np_, x: x.sum(), [A]),
        ("astype bool", lambda np_, x: x.astype(bool), [A]), ("column", lambda np_, x: x[:, None], [A]), ("view", lambda np_, x: _view(x), [A]),
        ("bool times int", lambda np_, k, x: k * x, [M, A]), ("power of two", lambda np_, x: x % 8, [A]), ("stack", lambda np_, x, y: np_.vstack([x, y]), [A, ("i", n, 0, 2)]),
    ]


def len_(x):
    return sym.vp_len(x) if isinstance(x, SymArray) else len(x)


def _set(x, w, y):
    x = x.copy()
    x[w] = y
    return x


def _put(np_, x, j):
    x = x.copy()
    np_.put(x, j, np_.arange(len_(j)) + 50)
    return x


def _view(x):
    x = x.copy()
    y = x[1:]
    y[:] = 8
    return x


def trial(name, fn, specs, r, out):
    conc = [np.array([r.randint(lo, hi) for _ in range(n)], dtype=np.int64) if k == "i" else np.array([r.random() < .5 for _ in range(n)], dtype=bool) for k, n, lo, hi in specs]
    try:
        want = fn(np, *[x.copy() for x in conc])
    except Exception as err:
        want = err
    case = "%s%r" % (name, [x.tolist() for x in conc])

    def body(ctx):
        args = []
        for x in conc:
            n = ctx.int("n")
            ctx.fact(n == len(x))
            f = ctx.fun("f", Int, Bool if x.dtype == bool else Int)
            for q, y in enumerate(x.tolist()):
                ctx.fact(f(IV(q)) == y)
            args.append(SymArray([n], lambda q, f=f: f(q), INT64 if x.dtype != bool else BOOL, Int if x.dtype != bool else Bool))
        try:
            got = fn(sym.FakeNumpy(), *args)
        except (Unsupported, core.PathAbort):
            raise
        except Exception as err:
            if ctx.check([], 3, 4000) == "unsat":
                return
            if not (isinstance(want, Exception) and (isinstance(err, type(want)) or isinstance(want, type(err)))):
                out["mismatch"].append("%s raises %r, NumPy gives %r" % (case, err, want))
            return
        if ctx.check([], 3, 4000) == "unsat":
            return
        if isinstance(want, Exception):
            out["mismatch"].append("%s returns, NumPy raises %r" % (case, want))
            return
        if isinstance(got, np.ndarray):
            got = as_sym(got)
        w = np.asarray(want)
        goals = []
        if isinstance(got, SymArray):
            if got.ndim != w.ndim:
                out["mismatch"].append("%s has %d dimensions, NumPy %d" % (case, got.ndim, w.ndim))
                return
            goals += [d == q for d, q in zip(got.dims, w.shape)]
            sn = got.snapshot()
            goals += [sn(*[IV(q) for q in idx]) == coerce(sym.scal(w[idx].item())[0], got.sort) for idx in np.ndindex(*w.shape)]
        elif isinstance(got, (SymInt, SymBool)):
            goals.append(got.e == sym.scal(w.item())[0])
        else:
            if got != want:
                out["mismatch"].append("%s is %r, NumPy %r" % (case, got, want))
            out["trials"] += 1
            return
        for d in (got.dims if isinstance(got, SymArray) else ()):
            ctx.note_index(d)
        for q in range(6):
            ctx.note_index(IV(q))
        g = z3.And(*goals) if goals else z3.BoolVal(True)
        if ctx.entails(g, 4, 3000):
            out["implied"] += 1
        elif any(ctx.entails(z3.Not(x), 4, 3000) for x in goals):
            out["mismatch"].append("%s: contract implies something else than %r" % (case, w.tolist()))
        else:
            out["incomplete"] += 1
            out["incomplete_ops"].add(name)
        out["trials"] += 1
    rep = core.explore(name, body, max_paths=60, budget=15)
    if rep.unsupported:
        out["unsupported"].add("%s: %s" % (name, rep.unsupported[:80]))


def run(seed=1, n=150, budget=25):
    t0 = time.time()
    load.load()
    r = random.Random(seed)
    out = dict(trials=0, implied=0, incomplete=0, mismatch=[], incomplete_ops=set(), unsupported=set())
    k = 0
    names = set()
    while k < n and time.time() - t0 < budget * max(1, n / 150):
        for name, fn, specs in ops(r):
            names.add(name)
            trial(name, fn, specs, r, out)
            k += 1
            if time.time() - t0 > budget * max(1, n / 150):
                break
    out["operations"] = len(names)
    out["incomplete_ops"] = sorted(out["incomplete_ops"])
    out["unsupported"] = sorted(out["unsupported"])
    out["wall_s"] = round(time.time() - t0, 1)
    return out


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    for k, v in run(int(sys.argv[1]), int(sys.argv[2])).items():
        print(k, v if not isinstance(v, list) else "\n   ".join([""] + v))
