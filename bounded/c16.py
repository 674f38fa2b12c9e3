from .reg import bounded
from .model import *
import operator, random

T = "awkward0/array/table.py:"
BIN = {"add": operator.add, "mul": operator.mul, "sub": operator.sub, "maximum": np.maximum, "truediv": operator.truediv}
UN = {"neg": operator.neg, "abs": abs, "square": np.square, "modf": np.modf}


def column(rng, n, kind=None):
    kind = kind or rng.choice(["flat", "flat", "jag", "str", "mask", "chunk", "idx", "table"])
    if kind == "flat":
        return flat(rng, n)
    if kind == "jag":
        return jag_layout(rng, rand_counts(rng, n, 3), distinct)
    if kind == "table":
        return {"k": "table", "cols": {"p": distinct(n), "q": flat(rng, n)}, "view": None}
    if kind == "idx" and n == 0:
        return flat(rng, 0)
    return rand_spec(rng, n, 1, [kind])


def table(rng, n, kind=None, view=False):
    cols = {m: column(rng, n + rng.choice([0, 0, 0, 1, 2]), kind) for m in ("x", "y", "z")[:rng.randint(1, 3)]}
    first = sorted(cols)[0]
    cols[first] = column(rng, n, kind)
    s = {"k": "table", "cols": cols, "view": None}
    if view:
        m = n
        k = rng.randint(0, 4) if m else 0
        how = rng.choice(["slice", "index"])
        if how == "index":
            s["view"] = {"index": [rng.randrange(m) for _ in range(k)] if m else []}
        else:
            st = slice(*rand_selector(rng, m, ("slice",))["s"]).indices(m)
            s["view"] = [st[0], st[2], len(range(*st))]
    return s


def chain(rng, n, k):
    """k row selections; lengths depend on the data, so the selectors are drawn while checking"""
    return [rng.random() for _ in range(k)]


@bounded("C16", [T + "Table." + f for f in ("__getitem__", "_newslice", "_index", "_length", "__iter__", "__len__", "fromview", "copy")] + [T + "Table.Row.__getitem__", T + "Table.Row.tolist"], "every selector pair on tables of length <=3 (sampled); chains of up to 4 row/column selections on random tables of length 0..8 with columns of 8 kinds, longer columns included")
class Chain(object):
    @staticmethod
    def gen(rng, tier):
        for n in range(0, 4):
            a = {"k": "table", "cols": {"x": {"k": "np", "dt": "i8", "data": list(range(n))}, "y": {"k": "np", "dt": "f8", "data": [10.5 + i for i in range(n + 1)]}}, "view": None}
            sels = [s for s in all_selectors(n)]
            for _ in range(700 if tier == "quick" else 6000):
                s1 = rng.choice([s for s in sels if s["t"] != "int"])
                yield dict(a=a, steps=[s1], r=rng.random(), k=2)
        for _ in range(3500 if tier == "quick" else 25000):
            n = rng.randint(0, 8)
            yield dict(a=table(rng, n, view=rng.random() < 0.3), steps=[], r=rng.random(), k=rng.randint(1, 4))

    @staticmethod
    def check(c):
        rng = random.Random(c["r"])
        a, v = build(c["a"]), value(c["a"])
        fp = fingerprint(a)
        todo = list(c["steps"])
        cols = sorted(c["a"]["cols"])
        hist = []
        for _ in range(c["k"] + len(todo)):
            if isinstance(v, dict):
                break
            n = len(v)
            if todo:
                s = todo.pop(0)
            else:
                u = rng.random()
                if u < 0.15 and len(cols) > 1:
                    s = rng.sample(cols, rng.randint(1, len(cols)))
                else:
                    s = rand_selector(rng, n, bad=0.15)
            hist.append(s)
            what = "after %s" % json_short(hist)
            if isinstance(s, list):
                cols = s
                a = run(lambda: a[s], what)
                v = [{k: r[k] for k in s} for r in v]
                expect_list(list(a.columns) if False else sorted(a._contents), sorted(s), what)
            else:
                try:
                    w = pysel(v, s)
                except IndexError:
                    return raises(IndexError, lambda: a[realsel(s)], what)
                sel = realsel(s)
                fs = fingerprint(sel) if isinstance(sel, np.ndarray) else []
                a = run(lambda: a[sel], what)
                check_fingerprint(fs, what)
                v = w
            if isinstance(v, dict):
                for m in cols:
                    expect(run(lambda: a[m], what), v[m], what + " column %s of row" % m)
                if not eq(denote1(a.tolist()), v):
                    raise Fail("%s: row.tolist() = %r, expected %r" % (what, a.tolist(), v))
                sub = run(lambda: a[cols[:1]], what)
                expect(sub[cols[0]], v[cols[0]], what + " columns of row")
            else:
                expect(len(a), len(v), what + " len")
                expect(a, v, what)
                expect_list([denote1(r.tolist()) for r in a], v, what + " iteration")
                for m in cols:
                    # the unviewed column is stored as given; only its first len(table) rows belong to the table
                    got = run(lambda: a[m], what)
                    if a._view is None:
                        got = got[:len(a)]
                    expect(got, [r[m] for r in v], what + " column %s" % m)
                if len(v):
                    i = rng.randrange(-len(v), len(v))
                    for m in cols:
                        expect(run(lambda: a[i][m], what), v[i][m], what + " element")
        check_fingerprint(fp, "selection")


@bounded("C16", [T + "Table." + f for f in ("__setitem__", "__delitem__", "contents", "frompairs", "fromrec", "named", "__init__", "deepcopy")], "columns set, replaced and deleted on tables of length 0..5, on views (refused), from scalars, records, pairs")
class Columns(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1200 if tier == "quick" else 6000):
            n = rng.randint(0, 5)
            yield dict(a=table(rng, n), view=rng.random() < 0.2, c=column(rng, n + rng.choice([0, 0, 1])), name=rng.choice(["x", "w"]), op=rng.choice(["set", "scalar", "multi", "del", "rec", "pairs", "deepcopy", "positional"]), n=n)

    @staticmethod
    def check(c):
        a, v, op, n = build(c["a"]), value(c["a"]), c["op"], c["n"]
        col, vc = build(c["c"]), value(c["c"])
        m = c["name"]
        if c["view"]:
            return raises(ValueError, lambda: a[::1].__setitem__(m, col), "setting a column on a view")
        alone = list(c["a"]["cols"]) == [m]
        if op == "set":
            run(lambda: a.__setitem__(m, col), op)
            expect(a[m], vc, "column read back")
            if not alone:
                # the others may be longer than the rows of v
                k = len(a)
                expect(a[:n][[m]] if False else [r for r in denote(a)][:n], [dict(r, **{m: x}) for r, x in zip(v, vc)][:n], "rows after setting a column")
        elif op == "scalar":
            k = len(a)
            run(lambda: a.__setitem__("w", 3), op)
            expect(a["w"], [3] * k, "scalar column")
        elif op == "multi":
            run(lambda: a.__setitem__(["w", "u"], Table(col, col)), op)
            expect(a["w"], vc, "first of two columns")
            expect(a["u"], vc, "second of two columns")
        elif op == "del":
            names = sorted(c["a"]["cols"])
            if len(names) > 1:
                run(lambda: a.__delitem__(names[-1]), op)
                expect_list(sorted(a._contents), names[:-1], "columns after deletion")
                expect([r for r in denote(a)][:n], [{k: r[k] for k in names[:-1]} for r in v], "rows after deletion")
                raises(ValueError, lambda: a[names[-1]], "deleted column")
        elif op == "rec":
            rec = np.zeros(n, dtype=[("p", "i8"), ("q", "f8")])
            rec["p"] = np.arange(n)
            t = Table.fromrec(rec)
            expect(t, [{"p": i, "q": 0.0} for i in range(n)], "fromrec")
        elif op == "pairs":
            t = Table.frompairs([(k, build(x)) for k, x in c["a"]["cols"].items()])
            expect(t, v, "frompairs")
        elif op == "positional":
            t = Table(*[build(x) for x in c["a"]["cols"].values()])
            expect(t, [{str(i): r[k] for i, k in enumerate(c["a"]["cols"])} for r in v], "Table(...)")
            expect_list([denote1(x) for x in t.tolist()], [list(r[k] for k in c["a"]["cols"]) for r in v], "tuple rows")
        elif op == "deepcopy":
            b = a.deepcopy()
            expect(b, v, "deepcopy")


@bounded("C16", [T + "Table." + f for f in ("__array_ufunc__", "_reduce", "_prepare", "astype", "fillna", "pad", "regular", "_concatenate_axis0", "zeros_like", "ones_like", "empty_like", "_hasjagged", "flattentuple")] + [T + "Table.Row.__array_ufunc__"], "operations on random numeric tables (views included) of length 0..6, with scalars, flat arrays, tables and rows; reducers; jagged columns")
class Ops(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(4000 if tier == "quick" else 25000):
            n = rng.randint(0, 6)
            op = rng.choice(sorted(BIN) + sorted(UN) + ["sum", "max", "any", "count", "astype", "fillna", "regular", "concat", "zeros_like", "ones_like", "jsum", "pad", "row", "eq"])
            kind = "jag" if op in ("jsum", "pad") else "flat"
            a = table(rng, n, kind, view=rng.random() < 0.6)
            m = len(value(a))
            b = None
            how = rng.choice(["scalar", "flat", "table"])
            if op in BIN or op == "eq":
                b = flat(rng, 1) if how == "scalar" else flat(rng, m) if how == "flat" else {"k": "table", "cols": {k: flat(rng, m + rng.randint(0, 1)) for k in reversed(sorted(a["cols"]))}, "view": [m, -1, m] if m and False else None}
                if how == "table":
                    for k in b["cols"]:
                        b["cols"][k]["data"] = b["cols"][k]["data"]
                    b["cols"][sorted(a["cols"])[0]] = flat(rng, m)
            elif op == "concat":
                b = table(rng, rng.randint(0, 3), kind)
                b["cols"] = {k: flat(rng, 2 + rng.randint(0, 1)) for k in a["cols"]}
            yield dict(a=a, b=b, how=how, op=op, i=rng.random(), j=rng.random())

    @staticmethod
    def check(c):
        a, v, op = build(c["a"]), value(c["a"]), c["op"]
        cols = sorted(c["a"]["cols"])
        fp = fingerprint(a)
        typed = lambda s, k, x: np.dtype(s["cols"][k]["dt"]).type(x)
        if op in BIN or op == "eq":
            f = BIN.get(op, operator.eq)
            b = build(c["b"])
            vb = value(c["b"])
            if c["how"] == "scalar":
                b = vb[0]
                vb = [{k: b for k in cols} for _ in v]
            elif c["how"] == "flat":
                vb = [{k: x for k in cols} for x in b]
            else:
                vb = [{k: typed(c["b"], k, x) for k, x in r.items()} for r in vb]
            with np.errstate(all="ignore"):
                want = [{k: scalar(f(typed(c["a"], k, x), y[k])) for k, x in r.items()} for r, y in zip(v, vb)]
            if op == "eq":
                if c["how"] == "table":
                    expect(run(lambda: f(a, b), op), [all(r.values()) for r in want], op)
                return
            expect(run(lambda: f(a, b), op), want, "%s %s" % (op, c["how"]), tol=True)
        elif op in UN:
            want = [{k: UN[op](typed(c["a"], k, x)) for k, x in r.items()} for r in v]
            got = run(lambda: UN[op](a), op)
            if op == "modf":
                for i in (0, 1):
                    expect(got[i], [{k: scalar(x[i]) for k, x in r.items()} for r in want], op, tol=True)
            else:
                expect(got, [{k: scalar(x) for k, x in r.items()} for r in want], op, tol=True)
        elif op in ("sum", "max", "any", "count"):
            if op == "max" and not v:
                return
            r = run(getattr(a, op), op)
            for k in cols:
                x = [q[k] for q in v]
                expect(r[k], {"sum": sum, "max": lambda z: max(z), "any": any, "count": len}[op](x), op, tol=True)
        elif op == "astype":
            expect(run(lambda: a.astype(np.dtype("i4")), op), [{k: int(x) for k, x in r.items()} for r in v], op)
        elif op == "fillna":
            expect(run(lambda: a.fillna(1), op), v, op)
        elif op == "regular":
            r = run(a.regular, op)
            expect_list([{k: scalar(x[k]) for k in cols} for x in r], v, op)
        elif op == "concat":
            b, vb = build(c["b"]), value(c["b"])
            expect(run(lambda: a.concatenate([b]), op), v + vb, op)
        elif op in ("zeros_like", "ones_like"):
            z = 0 if op == "zeros_like" else 1
            expect(run(getattr(a, op), op), [{k: z for k in r} for r in v], op)
        elif op == "jsum":
            expect(run(a.sum, op), [{k: sum(x) for k, x in r.items()} for r in v], op)
        elif op == "pad":
            expect(run(lambda: a.pad(2), op), [{k: x + [None] * (2 - len(x)) for k, x in r.items()} for r in v], op)
        elif op == "row":
            if not v:
                return
            i, j = int(c["i"] * len(v)), int(c["j"] * len(v))
            r = run(lambda: a[i] + a[j], "row + row")
            for k in cols:
                expect(r[k], v[i][k] + v[j][k], "row + row", tol=True)
            r = run(lambda: a[i] * 2, "row * 2")
            for k in cols:
                expect(r[k], v[i][k] * 2, "row * 2", tol=True)
            if (a[i] == a[j]) != (v[i] == v[j]):
                raise Fail("row equality")
        check_fingerprint(fp, op)
