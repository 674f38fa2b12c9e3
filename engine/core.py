"""Verification-condition kernel.

A `Ctx` is one symbolic execution path of one contract: a list of ground facts, a list of
universally quantified facts (`Schema`, instantiated here by hand, never by the solver) and the
branch decisions taken so far.  Every query sent to a solver is therefore quantifier free
(UF + linear/nonlinear integer and real arithmetic): `unsat` of facts+instances+(not goal)
is a proof of the goal, whatever instances were chosen.
"""
import os, sys, time, itertools

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3

Val = z3.DeclareSort("Val")


class Unsupported(Exception):
    """the code left the subset this verifier models (never reported as a violation)"""


class PathAbort(BaseException):
    """the current path is infeasible"""


class Limit(Unsupported):
    pass


CUR = None  # current Ctx


def cur():
    if CUR is None:
        raise Unsupported("no active verification context")
    return CUR


def simp(e):
    return z3.simplify(e)


def is_const_int(e):
    return z3.is_int_value(e)


VARIANT = 0    # >0: a second attempt (other random choices, every lemma query saturated)
SEED = int(os.environ.get("VP_Z3SEED", "0"))
LAZY1 = os.environ.get("LAZY1", "1") == "1"


class Schema(object):
    __slots__ = ("arity", "build", "triggers", "maxgen", "name", "apps", "body", "phs", "memo", "frm")

    def instance(self, args, key):
        r = self.memo.get(key)
        if r is None:
            f = self._instance(*args)
            r = self.memo[key] = (f, args, z3.is_true(f))   # args kept alive: AST identifiers must not be reused
        return r[0], r[2]

    def _instance(self, *args):
        if self.body is None:
            self.phs = [z3.Const("$inst%d" % k, a.sort()) for k, a in enumerate(args)]
            self.body = simp(self.build(*self.phs))
            self.frm = (z3.Ast * len(args))(*[x.as_ast() for x in self.phs])
        c = self.body.ctx
        n = len(args)
        to = (z3.Ast * n)(*[a.as_ast() for a in args])
        r = z3.Z3_simplify(c.ref(), z3.BoolRef(z3.Z3_substitute(c.ref(), self.body.as_ast(), n, self.frm, to), c).as_ast())
        return z3.BoolRef(r, c)

    def __init__(self, arity, build, triggers, maxgen, name, apps=None):
        self.arity, self.build, self.triggers, self.maxgen, self.name = arity, build, triggers, maxgen, name
        self.body = None
        self.memo = {}
        self.apps = apps   # if set: list of function names; instantiated on tuples of their applications


_PH = [z3.Int("$ph0"), z3.Int("$ph1"), z3.Int("$ph2")]


def _linear_in(arg, ph):
    """if arg == c*ph + rest with c = +-1 and rest free of placeholders: (c, rest)"""
    if arg.eq(ph):
        return 1, None
    s = simp(z3.substitute(arg, (ph, ph + 1)) - arg)
    if is_const_int(s) and abs(s.as_long()) == 1:
        c = s.as_long()
        rest = simp(z3.substitute(arg, (ph, z3.IntVal(0))))
        for q in _PH:
            if occurs(rest, q):
                return None
        return c, rest
    return None


def occurs(e, v):
    seen = set()
    st = [e]
    vid = v.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i == vid:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def auto_triggers(body, arity):
    """for each bound variable, list of (declname, argpos, coef, rest)"""
    out = [dict() for _ in range(arity)]
    seen = set()
    st = [body]
    phs = _PH[:arity]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                nm = x.decl().name()
                for pos in range(x.num_args()):
                    a = x.arg(pos)
                    if a.sort() != z3.IntSort():
                        continue
                    for k, ph in enumerate(phs):
                        if occurs(a, ph):
                            lin = _linear_in(a, ph)
                            if lin is not None:
                                out[k][(nm, pos, lin[0], str(lin[1]))] = (nm, pos, lin[0], lin[1])
            st.extend(x.children())
    return [list(d.values()) for d in out]


_SUB = {}
_SHIFT = {}


def subterms(f):
    """(id, term, function name or None, arguments, integer arguments) of every subterm, computed once per term"""
    fid = f.get_id()
    r = _SUB.get(fid)
    if r is not None:
        return r[1]
    out, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        known = _SUB.get(i)
        if known is not None:
            for t in known[1]:
                if t[0] == i or t[0] not in seen:
                    seen.add(t[0])
                    out.append(t)
            continue
        n = x.num_args()
        if n == 0:
            out.append((i, x, None, (), ()))
            continue
        ch = x.children()
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            out.append((i, x, d.name(), tuple(ch), tuple((p, c, c.get_id()) for p, c in enumerate(ch) if c.sort_kind() == z3.Z3_INT_SORT)))
        else:
            out.append((i, x, None, (), ()))
        st.extend(ch)
    _SUB[fid] = (f, out)
    return out


class Block(object):
    """pending instances evaluated together in a candidate model"""
    __slots__ = ("entries", "ast")

    def __init__(self, entries):
        self.entries = entries
        if len(entries) > 1:
            arr = (z3.Ast * len(entries))(*[e[1].ast for e in entries])
            c = entries[0][1].ctx
            self.ast = z3.BoolRef(z3.Z3_mk_and(c.ref(), len(entries), arr), c)
        else:
            self.ast = entries[0][1]


class Inst(object):
    """ground instantiation engine with undo"""

    def __init__(self):
        self.terms = {}      # (decl, pos) -> list of (term, gen)
        self.termids = set()  # (decl,pos,termid)
        self.apps = {}       # decl -> list of (args, gen)
        self.visited = set()
        self.instkeys = set()
        self.keep = []       # keep z3 asts alive
        self.formulas = []   # instances
        self.pending = []    # (key, formula, gen): instances of several-variable schemas, added when a model violates them
        self.hot = set()     # keys that were needed before: instantiated eagerly
        self.journal = None

    def mark(self):
        j = self.journal
        self.journal = []
        return j, len(self.keep), len(self.formulas), list(self.pending)

    def undo(self, mk):
        j, k, f, self.pending = mk
        for kind, x in reversed(self.journal):
            if kind == 0:
                self.visited.discard(x)
            elif kind == 1:
                self.termids.discard(x)
                self.terms[x[:2]].pop()
            elif kind == 3:
                self.apps[x].pop()
            else:
                self.instkeys.discard(x)
        self.journal = j
        del self.keep[k:]
        del self.formulas[f:]

    def scan(self, f, gen):
        if f.get_id() in self.visited:
            return
        visited, journal = self.visited, self.journal
        for (i, x, nm, args, ints) in subterms(f):
            if i in visited:
                continue
            visited.add(i)
            self.keep.append(x)
            if journal is not None:
                journal.append((0, i))
            if nm is None:
                continue
            if len(args) > 1:
                self.apps.setdefault(nm, []).append((args, gen))
                if journal is not None:
                    journal.append((3, nm))
            for pos, a, aid in ints:
                key = (nm, pos, aid)
                if key not in self.termids:
                    self.termids.add(key)
                    self.terms.setdefault((nm, pos), []).append((a, gen, aid))
                    if journal is not None:
                        journal.append((1, key))

    def run(self, schemas, rounds, cap, solver):
        lazy = []
        total = self._run(schemas, rounds, cap, solver, lazy)
        for k in range(0, len(lazy), 48):
            self.pending.append(Block(lazy[k:k + 48]))
        return total

    def _run(self, schemas, rounds, cap, solver, lazy):
        total = 0
        for r in range(rounds):
            new = []
            for si, s in enumerate(schemas):
                cands = []
                if s.apps is not None:
                    lists = [[a for a in self.apps.get(nm, ()) if a[1] <= s.maxgen] for nm in s.apps]
                    for combo in itertools.product(*lists):
                        args = sum((c[0] for c in combo), ())
                        ids = tuple([a.get_id() for a in args])
                        key = (s, ids)
                        if key in self.instkeys:
                            continue
                        self.instkeys.add(key)
                        if self.journal is not None:
                            self.journal.append((2, key))
                        f, triv = s.instance(args, ids)
                        if triv:
                            continue
                        new.append((f, max(c[1] for c in combo) + 1))
                        total += 1
                        if total > cap:
                            break
                    continue
                for k in range(s.arity):
                    cs = {}
                    for trig in s.triggers[k]:
                        nm, pos, coef, rest = trig
                        plain = rest is None and coef == 1
                        for (t, g, tid) in self.terms.get((nm, pos), ()):
                            if g > s.maxgen:
                                continue
                            if plain:
                                u, k2 = t, tid
                            else:
                                mk = (coef, None if rest is None else rest.get_id(), tid)
                                hit = _SHIFT.get(mk)
                                if hit is None:
                                    base = t if rest is None else t - rest
                                    if coef == -1:
                                        base = -base
                                    u = simp(base)
                                    hit = _SHIFT[mk] = (u, u.get_id(), t, rest)
                                u, k2 = hit[0], hit[1]
                            old = cs.get(k2)
                            if old is None or old[1] > g:
                                cs[k2] = (u, g, k2)
                    cands.append(list(cs.values()))
                for combo in itertools.product(*cands):
                    ids = tuple([c[2] for c in combo])
                    key = (s, ids)
                    if key in self.instkeys:
                        continue
                    self.instkeys.add(key)
                    if self.journal is not None:
                        self.journal.append((2, key))
                    gen = max(c[1] for c in combo) + 1
                    f, triv = s.instance([c[0] for c in combo], ids)
                    if triv:
                        continue
                    if key not in self.hot and (s.arity >= 2 or LAZY1):
                        lazy.append((key, f, gen))
                        total += 0.02
                        continue
                    new.append((f, gen))
                    total += 1
                    if total > cap:
                        break
                if total > cap:
                    break
            if not new:
                return total
            for f, gen in new:
                self.formulas.append(f)
                self.keep.append(f)
                solver.add(f)
                self.scan(f, gen)
            if total > cap:
                return total
        return total


class Decisions(object):
    def __init__(self, prefix=()):
        self.prefix = list(prefix)  # list of (value, forced)
        self.pos = 0


TIMESCALE = 1


class Ctx(object):
    FEAS_TIMEOUT = 4000
    PROVE_TIMEOUT = 15000

    def __init__(self, prefix, report):
        self.facts = []
        self.schemas = []
        self.prefix = prefix
        self.taken = []   # (value, forced)
        self.counter = {}
        self.inst = Inst()
        self.solver = z3.Solver()
        self.solver.set("arith.solver", 2)
        self.solver.set("auto_config", False)
        self.solver.set("timeout", self.FEAS_TIMEOUT)
        if VARIANT or SEED:
            self.solver.set("random_seed", 7 * VARIANT + SEED)
        self.report = report
        self.cache = {}
        self.trace = []
        self.nfacts = 0
        self.labels = []
        self.lemmas = []
        self.prefixfuns = []
        self.hooks = {}    # ghost code of the contract, run when the code under contract builds such a function
        self.deadline = None
        self.noexplore = 0
        self.base_stamp = None

    # ---- naming
    def name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)

    def int(self, base):
        return z3.Int(self.name(base))

    def bool(self, base):
        return z3.Bool(self.name(base))

    def val(self, base):
        return z3.Const(self.name(base), Val)

    def fun(self, base, *sorts):
        return z3.Function(self.name(base), *sorts)

    # ---- facts
    def fact(self, f):
        f = simp(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.fact(c)
            return
        self.facts.append(f)
        self.solver.add(f)
        self.inst.scan(f, 0)

    def forall(self, build, arity=1, triggers=None, maxgen=6, name=""):
        """assume  forall ints: build(*ints)"""
        if triggers is None:
            body = simp(build(*_PH[:arity]))
            if z3.is_true(body):
                return
            triggers = auto_triggers(body, arity)
        if any(len(t) == 0 for t in triggers):
            # nothing to trigger on: use every skolem/index constant
            triggers = [t if len(t) else [("$idx", 0, 1, None)] for t in triggers]
        s = Schema(arity, build, triggers, maxgen, name)
        self.schemas.append(s)

    def forall_apps(self, names, build, maxgen=6, name=""):
        """assume build(args of an application of names[0] + args of one of names[1] ...) for all applications"""
        self.schemas.append(Schema(0, build, None, maxgen, name, apps=list(names)))

    def note_index(self, t):
        """register t as a ground index term for trigger-less schemas"""
        key = ("$idx", 0, t.get_id())
        if key not in self.inst.termids:
            self.inst.termids.add(key)
            self.inst.terms.setdefault(("$idx", 0), []).append((t, 0, t.get_id()))
            self.inst.keep.append(t)
            if self.inst.journal is not None:
                self.inst.journal.append((1, key))

    # ---- queries
    saturate = False

    def check(self, extra, rounds, timeout, cap=6000, after=None, lemma=True):
        """satisfiability of facts+instances+extra: 'unsat' | 'sat' | 'unknown'"""
        if self.deadline is not None and time.time() > self.deadline:
            raise Limit("time budget of this contract exhausted")
        stamp = (len(self.facts), len(self.schemas))
        if self.base_stamp != stamp:
            self.base_stamp = stamp
            self.inst.run(self.schemas, 2, cap, self.solver)
        mk = self.inst.mark()
        self.solver.push()
        try:
            timeout = timeout * TIMESCALE
            self.solver.set("timeout", int(timeout))
            for e in extra:
                self.solver.add(e)
                self.inst.scan(e, 0)
            self.inst.run(self.schemas, rounds, cap, self.solver)
            t0 = time.time()
            r = self.solve(rounds, timeout, cap)
            self.report.solver_s += time.time() - t0
            self.report.queries += 1
            self.lastres = r
            if lemma and r != "unsat" and r != "sat":
                self.report.gaveup.add(tuple(v for v, _ in self.taken))
            if after is not None and (r != "unsat" or self.report.crosscheck):
                after()
            return r
        finally:
            self.solver.pop()
            self.inst.undo(mk)

    def solve(self, rounds, timeout, cap):
        """check, adding the several-variable instances the candidate model violates, until none is violated"""
        t_end = time.time() + timeout / 1000.0
        inst = self.inst
        for it in range(300):
            r = self.solver.check()
            if str(r) != "sat":
                return str(r)
            if not inst.pending:
                return "sat"
            m = self.solver.model()
            rest, added = [], []
            for blk in inst.pending:
                if len(added) >= 100 or z3.is_true(m.eval(blk.ast, model_completion=True)):
                    rest.append(blk)
                    continue
                bad = [not z3.is_true(m.eval(c[1], model_completion=True)) for c in blk.entries]
                hit = [c for c, x in zip(blk.entries, bad) if x]
                if not hit:
                    rest.append(blk)
                    continue
                added += hit
                left = [c for c, x in zip(blk.entries, bad) if not x]
                if left:
                    rest.append(Block(left))
            if not added:
                if not self.saturate:
                    return "sat"
                if len(inst.formulas) > cap:
                    return "unknown"
                # instances that hold in this model may still bring terms that others need: add them all
                added, rest = [c for blk in inst.pending for c in blk.entries], []
            inst.pending = rest
            for key, f, gen in added:
                inst.hot.add(key)
                inst.formulas.append(f)
                self.solver.add(f)
                inst.scan(f, gen)
            inst.run(self.schemas, 1, cap, self.solver)
            if time.time() > t_end:
                return "unknown"
            self.solver.set("timeout", max(100, int((t_end - time.time()) * 1000)))
        return "unknown"

    def entails(self, f, rounds=2, timeout=None):
        f = simp(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        old, self.saturate = self.saturate, VARIANT > 0
        try:
            return self.check([z3.Not(f)], rounds, timeout or self.FEAS_TIMEOUT) == "unsat"
        finally:
            self.saturate = old

    def decide(self, f, label=""):
        """take a branch on f"""
        f = simp(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        for (g, v) in self.trace:
            if g.eq(f):
                return v
        if self.noexplore:
            if self.entails(f):
                return True
            if self.entails(z3.Not(f)):
                return False
            raise Unsupported("undetermined branch inside a specification")
        i = len(self.taken)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
        else:
            st = self.check([f], 2, self.FEAS_TIMEOUT)
            sf = self.check([z3.Not(f)], 2, self.FEAS_TIMEOUT)
            if st == "unsat" and sf == "unsat":
                raise PathAbort()
            if st == "unsat":
                v, forced = False, True
            elif sf == "unsat":
                v, forced = True, True
            else:
                v, forced = True, False
            if len(self.taken) > 200:
                raise Limit("too many branches on one path")
        self.taken.append((v, forced))
        self.trace.append((f, v))
        self.fact(f if v else z3.Not(f))
        return v


class Report(object):
    def __init__(self, name):
        self.name = name
        self.obligations = []   # dict(name, path, status, backend, seconds)
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.unsupported = None
        self.lemmas = 0
        self.gaveup = set()     # paths on which a query ran out of time
        self.reach = {}
        self.assumed = []
        self.calls = set()

    def ok(self):
        return self.unsupported is None and all(o["status"] == "proved" for o in self.obligations)

    def summary(self):
        return dict(contract=self.name, paths=self.paths, obligations=len(self.obligations),
                    proved=sum(o["status"] == "proved" for o in self.obligations),
                    failed=[o for o in self.obligations if o["status"] != "proved"][:8],
                    unsupported=self.unsupported, solver_s=round(self.solver_s, 3), queries=self.queries,
                    backends=sorted(set(o["backend"] for o in self.obligations)),
                    calls=sorted(self.calls), reach=self.reach)


def explore(name, body, max_paths=400, budget=240, crosscheck=False, arith=2):
    """run `body(ctx)` on every feasible path"""
    global CUR
    rep = Report(name)
    rep.crosscheck = crosscheck
    stack = [[]]
    t0 = time.time()
    while stack:
        prefix = stack.pop()
        ctx = Ctx(prefix, rep)
        ctx.solver.set("arith.solver", arith)
        ctx.deadline = t0 + budget
        CUR = ctx
        try:
            rep.paths += 1
            if rep.paths > max_paths:
                raise Limit("more than %d paths" % max_paths)
            body(ctx)
        except PathAbort:
            pass
        except Unsupported as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            locs = ["%s:%d" % (os.path.basename(fr.filename), fr.lineno) for fr in tb if "/repo/" in fr.filename or "<repo>" in fr.filename]
            rep.unsupported = "%s (at %s)" % (e, " < ".join(locs[-3:]))
            CUR = None
            return rep
        finally:
            CUR = None
        for i in range(len(prefix), len(ctx.taken)):
            v, forced = ctx.taken[i]
            if not forced:
                stack.append(ctx.taken[:i] + [(not v, True)])
    return rep


def cvc5_check(smt2, timeout_ms):
    import subprocess
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout_ms, "-"], input=smt2, capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
    except Exception as e:
        return "unknown"
    out = r.stdout.strip().splitlines()
    return out[0] if out else "unknown"


def final(ctx, cross=False):
    """second back end on the quantifier-free query now on the solver stack"""
    ctx.final = ("unknown", "z3", None)
    smt2 = "(set-logic ALL)\n" + ctx.solver.to_smt2()
    if cvc5_check(smt2, 10000) == "unsat":
        ctx.final = ("proved", "cvc5", None)
    elif ctx.lastres == "sat":
        try:
            ctx.final = ("refuted", "z3", model_excerpt(ctx.solver.model()))
        except Exception:
            ctx.final = ("refuted", "z3", None)


ONLY_KIND = None    # "frame": generate only the frame obligations of a contract (C24)


def prove(ctx, name, goal, rounds=(2, 3, 4), kind="post"):
    """discharge one obligation on the current path"""
    if ONLY_KIND is not None and kind != ONLY_KIND:
        return True     # another property's check discharges it; nothing is assumed from it
    t0 = time.time()
    goal = simp(goal)
    status, backend = None, "z3"
    info, res = None, None
    if z3.is_true(goal):
        status, backend = "proved", "z3-simplify"
    else:
        for r in rounds:
            last = r == rounds[-1]
            ctx.saturate = last
            try:
                res = ctx.check([z3.Not(goal)], r, ctx.PROVE_TIMEOUT, after=(lambda: final(ctx)) if last else None, lemma=False)
            finally:
                ctx.saturate = False
            if res == "unsat":
                status = "proved"
                break
        if status is None:
            status, backend, info = ctx.final
            path = tuple(v for v, _ in ctx.taken)
            if status == "refuted" and any(path[:len(p)] == p for p in ctx.report.gaveup):
                # a query earlier on this path (a lemma, the feasibility of a branch) ran out of time: a fact may be missing here
                status = "unknown"
    if status == "proved" and ctx.report.crosscheck and backend == "z3":
        ctx.check([z3.Not(goal)], r, ctx.PROVE_TIMEOUT, after=lambda: final(ctx, True), lemma=False)
        if ctx.final[0] == "proved" and ctx.final[1] == "cvc5":
            backend = "z3+cvc5"
    o = dict(name=name, kind=kind, path="".join("T" if v else "F" for v, _ in ctx.taken), status=status, backend=backend, seconds=round(time.time() - t0, 3))
    if status != "proved":
        o["goal"] = str(goal)[:400]
        o["model"] = info
        o["decisions"] = [("" if v else "not ") + str(f)[:160] for f, v in ctx.trace][-12:]
    ctx.report.obligations.append(o)
    return status == "proved"


def model_excerpt(m):
    out = {}
    for d in m.decls():
        if len(out) > 24:
            break
        try:
            out[d.name()] = str(m[d])[:120]
        except Exception:
            pass
    return out
