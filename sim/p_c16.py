"""C16: inputs are never modified and returned results never change later."""
import hashlib

import numpy as np
from ellalgo.conjugate_gradient import conjugate_gradient
from ellalgo.cutting_plane import BSearchAdaptor, bsearch, cutting_plane_feas, cutting_plane_optim, cutting_plane_optim_q
from ellalgo.ell import Ell
from ellalgo.ell_config import Options
from ellalgo.ell_stable import EllStable
from ellalgo.oracles.ldlt_mgr import LDLTMgr
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle
from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact

from . import cuts, sessions
from .core import SimFault, SimInterrupt, Violation, check, run_interrupted
from .drv import EXCS, rfl

ID = "C16"
QUICK, THOROUGH = 16000, 250000
RULE = ("One evaluation = a client that keeps oracles, spaces and inputs alive over a seeded sequence of solves, resumed solves, cuts (also refused "
        "ones), direct oracle queries, factorizations, CG and spectral calls, some failing in the oracle or interrupted at any statement; byte "
        "digests of everything handed over are compared at every oracle query and after every call, and every returned solution is re-read at "
        "the end, after the inputs have been overwritten.")
REAL = ["all public modules"]
STUB = ["client, failure injection in front of the oracles, half-space oracle"]
ASSUMPTIONS = ["an input is compared by bytes, shape and type"]
LISTS = [["steps"]]
SOLVES = ["feas_lmi", "feas_lmiold", "feas_lmi0", "feas_half", "optim_profit", "optim_rb", "optim_lowpass", "optim_q", "bs_lmi", "bufq", "bufoptim"]


def gen_points(rng):
    """Query points: ordinary, or with zero, tiny, integral, large or special components."""
    out = []
    for _ in range(rng.randint(1, 3)):
        odd = [float("inf"), float("-inf"), float("nan"), 1e308, 5e-324] if rng.random() < 0.08 else []
        out.append([rng.choice(odd + [0.0, -0.0, 1e-4, -1e-4, 1e-9, 1.0, 2.0, -1.0, 0.5, 1.5, round(rng.uniform(-2, 2), 3), round(rng.gauss(0, 1), 2), round(rng.gauss(0, 50), 1), 1e6])
                    for _ in range(5)])
    return out


def generate(rng):
    ff = rng.random() < 0.3
    steps = []
    use = rng.sample(SOLVES, 2)
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        f = None
        if not ff and rng.random() < 0.4:
            f = rng.choice([dict(k="oracle", at=rng.randrange(6), exc=rng.choice(sorted(EXCS))), dict(k="interrupt", frac=round(rng.random(), 4), op=rng.random() < 0.4)])
        if r < 0.5:
            steps.append(dict(op="solve", kind=rng.choice(use), f=f))
        elif r < 0.7:
            n = 3
            op = cuts.gen_reject(rng, n) if rng.random() < 0.4 else cuts.gen_cut(rng, n)
            steps.append(dict(op="cut", cut=op, which=rng.randrange(2), ro=rng.random() < 0.3, f=f if f and f["k"] == "interrupt" else None))
        elif r < 0.8:
            steps.append(dict(op="query", kind=rng.choice(["lmi", "lmiold", "lmi0", "profit", "rb", "q", "lowpass"]), s=rfl(rng, -3, 3), pts=gen_points(rng), lv=rng.choice([0.0, 0.3, 0.05, 5.0]), keep=rng.random() < 0.5, f=f if f and f["k"] == "interrupt" else None))
        elif r < 0.9:
            steps.append(dict(op=rng.choice(["cg", "cg0", "spectral", "invspec", "ldlt"]), f=f if f and f["k"] == "interrupt" else None))
        else:
            steps.append(dict(op=rng.choice(["set_xc", "newspace"]), which=rng.randrange(2), f=None))
    return dict(shared=sessions.gen_shared(rng), space=rng.choice(["Ell", "EllStable"]), val=rng.choice(["diag", 4.0, 50.0]), defer_off=rng.random() < 0.2,
                mlay=[rng.choice(MLAYOUTS) for _ in range(12)] if rng.random() < 0.4 else [],
                lay=[rng.choice(LAYOUTS) for _ in range(8)] if rng.random() < 0.5 else [],
                steps=steps, bsopt=rng.choice([[3, 0.05], [4, 0.3], [5000, 0.6], [10 ** 6, 0.55]]), bigopt=rng.choice([None, None, None, 2001, 5000, 10 ** 6]), fresh=rng.random() < 0.3, int_bs=rng.random() < 0.4)


def simplify(plan):
    for k, v in (("space", "Ell"), ("val", 4.0), ("defer_off", False), ("lay", []), ("mlay", [])):
        if plan[k] != v:
            yield {**plan, k: v}
    for i, s in enumerate(plan["steps"]):
        if s["f"]:
            ss = list(plan["steps"])
            ss[i] = {**s, "f": None}
            yield {**plan, "steps": ss}


LAYOUTS = ["own", "own", "slice", "stride", "column", "readonly", "back"]


def lay(v, how):
    """The same vector as its client may hold it: -> (array to hand over, storage behind it)."""
    v = np.array(v)
    n = len(v)
    if how == "slice":
        base = np.full(n + 3, 7.0)
        x = base[2:2 + n]
    elif how == "stride":
        base = np.full(2 * n + 1, 7.0)
        x = base[1::2][:n]
    elif how == "column":
        base = np.full((n, 3), 7.0)
        x = base[:, 1]
    elif how == "back":
        base = np.full(n, 7.0)
        x = base[::-1]
    else:
        base = x = np.zeros(n)
    x[:] = v
    if how == "readonly":
        x.flags.writeable = False
    return x, base


MLAYOUTS = ["own", "own", "fortran", "readonly", "asym", "ulp", "block", "int"]


def mlay(m, how):
    """The same for a matrix; asym/ulp: not quite symmetric, as computed matrices are."""
    base = x = np.array(m, dtype=float)
    k = len(x)
    if how == "fortran":
        base = x = np.asfortranarray(x)
    elif how == "asym" and k > 1:
        x[0, k - 1] += 0.125
    elif how == "ulp" and k > 1:
        x[k - 1, 0] = np.nextafter(x[k - 1, 0], 9.0)
    elif how == "block":
        base = np.full((k + 2, k + 1), 7.0)
        base[1:1 + k, :k] = x
        x = base[1:1 + k, :k]
    elif how == "int":
        base = x = np.rint(x * 2).astype(int)
    if how == "readonly":
        x.flags.writeable = False
    return x, base


class BufQ:
    """Discrete oracle with one reply buffer it keeps overwriting; it reports improvements
    on first queries and on retries."""

    def __init__(self, n, k):
        self.rs = np.random.RandomState(k)
        self.n, self.buf, self.g = n, np.zeros(n), np.zeros(n)
        self.level = 0.0

    def assess_optim_q(self, x, gamma, retry):
        rs = self.rs
        self.buf[:] = rs.randint(-9, 9, self.n)
        self.g[:] = rs.randn(self.n)
        imp = rs.rand() < 0.5
        if imp:
            self.level += 1.0
        # far too shallow now and then: no effect
        beta = -1e6 if rs.rand() < 0.4 else 0.0
        return (self.g.copy(), beta), self.buf, (self.level if imp else None), bool(rs.rand() < 0.8)


class BufOptim(BufQ):
    """Optimization oracle on top of it."""

    def assess_optim(self, x, gamma):
        (g, _), _, lev, _ = self.assess_optim_q(x, gamma, False)
        return (g, 0.0), lev


def dig(o):
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(dig(v) for v in o)
    if isinstance(o, Options):
        return ("o", o.max_iters, o.tolerance, o.verbose, tuple(sorted(o.__dict__.items())))
    if isinstance(o, type) and issubclass(o, Options):
        return ("oc", o.max_iters, o.tolerance, o.verbose)
    return ("v", type(o).__name__, repr(o))


class Book:
    """Everything the client has handed over, with its digest."""

    def __init__(self):
        self.items = []

    def add(self, name, obj):
        self.items.append((name, obj, dig(obj)))
        return obj

    def verify(self, when):
        for name, obj, d in self.items:
            if dig(obj) != d:
                raise Violation("input-modified:" + name, f"{name} was modified ({when})")


class Wire:
    """Client's wire to an oracle: injects failures, watches the inputs at every query."""

    def __init__(self, inner, book):
        self.inner, self.book = inner, book
        self.fail = None
        self.n = 0
        self.obj = None
        self.grads = []

    def _go(self, name, *a):
        self.book.verify("seen during a solve, at oracle query %d" % self.n)
        if self.fail is not None and self.n == self.fail[0]:
            self.obj = EXCS[self.fail[1]]("injected")
            self.fail = None
            raise self.obj
        self.n += 1
        x = a[0]
        d = dig(x) if isinstance(x, np.ndarray) else None
        r = getattr(self.inner, name)(*a)
        if d is not None and dig(x) != d:
            raise Violation("query-point-modified", f"{type(self.inner).__name__}.{name} modified the query point")
        cut = r if name == "assess_feas" else r[0] if name != "update" else None
        if cut is not None:
            # the gradient is handed to the search space next: it must stay as it is
            self.grads.append((cut[0], dig(cut[0]), cut[1], dig(cut[1])))
            if len(self.grads) > 8:
                del self.grads[0]
        return r

    def verify_grads(self):
        for g, d, bt, db in self.grads:
            check(dig(g) == d, "gradient-modified", "a gradient handed to the search space was modified")
            check(dig(bt) == db, "offset-modified", "an offset handed to the search space was modified")
        self.grads = []

    def assess_feas(self, *a):
        return self._go("assess_feas", *a)

    def assess_optim(self, *a):
        return self._go("assess_optim", *a)

    def assess_optim_q(self, *a):
        return self._go("assess_optim_q", *a)

    def update(self, g):
        return self._go("update", g)


def execute(plan, ctx):
    sh = sessions.build_shared(plan["shared"])
    if plan["bigopt"]:  # a generous budget, ended by a coarse tolerance
        sh["opt"].max_iters, sh["opt"].tolerance = plan["bigopt"], 1e-2
    book = Book()
    ways = plan.get("lay") or ["own"]
    nth = [0]

    def placed(name, v):
        x, base = lay(v, ways[nth[0] % len(ways)])
        nth[0] += 1
        book.add(name, x)
        if base is not x:
            book.add("storage-of-" + name, base)
        return x

    mways = plan.get("mlay") or ["own"]

    def mplaced(name, m):
        x, base = mlay(m, mways[nth[0] % len(mways)])
        nth[0] += 1
        if base is not x:
            book.add("storage-of-" + name, base)
        return x

    for k in ("B", "A", "S"):
        sh[k] = mplaced(k, sh[k])
    for k in ("F", "F0"):
        sh[k] = [mplaced(k, m) for m in sh[k]]
    for k in ("rhs", "x0", "xp", "diag", "h", "elas", "price"):
        sh[k] = placed(k, sh[k])
    for k in ("B", "A", "S", "rhs", "x0", "xp", "diag", "h", "elas", "price", "F", "F0", "r", "opt", "params", "vparams"):
        book.add(k, sh[k])
    book.add("Options", Options)
    cls = {"Ell": Ell, "EllStable": EllStable}[plan["space"]]
    z = placed("lowpass-start", np.zeros(sh["nd"]))
    x3 = placed("cut-start", np.array([0.5, -1.0, 2.0]))
    diag3 = placed("cut-radii", np.array([4.0, 9.0, 2.0]))
    cgx0 = placed("cg-start", np.ones(sh["m"]))
    intr = book.add("interval", [-1, 4] if plan["int_bs"] else [-1.0, 4.0])
    bsopt = Options()
    bsopt.max_iters, bsopt.tolerance = plan["bsopt"]
    book.add("bsearch-options", bsopt)
    results = []
    stations = {}
    asked = {}
    cutspaces = [Ell(diag3, x3), EllStable(diag3, x3)]

    def space(n, x0):
        val = sh["diag"] if plan["val"] == "diag" and len(sh["diag"]) == n else (20.0 if plan["val"] == "diag" else plan["val"])
        s = cls(val, x0)
        if plan["defer_off"]:
            s.no_defer_trick = True
        return s

    def station(kind):
        if kind in stations and not plan["fresh"]:
            return stations[kind]
        n, x0 = sh["n"], sh["x0"]
        if kind == "feas_lmi":
            o = LMIOracle(sh["F"], sh["B"])
        elif kind == "feas_lmiold":
            o = LMIOldOracle(sh["F"], sh["B"])
        elif kind == "feas_lmi0":
            o = LMI0Oracle(sh["F0"])
        elif kind == "feas_half":
            o = sessions.Half(n, 7)
        elif kind == "bs_lmi":
            o = sessions.LmiLevel(sh["F"], sh["B"])
        elif kind == "bufq":
            o = BufQ(n, len(plan["steps"]))
        elif kind == "bufoptim":
            o = BufOptim(n, len(plan["steps"]))
        elif kind == "optim_lowpass":
            o, n, x0 = LowpassOracle(sh["nd"], 0.12, 0.35, 0.8, 1.2, 0.3), sh["nd"], z
        else:
            n, x0 = 2, sh["xp"]
            o = {"optim_profit": lambda: ProfitOracle(sh["params"], sh["elas"], sh["price"]),
                 "optim_rb": lambda: ProfitRbOracle(sh["params"], sh["elas"], sh["price"], sh["vparams"]),
                 "optim_q": lambda: ProfitQOracle(sh["params"], sh["elas"], sh["price"])}[kind]()
        w = Wire(o, book)
        stations[kind] = (w, space(n, x0))
        return stations[kind]

    def solve(kind, w, sp):
        if kind.startswith("feas"):
            return cutting_plane_feas(w, sp, sh["opt"])
        if kind in ("optim_profit", "optim_rb", "bufoptim"):
            return cutting_plane_optim(w, sp, 0.0, sh["opt"])
        if kind == "optim_lowpass":
            return cutting_plane_optim(w, sp, 0.3, sh["opt"])
        if kind in ("optim_q", "bufq"):
            return cutting_plane_optim_q(w, sp, 0.0, sh["opt"])
        ad = BSearchAdaptor(w, sp, sh["opt"])
        return (None,) + bsearch(ad, intr, bsopt)

    def keep(x, what):
        if isinstance(x, np.ndarray):
            results.append((what, x, dig(x)))

    def guarded(fn, f, what):
        """Run fn, interrupted if the plan says so; -> result or None."""
        try:
            if f and f["k"] == "interrupt":
                out, res, at, tot = run_interrupted(lambda dry: ((lambda: None) if dry == "x" else fn), f["frac"], opcodes=f["op"])
                if out == "swallowed":
                    raise Violation("interrupt-swallowed", f"an interrupt in {res} did not reach the caller")
                ctx.fault("interrupt-" + ("inside-expression" if f["op"] else "at-statement"))
                return res if out == "done" else None
            return fn()
        except (ValueError, AssertionError, ArithmeticError, RuntimeError, IndexError, TypeError) as e:
            ctx.ev("refused:" + type(e).__name__)
            return None

    for st in plan["steps"]:
        op, f = st["op"], st["f"]
        if op == "solve":
            kind = st["kind"]
            w, sp = station(kind)
            w.fail, w.n, w.obj = None, 0, None
            if f and f["k"] == "oracle":
                w.fail = (f["at"], f["exc"])
            try:
                res = guarded(lambda: solve(kind, w, sp), f, kind)
            except BaseException as e:
                if w.obj is None or e is not w.obj:
                    raise
                ctx.fault("oracle-raises-" + f["exc"])
                res = None
            else:
                if w.obj is not None:
                    ctx.fault("oracle-raises-" + f["exc"])
            if f and f["k"] == "interrupt":
                # a space interrupted in mid-update is not used again
                stations.pop(kind, None)
            w.fail = None
            w.verify_grads()
            if res is not None:
                keep(res[0], kind)
                if isinstance(res[0], np.ndarray):
                    ctx.probe("solution_kept")
            ctx.ev("solve:" + kind, str(None if res is None else sessions.b(res)))
        elif op == "cut":
            sp = cutspaces[st["which"]]
            xc, P = cuts.region(sp)
            if not cuts.usable((xc, P)):
                cutspaces[st["which"]] = [Ell, EllStable][st["which"]](diag3, x3)
                sp = cutspaces[st["which"]]
                xc, P = cuts.region(sp)
            c = cuts.concrete(st["cut"], P, xc, [], 3)
            g, beta = c.args()
            if st["ro"]:
                g.flags.writeable = False
                if isinstance(beta, np.ndarray):
                    beta.flags.writeable = False
            dg, db = dig(g), dig(beta)
            r = guarded(lambda: cuts.method(sp, c.kind)((g, beta)), f, "cut")
            check(dig(g) == dg, "gradient-modified", "the gradient of a %s cut was modified (%s)", c.kind, r)
            check(dig(beta) == db, "offset-modified", "the offsets of a %s cut were modified (%s)", c.kind, r)
            book.add("gradient", g)
            book.add("offsets", beta)
            if f:
                cutspaces[st["which"]] = [Ell, EllStable][st["which"]](diag3, x3)
            ctx.ev("cut:" + str(r), g)
        elif op == "query":
            k = st["kind"]
            n = 2 if k in ("profit", "rb", "q") else sh["nd"] if k == "lowpass" else sh["n"]
            mk = {"lmi": lambda: LMIOracle(sh["F"], sh["B"]), "lmiold": lambda: LMIOldOracle(sh["F"], sh["B"]), "lmi0": lambda: LMI0Oracle(sh["F0"]),
                  "profit": lambda: ProfitOracle(sh["params"], sh["elas"], sh["price"]), "rb": lambda: ProfitRbOracle(sh["params"], sh["elas"], sh["price"], sh["vparams"]),
                  "q": lambda: ProfitQOracle(sh["params"], sh["elas"], sh["price"]), "lowpass": lambda: LowpassOracle(sh["nd"], 0.12, 0.35, 0.8, 1.2, 0.3)}[k]
            if not st["keep"]:
                asked.pop(k, None)
            o = asked.setdefault(k, None) or mk()
            asked[k] = o
            lv = st["lv"]
            for x in [np.linspace(-1, 1, n) * st["s"] + 0.3] + [np.array(p[:n]) for p in st["pts"]]:
                x = placed("query-point", x)
                dx = dig(x)
                got = []
                if k == "q":
                    guarded(lambda: (got.append(o.assess_optim_q(x, lv, False)), got.append(o.assess_optim_q(x, lv, True))), f, k)
                elif k in ("profit", "rb"):
                    guarded(lambda: got.append(o.assess_optim(x, lv)), f, k)
                elif k == "lowpass":
                    guarded(lambda: (got.append((o.assess_feas(x), None)), got.append(o.assess_optim(x, lv))), f, k)
                else:
                    guarded(lambda: got.append((o.assess_feas(x), None)), f, k)
                check(dig(x) == dx, "query-point-modified", "the %s oracle modified the query point", k)
                book.verify("after a %s query" % k)
                book.add("query-point", x)
            ctx.ev("query:" + k, x)
        elif op in ("cg", "cg0"):
            r = guarded(lambda: conjugate_gradient(sh["A"], sh["rhs"]) if op == "cg" else conjugate_gradient(sh["A"], sh["rhs"], cgx0, 1e-8, 100), f, op)
            keep(r, "cg")
            ctx.ev(op, sessions.b(r))
        elif op == "spectral":
            r = guarded(lambda: spectral_fact(sh["r"]), f, op)
            keep(r, "spectral")
            ctx.ev(op, sessions.b(r))
        elif op == "invspec":
            r = guarded(lambda: inverse_spectral_fact(sh["h"]), f, op)
            keep(r, "invspec")
            ctx.ev(op)
        elif op == "ldlt":
            mgr = LDLTMgr(sh["m"])

            def go():
                for M in (sh["A"], sh["S"]):
                    if mgr.factorize(M):
                        mgr.sqrt()
                    else:
                        mgr.witness()
                        mgr.sym_quad(sh["A"])
                    mgr.factor_with_allow_semidefinite(lambda i, j: M[i, j])

            guarded(go, f, op)
            ctx.ev(op)
        elif op == "set_xc":
            v = placed("new-centre", np.array([1.0, 2.0, 3.0]))
            cutspaces[st["which"]].set_xc(v)
            cutspaces[st["which"]].update_central_cut((np.array([1.0, 0.5, 0.2]), 0.0))
            ctx.ev(op)
        else:
            cutspaces[st["which"]] = [Ell, EllStable][st["which"]](diag3, x3)
            cutspaces[st["which"]].update_bias_cut((np.array([1.0, -0.5, 0.2]), 0.01))
            ctx.ev(op)
        book.verify("after " + op + (" " + st.get("kind", "")))
        for what, x, d in results:
            check(dig(x) == d, "result-changed", "a solution returned by %s changed after a later %s", what, op)
    # overwrite the caller's inputs and use every station once more
    for name, obj, _ in book.items:
        for a in obj if isinstance(obj, list) else [obj]:
            if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f":
                a *= 0.5
                a += 0.25
    book.items = []
    for kind in sorted(stations):
        w, sp = stations[kind]
        try:
            sp.update_central_cut((np.ones(len(sp.xc())), 0.0))
            solve(kind, w, sp)
        except Exception:
            pass
    for what, x, d in results:
        check(dig(x) == d, "result-changed", "a solution returned by %s changed when the inputs were overwritten and the space reused", what)
    ctx.probe("results_rechecked", len(results))
