"""C17: solves reach the answer within the classical bound once faults stop."""
import math

import numpy as np
from ellalgo.cutting_plane import BSearchAdaptor, bsearch, cutting_plane_feas, cutting_plane_optim, cutting_plane_optim_q
from ellalgo.ell_config import CutStatus, Options
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitRbOracle
from scipy.optimize import linprog

from . import cuts
from .core import check
from .drv import EXCS, rfl
from .p_c14 import response
from .p_c15 import Eco

ID = "C17"
QUICK, THOROUGH = 12000, 160000
RULE = ("One evaluation = one problem with a planted inner ball (or planted emptiness, or a planted optimum) solved end to end by a client that "
        "calls again after every injected failure (lost request or reply), exhausted budget or restore of the space from a copy; the number of "
        "accepted queries to the answer is compared with the ellipsoid-method volume bound and every verdict with the planted truth.")
REAL = ["cutting_plane_feas", "cutting_plane_optim", "cutting_plane_optim_q", "bsearch", "BSearchAdaptor", "Ell", "EllStable", "EllCalc", "LMI, low-pass and profit oracles"]
STUB = ["resisting, polyhedral, linear-objective and integer oracles", "client and failure injection", "checkpoint storage"]
ASSUMPTIONS = ["ball radius >= 3e-4 of the initial radius (0.01 above dimension 3; 4e-6 for a single thin slab), dimension 2-6 (2-5 low-pass)", "tolerance below the planted ball's half-width"]
LISTS = [["faults"]]
FEAS = ["poly", "resist", "thin", "lmi", "lmiold", "lmi0"]
OPT = ["lin", "profit", "rb", "lowpass"]


def generate(rng):
    kind = rng.choice(FEAS + ["poly", "resist"] + OPT + ["lin", "bs", "empty", "disc", "disc"])
    n = 2 if kind in ("profit", "rb") else rng.choice([2, 3, 4, 5]) if kind == "lowpass" else rng.choice([2, 2, 3, 4, 5, 6])
    fl = []
    if rng.random() > 0.25:
        at = 0
        for _ in range(rng.randint(1, 8)):
            at += rng.choice([0, 1, 2, 5, 12, 30])
            fl.append(dict(k=rng.choice(["request", "reply", "budget", "budget"]), gap=at, exc=rng.choice(sorted(EXCS)),
                           via=rng.choice([None, None, "deepcopy", "pickle"])))
            at = 0
    p = dict(kind=kind, n=n, k=rng.randrange(10 ** 6), space=rng.choice(["Ell", "EllStable"]), defer_off=rng.random() < 0.25,
             use_parallel=rng.random() < 0.85, val=rng.choice([1.0, 9.0, 100.0, 100, "diag"]), s=rng.choice([0.3, 0.1, 0.03, 0.01]),
             u=rfl(rng, 0, 0.95), theta=rng.choice([0.0, 0.0, 0.5, 1.0]), pick=rng.choice(["max", "min", "first", "spin"]), tolk=rng.choice([0.0, 0.9]),
             x0=[rfl(rng, -3, 3) for _ in range(n)], eps=rng.choice([0.1, 0.02, 0.005]), faults=fl, int_grad=rng.random() < 0.15)
    p["gs"] = 1.0
    if kind == "disc":
        p["n"] = n = rng.choice([2, 2, 3])
        p["x0"] = p["x0"][:n] + [0.5] * (n - len(p["x0"]))
        p["val"] = rng.choice([9.0, 25.0, 40.0, 81])
        p["disc"] = dict(lin=rng.random() < 0.4, q=[rng.randint(-3, 3) if rng.random() < 0.5 else rng.choice([1, 2]) for _ in range(n)], t=[rng.randint(-6, 6) for _ in range(n)],
                         A=[[rng.randint(-3, 3) for _ in range(n)] for _ in range(rng.randint(0, 3))], b=[rng.randint(0, 9) for _ in range(3)], alts=rng.choice([0, 1, 2, 7]))
    if kind == "thin":
        p["s"] = float("%.3g" % 10 ** rng.uniform(-5.4, -2.5))
    if kind not in ("profit", "rb", "lowpass"):
        if rng.random() < 0.12:
            p["gs"] = rng.choice([1e-9, 1e-8, 1e-5, 1e5, 1e8])
        if rng.random() < 0.12 and kind != "lmi0":
            far = rng.choice([1e3, 1e4, 1e5])
            p["x0"] = [round(v * far, 2) for v in p["x0"]]
        if n <= 3 and kind != "thin" and rng.random() < 0.2:
            p["s"] = rng.choice([3e-3, 1e-3, 3e-4])
    if kind in ("profit", "rb"):
        p["eco"] = dict(p=rfl(rng, 10, 40, 1), A=rfl(rng, 20, 60, 1), k=rfl(rng, 6, 60, 1), a=[rfl(rng, 0.1, 0.4), rfl(rng, 0.1, 0.45)],
                        v=[rfl(rng, 3, 30, 1), rfl(rng, 3, 30, 1)],
                        e=[rfl(rng, 0, 0.03), rfl(rng, 0, 0.03), rfl(rng, 0, 1.5, 2), rfl(rng, 0, 1.2, 2), rfl(rng, 0, 1.5, 2)])
    return p


def simplify(plan):
    for k, v in (("space", "Ell"), ("defer_off", False), ("use_parallel", True), ("val", 1.0), ("theta", 0.0), ("pick", "max"), ("s", 0.3), ("gs", 1.0), ("int_grad", False), ("eps", 0.1)):
        if plan[k] != v:
            yield {**plan, k: v}
    for i, f in enumerate(plan["faults"]):
        for k, v in (("via", None), ("k", "budget"), ("gap", 0)):
            if f[k] != v:
                fs = list(plan["faults"])
                fs[i] = {**f, k: v}
                yield {**plan, "faults": fs}


# ----------------------------------------------------------------- problems


def unit(rs, n):
    v = rs.randn(n)
    return v / np.linalg.norm(v)


class Poly:
    """Half-spaces, slabs and balls around a planted ball; the policy picks which violated one to report."""

    def __init__(self, plan, rs, c, r):
        n = plan["n"]
        self.cons = []
        for _ in range(rs.randint(2, 2 * n + 3)):
            t = rs.randint(4)
            a = unit(rs, n) * 10.0 ** rs.uniform(-1, 1)
            if plan["int_grad"]:
                a = rs.randint(-3, 4, n)
                if not a.any():
                    a[0] = 1
            w = r * float(np.linalg.norm(a))
            if t <= 1:
                self.cons.append(("h", a, float(a @ c) + w * (1 + rs.rand() * 0.5)))
            elif t == 2:
                self.cons.append(("s", a, float(a @ c) - w * (1 + rs.rand() * 0.5), float(a @ c) + w * (1 + rs.rand() * 0.5)))
            else:
                d = unit(rs, n) * r * rs.rand() * 2
                self.cons.append(("b", c + d, r + float(np.linalg.norm(d))))
        # tight pieces so that the feasible set is not much larger than the ball
        for i in range(n):
            e = np.zeros(n, dtype=int if plan["int_grad"] else float)
            e[i] = 1
            self.cons.append(("s", e, float(c[i]) - r, float(c[i]) + r))
        self.pick, self.theta, self.q = plan["pick"], plan["theta"], 0

    def margins(self, x):
        out = []
        for i, k in enumerate(self.cons):
            if k[0] == "h":
                v = float(k[1] @ x) - k[2]
                if v > 0:
                    out.append((v, i, k[1], v))
            elif k[0] == "s":
                t = float(k[1] @ x)
                if t > k[3]:
                    out.append((t - k[3], i, k[1], (t - k[3], t - k[2])))
                elif t < k[2]:
                    out.append((k[2] - t, i, -k[1], (k[2] - t, k[3] - t)))
            else:
                d = x - k[1]
                v = float(np.linalg.norm(d))
                if v > k[2]:
                    out.append((v - k[2], i, d / v, v - k[2]))
        return out

    def assess_feas(self, x):
        bad = self.margins(x)
        self.q += 1
        if not bad:
            return None
        if self.pick == "max":
            b = max(bad, key=lambda t: (t[0], t[1]))
        elif self.pick == "min":
            b = min(bad, key=lambda t: (t[0], t[1]))
        elif self.pick == "first":
            b = bad[0]
        else:
            b = bad[self.q % len(bad)]
        v = b[3]
        v = v * self.theta if isinstance(v, float) else (v[0] * self.theta, v[1])
        return b[2], v


class Thin(Poly):
    """A thin slab (reported as a parallel cut) and at most two coarse half-spaces around the planted ball."""

    def __init__(self, plan, rs, c, r):
        n = plan["n"]
        a = unit(rs, n) * 10.0 ** rs.uniform(-1, 1)
        if plan["int_grad"]:
            a = rs.randint(-3, 4, n)
            if not a.any():
                a[0] = 1
        w = r * float(np.linalg.norm(a))
        self.cons = [("s", a, float(a @ c) - w, float(a @ c) + w)]
        for _ in range(rs.randint(0, 3)):
            b = unit(rs, n)
            self.cons.append(("h", b, float(b @ c) + r + 0.5 * rs.rand()))
        self.pick, self.theta, self.q = plan["pick"], plan["theta"], 0


class Resist:
    """Accepts only inside the planted ball; otherwise cuts through the centre along the region's
    longest axes when that keeps the ball, i.e. gives away as little as it may."""

    def __init__(self, plan, c, r, peek):
        self.c, self.r, self.peek, self.theta, self.q = c, r, peek, plan["theta"], 0
        self.spin = plan["pick"] == "spin"

    def assess_feas(self, x):
        d = x - self.c
        nd = float(np.linalg.norm(d))
        self.q += 1
        if nd <= self.r * 0.999:
            return None
        P = self.peek()
        w, V = np.linalg.eigh(P)
        for k in range(len(w)):
            g = V[:, (k if self.spin and self.q % 3 == 0 else -1 - k)]
            for g in (g, -g):
                room = float(g @ d) - self.r
                if room >= 0:
                    return g.copy(), self.theta * 0.3 * room
        return d / nd, 0.0


class Lin:
    """min f = obj.x over half-spaces with a known optimal vertex/edge point xs."""

    def __init__(self, plan, rs, c, r, x0, rad):
        n = plan["n"]
        d = unit(rs, n)
        xs = c + d * r * (1.5 + 3 * rs.rand())
        # keep the optimum inside the initial region
        u = (xs - x0) / rad
        nu = float(np.linalg.norm(u))
        if nu > 0.98:
            xs = c + d * r
        A, b = [], []
        obj = np.zeros(n)
        for _ in range(rs.randint(1, n + 1)):
            a = unit(rs, n)
            a = a if a @ d > 0 else -a
            a = a + d * 0.4
            # the ball must be on the inner side of this active constraint
            while float(a @ (xs - c)) < r * float(np.linalg.norm(a)) * 1.0 - 1e-12:
                a = a + d
                if float(np.linalg.norm(a)) > 50:
                    a = d.copy()
                    break
            A.append(a)
            b.append(float(a @ xs))
            obj -= a * (0.2 + rs.rand())
        for _ in range(rs.randint(0, n + 2)):
            a = unit(rs, n)
            A.append(a)
            b.append(max(float(a @ xs), float(a @ c) + r) + rs.rand())
        self.A, self.b, self.obj, self.xs = np.array(A), np.array(b), obj, xs
        self.fs = float(obj @ xs)
        # rounding in the planted data
        self.r = min(r, float(min((self.b - self.A @ c) / np.linalg.norm(self.A, axis=1)))) * 0.999
        self.delta = float(obj @ c) + self.r * float(np.linalg.norm(obj)) - self.fs
        self.theta, self.pick, self.q = plan["theta"], plan["pick"], 0

    def assess_optim(self, x, gamma):
        v = self.A @ x - self.b
        self.q += 1
        bad = np.flatnonzero(v > 0)
        if len(bad):
            i = bad[np.argmax(v[bad])] if self.pick == "max" else bad[np.argmin(v[bad])] if self.pick == "min" else bad[0] if self.pick == "first" else bad[self.q % len(bad)]
            return (self.A[i], float(v[i]) * self.theta), None
        f = float(self.obj @ x)
        if f < gamma:
            return (self.obj, 0.0), f
        return (self.obj, (f - gamma) * self.theta), None


class Levels:
    """max_i a_i.(x-xs) + v <= gamma inside a ball of radius rho: the threshold is v."""

    def __init__(self, plan, rs, x0, rho):
        n = plan["n"]
        self.xs = x0 + unit(rs, n) * rho * 0.5 * rs.rand()
        A = [unit(rs, n) * (0.5 + rs.rand()) for _ in range(rs.randint(1, n + 2))]
        lam = 0.2 + rs.rand(len(A))
        last = -sum(l * a for l, a in zip(lam, A))
        A.append(last)
        self.A = np.array(A)
        self.amax = float(np.linalg.norm(self.A, axis=1).max())
        self.v = float(rs.uniform(-1, 1))
        self.x0, self.rho, self.gamma, self.theta = x0, rho, 0.0, plan["theta"]

    def update(self, gamma):
        self.gamma = gamma

    def assess_feas(self, x):
        d = x - self.x0
        nd = float(np.linalg.norm(d))
        if nd > self.rho:
            return d / nd, (nd - self.rho) * self.theta
        t = self.A @ (x - self.xs) + self.v - self.gamma
        i = int(np.argmax(t))
        if t[i] > 0:
            return self.A[i], float(t[i]) * self.theta
        return None


class Disc:
    """Minimise an integer-valued convex f over the integer points of a polyhedron.  Every cut keeps
    every integer point at least one half better than the level; alternatives are other roundings."""

    def __init__(self, d, n):
        self.lin = d["lin"]
        self.q = np.array(d["q"], dtype=float)
        if not self.lin:
            self.q = np.abs(self.q) + (self.q == 0)
        elif not self.q.any():
            self.q[0] = 1.0
        self.t = np.array(d["t"], dtype=float)
        rows = [(a, b) for a, b in zip(d["A"], d["b"]) if any(a)]
        self.A = np.array([a for a, _ in rows], dtype=float).reshape(len(rows), n)
        self.b = np.array([b for _, b in rows], dtype=float)
        self.alts, self.k, self.n = d["alts"], 0, n

    def f(self, y):
        return y @ self.q if self.lin else ((y - self.t) ** 2) @ self.q

    def grad(self, y):
        return self.q.copy() if self.lin else 2 * self.q * (y - self.t)

    def ok(self, y):
        return np.all(y @ self.A.T <= self.b, axis=-1) if len(self.b) else np.ones(y.shape[:-1], dtype=bool)

    def assess_optim_q(self, x, gamma, retry):
        self.k = self.k + 1 if retry else 0
        base = np.floor(x) if self.k else np.round(x)
        y = base + np.array([(self.k >> i) & 1 for i in range(self.n)])
        more = self.k < self.alts
        v = self.A @ y - self.b
        if len(v) and v.max() > 0:
            i = int(np.argmax(v))  # integer data: a violated row is violated by at least one
            return (self.A[i].copy(), float(self.A[i] @ x) - float(self.b[i])), y, None, more
        fy = float(self.f(y))
        better = fy < gamma
        g = self.grad(y)
        if better:
            gamma = fy
        if not g.any():  # the global minimum: nothing is better
            g, beta = np.ones(self.n), 1e9
        else:
            beta = fy - (gamma - 0.5) + float(g @ (x - y))
        return (g, beta), y, fy if better else None, more


class Seen:
    """Passes everything on to the real space and remembers the last verdict."""

    def __init__(self, sp):
        self.sp, self.st = sp, None

    def xc(self):
        return self.sp.xc()

    def tsq(self):
        return self.sp.tsq()

    def update_q(self, cut):
        self.st = self.sp.update_q(cut)
        return self.st


def run_disc(plan, ctx, what, x0, val, mk):
    o = Disc(plan["disc"], plan["n"])
    cl = Client(plan, ctx, o)
    cl.gs = 1.0
    sp = Seen(mk(val, x0))
    gamma = 1e6
    left = 300
    while True:
        f = cl.arm()
        budget = min(f["gap"], left) if f and f["k"] == "budget" else left
        before = cl.accepted
        sp.st = None
        try:
            x, g, it = cutting_plane_optim_q(cl, sp, gamma, opts(budget, 1e-3))
        except BaseException as e:
            if cl.obj is None or e is not cl.obj:
                raise
            x = None
            it = budget
        left -= cl.accepted - before
        if x is not None:
            check(cl.best is not None and np.array_equal(x, cl.best[0]) and g == cl.best[1], "unaccepted-point", "%s: returned %s with value %s, the oracle last reported %s", what, x, g, cl.best)
        if cl.best is not None:
            gamma = cl.best[1]
        if f and it >= budget and left > 0:
            sp = Seen(cl.disturbed(sp.sp))
            continue
        break
    ctx.ev("disc-end:" + (sp.st.name if sp.st is not None else "none"))
    if cl.best is not None:
        y = cl.best[0]
        check(bool(o.ok(y)) and float(o.f(y)) == gamma and np.array_equal(y, np.round(y)), "unaccepted-point", "%s: best point %s value %s", what, y, gamma)
    if sp.st == CutStatus.NoSoln:
        # nothing better may remain inside the initial region
        R = int(math.ceil(math.sqrt(float(val)))) + 1
        ax = [np.arange(math.floor(c) - R, math.ceil(c) + R + 1) for c in x0]
        Y = np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, plan["n"]).astype(float)
        Y = Y[((Y - x0) ** 2).sum(1) <= float(val) * (1 - 1e-9)]
        Y = Y[o.ok(Y)]
        Y = Y[o.f(Y) <= gamma - 1]
        check(len(Y) == 0, "premature-infeasible", "%s: no solution reported at level %s after %d queries, but %s is better", what, gamma, cl.accepted, Y[:1].tolist())
        ctx.probe("discrete_exhausted")


def planted_lmi(rs, n, c, margin, zero):
    m = rs.randint(2, 4)

    def sym():
        M = rs.randn(m, m)
        return (M + M.T) / 2

    X = sym()
    base = X @ X * margin + margin * np.eye(m)
    F = [sym() for _ in range(n)]
    if zero:
        i = int(np.argmax(np.abs(c)))
        rest = sum(F[j] * c[j] for j in range(n) if j != i)
        F[i] = (base - rest) / c[i]
        F[i] = (F[i] + F[i].T) / 2
        B = None
    else:
        B = base + sum(F[j] * c[j] for j in range(n))
        B = (B + B.T) / 2
    r = margin / math.sqrt(sum(float(np.abs(np.linalg.eigvalsh(f)).max()) ** 2 for f in F))
    return F, B, r * 0.999


# ----------------------------------------------------------------- client


class Done(Exception):
    pass


class Client:
    """Calls the real solver again and again; counts accepted queries."""

    def __init__(self, plan, ctx, oracle):
        self.plan, self.ctx, self.o = plan, ctx, oracle
        self.faults = list(plan["faults"])
        self.accepted = 0
        self.obj = None
        self.cur = None
        self.n = 0
        self.last_ok = None
        self.best = None
        self.goal = None
        self.gs = plan["gs"]

    def _go(self, name, *a):
        f = self.cur
        if self.goal is not None and self.best is not None and self.goal(self.best[1]):
            # the promised gap is reached: the client hangs up
            raise Done()
        if f is not None and f["k"] != "budget" and self.n == f["gap"]:
            self.obj = EXCS[f["exc"]]("injected")
            if f["k"] == "reply":
                getattr(self.o, name)(*a)
            raise self.obj
        self.n += 1
        x = np.array(a[0])
        r = getattr(self.o, name)(*a)
        self.accepted += 1
        if self.gs != 1.0 and r is not None:
            # the same constraints in other units
            g, b = r if name == "assess_feas" else r[0]
            cut = (g * self.gs, tuple(v * self.gs for v in b) if isinstance(b, tuple) else b * self.gs)
            r = cut if name == "assess_feas" else (cut, r[1])
        if name == "assess_optim_q":
            self.ctx.ev("dq:" + ("cut" if r[2] is None else "better") + ("R" if a[2] else ""), x)
            if r[2] is not None:
                self.best = (np.array(r[1]), float(r[2]))
            return r
        if name == "assess_feas":
            self.ctx.ev("q:" + ("ok" if r is None else "cut"), x)
            if r is None:
                self.last_ok = x
        else:
            self.ctx.ev("q:" + ("cut" if r[1] is None else "better"), x)
            if r[1] is not None:
                self.best = (x, float(r[1]))
        return r

    def assess_feas(self, x):
        return self._go("assess_feas", x)

    def assess_optim(self, x, g):
        return self._go("assess_optim", x, g)

    def assess_optim_q(self, x, g, retry):
        return self._go("assess_optim_q", x, g, retry)

    def update(self, g):
        self.o.update(g)

    def arm(self):
        self.cur = self.faults.pop(0) if self.faults else None
        self.n, self.obj = 0, None
        return self.cur

    def disturbed(self, sp):
        """After a fault: what the client resumes on."""
        f = self.cur
        if f["k"] == "budget":
            self.ctx.fault("budget-exhausted")
        else:
            self.ctx.fault("lost-" + f["k"] + "-" + f["exc"])
        if f["via"]:
            sp = cuts.restore(cuts.store(sp, f["via"]), f["via"])
            self.ctx.fault("restore-" + f["via"])
        return sp


def opts(mi, tol):
    o = Options()
    o.max_iters, o.tolerance = mi, tol
    return o


def lnq(n):
    """minus the log of the exact volume ratio of a central cut."""
    return -(math.log(n / (n + 1.0)) + (n - 1) / 2.0 * math.log(n * n / (n * n - 1.0)))


def bound(n, logvol_over_unitball, r):
    return int(math.floor((logvol_over_unitball - n * math.log(r)) / lnq(n) + 1e-6)) + 1


def run_feas(cl, sp, K, tol):
    while True:
        f = cl.arm()
        left = K + 5 - cl.accepted
        budget = min(f["gap"], left) if f and f["k"] == "budget" else left
        try:
            x, it = cutting_plane_feas(cl, sp, opts(budget, tol))
        except BaseException as e:
            if cl.obj is None or e is not cl.obj:
                raise
            sp = cl.disturbed(sp)
            continue
        if f and f["k"] == "budget" and x is None and it >= budget and budget < left:
            sp = cl.disturbed(sp)
            continue
        return x, it < budget


def run_optim(cl, sp, gamma, K, tol):
    while True:
        f = cl.arm()
        left = K - cl.accepted
        budget = min(f["gap"], left) if f and f["k"] == "budget" else left
        try:
            x, g, it = cutting_plane_optim(cl, sp, gamma, opts(budget, tol))
        except Done:
            cl.ctx.ev("goal-reached")
            return cl.best[1]
        except BaseException as e:
            if cl.obj is None or e is not cl.obj:
                raise
            sp = cl.disturbed(sp)
            gamma = cl.best[1] if cl.best else gamma
            continue
        if x is not None:
            check(cl.best is not None and np.array_equal(x, cl.best[0]) and g == cl.best[1], "unaccepted-point", "returned %s with value %s, the oracle last accepted %s", x, g, cl.best)
        gamma = g
        if f and f["k"] == "budget" and it >= budget and budget < left:
            sp = cl.disturbed(sp)
            continue
        return g


def execute(plan, ctx):
    rs = np.random.RandomState(plan["k"])
    n, kind = plan["n"], plan["kind"]
    x0 = np.array(plan["x0"])
    val = plan["val"]
    if val == "diag":
        val = [float(round(10 ** rs.uniform(0, 2), 3)) for _ in range(n)]
    rad = np.sqrt(np.array(val) if isinstance(val, list) else np.full(n, float(val)))
    s = plan["s"]
    r = s * float(rad.min())
    c = x0 + rad * unit(rs, n) * plan["u"] * (1 - s)
    logv = float(np.sum(np.log(rad)))
    mk = lambda v, x: cuts.make_space(plan["space"], v, x, plan["defer_off"], plan["use_parallel"])
    what = f"{kind} n={n} on {plan['space']}"
    gs2 = plan["gs"] ** 2

    if kind in FEAS:
        sp = mk(val, x0)
        gmin = None
        if kind in ("poly", "thin"):
            o = (Poly if kind == "poly" else Thin)(plan, rs, c, r)
            gmin = min(1.0 if k[0] == "b" else float(np.linalg.norm(k[1])) for k in o.cons)
        elif kind == "resist":
            holder = [sp]
            o = Resist(plan, c, r, lambda: cuts.region(holder[0])[1])
            gmin = 1.0
        else:
            if kind == "lmi0" and float(np.abs(c).max()) < 0.2:
                c = c + np.sign(x0 + 1e-9) * 0.3 * rad
                sp = mk(val, c)
                x0 = c
            F, B, r = planted_lmi(rs, n, c, s, kind == "lmi0")
            r = min(r, s * float(rad.min()))
            o = LMIOracle(F, B) if kind == "lmi" else LMIOldOracle(F, B) if kind == "lmiold" else LMI0Oracle(F)
        K = bound(n, logv, r * 0.9985)
        tol = (plan["tolk"] * (r * gmin) ** 2 if gmin is not None else 1e-20) * gs2
        cl = Client(plan, ctx, o)
        if kind == "resist":
            # the adversary looks at whichever space the client currently uses
            orig = cl.disturbed

            def dist(s_):
                holder[0] = orig(s_)
                return holder[0]

            cl.disturbed = dist
        x, early = run_feas(cl, sp, K, tol)
        if x is None:
            if early:
                check(False, "premature-infeasible", "%s: gave up after %d queries although the ball of radius %.3g around %s is feasible", what, cl.accepted, r, c)
            check(False, "bound-exceeded", "%s: no feasible point after %d accepted queries, the bound is %d", what, cl.accepted, K)
        check(cl.last_ok is not None and np.array_equal(x, cl.last_ok), "unaccepted-point", "%s: returned %s, the oracle accepted %s", what, x, cl.last_ok)
        check(cl.accepted <= K, "bound-exceeded", "%s: feasible point only after %d accepted queries, the bound is %d", what, cl.accepted, K)
        ctx.probe("over_half_of_bound", int(cl.accepted > K / 2))
        return
    if kind == "disc":
        run_disc(plan, ctx, what, x0, val, mk)
        return
    if kind == "empty":
        # two half-spaces with a gap: nothing may be accepted
        a = unit(rs, n)
        b = float(a @ c)
        gap = 0.02 * float(rad.min())

        class Empty:
            def assess_feas(self, x):
                t = float(a @ x)
                v1, v2 = t - b, b + gap - t
                return (a, v1 * plan["theta"]) if v1 >= v2 else (-a, v2 * plan["theta"] if plan["theta"] else 0.0)

        cl = Client(plan, ctx, Empty())
        x, _ = run_feas(cl, mk(val, x0), 120, 1e-20 * gs2)
        check(x is None, "unaccepted-point", "%s: returned %s for an empty problem", what, x)
        return
    if kind == "bs":
        rho = float(rad.min()) * 0.45
        o = Levels(plan, rs, x0, rho)
        eps = plan["eps"] * o.amax * rho
        ball = min(eps / o.amax, rho * 0.45) * 0.999
        K = bound(n, logv, ball)
        cl = Client(plan, ctx, o)
        sp = mk(val, x0)
        ad = BSearchAdaptor(cl, sp, opts(K + 1, 1e-20 * gs2))
        lo, hi = o.v - 3 * eps - 1.0, o.v + 4 * o.amax * rho + 1.0
        btol = eps / 4
        while True:
            cl.arm()
            if cl.cur and cl.cur["k"] == "budget":
                continue
            try:
                g, it = bsearch(ad, (lo, hi), opts(200, btol))
                break
            except BaseException as e:
                if cl.obj is None or e is not cl.obj:
                    raise
                cl.disturbed(sp)
        ctx.ev("bs", g)
        check(g >= o.v, "infeasible-level", "%s: level %s returned, none below %s is feasible", what, g, o.v)
        check(g <= o.v + eps + 2.001 * btol, "level-not-reached", "%s: level %s returned, every level above %s has a ball of radius %.3g", what, g, o.v + eps, ball)
        o.update(g)
        check(o.assess_feas(np.array(ad.x_best)) is None, "unaccepted-point", "%s: the best point %s is not feasible at the returned level %s", what, ad.x_best, g)
        return
    # optimization
    if kind == "lin":
        o = Lin(plan, rs, c, r, x0, rad)
        eps = plan["eps"] * o.delta
        ball = o.r * plan["eps"]
        gmin = min(float(np.linalg.norm(o.A, axis=1).min()), float(np.linalg.norm(o.obj)))
        tol = plan["tolk"] * (ball * gmin) ** 2 * gs2
        K = bound(n, logv, ball * 0.999)
        cl = Client(plan, ctx, o)
        if not plan["tolk"]:
            tol = 1e-20 * gs2
            cl.goal = lambda v: v <= o.fs + eps
        g = run_optim(cl, mk(val, x0), 1e100 if plan["k"] % 2 else o.fs + 10 * abs(o.delta) + 100, K, tol)
        check(cl.best is not None and g <= o.fs + eps * 1.001, "gap-not-reached", "%s: best value %s after %d accepted queries (bound %d), optimum %s, gap allowed %s", what, g, cl.accepted, K, o.fs, eps)
        check(g >= o.fs - 1e-9 * (1 + abs(o.fs)), "better-than-optimal", "%s: best value %s beats the optimum %s", what, g, o.fs)
        return
    if kind in ("profit", "rb"):
        e = plan["eco"]
        eco = Eco(e, kind == "rb")
        params = (e["p"], e["A"], e["k"])
        o = ProfitOracle(params, np.array(e["a"]), np.array(e["v"])) if kind == "profit" else ProfitRbOracle(params, np.array(e["a"]), np.array(e["v"]), tuple(e["e"]))
        xb, fb = eco.best()
        if fb <= 1.0:
            ctx.ev("skip-unprofitable")
            return
        eps = max(plan["eps"], 0.01) * fb
        lev = fb - eps
        ok = lambda y: y[0] <= eco.lk and eco.profit(y) >= lev

        def arm(p, d):
            lo, hi = 0.0, 12.0
            for _ in range(40):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if ok(p + mid * d) else (lo, mid)
            return lo

        ds = [np.array([math.cos(t), math.sin(t)]) for t in np.linspace(0, 2 * math.pi, 9)[:-1]]
        p = xb
        for _ in range(3):
            p = sum(p + arm(p, d) * d for d in ds) / len(ds)
        ball = min(arm(p, d) for d in ds) * math.cos(math.pi / 8) * 0.99
        if not ok(p) or ball < 1e-4:
            ctx.ev("skip-thin")
            return
        start = xb + np.array([-1.0, 0.5]) * plan["u"] * 3
        R = 5.0 + float(np.linalg.norm(p - start)) + ball
        K = bound(2, 2 * math.log(R), ball)
        cl = Client(plan, ctx, o)
        cl.goal = lambda v: v >= lev
        g = run_optim(cl, mk(R * R, start), 0.0, K, 1e-20)
        check(cl.best is not None and g >= lev - 1e-9 * fb, "gap-not-reached", "%s: best profit %s after %d accepted queries (bound %d), optimum %s", what, g, cl.accepted, K, fb)
        check(g <= fb * (1 + 1e-4) + 1e-6, "better-than-optimal", "%s: best profit %s beats the optimum %s", what, g, fb)
        return
    # low-pass
    wp, ws = 0.1 + 0.05 * rs.rand(), 0.35 + 0.1 * rs.rand()
    lp, up = 0.8, 1.25
    mdim = 15 * n
    A = np.array([response(row, mdim) for row in np.eye(n)]).T
    npass, nstop = math.floor(wp * (mdim - 1)) + 1, math.floor(ws * (mdim - 1)) + 1
    nr = lambda M: np.linalg.norm(M, axis=1)

    def rows(cap, t):
        """constraints M y <= h, y = (x, last)"""
        z = [A[:npass], -A[:npass], -A[npass:], A[nstop:]]
        h = [np.full(npass, up), np.full(npass, -lp), np.zeros(mdim - npass)]
        return z, h

    z, h = rows(None, None)
    M = np.vstack([np.hstack([z[0], np.zeros((npass, 1))]), np.hstack([z[1], np.zeros((npass, 1))]), np.hstack([z[2], np.zeros((mdim - npass, 1))]), np.hstack([z[3], -np.ones((mdim - nstop, 1))])])
    hh = np.concatenate(h + [np.zeros(mdim - nstop)])
    R = 4.0
    bx = [(-R / math.sqrt(n) / 2, R / math.sqrt(n) / 2)] * n
    l1 = linprog([0] * n + [1], A_ub=M, b_ub=hh, bounds=[(0, bx[0][1])] + bx[1:] + [(0, None)])
    if l1.status != 0:
        ctx.ev("skip-lp")
        return
    ts = float(l1.fun)
    eps = 0.1 * max(plan["eps"], 0.02) * 5 + 0.02
    G = np.vstack(z)
    g2 = np.concatenate(h + [np.full(mdim - nstop, ts + eps)])
    l2 = linprog([0] * n + [-1], A_ub=np.hstack([G, nr(G)[:, None]]), b_ub=g2, bounds=bx + [(0, 1.0)])
    if l2.status != 0 or -l2.fun < 1e-4:
        ctx.ev("skip-lp")
        return
    ball = float(-l2.fun) * 0.99
    ctr = l2.x[:n]
    if ctr[0] - ball < 0:
        ball = min(ball, ctr[0])
    if ball < 1e-4:
        ctx.ev("skip-lp")
        return
    start = np.zeros(n)
    start[0] = 0.3 * plan["u"]
    R = 1.5 * (float(np.linalg.norm(ctr - start)) + ball) + 0.5
    K = bound(n, n * math.log(R), ball)
    o = LowpassOracle(n, wp, ws, lp, up, ts + 1.0)
    cl = Client(plan, ctx, o)
    cl.goal = lambda v: v <= ts + eps
    g = run_optim(cl, mk(R * R, start), ts + 1.0, K, 1e-20)
    check(cl.best is not None and g <= ts + eps + 1e-9, "gap-not-reached", "%s: best stopband %s after %d accepted queries (bound %d), optimum %s, gap allowed %s", what, g, cl.accepted, K, ts, eps)
    check(g >= ts - 1e-7, "better-than-optimal", "%s: best stopband %s beats the optimum %s", what, g, ts)
