"""C11: an interrupted solve resumes on the same trajectory."""
import copy

import numpy as np
from ellalgo.cutting_plane import cutting_plane_feas, cutting_plane_optim
from ellalgo.ell_config import Options
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitRbOracle

from . import cuts, sessions
from .core import SimFault, Violation, check
from .drv import EXCS, rfl

ID = "C11"
QUICK, THOROUGH = 32000, 500000
RULE = ("One evaluation = one feasibility or optimization solve cut into pieces by transient oracle failures (request lost or reply lost), "
        "exhausted budgets, restores of the space from a deep or serialized copy and oracle restarts; the accepted queries, replies and the final "
        "answer must equal, bit for bit, those of the same solve run in one piece.")
REAL = ["cutting_plane_feas", "cutting_plane_optim", "Ell", "EllStable", "LMI, low-pass and profit oracles"]
STUB = ["convex half-space/quadratic oracle in half of the runs", "failure injection in front of the oracle", "checkpoint storage"]
ASSUMPTIONS = ["reply loss and oracle restart only for oracles without a round-robin position", "the client remembers the best value it was told"]
LISTS = [["segs"]]
STATELESS = ["half", "quad", "slab", "slabq", "lmi", "lmiold", "lmi0"]
OWN = ["half", "quad", "slab", "slabq"]
ROBIN = ["profit", "rb", "lowpass"]


def generate(rng):
    kind = rng.choice(STATELESS + ["half", "quad", "quad"] + ROBIN)
    segs = []
    if rng.random() > 0.08:
        for _ in range(rng.randint(1, 8)):
            fail = rng.random() < 0.55
            segs.append(dict(budget=rng.choice([0, 1, 1, 2, 3, 5, 9]), fail=rng.randrange(6) if fail else None, reply=fail and rng.random() < 0.5 and kind in STATELESS,
                             exc=rng.choice(sorted(EXCS)), via=rng.choice([None, None, "deepcopy", "pickle"]),
                             restart=rng.random() < 0.25 and kind in STATELESS, big=fail and rng.random() < 0.5))
    n = rng.choice([2, 3, 4])
    sc = rng.choice([1.0, 1.0, 1.0, 1e-3, 1e-6, 1e4, 2.0 ** -20]) if kind in OWN else 1.0
    val = rng.choice([4.0, 30.0, 200.0])
    if rng.random() < 0.25 and kind in OWN:
        val = [round(rng.uniform(1, 40), 2) * rng.choice([1.0, 1.0, 1e-3]) for _ in range(n)]
    elif rng.random() < 0.15:
        val = rng.choice([1e-2, 1e-4, 1e4, 1e6])
    return dict(sc=sc, use_parallel=rng.random() > 0.3, kind=kind, n=n, k=rng.randrange(10 ** 6), space=rng.choice(["Ell", "EllStable"]), defer_off=rng.random() < 0.2,
                val=val, tol=rng.choice([1e-20, 1e-8, 1e-3]), total=rng.choice([5, 20, 40, 40, 60]), segs=segs,
                shared=sessions.gen_shared(rng), x0=[rfl(rng, -2, 2) for _ in range(n)])


def simplify(plan):
    for k, v in (("space", "Ell"), ("defer_off", False), ("kind", "half"), ("kind", "quad"), ("total", 5), ("total", 20), ("tol", 1e-20), ("sc", 1.0), ("use_parallel", True), ("val", 30.0)):
        if plan[k] != v:
            yield {**plan, k: v}
    for i, s in enumerate(plan["segs"]):
        for k, v in (("via", None), ("restart", False), ("fail", None), ("reply", False), ("budget", 1)):
            if s[k] != v:
                ss = list(plan["segs"])
                ss[i] = {**s, k: v}
                yield {**plan, "segs": ss}


class Half:
    def __init__(self, n, k, sc):
        self.A = np.random.RandomState(k).randn(3, n)
        self.c = np.array([0.1, 0.2, -0.3]) * sc

    def assess_feas(self, x):
        v = self.A @ x - self.c
        i = int(np.argmax(v))
        return None if v[i] <= 0 else (self.A[i], float(v[i]))


class Slabs:
    """Bounds on both sides of a few linear forms, reported as parallel cuts; for an
    optimization, minimise a linear form over them."""

    def __init__(self, n, k, sc):
        rs = np.random.RandomState(k)
        c = rs.randn(n) * sc
        self.A = rs.randn(n, n)
        w = np.abs(rs.randn(n)) * rs.choice([1e-3, 0.05, 0.5, 2.0], size=n) * sc
        self.lo, self.hi = self.A @ c - w, self.A @ c + 0.7 * w
        self.f = rs.randn(n)

    def assess_feas(self, x):
        v = self.A @ x
        for i in range(len(v)):
            if v[i] > self.hi[i]:
                return self.A[i], (float(v[i] - self.hi[i]), float(v[i] - self.lo[i]))
            if v[i] < self.lo[i]:
                return -self.A[i], (float(self.lo[i] - v[i]), float(self.hi[i] - v[i]))
        return None

    def assess_optim(self, x, gamma):
        cut = self.assess_feas(x)
        if cut:
            return cut, None
        f = float(self.f @ x)
        if f < gamma:
            return (self.f, 0.0), f
        return (self.f, f - gamma), None


class Quad:
    """minimise -gamma: maximise gamma = -|x-c|^2 over half-spaces."""

    def __init__(self, n, k, sc):
        rs = np.random.RandomState(k)
        self.c = rs.randn(n) * sc
        self.A = rs.randn(2, n)
        self.b = self.A @ self.c + np.array([-0.3, 0.4]) * sc

    def assess_optim(self, x, gamma):
        v = self.A @ x - self.b
        i = int(np.argmax(v))
        if v[i] > 0:
            return (self.A[i], float(v[i])), None
        d = x - self.c
        f = float(d @ d)
        if f < gamma:
            return (2 * d if np.any(d) else np.ones(len(d)), 0.0), f
        return (2 * d if np.any(d) else np.ones(len(d)), f - gamma), None


def make(plan):
    sh = sessions.build_shared(plan["shared"])
    k = plan["kind"]
    if k == "half":
        return Half(plan["n"], plan["k"], plan["sc"]), plan["n"], np.array(plan["x0"]) * plan["sc"], None
    if k == "quad":
        return Quad(plan["n"], plan["k"], plan["sc"]), plan["n"], np.array(plan["x0"]) * plan["sc"], 1e6 * plan["sc"] ** 2
    if k in ("slab", "slabq"):
        return Slabs(plan["n"], plan["k"], plan["sc"]), plan["n"], np.array(plan["x0"]) * plan["sc"], None if k == "slab" else 1e6 * plan["sc"]
    if k == "lmi":
        return LMIOracle(sh["F"], sh["B"]), sh["n"], sh["x0"], None
    if k == "lmiold":
        return LMIOldOracle(sh["F"], sh["B"]), sh["n"], sh["x0"], None
    if k == "lmi0":
        return LMI0Oracle(sh["F0"]), sh["n"], sh["x0"], None
    if k == "profit":
        return ProfitOracle(sh["params"], sh["elas"], sh["price"]), 2, sh["xp"], 0.0
    if k == "rb":
        return ProfitRbOracle(sh["params"], sh["elas"], sh["price"], sh["vparams"]), 2, sh["xp"], 0.0
    nd = sh["nd"]
    return LowpassOracle(nd, 0.12, 0.35, 0.8, 1.2, 0.3), nd, np.zeros(nd), 0.3


class Link:
    """The client's link to its oracle: loses requests or replies, remembers improvements."""

    def __init__(self, inner, log):
        self.inner, self.log = inner, log
        self.fail = None
        self.reply = False
        self.exc = None
        self.obj = None
        self.n = 0
        self.best = None

    def _go(self, name, *a):
        if self.fail is not None and self.n == self.fail:
            self.fail = None
            self.obj = EXCS[self.exc]("injected")
            if self.reply:
                getattr(self.inner, name)(*a)
            raise self.obj
        self.n += 1
        x = np.array(a[0])
        r = getattr(self.inner, name)(*a)
        self.log.append((name, sessions.b(a), sessions.b(r)))
        if name == "assess_optim" and r[1] is not None:
            self.best = (x, r[1])
        return r

    def assess_feas(self, x):
        return self._go("assess_feas", x)

    def assess_optim(self, x, g):
        return self._go("assess_optim", x, g)


def opts(mi, tol):
    o = Options()
    o.max_iters, o.tolerance = mi, tol
    return o


def one(plan, segs, ctx=None):
    """Run to completion in the given pieces -> (log, answer, stop, xc, tsq)."""
    inner, n, x0, gamma = make(plan)
    feas = gamma is None
    log = []
    link = Link(inner, log)
    val = plan["val"]
    val = [v * plan["sc"] ** 2 for v in val] if isinstance(val, list) else val * plan["sc"] ** 2
    sp = cuts.make_space(plan["space"], val, x0, plan["defer_off"], plan["use_parallel"])
    left = plan["total"]
    segs = list(segs)
    ans, stop = None, "budget"
    while True:
        seg = segs.pop(0) if segs else None
        if seg is None:
            budget = left
        else:
            budget = left if seg["big"] else min(seg["budget"], left)
            link.fail, link.reply, link.exc = seg["fail"], seg["reply"], seg["exc"]
        link.n = 0
        link.obj = None
        before = len(log)
        try:
            res = cutting_plane_feas(link, sp, opts(budget, plan["tol"] * plan["sc"] ** 2)) if feas else cutting_plane_optim(link, sp, gamma, opts(budget, plan["tol"] * plan["sc"] ** 2))
        except BaseException as e:
            if link.obj is None or e is not link.obj:
                raise
            ctx.fault(("lost-reply-" if seg["reply"] else "lost-request-") + seg["exc"])
            res = None
            used = len(log) - before
        link.fail = None
        if res is not None:
            if not feas and link.best is not None:
                check(res[1] == link.best[1], "best-value-lost", "returned best value %s, the last improvement was %s", res[1], link.best[1])
                if res[0] is not None:
                    check(np.array_equal(res[0], link.best[0]), "best-point-wrong", "returned best point %s, the last improvement was at %s", res[0], link.best[0])
            if (feas and res[0] is not None):
                ans, stop = np.array(res[0]), "found"
                break
            if res[-1] < budget:
                stop = "stopped"
                break
            used = budget
            if ctx and seg is not None:
                ctx.fault("budget-exhausted")
        if link.best is not None:
            gamma = link.best[1]
        left -= used
        if left <= 0 and not segs:
            break
        if seg is None and res is not None:
            break
        if seg and seg["via"]:
            sp = cuts.restore(cuts.store(sp, seg["via"]), seg["via"])
            ctx.fault("restore-" + seg["via"])
        if seg and seg["restart"]:
            link.inner = make(plan)[0]
            ctx.fault("oracle-restart")
    if not feas:
        ans = link.best
    return log, ans, stop, np.array(sp.xc()), float(sp.tsq())


def execute(plan, ctx):
    want = one(plan, [])
    got = one(plan, plan["segs"], ctx)
    for ent in got[0]:
        ctx.ev(ent[0] + (":none" if ent[2] is None else ":cut"), str(ent[1]))
    ctx.ev("end:" + got[2], got[3])
    ctx.probe("ended_" + got[2])
    for i, (x, y) in enumerate(zip(want[0], got[0])):
        if x != y:
            raise Violation("trajectory-differs", f"{plan['kind']} on {plan['space']}: accepted query {i} differs from the uninterrupted solve: {str(x)[:150]} / {str(y)[:150]}")
    check(len(want[0]) == len(got[0]), "trajectory-differs", "%s on %s: %d accepted queries, uninterrupted %d (ended %s / %s)", plan["kind"], plan["space"], len(got[0]), len(want[0]), got[2], want[2])
    check(want[2] == got[2], "ending-differs", "ended %s, uninterrupted %s", got[2], want[2])
    check(sessions.b(want[1]) == sessions.b(got[1]), "answer-differs", "answer %s, uninterrupted %s", got[1], want[1])
    check(sessions.b(want[3]) == sessions.b(got[3]), "space-differs", "final centre %s, uninterrupted %s", got[3], want[3])
    if want[0]:
        check(want[4] == got[4], "space-differs", "final half-width %s, uninterrupted %s", got[4], want[4])
