"""C15: profit oracles give valid cuts and true profits after any history."""
import math

import numpy as np
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle

from .core import Violation, check, run_interrupted
from .drv import rfl

ID = "C15"
QUICK, THOROUGH = 18000, 300000
RULE = ("One evaluation = long-lived profit, robust profit and discrete profit oracles over one random economy, queried in a seeded order by "
        "clients that reuse buffers, with queries abandoned at any statement or inside expressions, stale retries and foreign queries in "
        "between; answers are checked against independent formulas and sampled at-least-as-profitable points.")
REAL = ["ProfitOracle", "ProfitRbOracle", "ProfitQOracle"]
STUB = ["clients"]
ASSUMPTIONS = ["levels >= 0, elasticities > 0 with sum < 1", "points within 1e-9 of a bound are not judged for acceptance"]
LISTS = [["queries"]]


def generate(rng):
    eco = dict(p=rfl(rng, 10, 40, 1), A=rfl(rng, 10, 60, 1), k=rfl(rng, 2.5, 60, 1), a=[rfl(rng, 0.05, 0.45), rfl(rng, 0.05, 0.5)],
               v=[rfl(rng, 3, 40, 1), rfl(rng, 3, 40, 1)],
               e=[rfl(rng, 0, 0.04), rfl(rng, 0, 0.04), rfl(rng, 0, 2, 2), rfl(rng, 0, 1.2, 2), rfl(rng, 0, 2, 2)])
    if rng.random() < 0.25:  # another currency
        u = rng.choice([1e-6, 1e-4, 1e3, 1e6])
        eco["p"] *= u
        eco["v"] = [v * u for v in eco["v"]]
        eco["e"][2] *= u
        eco["e"][4] *= u
    ff = rng.random() < 0.25
    qs = []
    for _ in range(rng.randint(2, 10)):
        o = rng.choice(["std", "rb", "q", "q"])
        r = rng.random()
        if r < 0.5:
            x = dict(k="opt", d=[rfl(rng, -0.4, 0.4), rfl(rng, -0.4, 0.4)])
        elif r < 0.75:
            x = dict(k="opt", d=[rfl(rng, -3, 3), rfl(rng, -3, 3)])
        elif r < 0.85:
            x = dict(k="lim", d=[rng.choice([-0.05, -1e-6, 1e-6, 0.05, 0.5]), rfl(rng, -2, 3)])
        else:
            x = dict(k="abs", d=[rng.choice([0.0, -0.0, 1.0, 1e-12, -1e-12, rfl(rng, -3, 4), rfl(rng, -3, 4), rfl(rng, -3, 4)]) for _ in range(2)])
        if qs and rng.random() < 0.16:
            x = qs[-1]["x"]
            if rng.random() < 0.5:  # the previous point, moved by a hair
                h = 10.0 ** -rng.randint(2, 8)
                x = {**x, "h": [h * rng.choice([0, 1, -1, 0.5]), h * rng.choice([0, 1, -1, 0.5])]}
                o = qs[-1]["o"]
        f = None
        if not ff and rng.random() < 0.35:
            f = dict(frac=round(rng.random(), 4), op=rng.random() < 0.5)
        qs.append(dict(o=o, x=x, lev=rng.choice([0.0, "own", "own", "frac", "frac", "above"] + (["round", "round"] if o == "q" else [])), fr=rfl(rng, 0, 1.1), retry=o == "q" and rng.random() < 0.4,
                       f=f, buf=rng.random() < 0.5))
    return dict(eco=eco, queries=qs, dirs=[[math.cos(t), math.sin(t)] for t in [rng.uniform(0, 6.283) for _ in range(6)]])


def simplify(plan):
    for i, q in enumerate(plan["queries"]):
        for k, v in (("f", None), ("buf", False), ("retry", False), ("lev", 0.0)):
            if q[k] != v:
                qs = list(plan["queries"])
                qs[i] = {**q, k: v}
                yield {**plan, "queries": qs}


class Eco:
    """Independent formulas; rob=True is the worst case."""

    def __init__(self, e, rob):
        self.a = np.array(e["a"])
        self.v = np.array(e["v"])
        self.pA = e["p"] * e["A"]
        self.k = e["k"]
        self.de = np.zeros(2)
        if rob:
            self.pA = (e["p"] - e["e"][2]) * e["A"]
            self.k = e["k"] - e["e"][3]
            self.v = self.v + e["e"][4]
            self.de = np.array(e["e"][:2])
        self.lk = math.log(self.k)

    def profit(self, x):
        rev = self.pA * math.exp(float(self.a @ x) - float(self.de @ np.abs(x)))
        return rev - float(self.v @ np.exp(x))

    def best(self):
        """Maximiser by a safe ascent on a grid (the function is unimodal)."""
        x = np.array([min(0.0, self.lk - 0.1), 0.0])
        step = 1.0
        fx = self.profit(x)
        while step > 1e-5:
            moved = False
            for d in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1)):
                y = x + step * np.array(d, dtype=float)
                y[0] = min(y[0], self.lk)
                if self.profit(y) > fx:
                    x, fx, moved = y, self.profit(y), True
            if not moved:
                step /= 2
        return x, fx

    def slackness(self, x, gamma):
        """min(limit margin, log margin of profit over the level)."""
        cost = float(self.v @ np.exp(x))
        lr = math.log(self.pA) + float(self.a @ x) - float(self.de @ np.abs(x))
        return self.lk - x[0], lr - math.log(gamma + cost)


def good_points(plan, eco, xb, fb, gamma, toward):
    """Points respecting the limit with profit >= gamma: best, and boundary points of the set."""
    if fb < gamma:
        return []
    out = [xb]
    dirs = [np.array(d) for d in plan["dirs"]]
    t = toward - xb
    nt = float(np.linalg.norm(t))
    if nt > 1e-9:
        dirs.append(t / nt)
    for d in dirs:
        lo, hi = 0.0, 12.0
        for _ in range(45):
            mid = (lo + hi) / 2
            y = xb + mid * d
            if y[0] <= eco.lk and eco.profit(y) >= gamma:
                lo = mid
            else:
                hi = mid
        out.append(xb + lo * d)
    return out


def int_points(eco, gamma):
    """Integer input pairs respecting the limit that are more profitable than gamma (a bounded set is sampled)."""
    out = []
    for i in range(1, min(int(eco.k), 12) + 1):
        for j in (1, 2, 3, 4, 6, 8, 12, 20, 40):
            y = np.log(np.array([i, j], dtype=float))
            if eco.profit(y) > gamma + 1e-9 * (abs(gamma) + eco.pA) and y[0] <= eco.lk:
                out.append(y)
    return out


def execute(plan, ctx):
    e = plan["eco"]
    par, el, pr = (e["p"], e["A"], e["k"]), np.array(e["a"]), np.array(e["v"])
    mk = {"std": lambda: ProfitOracle(par, el, pr), "rb": lambda: ProfitRbOracle(par, el, pr, tuple(e["e"])), "q": lambda: ProfitQOracle(par, el, pr)}
    orcs = {k: f() for k, f in mk.items()}
    ecos = {"std": Eco(e, False), "rb": Eco(e, True), "q": Eco(e, False)}
    best = {k: ecos[k].best() for k in ("std", "rb")}
    best["q"] = best["std"]
    buf = np.zeros(2)
    last_ok = False  # a retry is only legal after a completed first query
    for q in plan["queries"]:
        o = q["o"]
        eco, (xb, fb) = ecos[o], best[o]
        if q["x"]["k"] == "opt":
            x = xb + np.array(q["x"]["d"])
        elif q["x"]["k"] == "lim":
            x = np.array([eco.lk + q["x"]["d"][0], q["x"]["d"][1]])
        else:
            x = np.array(q["x"]["d"], dtype=float)
        if "h" in q["x"]:
            x = x + np.array(q["x"]["h"])
        own = eco.profit(x)
        gamma = {"own": max(0.0, own * (1 - 1e-7)), "frac": max(0.0, fb) * q["fr"], "above": max(0.0, own * 1.01),
                 "round": max(0.0, eco.profit(np.log(np.maximum(np.round(np.exp(x)), 1.0))) * (1 - 1e-7))}.get(q["lev"], 0.0)
        gamma = float(gamma)
        retry = bool(q["retry"] and last_ok)
        xa = x.copy()
        if q["buf"]:
            buf[:] = x
            xa = buf
        name = "assess_optim_q" if o == "q" else "assess_optim"
        args = (xa, gamma) + ((retry,) if o == "q" else ())
        f = q["f"]
        if f:
            def mkcall(dry):
                if dry:
                    c = mk[o]()
                    if retry:
                        c.assess_optim_q(x.copy(), gamma, False)
                    return lambda: getattr(c, name)(*args)
                return lambda: getattr(orcs[o], name)(*args)

            out, where, at, tot = run_interrupted(mkcall, f["frac"], opcodes=f["op"])
            if out == "swallowed":
                raise Violation("interrupt-swallowed", f"an interrupt in {where} did not reach the caller")
            ctx.fault("interrupt-" + ("inside-expression" if f["op"] else "at-statement"))
            if o == "q":
                last_ok = False
            continue
        res = getattr(orcs[o], name)(*args)
        if o == "q":
            (g, beta), xq, gnew, more = res
            discrete(plan, ctx, eco, (xb, fb), x, gamma, retry, g, beta, np.array(xq), gnew)
            if retry:
                ctx.fault("retry")
            last_ok = not retry
            continue
        (g, beta), gnew = res
        g = np.asarray(g, dtype=float)
        ctx.ev(o + (":imp" if gnew is not None else ":cut"), x, gamma)
        m1, m2 = eco.slackness(x, gamma)
        if min(m1, m2) > 1e-9:
            check(gnew is not None, "missed-improvement", "%s: %s meets the limit and profit %s reaches %s, but no improvement is reported", o, x.tolist(), own, gamma)
        if min(m1, m2) < -1e-9:
            check(gnew is None, "false-improvement", "%s: improvement reported at %s (limit margin %g, profit %s, level %s)", o, x.tolist(), m1, own, gamma)
        level = gamma
        if gnew is not None:
            check(abs(gnew - own) <= 1e-9 * (abs(own) + eco.pA * math.exp(float(eco.a @ x))), "wrong-profit", "%s: reported profit %s, it is %s", o, gnew, own)
            level = own
            ctx.probe("improvement")
        valid(plan, ctx, o, eco, x, g, float(beta), level, good_points(plan, eco, xb, fb, level, x))
        if gnew is None:
            check(float(beta) >= 0, "negative-depth", "cut depth %s", beta)


def valid(plan, ctx, o, eco, x, g, beta, level, pts):
    check(g.shape == (2,) and np.all(np.isfinite(g)) and math.isfinite(beta), "bad-cut", "cut %s %s", g.tolist(), beta)
    for y in pts:
        lhs = float(g @ (y - x)) + beta
        tol = 1e-7 * (1 + float(np.abs(y - x).sum()) * (1 + float(np.abs(g).max())))
        check(lhs <= tol, "cut-loses-point", "%s at %s level %s: cut %s/%s excludes %s (profit %s) by %g", o, x.tolist(), level, g.tolist(), beta, y.tolist(), eco.profit(y), lhs)
        ctx.probe("points_checked")


def discrete(plan, ctx, eco, bst, x, gamma, retry, g, beta, xq, gnew):
    g, beta = np.asarray(g, dtype=float), float(beta)
    ctx.ev("q" + ("R" if retry else "") + (":imp" if gnew is not None else ":cut"), x, gamma)
    if gnew is not None:
        y = np.exp(xq)
        yi = np.round(y)
        check(float(np.abs(y - yi).max()) <= 1e-9 * float(y.max()) and float(yi.min()) >= 1, "not-integer", "improvement at %s, not positive integers", y.tolist())
        check(xq[0] <= eco.lk + 1e-9, "limit-exceeded", "improvement at %s beyond the limit %s", y.tolist(), eco.k)
        true = eco.profit(xq)
        check(abs(gnew - true) <= 1e-9 * (abs(true) + eco.pA * math.exp(float(eco.a @ xq))), "wrong-profit", "reported profit %s at %s, it is %s", gnew, y.tolist(), true)
        check(true >= gamma - 1e-9 * (abs(gamma) + eco.pA), "false-improvement", "improvement %s below the level %s", true, gamma)
        ctx.probe("discrete_improvement")
    elif not retry and min(eco.slackness(x, gamma)) > 1e-9:
        y = np.exp(x)
        yi = np.maximum(np.round(y), 1.0)
        if float(np.abs(np.abs(y - np.floor(y)) - 0.5).min()) > 1e-9 and min(eco.slackness(np.log(yi), gamma)) > 1e-9:
            raise Violation("missed-improvement", f"discrete query at {x.tolist()}: it and its rounding {yi.tolist()} reach the level {gamma}, but no improvement is reported")
    level = gamma if gnew is None else float(gnew)
    bad = None
    for y in int_points(eco, level):
        lhs = float(g @ (y - x)) + beta
        tol = 1e-7 * (1 + float(np.abs(y - x).sum()) * (1 + float(np.abs(g).max())))
        ctx.probe("integer_points_checked")
        if lhs > tol:
            bad = (y, lhs)
            break
    if bad is None:
        return
    msg = f"discrete cut at {x.tolist()} level {level}: excludes the integer point {np.exp(bad[0]).tolist()} (profit {eco.profit(bad[0])}) by {bad[1]:g}"
    # the listed finding: the cut at the rounded point is moved to xc with the wrong sign
    if flipped(eco, x, xq, gamma, g, beta):
        ctx.known("profitq-rebase-sign", msg)
        ctx.probe("known_rebase_sign")
    else:
        raise Violation("discrete-cut-loses-point", msg)


def flipped(eco, x, xd, gamma, g, beta):
    """True if (g, beta) is a valid cut at xd whose offset was moved by g.(xd-xc)
    instead of g.(xc-xd)."""
    base = beta - float(g @ (xd - x))
    cands = []
    cost = eco.v * np.exp(xd)
    lr = math.log(eco.pA) + float(eco.a @ xd)
    f1 = xd[0] - eco.lk
    f2 = math.log(gamma + cost.sum()) - lr
    if f1 > -1e-9:
        cands.append((np.array([1.0, 0.0]), f1))
    if f2 > -1e-9:
        cands.append((cost / (gamma + cost.sum()) - eco.a, f2))
    if f1 <= 1e-9 and f2 <= 1e-9:
        cands.append((cost / math.exp(lr) - eco.a, 0.0))
    for cg, cb in cands:
        if float(np.abs(cg - g).max()) < 1e-9 * (1 + float(np.abs(cg).max())) and abs(cb - base) < 1e-8 * (1 + abs(cb)):
            return True
    return False
