"""C14: the low-pass oracle checks every grid constraint on every query."""
import math

import numpy as np
from ellalgo.oracles.lowpass_oracle import LowpassOracle

from .core import Violation, check, run_interrupted
from .drv import rfl

ID = "C14"
QUICK, THOROUGH = 14000, 250000
RULE = ("One evaluation = one long-lived low-pass oracle over a specification built around planted filters (often so that one point violates "
        "exactly one grid constraint), queried in a seeded order by clients that reuse buffers, with queries abandoned at any statement or "
        "inside expressions; every answer is checked against all grid constraints and against planted specification-meeting points.")
REAL = ["LowpassOracle"]
STUB = ["clients"]
ASSUMPTIONS = ["points within 1e-9 of a bound are not judged for acceptance", "after an abandoned optimization query the stopband level may be the old or the new one",
               "2..9 coefficients"]
LISTS = [["queries"]]


def response(x, mdim):
    w = np.linspace(0, np.pi, mdim)
    n = len(x)
    return x[0] + 2 * np.cos(np.outer(w, np.arange(1, n))) @ np.asarray(x)[1:]


def autocorr(h):
    n = len(h)
    return np.convolve(h, h[::-1])[n - 1:]


def bands(n, wpass, wstop):
    mdim = 15 * n
    return mdim, math.floor(wpass * (mdim - 1)) + 1, math.floor(wstop * (mdim - 1)) + 1


def generate(rng):
    n = rng.choice([2, 3, 3, 4, 5, 6, 7, 9]) if rng.random() < 0.94 else rng.choice([12, 16, 20, 32])
    wpass = round(rng.choice([0.0, rng.uniform(0.02, 0.5), rng.uniform(0.02, 0.3)]), 3)
    wstop = round(rng.choice([wpass, rng.uniform(wpass, 0.94), rng.uniform(wpass, min(0.9, wpass + 0.3))]), 3)
    mdim, npass, nstop = bands(n, wpass, wstop)
    if rng.random() < 0.6:
        # a low-pass shape: the all-ones filter is a crude one
        h = [1.0 / n + rng.gauss(0, 0.15 / n) for _ in range(n)]
    else:
        h = [rng.gauss(0, 0.5) for _ in range(n)]
    r = autocorr(np.array(h))
    R = response(r, mdim)
    mg = rng.choice([1e-6, 0.01, 0.1, 0.5])
    lp = float(R[:npass].min()) * (1 - mg)
    up = float(R[:npass].max()) * (1 + mg) + 1e-6
    sp = float(max(R[nstop:].max(), 1e-6)) * (1 + mg)
    ff = rng.random() < 0.25
    qs = []
    targets = []
    single = rng.choice([None, "up", "lp", "sp", "negstop", "negtrans", "x0", "exact"])
    pert = [rng.gauss(0, 0.05) for _ in range(n)]
    if single:
        t = np.array(r) + np.array(pert) * rng.choice([0.02, 0.3])
        T = response(t, mdim)

        def between(vals, largest):
            v = np.sort(vals)
            if len(v) == 1:
                return float(v[0]) - (1e-4 if largest else -1e-4)
            return float((v[-1] + v[-2]) / 2) if largest else float((v[0] + v[1]) / 2)

        if single == "up":
            up = between(T[:npass], True)
            lp = min(lp, float(T[:npass].min()) - 1e-3)
            sp = max(sp, float(T[nstop:].max()) * 1.01 + 1e-6)
        elif single == "lp":
            lp = between(T[:npass], False)
            up = max(up, float(T[:npass].max()) + 1e-3)
            sp = max(sp, float(T[nstop:].max()) * 1.01 + 1e-6)
        elif single == "sp":
            sp = between(T[nstop:], True)
            lp = min(lp, float(T[:npass].min()) - 1e-3)
            up = max(up, float(T[:npass].max()) + 1e-3)
        elif single in ("negstop", "negtrans"):
            seg = T[nstop:] if single == "negstop" else T[npass:nstop]
            if len(seg):
                t[0] -= between(seg, False)
                T = response(t, mdim)
                lp = min(lp, float(T[:npass].min()) - 1e-3)
                up = max(up, float(T[:npass].max()) + 1e-3)
                sp = max(sp, float(T[nstop:].max()) * 1.01 + 1e-6)
        elif single == "x0":
            # meets every response bound, but its mean (the leading coefficient) is negative
            wpass = round(rng.uniform(0.6, 0.8), 3)
            wstop = round(rng.uniform(wpass, 0.94), 3)
            mdim, npass, nstop = bands(n, wpass, wstop)
            t = np.zeros(n)
            t[1] = -rng.choice([1.0, 0.25])
            t[0] = t[1] * 2 * math.cos(math.pi * wpass) * -rng.choice([0.01, 0.2, 0.9])
            if t[0] > 0:
                t[0] = -t[0]
            lp, up, sp = -10.0, 10.0, 10.0
        elif single == "exact":
            # a flat response exactly on a bound meets it
            c = rng.choice([1.0, 0.75, 0.5, 0.0])
            t = np.zeros(n)
            t[0] = c
            w = rng.choice(["up", "lp", "sp", "all"])
            lp = c if w in ("lp", "all") else c - 0.25
            up = c if w in ("up", "all") else c + 0.25
            sp = c if w in ("sp", "all") else c + 0.25
        targets.append([float(v) for v in t])
    for _ in range(rng.randint(2, 10)):
        k = rng.random()
        if targets and k < 0.45:
            x = targets[0]
        elif k < 0.65:
            x = [float(v) for v in r]
        elif k < 0.9:
            s = rng.choice([0.003, 0.03, 0.3])
            x = [float(v + rng.gauss(0, s)) for v in r]
        else:
            x = [float(rng.gauss(0, 1)) for _ in range(n)]
        if qs and rng.random() < 0.1:  # the previous point, moved by a hair
            hair = 10.0 ** -rng.randint(2, 8)
            x = [v + hair * rng.choice([0, 1, -1, 0.5]) for v in qs[-1]["x"]]
        f = None
        if not ff and rng.random() < 0.35:
            f = dict(frac=round(rng.random(), 4), op=rng.random() < 0.5)
        q = dict(x=x, op=rng.choice(["feas", "feas", "optim"]), buf=rng.random() < 0.5, f=f)
        if q["op"] == "optim":
            q["gamma"] = sp * rng.choice([1.0, 1.0, 1.0, 1.0, 1.3, 1.3, 0.8, 0.8, 0.3, 0.0, -0.5])
        qs.append(q)
    return dict(n=n, wpass=wpass, wstop=wstop, lp=lp, up=up, sp=sp, r=[float(v) for v in r], queries=qs, mix=[rfl(rng, 0, 1) for _ in range(4)], exact=single == "exact",
                e=rng.choice([0, 0, 0, 0, 0, -40, -24, -12, 10, 30]),
                others=[[float(v) for v in autocorr(np.array([hh + rng.gauss(0, 0.02) for hh in h]))] for _ in range(3)])


def simplify(plan):
    if plan["e"]:
        yield {**plan, "e": 0}
    for i, q in enumerate(plan["queries"]):
        for k, v in (("f", None), ("buf", False)):
            if q[k] != v:
                qs = list(plan["queries"])
                qs[i] = {**q, k: v}
                yield {**plan, "queries": qs}


def slack(plan, x, sp, geo):
    """Smallest margin over all constraints (negative: violated)."""
    mdim, npass, nstop = geo
    R = response(np.asarray(x, dtype=float), mdim)
    m = [plan["up"] - R[:npass].max(), R[:npass].min() - plan["lp"], x[0]]
    if nstop < mdim:
        m += [sp - R[nstop:].max(), R[nstop:].min()]
    if npass < nstop:
        m.append(R[npass:nstop].min())
    return float(min(m)), R


def candidates(plan, x):
    out = [np.array(plan["r"])] + [np.array(o) for o in plan["others"]]
    base = list(out)
    for t in plan["mix"]:
        out.append(t * base[0] + (1 - t) * base[1])
        out.append(t * base[2] + (1 - t) * base[3])
    return out


def tight(plan, x, level, geo):
    """Points on the boundary of the specification between planted points and the query."""
    out = []
    for base in [np.array(plan["r"])] + [np.array(o) for o in plan["others"][:2]]:
        if slack(plan, base, level, geo)[0] < 0:
            continue
        lo, hi = 0.0, 1.0
        for _ in range(30):
            mid = (lo + hi) / 2
            if slack(plan, base + mid * (x - base), level, geo)[0] >= 0:
                lo = mid
            else:
                hi = mid
        out.append(base + lo * (x - base))
    return out


def execute(plan, ctx):
    n = plan["n"]
    geo = bands(n, plan["wpass"], plan["wstop"])
    mdim, npass, nstop = geo

    us = 2.0 ** plan["e"]  # the caller's units: an exact power of two on points, bounds and levels

    def mk():
        return LowpassOracle(n, plan["wpass"], plan["wstop"], plan["lp"] * us, plan["up"] * us, plan["sp"] * us)

    orc = mk()
    levels = {plan["sp"]}
    buf = np.zeros(n)
    for q in plan["queries"]:
        x = np.array(q["x"], dtype=float)
        xa = x * us
        if q["buf"]:
            buf[:] = xa
            xa = buf
        args = (xa,) if q["op"] == "feas" else (xa, q["gamma"] * us)
        name = "assess_feas" if q["op"] == "feas" else "assess_optim"
        f = q["f"]
        if f:
            out, where, at, tot = run_interrupted(lambda dry: (lambda: getattr(mk() if dry else orc, name)(*args)), f["frac"], opcodes=f["op"])
            if out == "swallowed":
                raise Violation("interrupt-swallowed", f"an interrupt in {where} did not reach the caller")
            ctx.fault("interrupt-" + ("inside-expression" if f["op"] else "at-statement"))
            if q["op"] == "optim":
                levels = levels | {q["gamma"]} if out != "done" else {q["gamma"]}
            continue
        res = getattr(orc, name)(*args)
        if q["op"] == "optim":
            levels = {q["gamma"]}
            cut, gam = res
            check(cut is not None, "no-cut", "assess_optim returned no cut")
            accepted = gam is not None
        else:
            cut, gam = res, None
            accepted = cut is None
        if gam is not None:
            gam = gam / us
        if cut is not None:
            cut = (cut[0], np.asarray(cut[1], dtype=float) / us)
        ctx.ev(q["op"] + (":acc" if accepted else ":cut"), x)
        if len(levels) > 1:
            ctx.probe("level_unknown")
            lo, hi = min(levels), max(levels)
            s_any, _ = slack(plan, x, hi, geo)
            s_all, _ = slack(plan, x, lo, geo)
            if s_any < -1e-9:
                check(not accepted, "accepted-violating", "accepted a point violating the specification by %g", -s_any)
            if s_all > 1e-9:
                check(accepted, "rejected-meeting", "rejected a point meeting the specification with margin %g", s_all)
            continue
        (sp,) = levels
        s, R = slack(plan, x, sp, geo)
        if s < -1e-9:
            check(not accepted, "accepted-violating", "accepted a point that violates the specification by %g (pass %s, stop %s, grid %d)", -s, npass, nstop, mdim)
        if s > 1e-9:
            check(accepted, "rejected-meeting", "rejected a point meeting every bound with margin %g", s)
        if plan["exact"] and s == 0.0 and not np.any(x[1:]):
            check(accepted, "rejected-meeting", "rejected a flat response %s exactly on a bound (lower %s, upper %s, stop %s)", x[0], plan["lp"], plan["up"], sp)
            ctx.probe("exactly_on_a_bound")
        ctx.probe("acc" if accepted else "rej")
        if accepted and q["op"] == "feas":
            continue
        g = np.asarray(cut[0], dtype=float)
        b = np.atleast_1d(np.asarray(cut[1], dtype=float))
        check(g.shape == (n,) and np.all(np.isfinite(g)) and np.any(g), "bad-cut", "gradient %s", g.tolist())
        check(len(b) in (1, 2) and np.all(np.isfinite(b)), "bad-cut", "offsets %s", b.tolist())
        level = sp
        if accepted:
            true = float(R[nstop:].max())
            check(abs(gam - true) <= 1e-9 * (1 + abs(true)), "wrong-level", "reported stopband maximum %s, it is %s", gam, true)
            level = true
            ctx.probe("level_checked")
        else:
            check(b[0] >= 0, "negative-depth", "cut depth %s", b[0])
            if s < -1e-9:
                check(b[0] > 0, "point-not-cut", "the cut does not exclude the point")
        for y in candidates(plan, x) + tight(plan, x, level, geo):
            sy, _ = slack(plan, y, level, geo)
            if sy < 0:
                # pull towards the planted filter until it meets the specification
                t = 1.0
                base = np.array(plan["r"])
                if slack(plan, base, level, geo)[0] < 0:
                    continue
                for _ in range(12):
                    t /= 2
                    z = base + t * (y - base)
                    if slack(plan, z, level, geo)[0] >= 0:
                        y = z
                        break
                else:
                    continue
            d = float(g @ (y - x))
            tol = 1e-8 * (1 + float(np.abs(y - x).sum()))
            check(d + b[0] <= tol, "cut-loses-point", "the cut (offsets %s) excludes a point meeting the specification by %g", b.tolist(), d + b[0])
            if len(b) == 2:
                check(d + b[1] >= -tol, "cut-loses-point", "the second plane (offsets %s) excludes a point meeting the specification by %g", b.tolist(), -(d + b[1]))
                check(b[1] >= b[0] - tol, "bad-cut", "contradictory offsets %s", b.tolist())
            ctx.probe("points_checked")
