"""C12: LMI oracles answer truthfully whatever was asked before."""
import numpy as np
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle

from .core import READ_FAULTS, SimFault, Violation, check, run_interrupted
from .drv import rfl
from .p_c13 import FlakyMat
from .sessions import b, rmat

ID = "C12"
QUICK, THOROUGH = 9000, 200000
RULE = ("One evaluation = long-lived LMI oracles of the three forms over one random LMI with planted feasible points, queried by several clients "
        "in a seeded order; queries are abandoned by interrupts at any statement or inside expressions and by failing matrix reads; each "
        "answer is checked against eigenvalues, against feasible and boundary points, against a fresh oracle and across the forms.")
REAL = ["LMIOracle", "LMI0Oracle", "LMIOldOracle", "LDLTMgr"]
STUB = ["clients", "matrix storage (reads may fail)"]
ASSUMPTIONS = ["matrices whose smallest eigenvalue or pivot is within 1e-7 of zero are not judged for acceptance", "matrix size 1..12, 1..8 variables"]
LISTS = [["queries"]]
FORMS = {"std": LMIOracle, "old": LMIOldOracle}


def generate(rng):
    n, m = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 3, 3, 4, 5])
    if rng.random() < 0.04:
        n, m = rng.choice([3, 6, 8]), rng.choice([6, 7, 9, 12])
    diag = rng.random() < 0.35

    def mat():
        if diag:
            return np.diag([round(rng.gauss(0, 1), 2) for _ in range(m)])
        return np.array(rmat(rng, m))

    F = [mat() for _ in range(n)]
    xs = [rfl(rng, -1.5, 1.5, 2) for _ in range(n)]
    S = np.eye(m) * rng.choice([0.05, 0.3, 1.0])
    if not diag:
        G = np.array([[rng.gauss(0, 0.6) for _ in range(m)] for _ in range(m)])
        S = S + G @ G.T
    B = (np.tensordot(np.array(xs), np.array(F), 1) + S).round(5)
    # homogeneous form: sum F0_k x_k > 0 at xs (first coordinate positive)
    x0s = [rng.choice([0.5, 1.0, 2.0])] + [rfl(rng, -1, 1, 2) for _ in range(n - 1)]
    F0 = [mat() for _ in range(n)]
    F0[0] = ((S - np.tensordot(np.array(x0s[1:]), np.array(F0[1:]), 1) if n > 1 else S) / x0s[0]).round(5)
    typ = rng.random() < 0.12
    if typ:  # integer data
        F, F0 = [np.array(f).round() for f in F], [np.array(f).round() for f in F0]
        xs, x0s = [float(round(v)) for v in xs], [1.0] + [float(round(v)) for v in x0s[1:]]
        S = np.eye(m) * rng.randint(1, 3)
        B = np.tensordot(np.array(xs), np.array(F), 1) + S
        F0[0] = S - np.tensordot(np.array(x0s[1:]), np.array(F0[1:]), 1) if n > 1 else S
    ff = rng.random() < 0.25
    qs = []
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        if r < 0.25:
            x = dict(k="near", d=[rfl(rng, -0.2, 0.2) for _ in range(n)])
        elif r < 0.8:
            x = dict(k="near", d=[rfl(rng, -3, 3) for _ in range(n)])
        elif r < 0.9:
            x = dict(k="int", d=[rng.randint(-3, 3) for _ in range(n)])
        else:
            x = dict(k="far", d=[rfl(rng, -50, 50) for _ in range(n)])
        f = None
        if not ff and rng.random() < 0.4:
            f = rng.choice([dict(k="read", at=rng.randrange(1 + 2 * n * m), exc=rng.choice(READ_FAULTS)), dict(k="interrupt", frac=round(rng.random(), 4), op=rng.random() < 0.5)])
        if qs and rng.random() < 0.12:
            x = qs[-1]["x"]
        qs.append(dict(o=rng.choice(["std", "std", "old", "zero"]), i=rng.randrange(2), x=x, f=f, buf=rng.random() < 0.5))
        if rng.random() < 0.06:
            # two queries a hair apart, on either side of the feasible set's boundary
            d, h, sg = [rfl(rng, -1, 1) for _ in range(n)], 10.0 ** -rng.randint(3, 11), rng.choice([1, -1])
            for t in (sg, -sg):
                qs.append({**qs[-1], "x": dict(k="edge", d=d, h=t * h), "f": None})
    return dict(n=n, m=m, F=[f.tolist() for f in F], B=B.tolist(), F0=[f.tolist() for f in F0], xs=xs, x0s=x0s, queries=qs, typ="i8" if typ else "f8",
                e=rng.choice([0, 0, 0, 0, 10] if typ else [0, 0, 0, 0, 0, -60, -34, -20, 12, 40]),
                dirs=[[rfl(rng, -1, 1) for _ in range(n)] for _ in range(3)])


def simplify(plan):
    for i, q in enumerate(plan["queries"]):
        alts = []
        if q["f"]:
            alts.append({**q, "f": None})
        if q["buf"]:
            alts.append({**q, "buf": False})
        if q["i"]:
            alts.append({**q, "i": 0})
        for a in alts:
            qs = list(plan["queries"])
            qs[i] = a
            yield {**plan, "queries": qs}
    if plan["e"]:
        yield {**plan, "e": 0}
    if plan["dirs"]:
        yield {**plan, "dirs": []}


def pivots_f(A):
    A = np.array(A, dtype=float)
    m = len(A)
    out = []
    for i in range(m):
        d = A[i, i]
        out.append(float(d))
        if d <= 0:
            break
        if i + 1 < m:
            l = A[i + 1:, i] / d
            A[i + 1:, i + 1:] -= np.outer(l, A[i, i + 1:])
    return out


def boundary(matf, y, d):
    """Largest step along d from the feasible y that keeps the matrix psd (at most 20)."""
    lo, hi = 0.0, 20.0
    if np.linalg.eigvalsh(matf(y + hi * d))[0] >= 0:
        return y + hi * d
    for _ in range(50):
        mid = (lo + hi) / 2
        if np.linalg.eigvalsh(matf(y + mid * d))[0] >= 0:
            lo = mid
        else:
            hi = mid
    return y + lo * d


def execute(plan, ctx):
    n, m = plan["n"], plan["m"]
    ctl = dict(n=0, at=None)

    # the caller's units: everything the oracle sees is multiplied by an exact power of two
    us = 2.0 ** plan["e"]

    def unit(a, typ):
        return (np.array(a, dtype=float) * us).astype(typ)

    def flaky(a):
        f = unit(a, plan["typ"]).view(FlakyMat)
        f.ctl = ctl
        return f

    F = [flaky(f) for f in plan["F"]]
    B = flaky(plan["B"])
    F0 = [flaky(f) for f in plan["F0"]]
    Fp, Bp, F0p = [np.array(f, dtype=float) for f in plan["F"]], np.array(plan["B"], dtype=float), [np.array(f, dtype=float) for f in plan["F0"]]
    Fs, Bs, F0s = [unit(f, float) for f in plan["F"]], unit(plan["B"], float), [unit(f, float) for f in plan["F0"]]
    mk = {"std": lambda: LMIOracle(F, B), "old": lambda: LMIOldOracle(F, B), "zero": lambda: LMI0Oracle(F0)}
    mkp = {"std": lambda: LMIOracle(Fs, Bs), "old": lambda: LMIOldOracle(Fs, Bs), "zero": lambda: LMI0Oracle(F0s)}
    pool = {k: [mk[k](), mk[k]()] for k in mk}
    matf = {"std": lambda y: Bp - np.tensordot(y, np.array(Fp), 1), "zero": lambda y: np.tensordot(y, np.array(F0p), 1)}
    matf["old"] = matf["std"]
    seeds = {"std": np.array(plan["xs"]), "zero": np.array(plan["x0s"])}
    pts = {}
    for k in ("std", "zero"):
        y = seeds[k]
        if np.linalg.eigvalsh(matf[k](y))[0] <= 0:
            pts[k] = []
            continue
        pts[k] = [y] + [boundary(matf[k], y, s * np.array(d)) for d in plan["dirs"] if any(d) for s in (1, -1)]
    pts["old"] = pts["std"]
    seeds["old"] = seeds["std"]
    buf = np.zeros(n)
    for q in plan["queries"]:
        form = q["o"]
        orc = pool[form][q["i"]]
        if q["x"]["k"] == "near":
            x = seeds[form] + np.array(q["x"]["d"])
        elif q["x"]["k"] == "edge":
            if not pts[form] or not any(q["x"]["d"]):
                continue
            dd = np.array(q["x"]["d"])
            x = boundary(matf[form], seeds[form], dd) + q["x"]["h"] * dd
            ctx.probe("boundary_straddled")
        elif q["x"]["k"] == "int":
            x = np.array(q["x"]["d"])
        else:
            x = np.array(q["x"]["d"])
        f = q["f"]
        if q["buf"]:
            # the client reuses one array, as a search space does with its centre
            buf[:] = x
            x = buf
        if f and f["k"] == "read":
            ctl.update(n=0, at=f["at"], exc=f["exc"])
            try:
                cut = orc.assess_feas(x)
                ctx.ev("read-fault-not-reached")
                fresh = mkp[form]().assess_feas(x.copy())
                check(b(cut) == b(fresh), "history-dependent", "with a failing matrix read the %s oracle answers %s, a fresh one %s at %s", form, b(cut), b(fresh), x.tolist())
            except SimFault:
                ctx.fault("matrix-read-failed")
            ctl["at"] = None
            continue
        if f:
            ctl["at"] = None
            out, where, at, tot = run_interrupted(lambda dry: (lambda: (mk[form]() if dry else orc).assess_feas(x)), f["frac"], opcodes=f["op"])
            if out == "swallowed":
                raise Violation("interrupt-swallowed", f"an interrupt in {where} did not reach the caller")
            ctx.fault("interrupt-" + ("inside-expression" if f["op"] else "at-statement"))
            continue
        cut = orc.assess_feas(x)
        fresh = mkp[form]().assess_feas(x.copy())
        ctx.ev(form + (":none" if cut is None else ":cut"), b(cut) if cut is None else b(cut[0]))
        check(b(cut) == b(fresh), "history-dependent", "%s oracle answers %s, a fresh one %s at %s", form, b(cut), b(fresh), x.tolist())
        xf = x.astype(float)
        A = matf[form](xf)
        sc = 1.0 + float(np.abs(A).max())
        lam = float(np.linalg.eigvalsh(A)[0])
        piv = pivots_f(A)
        if lam > 1e-7 * sc:
            check(cut is None, "rejected-feasible", "%s oracle rejects %s although its matrix is positive definite (smallest eigenvalue %g)", form, x.tolist(), lam)
            ctx.probe("accepted")
            continue
        if lam < -1e-7 * sc:
            check(cut is not None, "accepted-infeasible", "%s oracle accepts %s although its matrix has eigenvalue %g", form, x.tolist(), lam)
        if cut is None:
            continue
        g, ep = np.asarray(cut[0], dtype=float) / us, float(cut[1]) / us
        check(g.shape == (n,), "bad-cut", "gradient of shape %s", g.shape)
        check(ep >= 0, "negative-depth", "cut depth %s", ep)
        clear = min(abs(p) for p in piv) > 1e-7 * sc
        if lam < -1e-7 * sc and clear:
            check(ep > 0, "point-not-cut", "the cut does not exclude the infeasible point %s (depth %s)", x.tolist(), ep)
        if not clear:
            ctx.probe("near_singular_skipped")
            continue
        d = seeds[form] - xf
        more = [boundary(matf[form], seeds[form], -g / max(1e-12, float(np.linalg.norm(g)))), boundary(matf[form], seeds[form], g / max(1e-12, float(np.linalg.norm(g))))] if pts[form] else []
        for y in pts[form] + more:
            lhs = float(g @ (y - xf)) + ep
            tol = 1e-6 * (ep + float(np.linalg.norm(g)) * (1 + float(np.linalg.norm(y - xf))))
            check(lhs <= tol, "cut-loses-feasible-point", "%s oracle at %s: cut g=%s depth=%s excludes the feasible point %s by %g", form, x.tolist(), g.tolist(), ep, y.tolist(), lhs)
            ctx.probe("feasible_points_checked")
        ctx.probe("cut_checked")
        if form in ("std", "old"):
            other = mkp["old" if form == "std" else "std"]().assess_feas(x)
            check(other is not None, "forms-disagree", "standard and explicit-matrix forms disagree at %s", x.tolist())
            if other is not None and min(abs(p) for p in piv) > 1e-5 * sc:
                g2, e2 = np.asarray(other[0], dtype=float) / us, float(other[1]) / us
                cond = sc / min(abs(p) for p in piv)
                t = 1e-9 * cond * cond
                check(abs(e2 - ep) <= t * (ep + sc) and float(np.abs(g2 - g).max()) <= t * (1 + float(np.abs(g).max())), "forms-disagree",
                      "standard and explicit-matrix forms give (%s, %s) and (%s, %s) at %s", g.tolist(), ep, g2.tolist(), e2, x.tolist())
                ctx.probe("forms_compared")
