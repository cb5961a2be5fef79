"""C13: a reused factorization manager gives a fresh, certified answer."""
from fractions import Fraction

import numpy as np
from ellalgo.oracles.ldlt_mgr import LDLTMgr

from .core import READ_FAULTS, SimFault, SimInterrupt, Violation, check, run_interrupted, sim_fault

ID = "C13"
QUICK, THOROUGH = 30000, 400000
RULE = ("One evaluation = one or two long-lived factorization managers serving a seeded sequence of matrices (definite, failing at a chosen "
        "leading block, singular), with element reads that fail, interrupts at any statement or inside expressions, and poisoned elements "
        "outside the failing block; every completed answer is checked against exact rational pivots and against a fresh manager.")
REAL = ["LDLTMgr"]
STUB = ["the client and its matrix storage (element reads may fail)"]
ASSUMPTIONS = ["pivots closer to zero than 1e-7 of the matrix scale are judged only when they are exactly zero and computed exactly", "dimension 1..14"]
LISTS = [["ops"]]


def rpd(rng, m):
    G = np.array([[rng.randint(-3, 3) for _ in range(m)] for _ in range(m)])
    A = G @ G.T + np.eye(m, dtype=int) * rng.randint(1, 4)
    return A


def gen_matrix(rng, m):
    r = rng.random()
    A = rpd(rng, m)
    if r < 0.3:
        kind = "pd"
    elif r < 0.75:
        # leading block of size k fails: lower its last diagonal
        k = rng.randint(1, m)
        A[k - 1, k - 1] -= rng.choice([A[k - 1, k - 1], A[k - 1, k - 1] + rng.randint(1, 9), 40, 200])
        kind = "fail"
    elif r < 0.85:
        A = np.diag([rng.choice([1, 2, 5, 0, -1]) for _ in range(m)])
        kind = "diag"
    else:
        A = np.array([[rng.randint(-4, 4) for _ in range(m)] for _ in range(m)])
        A = A + A.T
        kind = "sym"
    return A.tolist()


def gen_scale(rng, m):
    """Exponents e: the matrix used is diag(2^e) A diag(2^e), exact in floating point."""
    r = rng.random()
    if r < 0.5:
        return [0] * m
    if r < 0.8:
        return [rng.choice([-60, -25, -18, -10, 5, 12, 40])] * m
    return [rng.randint(-20, 20) for _ in range(m)]


def generate(rng):
    m = rng.choice([1, 2, 3, 3, 4, 5, 6, 7]) if rng.random() < 0.95 else rng.choice([9, 11, 14])
    ff = rng.random() < 0.25
    ops = []
    for _ in range(rng.randint(2, 9)):
        op = dict(mgr=rng.randrange(2), A=gen_matrix(rng, m), e=gen_scale(rng, m), via=rng.choice(["get", "get", "mat", "semi"]), f=None,
                  W=[[rng.randint(-3, 3) for _ in range(m)] for _ in range(m)], poison=rng.choice(["raise", "nan", None]), order=rng.randrange(3))
        if not ff and rng.random() < 0.45:
            op["f"] = rng.choice([dict(k="read", at=rng.randrange(m * (m + 1) // 2), exc=rng.choice(READ_FAULTS)), dict(k="interrupt", frac=round(rng.random(), 4), op=rng.random() < 0.5)])
        ops.append(op)
    return dict(m=m, ops=ops)


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        for k, v in (("e", [0] * plan["m"]), ("f", None), ("poison", None), ("mgr", 0), ("order", 0), ("via", "get")):
            if op[k] != v:
                ops = list(plan["ops"])
                ops[i] = {**op, k: v}
                yield {**plan, "ops": ops}


def pivots(A):
    """Exact pivots of LDL^T up to and including the first non-positive one.
    -> (list of Fractions, exact_in_floats)"""
    m = len(A)
    M = [[Fraction(v) for v in row] for row in A]
    piv = []
    exact = True
    for i in range(m):
        d = M[i][i]
        piv.append(d)
        if d <= 0:
            break
        for r in range(i + 1, m):
            f = M[r][i] / d
            if f:
                if Fraction(float(f)) != f:
                    exact = False
                for c in range(i + 1, m):
                    M[r][c] -= f * M[i][c]
                    if Fraction(float(M[r][c])) != M[r][c]:
                        exact = False
    return piv, exact


class Elems:
    """Element storage: fails at the n-th read, or when an element outside the allowed block is read."""

    def __init__(self, A, limit=None, fail_at=None, poison=None, exc="SimFault"):
        self.exc = exc
        self.A, self.limit, self.fail_at, self.poison = A, limit, fail_at, poison
        self.n = 0

    def __call__(self, i, j):
        if self.limit is not None and (i >= self.limit or j >= self.limit):
            if self.poison == "raise":
                raise Violation("read-outside-block", f"element ({i},{j}) read although the leading block of size {self.limit} already fails")
            if self.poison == "nan":
                return float("nan")
        if self.fail_at is not None and self.n == self.fail_at:
            self.n += 1
            raise sim_fault(self.exc, "element read failed")
        self.n += 1
        return self.A[i, j]


class FlakyMat(np.ndarray):
    def __getitem__(self, key):
        ctl = getattr(self, "ctl", None)
        if ctl is not None and isinstance(key, tuple):
            if ctl["n"] == ctl["at"]:
                ctl["n"] += 1
                raise sim_fault(ctl.get("exc", "SimFault"), "matrix read failed")
            ctl["n"] += 1
        r = np.ndarray.__getitem__(self, key)
        return np.asarray(r) if isinstance(r, np.ndarray) else r


def invoke(mgr, op, A, fail_at=None, limit=None):
    exc = op["f"].get("exc", "SimFault") if op["f"] else "SimFault"
    if op["via"] == "mat":
        M = A.copy()
        if limit is not None and op["poison"]:
            M[limit:, :] = np.nan
            M[:, limit:] = np.nan
        if fail_at is not None:
            M = M.view(FlakyMat)
            M.ctl = dict(n=0, at=fail_at, exc=exc)
        return lambda: mgr.factorize(M)
    el = Elems(A, limit, fail_at, op["poison"], exc)
    if op["via"] == "semi":
        el.limit = None
        return lambda: mgr.factor_with_allow_semidefinite(el)
    return lambda: mgr.factor(el)


def observe(mgr, ok, op, W):
    """Everything a client can ask after a factorization."""
    out = [bool(ok), bool(mgr.is_spd())]
    if op["order"] and ok == out[1]:
        # the certificate of the opposite verdict does not exist and must be refused
        try:
            r = mgr.witness() if ok else mgr.sqrt()
        except Exception:
            pass
        else:
            raise Violation("false-certificate", "%s handed out for a matrix judged %s" % (("witness value %s" % r, "definite") if ok else ("a square root", "not definite")))
    if ok:
        try:
            R = mgr.sqrt()
            out.append(R)
        except ValueError:
            out.append("sqrt-error")
    else:
        ep = mgr.witness()
        out += [float(ep), tuple(int(v) for v in mgr.pos), np.array(mgr.wit[mgr.pos[0]:mgr.pos[1]])]
        if op["order"] == 1:
            ep2 = mgr.witness()
            check(float(ep2) == float(ep), "witness-not-repeatable", "asking for the witness twice gives %s and %s", ep, ep2)
        out.append(float(mgr.sym_quad(W)))
        if op["order"] == 2:
            out.append(float(mgr.sym_quad(W)))
    return out


def eq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray):
            if not (isinstance(y, np.ndarray) and x.tobytes() == y.tobytes()):
                return False
        elif isinstance(x, float) and isinstance(y, float):
            if x != y and not (x != x and y != y):
                return False
        elif x != y:
            return False
    return True


def execute(plan, ctx):
    m = plan["m"]
    mgrs = [LDLTMgr(m), LDLTMgr(m)]
    last = {}
    for op in plan["ops"]:
        S = np.exp2(np.array(op["e"], dtype=float))
        B = np.array(op["A"], dtype=float)
        A = B * np.outer(S, S)
        W = np.array(op["W"], dtype=float)
        mgr = mgrs[op["mgr"]]
        piv, exact = pivots(op["A"])
        scale = max(1e-300, float(np.abs(B).max()))
        close = [p for p in piv if abs(float(p)) < 1e-7 * scale]
        clear = not close or (exact and all(p == 0 for p in close))
        fails = piv[-1] <= 0
        f = op["f"]
        if f and f["k"] == "read":
            try:
                ok = invoke(mgr, op, A, fail_at=f["at"])()
                ctx.ev("read-fault-not-reached")
                if clear and op["via"] != "semi":
                    check(bool(ok) == (not fails), "wrong-definiteness", "with a failing element read, factor says %s for %s (exact pivots %s)", ok, op["A"], [str(p) for p in piv])
            except SimFault:
                ctx.fault("element-read-failed")
            last.pop(op["mgr"], None)
            continue
        if f:
            out, where, at, tot = run_interrupted(lambda dry: invoke(LDLTMgr(m) if dry else mgr, op, A), f["frac"], opcodes=f["op"])
            if out == "swallowed":
                raise Violation("interrupt-swallowed", f"an interrupt in {where} did not reach the caller")
            ctx.fault("interrupt-" + ("inside-expression" if f["op"] else "at-statement"))
            last.pop(op["mgr"], None)
            continue
        lim = len(piv) if (fails and clear) else None
        ok = invoke(mgr, op, A, limit=lim)()
        obs = observe(mgr, ok, op, W)
        fresh = LDLTMgr(m)
        okf = invoke(fresh, op, A, limit=lim)()
        obsf = observe(fresh, okf, op, W)
        ctx.ev(op["via"] + (":spd" if ok else ":fail%d" % mgr.pos[1]), str(obs[:3]))
        check(eq(obs, obsf), "history-dependent", "answer %s differs from a fresh manager's %s for %s", short(obs), short(obsf), op["A"])
        ctx.probe("compared_fresh")
        # another manager's earlier answer is still intact
        for k, (o2, W2, obs2) in last.items():
            if k != op["mgr"]:
                check(eq(observe(mgrs[k], obs2[0], o2, W2), obs2), "other-manager-disturbed", "a factorization on one manager changed another's answer")
        last[op["mgr"]] = (op, W, obs)
        if op["via"] == "semi" and not ok:
            # wherever it restarted: the witness certifies the block it names
            ep, (st, en), v, q = obs[2:6]
            u = v * S[st:en]
            quad, mag = float(u @ B[st:en, st:en] @ u), float(u @ u) * scale * m
            check(0 <= st < en <= m and len(v) == en - st and ep > 0, "wrong-block", "failing block (%d,%d), value %s", st, en, ep)
            check(abs(quad + ep) <= 1e-6 * (mag + ep), "witness-wrong", "v^T A v = %s on block (%d,%d), reported %s, v = %s", quad, st, en, -ep, v.tolist())
            ctx.probe("semi_witness_checked")
        if not clear or (op["via"] == "semi" and any(p == 0 for p in piv)):
            continue
        check(obs[0] == obs[1], "is_spd-disagrees", "factor returned %s, is_spd() says %s", obs[0], obs[1])
        check(ok == (not fails), "wrong-definiteness", "factor says %s for %s scaled by 2^%s (exact pivots before scaling %s)", ok, op["A"], op["e"], [str(p) for p in piv])
        tol = 1e-6 * scale * m
        if ok:
            R = obs[2] if isinstance(obs[2], str) else obs[2] / S[None, :]
            check(not isinstance(R, str), "sqrt-failed", "sqrt() failed on a positive definite matrix")
            check(np.all(np.isfinite(R)) and float(np.abs(np.tril(R, -1)).max() if m > 1 else 0) == 0.0, "sqrt-not-upper", "R is not upper triangular: %s", R.tolist())
            check(float(np.abs(R.T @ R - B).max()) <= tol, "sqrt-wrong", "R^T R differs from the matrix by %g", float(np.abs(R.T @ R - B).max()))
            ctx.probe("sqrt_checked")
        else:
            ep, pos, v, q = obs[2:6]
            k = len(piv)
            check(ep >= 0, "negative-depth", "witness value %s is negative", ep)
            check(pos[1] - pos[0] == len(v) and pos[1] == k and pos[0] == 0, "wrong-block", "failing block reported as %s, it is (0,%d)", pos, k)
            u = v * S[:k]
            quad = float(u @ B[:k, :k] @ u)
            vs = float(u @ u) * scale * m
            check(abs(quad + ep) <= 1e-6 * (vs + ep), "witness-wrong", "v^T A v = %s, reported %s, v = %s", quad, -ep, v.tolist())
            qq = float(v @ W[:k, :k] @ v)
            check(abs(qq - q) <= 1e-6 * (float(v @ v) * 3 * m + 1e-300), "sym_quad-wrong", "sym_quad gives %s, v^T W v is %s", q, qq)
            check(np.any(v), "witness-wrong", "the witness is zero")
            ctx.probe("witness_checked")


def short(o):
    return str([x.tolist() if isinstance(x, np.ndarray) else x for x in o])[:200]
