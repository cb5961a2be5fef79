"""The cut world shared by C01-C04: generated cut histories with faults, applied to the
real search spaces, observed only through their public interface."""
import copy
import math
import pickle

import numpy as np
from ellalgo.ell import Ell
from ellalgo.ell_config import CutStatus
from ellalgo.ell_stable import EllStable

from .core import Violation, check

SPACES = {"Ell": Ell, "EllStable": EllStable}
COND_MAX = 1e7


def make_space(kind, val, x0, defer_off=False, use_parallel=True):
    v = np.array(val) if isinstance(val, list) else val
    s = SPACES[kind](v, np.array(x0, dtype=float))
    if defer_off:
        s.no_defer_trick = True
    if not use_parallel:
        getattr(s, "helper", s).use_parallel_cut = False
    return s


def probe_tsq(space, g, flat=False):
    """Squared half-width along g.  A region known to be flat may answer NoEffect (zero width)."""
    c = copy.deepcopy(space)
    st = c.update_central_cut((np.array(g, dtype=float), 0.0))
    if flat and not np.all(np.isfinite(np.asarray(c.xc(), dtype=float))):
        raise Violation("not-finite", f"a central cut along {list(g)} of a flat region turned the centre into {c.xc()}")
    if st != CutStatus.Success:
        if flat:
            return 0.0
        raise Violation("central-cut-refused", f"a central cut along {list(g)} was answered {st}")
    return float(c.tsq())


def region(space):
    """(centre, P) with region = {x: (x-c)^T P^-1 (x-c) <= 1}, rebuilt from tsq probes."""
    xc = np.array(space.xc(), dtype=float)
    n = len(xc)
    P = np.zeros((n, n))
    eye = np.eye(n)
    for i in range(n):
        P[i, i] = probe_tsq(space, eye[i])
    if not (np.all(np.isfinite(P)) and np.all(np.isfinite(xc))):
        return xc, P
    d = np.sqrt(np.maximum(np.diag(P), 1e-300))
    for i in range(n):
        for j in range(i):
            # probe with scaled axes so that both contribute equally
            t = probe_tsq(space, eye[i] / d[i] + eye[j] / d[j])
            P[i, j] = P[j, i] = (t - P[i, i] / d[i] ** 2 - P[j, j] / d[j] ** 2) / 2 * d[i] * d[j]
    return xc, P


def scaled_cond(P):
    d = np.sqrt(np.diag(P))
    if not np.all(d > 0):
        return math.inf
    w = np.linalg.eigvalsh(P / np.outer(d, d))
    if w[0] <= 0:
        return math.inf
    return max(w[-1] / w[0], (d.max() / d.min()) ** 2 / 1e3)


# --------------------------------------------------------------------------- plans


def rfl(rng, lo, hi, nd=4):
    return round(rng.uniform(lo, hi), nd)


def gen_grad(rng, n):
    k = rng.random()
    if k < 0.12:
        g = [0.0] * n
        g[rng.randrange(n)] = rng.choice([1.0, -1.0])
        typ = "f8"
    elif k < 0.27:
        g = [rng.randint(-4, 4) for _ in range(n)]
        if not any(g):
            g[rng.randrange(n)] = 1
        typ = "i8"
    elif k < 0.32:
        g = [round(rng.gauss(0, 1), 3) for _ in range(n)]
        typ = "f4"
    else:
        g = [round(rng.gauss(0, 1), 4) for _ in range(n)]
        if rng.random() < 0.2:
            for i in range(n):
                if rng.random() < 0.5:
                    g[i] = 0.0
        typ = "f8"
    if not any(g):
        g[0] = 1
    if typ == "f8":
        s = 10.0 ** rng.randint(-9, 9) if rng.random() < 0.3 else 1.0
    else:
        s = 1
    return dict(g=g, typ=typ, s=s)


def grad_array(spec):
    g = np.array(spec["g"], dtype=spec["typ"])
    if spec["typ"] == "f8":
        g = g * spec["s"]
    return g


def gen_cut(rng, n, kinds=("bias", "central", "q")):
    kind = rng.choice(kinds)
    op = dict(op=kind, grad=gen_grad(rng, n), a0=0.0, a1=None, form="float")
    r = rng.random()
    if kind == "bias":
        op["a0"] = 0.0 if r < 0.15 else rfl(rng, 0.0, 0.5) if r < 0.7 else rfl(rng, 0.5, 0.95)
        lo = op["a0"]
    elif kind == "central":
        op["a0"] = 0.0 if r < 0.6 else rfl(rng, 0.0, 0.5)
        lo = 0.0
    else:
        if r < 0.1:
            op["a0"] = 0.0
        elif r < 0.4:
            op["a0"] = rfl(rng, 0.0, 0.9)
        elif r < 0.85:
            op["a0"] = rfl(rng, -0.95 / n, 0.0)
        else:
            op["a0"] = rfl(rng, -1.4, -1.05 / n)
        lo = max(op["a0"], 0.0)
    if rng.random() < 0.45:
        r = rng.random()
        if r < 0.15:
            op["a1"] = rfl(rng, 1.01, 3.0)
        elif r < 0.3:
            op["a1"] = round(min(lo + rng.uniform(0.03, 0.12), 0.99), 4)
        elif r < 0.4:
            op["a1"] = rfl(rng, max(0.9, lo + 0.03) if lo < 0.95 else 0.98, 0.999)
        else:
            op["a1"] = rfl(rng, lo + 0.03, max(lo + 0.04, 1.0))
        op["form"] = rng.choice(["list", "tuple", "array"])
    else:
        op["form"] = rng.choice(["float", "float", "npfloat", "int", "list1", "tuple1"])
    if rng.random() < 0.07:
        edgy(rng, n, op)
    return op


def edgy(rng, n, op):
    """Move a cut close to a verdict threshold."""
    d = 10.0 ** rng.uniform(-5.5, -2)
    s = rng.choice([-1, 1])
    r = rng.random()
    if op["op"] == "central":
        op["a1"], op["form"] = round(d * 3 if s < 0 else 1 + d, 9), "list"
    elif r < 0.3:
        op["a0"], op["a1"], op["form"] = round(1 + s * d, 9), None, "float"
    elif r < 0.7:
        op["a0"] = op["a0"] if abs(op["a0"]) < 0.9 else 0.3
        op["a1"], op["form"] = round(max(op["a0"], 0.0) + 10.0 ** rng.uniform(-3.5, -1.5), 9), "list"
    elif r < 0.8 or op["op"] == "bias":
        op["a1"], op["form"] = round(1 + s * d, 9), "list"
        op["a0"] = min(op["a0"], 0.9)
    else:
        op["a0"], op["a1"], op["form"] = round(-1.0 / n + s * d, 9), None, "float"


REJECTS = ["short_grad", "long_grad", "bad_beta", "too_deep", "inverted", "too_shallow", "zero_grad", "negative", "central_neg", "par_too_deep"]


def gen_reject(rng, n):
    why = rng.choice(REJECTS)
    op = dict(op="bias", grad=gen_grad(rng, n), a0=0.0, a1=None, form="float", reject=why)
    if why == "too_deep":
        op["op"] = rng.choice(["bias", "q"])
        op["a0"] = rfl(rng, 1.02, 3.0)
        op["form"] = rng.choice(["float", "list1", "tuple1", "npfloat"])
    elif why == "par_too_deep":
        op["op"] = rng.choice(["bias", "q"])
        op["a0"] = rfl(rng, 1.02, 2.0)
        op["a1"] = round(op["a0"] + rng.uniform(0.05, 1.0), 4)
        op["form"] = rng.choice(["list", "tuple", "array"])
    elif why == "inverted":
        op["op"] = rng.choice(["bias", "q"])
        op["a0"] = rfl(rng, 0.2, 0.9)
        op["a1"] = round(op["a0"] - rng.uniform(0.05, 0.2), 4)
        op["form"] = rng.choice(["list", "tuple"])
    elif why == "too_shallow":
        op["op"] = "q"
        op["a0"] = rfl(rng, -1.5, -1.05 / n)
        if rng.random() < 0.5:
            # 1 + n*a0*a1 <= -0.02 with 0 < a1
            lo = 1.03 / (n * -op["a0"])
            op["a1"] = rfl(rng, lo, lo + 0.8)
            op["form"] = "list"
    elif why == "zero_grad":
        op["op"] = rng.choice(["bias", "q", "central"])
        op["grad"] = dict(g=[0.0] * n, typ=rng.choice(["f8", "i8"]), s=1.0)
        op["a0"] = rng.choice([0.0, 0.5])
    elif why == "negative":
        op["a0"] = rfl(rng, -0.9, -0.01)
    elif why in ("short_grad", "long_grad", "bad_beta"):
        op["op"] = rng.choice(["bias", "q", "central"])
        op["a0"] = rng.choice([0.0, 0.3])
        if why == "bad_beta":
            op["op"] = rng.choice(["bias", "q"])
    elif why == "central_neg":
        op["op"] = "central"
        op["a0"] = -0.9
        op["a1"] = rfl(rng, -0.8, -0.05)
        op["form"] = "list"
    return op


def gen_world(rng, kinds=("bias", "central", "q"), p_fault=0.25, maxops=30, faults=("reject", "redeliver", "rollback", "lost")):
    n = rng.choice([2, 2, 3, 3, 4, 5, 6]) if rng.random() < 0.93 else rng.choice([7, 8, 10, 13])
    if rng.random() < 0.06:
        n = rng.choice([2, 3, 4])
        maxops = 130
    big = rng.random() < 0.015
    if big:  # many dimensions, few cuts
        n, maxops = (rng.choice([16, 20, 24]), 6) if rng.random() < 0.9 else (rng.choice([31, 33, 40]), 3)
    long = not big and rng.random() < 0.02
    if long:  # a long life: cuts so shallow that the region hardly shrinks
        n, maxops = rng.choice([2, 3]), 400
    if rng.random() < 0.65:
        val = rng.choice([1, 10, 1.0, 4.0, round(10 ** rng.uniform(-3, 4), 6)])
    else:
        val = [round(10 ** rng.uniform(-1.5, 1.5), 4) for _ in range(n)] if rng.random() < 0.75 else [rng.randint(1, 20) for _ in range(n)]
    far = rng.choice([1e2, 1e4]) if rng.random() < 0.06 else 1.0
    if rng.random() < 0.1:  # a region of another order of magnitude altogether
        val = 10.0 ** rng.randint(-30, 20)
        far = math.sqrt(val)
    fault_free = rng.random() < 0.3
    enabled = [] if fault_free else [f for f in faults if rng.random() < 0.6]
    ops = []
    lays = []
    if rng.random() < 0.25:
        lays = rng.choice([["buffer"], ["buffer"], ["strided", "reversed", "column", "readonly"], ["buffer", "readonly", "strided"]])
    moves = rng.random() < 0.2
    for _ in range(rng.randint(3, maxops)):
        if moves and rng.random() < 0.12:
            ops.append(dict(op="move", d=[rfl(rng, -1, 1) for _ in range(n)]))
            continue
        if enabled and rng.random() < p_fault:
            f = rng.choice(enabled)
            if f.startswith("reject"):
                ops.append(gen_reject(rng, n))
            elif f == "redeliver":
                ops.append(dict(op="redeliver", back=rng.randint(1, 6)))
            elif f == "rollback":
                ops.append(dict(op=rng.choice(["checkpoint", "rollback", "rollback"]), via=rng.choice(["deepcopy", "pickle"])))
            elif f == "lost":
                ops.append(dict(op="lost"))
        else:
            ops.append(gen_cut(rng, n, kinds))
            if lays and rng.random() < 0.6:
                ops[-1]["lay"] = rng.choice(lays)
            if long and "q" in kinds and rng.random() < 0.97:
                ops[-1].update(op="q", a0=rfl(rng, -0.98 / n, -0.85 / n), a1=None, form="float")
    return dict(n=n, val=val, x0=[rfl(rng, -3, 3, 2) * far if rng.random() < 0.7 else 0.0 for _ in range(n)],
                space=rng.choice(["Ell", "EllStable"]), defer_off=rng.random() < 0.35,
                use_parallel=rng.random() < 0.85, ops=ops)


# --------------------------------------------------------------------------- running


def form_beta(op, b0, b1):
    f = op["form"]
    if b1 is None:
        if f == "npfloat":
            return np.float64(b0)
        if f == "int" and b0 == 0.0:
            return 0
        if f == "list1":
            return [b0]
        if f == "tuple1":
            return (b0,)
        return float(b0)
    if f == "tuple":
        return (b0, b1)
    if f == "array":
        return np.array([b0, b1])
    return [b0, b1]


def method(space, kind):
    return {"bias": space.update_bias_cut, "central": space.update_central_cut, "q": space.update_q}[kind]


def lay_out(how, g, beta, bufs):
    """The same cut in another memory layout, or in the client's one and only buffer."""
    if how == "strided":
        h = np.zeros(2 * len(g), dtype=g.dtype)[::2]
        h[:] = g
    elif how == "reversed":
        h = g[::-1].copy()[::-1]
    elif how == "column":
        h = np.zeros((len(g), 3), dtype=g.dtype, order="C")[:, 1]
        h[:] = g
    elif how == "readonly":
        h = g
        h.flags.writeable = False
    else:
        h = bufs.setdefault((g.dtype.str, len(g)), np.empty_like(g))
        h[:] = g
        if isinstance(beta, (list, np.ndarray)) and len(beta) == 2:
            b = bufs.setdefault(type(beta).__name__, beta)
            b[:] = beta
            beta = b
    return h, beta


def spoil(bufs):
    """The client uses its buffers for something else."""
    for b in bufs.values():
        b[:] = [77] * len(b)


class Cut:
    """A concrete cut: kind, gradient, offsets (b1 None if single) and alphas."""

    def __init__(self, kind, g, b0, b1, tau, op):
        self.kind, self.g, self.b0, self.b1, self.tau, self.op = kind, g, b0, b1, tau, op
        self.a0 = b0 / tau if tau else 0.0
        self.a1 = None if b1 is None else (b1 / tau if tau else 0.0)

    bufs = None

    def args(self):
        why = self.op.get("reject")
        g = self.g.copy()
        how = self.op.get("lay")
        if how and self.bufs is not None and why not in ("short_grad", "long_grad", "bad_beta"):
            return lay_out(how, g, form_beta(self.op, self.b0, self.b1), self.bufs)
        if why == "short_grad":
            return (g[:-1].copy(), float(self.b0))
        if why == "long_grad":
            return (np.concatenate([g, [1.0]]), float(self.b0))
        if why == "bad_beta":
            return (g, "not a number")
        return (g, form_beta(self.op, self.b0, self.b1))


def whiten(P):
    return np.linalg.cholesky(P)


def concrete(op, P, xc, history, n):
    """Turn a plan operation into a Cut relative to the present region; None to skip."""
    if op["op"] == "redeliver":
        if not history:
            return None
        old, oxc = history[-1 - (op["back"] - 1) % len(history)]
        g = np.array(old.g, dtype=float)
        tau = math.sqrt(max(float(g @ P @ g), 0.0))
        shift = float(g @ (xc - oxc))
        b0o = 0.0 if old.kind == "central" else old.b0
        b0 = b0o + shift
        b1 = None if old.b1 is None else old.b1 + shift
        if b1 is not None and b1 < 0.02 * tau:
            b1 = None
        form = "float" if b1 is None else "list"
        return Cut("q", g, b0, b1, tau, dict(form=form, op="q"))
    g = grad_array(op["grad"])
    gf = g.astype(float)
    tau = math.sqrt(max(float(gf @ P @ gf), 0.0))
    b0 = op["a0"] * tau
    b1 = None if op["a1"] is None else op["a1"] * tau
    return Cut(op["op"], g, b0, b1, tau, op)


def near_edge(cut, n, use_parallel, e=1e-3, gap=0.01):
    """True if the cut sits numerically on a verdict threshold (skip: either is fine)."""
    a0 = cut.a0
    if cut.kind == "central":
        if cut.a1 is None or not use_parallel:
            return False
        return abs(cut.a1 - 1) < 1e-6 or abs(cut.a1) < e
    if abs(a0 - 1) < e:
        return True
    if cut.kind == "q" and abs(1 + n * a0) < e * n:
        return True
    if cut.a1 is not None and use_parallel:
        if abs(cut.a1 - a0) < gap:
            return True
        if cut.kind == "q" and cut.a1 < 1 and abs(1 + n * a0 * cut.a1) < e * n:
            return True
        if abs(cut.a1 - 1) < 1e-6:
            return True
    return e >= 1e-3 and a0 > 0.98 and a0 < 1.001


def expected_status(cut, n, use_parallel):
    a0, a1 = cut.a0, cut.a1
    if a1 is not None and not use_parallel:
        a1 = None
    S = CutStatus
    if cut.kind == "central":
        if a1 is not None and a1 < 0:
            return S.NoSoln
        return S.Success
    if a1 is not None:
        if a1 < a0:
            return S.NoSoln
        if a1 < 1:
            if cut.kind == "q" and 1 + n * a0 * a1 <= 0:
                return S.NoEffect
            return S.Success
    if a0 > 1:
        return S.NoSoln
    if cut.kind == "q" and 1 + n * a0 <= 0:
        return S.NoEffect
    return S.Success


def slab(cut, use_parallel_irrelevant=True):
    """Interval of e.u (unit ball coordinates along the gradient) the cut keeps."""
    a0 = 0.0 if cut.kind == "central" else cut.a0
    hi = -a0
    lo = -cut.a1 if cut.a1 is not None else -math.inf
    return max(lo, -1.0), min(hi, 1.0)


def worst_point(L, e, lo, hi, w, Q):
    """Largest (u-w)^T Q^-1 (u-w) over extreme points u of the unit ball with lo<=e.u<=hi."""
    n = len(e)
    Qi = np.linalg.inv(Q)
    lam, V = np.linalg.eigh(Q)
    dirs = [V[:, k] for k in range(n)] + [np.eye(n)[k] for k in range(min(n, 4))]
    worst = -1.0
    vs = []
    for v in dirs:
        v = v - e * (e @ v)
        nv = np.linalg.norm(v)
        if nv > 1e-6:
            vs.append(v / nv)
            vs.append(-v / nv)
    for s in (lo, hi, lo + (hi - lo) * 0.25, (lo + hi) / 2, lo + (hi - lo) * 0.75):
        r = math.sqrt(max(0.0, 1 - s * s))
        for v in vs:
            u = s * e + r * v
            d = u - w
            val = float(d @ Qi @ d)
            if val > worst:
                worst, best = val, u
    # ascent of the convex objective over the slab of the ball from the best start
    u = best
    for _ in range(12):
        q = Qi @ (u - w)
        s = float(e @ q)
        v = q - s * e
        nv = np.linalg.norm(v)
        nq = math.hypot(s, nv)
        if nq == 0:
            break
        t = min(max(s / nq, lo), hi)
        u = t * e + (math.sqrt(max(0.0, 1 - t * t)) * v / nv if nv > 1e-12 else 0.0)
        d = u - w
        val = float(d @ Qi @ d)
        if val <= worst * (1 + 1e-12):
            worst = max(worst, val)
            break
        worst = val
    return worst


def log_vol_bound(a, n):
    """log of the squared volume ratio of the classical (deep, central, shallow) cut."""
    if a >= 1:
        return -math.inf
    if 1 + n * a <= 0:
        return 0.0
    delta = n * n / (n * n - 1.0) * (1 - a * a)
    sigma = 2 * (1 + n * a) / ((n + 1) * (1 + a))
    return n * math.log(delta) + math.log(1 - sigma)


def err_tol(cond, scale=1.0):
    return 1e-7 + 3e-12 * cond * scale


def simplify_world(plan):
    """Simpler variants for the minimiser."""
    if plan.get("mode") == "flat":
        for k, v in (("defer_off", False), ("val", 1.0), ("x0", [0.0] * plan["n"]), ("gap", 0.0), ("hist", []), ("a", 0.1)):
            if plan[k] != v:
                yield {**plan, k: v}
        return
    if plan.get("mode") == "edge":
        for k, v in (("defer_off", False), ("val", 4.0), ("x0", [0.0] * plan["n"]), ("s", 1.0), ("axis", 0), ("form", "list")):
            if plan[k] != v:
                yield {**plan, k: v}
        return
    for k, v in (("defer_off", False), ("use_parallel", True)):
        if plan.get(k) != v:
            yield {**plan, k: v}
    if plan["val"] != 1.0:
        yield {**plan, "val": 1.0}
    if any(plan["x0"]):
        yield {**plan, "x0": [0.0] * plan["n"]}
    for i, op in enumerate(plan["ops"]):
        if "grad" not in op:
            continue
        alts = []
        if op.get("lay"):
            alts.append({**op, "lay": None})
        if op["a1"] is not None:
            alts.append({**op, "a1": None, "form": "float"})
        if op["grad"]["typ"] != "f8" or op["grad"]["s"] != 1.0:
            alts.append({**op, "grad": dict(g=[float(x) for x in op["grad"]["g"]], typ="f8", s=1.0)})
        e = [1.0] + [0.0] * (plan["n"] - 1)
        if op["grad"]["g"] != e and not op.get("reject"):
            alts.append({**op, "grad": dict(g=e, typ="f8", s=1.0)})
        for r in (1, 2):
            if round(op["a0"], r) != op["a0"]:
                alts.append({**op, "a0": round(op["a0"], r)})
        for alt in alts:
            ops = list(plan["ops"])
            ops[i] = alt
            yield {**plan, "ops": ops}


def store(space, via):
    return pickle.dumps(space) if via == "pickle" else copy.deepcopy(space)


def restore(blob, via):
    return pickle.loads(blob) if via == "pickle" else copy.deepcopy(blob)


REFUSALS = {
    "zero_grad": (ValueError,),
    "negative": (AssertionError, ValueError),
    "short_grad": (Exception,),
    "long_grad": (Exception,),
    "bad_beta": (Exception,),
}


def deliver(space, cut):
    """-> CutStatus, or the name of the exception if a malformed cut is refused so.
    An exception for a well-formed cut escapes (and is a violation)."""
    why = cut.op.get("reject")
    try:
        return method(space, cut.kind)(cut.args())
    except Exception as e:
        if why in REFUSALS and isinstance(e, REFUSALS[why]):
            return "raised"
        raise


def usable(reg):
    xc, P = reg
    if not (np.all(np.isfinite(P)) and np.all(np.isfinite(xc))):
        raise Violation("not-finite", f"region is no longer finite: xc={xc} P={P.tolist()}")
    d = np.diag(P)
    return d.min() > 1e-12 * float(xc @ xc) + 1e-150 and d.max() < 1e60 and scaled_cond(P) < COND_MAX


def relative(reg, new):
    """The new region in coordinates where the old one is the unit ball: (w, Q)."""
    xc, P = reg
    xc2, P2 = new
    L = np.linalg.cholesky(P)
    w = np.linalg.solve(L, xc2 - xc)
    A = np.linalg.solve(L, P2)
    Q = np.linalg.solve(L, A.T)
    return L, w, (Q + Q.T) / 2


def unit_dir(L, cut):
    e = L.T @ cut.g.astype(float)
    return e / np.linalg.norm(e)


def same_region(reg, new, tol):
    L, w, Q = relative(reg, new)
    return max(float(np.abs(w).max()), float(np.abs(Q - np.eye(len(w))).max())) <= tol


def tags(cut):
    return cut.kind + ("|" if cut.a1 is None else "||") + ("+" if cut.a0 > 0 else "-" if cut.a0 < 0 else "0")


def move(space, reg, d):
    """Give the region a new centre; the client's array is overwritten afterwards.  -> new region"""
    x = reg[0] + np.linalg.cholesky(reg[1]) @ np.array(d) / len(d)
    want = x.copy()
    space.set_xc(x)
    x[:] = 77.0
    new = region(space)
    check(np.array_equal(new[0], want), "recentred-elsewhere", "set_xc to %s left the centre at %s", want, new[0])
    check(same_region((np.zeros(len(d)), reg[1]), (np.zeros(len(d)), new[1]), 1e-9), "recentring-changed-shape", "set_xc changed the size or shape of the region")
    return new


def play(plan, ctx, space, on_cut, store=store, restore=restore, on_move=None):
    """Run a history on one space.  on_cut(space, cut, old_region, new_region, status)."""
    n = plan["n"]
    bufs = {}
    reg = region(space)
    history = []
    ck = None
    for op in plan["ops"]:
        if not usable(reg):
            ctx.ev("stop-ill-conditioned")
            ctx.probe("stopped_ill_conditioned")
            return space, reg
        if op["op"] == "lost":
            ctx.fault("lost-cut")
            continue
        if op["op"] == "checkpoint":
            ck = (store(space, op["via"]), op["via"], reg, list(history))
            ctx.ev("checkpoint-" + op["via"])
            continue
        if op["op"] == "rollback":
            if ck is None:
                continue
            ctx.fault("crash-restore-" + ck[1])
            space = restore(ck[0], ck[1])
            history = list(ck[3])
            new = region(space)
            check(same_region(ck[2], new, 1e-9), "checkpoint-differs",
                  "the region restored from a checkpoint is not the one that was saved")
            reg = new
            continue
        if op["op"] == "move":
            reg = move(space, reg, op["d"])
            ctx.ev("move", reg[0])
            if on_move:
                on_move(space)
            continue
        cut = concrete(op, reg[1], reg[0], history, n)
        if cut is None:
            continue
        cut.bufs = bufs
        if op.get("lay"):
            ctx.fault("cut-in-" + op["lay"] + ("" if op["lay"] == "buffer" else "-array"))
        if op["op"] == "redeliver":
            ctx.fault("redelivered-cut")
        if op.get("reject"):
            ctx.fault("refusable-cut:" + op["reject"])
        xc_before = reg[0].copy()
        st = deliver(space, cut)
        spoil(bufs)
        new = region(space)
        ctx.ev(tags(cut) + ">" + (st if isinstance(st, str) else st.name), new[0], new[1])
        on_cut(space, cut, reg, new, st)
        if not op.get("reject"):
            history.append((cut, xc_before))
        reg = new
    return space, reg


# --------------------------------------------------------------------------- exact thresholds

EDGES = ["tangent", "just-over", "just-under", "equal", "equal-shallow", "inverted-ulp", "central-flat", "central-empty",
         "second-tangent", "second-outside", "second-tangent-first-tangent", "shallow-threshold", "shallow-over", "shallow-under",
         "central-second-tangent"]


def gen_edge(rng):
    """One cut exactly on a verdict threshold, in a region where every quantity is a small
    dyadic number, after a prelude of faults (refused cuts, restarts, lost cuts)."""
    why = rng.choice(EDGES)
    n = rng.choice([2, 4, 8]) if why.startswith("shallow") else rng.choice([2, 3, 4, 5, 8])
    val = rng.choice([1.0, 4.0, 16.0, 0.25, [float(rng.choice([1, 4, 16, 0.25])) for _ in range(n)]])
    pre = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.5:
            pre.append(gen_reject(rng, n))
        elif r < 0.75:
            pre.append(dict(op="restart", via=rng.choice(["deepcopy", "pickle"])))
        else:
            pre.append(dict(op="lost"))
    kind = "central" if why.startswith("central") else "q" if "shallow" in why else rng.choice(["bias", "q"])
    # a gradient along an axis, or (3, 4) on two axes: the half-width stays exact
    axis = rng.randrange(n)
    axis2 = rng.choice([i for i in range(n) if i != axis]) if rng.random() < 0.5 and not isinstance(val, list) else None
    post = [dict(kind=rng.choice(["bias", "bias", "central", "q"]), g=[rng.choice([0.0, 1.0, -1.0, 3.0, 4.0]) for _ in range(n)], b1=rng.choice([None, None, 0.0, 0.5, 8.0]))
            for _ in range(rng.choice([0, 1, 2, 3]))]
    return dict(mode="edge", post=post, edge=why, kind=kind, n=n, val=val, axis=axis, axis2=axis2, s=rng.choice([1.0, -1.0, 2.0, -0.5, 1, -2]),
                a=rng.choice([0.0, 0.25, 0.5, 0.75]), x0=[float(rng.randint(-3, 3)) for _ in range(n)], form=rng.choice(["list", "tuple", "array"]),
                space=rng.choice(["Ell", "EllStable"]), defer_off=rng.random() < 0.4, use_parallel=True, ops=pre)


def edge_cut(plan):
    """-> (Cut, expected verdict)"""
    n, why, a = plan["n"], plan["edge"], plan["a"]
    tiny = 2.0 ** -40
    S = CutStatus
    a0, a1, want = {
        "tangent": (1.0, None, S.Success),
        "just-over": (1.0 + tiny, None, S.NoSoln),
        "just-under": (1.0 - 2.0 ** -10, None, S.Success),
        "equal": (a, a, S.Success),
        "equal-shallow": (-0.25, -0.25, S.Success),
        "inverted-ulp": (a + tiny, a, S.NoSoln),
        "central-flat": (0.0, 0.0, S.Success),
        "central-empty": (0.0, -tiny, S.NoSoln),
        "second-tangent": (a, 1.0, S.Success),
        "second-outside": (a, 1.0 + tiny, S.Success),
        "second-tangent-first-tangent": (1.0, 1.0, S.Success),
        "shallow-threshold": (-1.0 / n, None, S.NoEffect),
        "shallow-under": (-1.0 / n - tiny, None, S.NoEffect),
        "shallow-over": (-1.0 / n + 2.0 ** -12, None, S.Success),
        "central-second-tangent": (0.0, 1.0, S.Success),
    }[why]
    g = np.zeros(n, dtype=int if isinstance(plan["s"], int) else float)
    g[plan["axis"]] = plan["s"]
    v = plan["val"][plan["axis"]] if isinstance(plan["val"], list) else plan["val"]
    tau = math.sqrt(v) * abs(plan["s"])
    if plan["axis2"] is not None:
        g[plan["axis"]], g[plan["axis2"]] = 3 * plan["s"], 4 * plan["s"]
        tau *= 5
    cut = Cut(plan["kind"], g, a0 * tau, None if a1 is None else a1 * tau, tau, dict(form="float" if a1 is None else plan["form"]))
    return cut, want


def prelude(plan, ctx, space):
    n = plan["n"]
    reg = region(space)
    for op in plan["ops"]:
        if op["op"] == "lost":
            ctx.fault("lost-cut")
        elif op["op"] == "restart":
            ctx.fault("crash-restore-" + op["via"])
            space = restore(store(space, op["via"]), op["via"])
        else:
            ctx.fault("refusable-cut:" + op["reject"])
            st = deliver(space, concrete(op, reg[1], reg[0], [], n))
            ctx.ev("refused", st if isinstance(st, str) else st.name)
            new = region(space)
            check(same_region(reg, new, 1e-9), "refused-cut-moved-region", "a refused cut (%s, %s) changed the region", op["reject"], st)
    return space


def flat_region_ok(plan, cut, space, tol=1e-9):
    """After a successful edge cut: the region is finite, and holds every point of the old region
    that satisfies the cut (a disc orthogonal to the axis, at most a half ball)."""
    n, ax = plan["n"], plan["axis"]
    xc = np.array(space.xc(), dtype=float)
    check(bool(np.all(np.isfinite(xc))), "not-finite", "the centre is no longer finite: %s", xc)
    vals = plan["val"] if isinstance(plan["val"], list) else [plan["val"]] * n
    sgn = 1.0 if plan["s"] > 0 else -1.0
    r = math.sqrt(vals[ax])
    lo, hi = slab(cut)
    E = np.eye(n)
    if plan["axis2"] is not None:
        a2 = plan["axis2"]
        E[ax, ax], E[ax, a2], E[a2, ax], E[a2, a2] = 0.6, 0.8, -0.8, 0.6
    off = E @ (xc - np.array(plan["x0"]))
    pos = sgn * off[ax] / r   # centre along the axis, in radii
    ts = []
    for i in range(n):
        t = probe_tsq(space, E[i], flat=True)
        check(math.isfinite(t) and t >= -tol, "not-finite", "half-width along axis %d is %s after a %s cut", i, t, plan["edge"])
        ts.append(max(t, 0.0))
        if i != ax:
            check(abs(off[i]) <= tol, "lost-point", "the centre left the axis of the cut")
    h = math.sqrt(ts[ax]) / r
    check(pos - h <= lo + 1e-7 and pos + h >= hi - 1e-7, "lost-point",
          "%s: kept interval [%g,%g] but the region spans [%g,%g] along the cut", plan["edge"], lo, hi, pos - h, pos + h)
    # the disc at every level s of the kept interval must be inside
    for s in (lo, hi, (lo + hi) / 2):
        d = 0.0 if h < 1e-7 else (s - pos) / h
        for i in range(n):
            if i == ax:
                continue
            room = max(0.0, 1 - d * d) * ts[i]
            check(room >= (1 - s * s) * vals[i] * (1 - 1e-6) - 1e-9, "lost-point", "%s: disc at level %g sticks out along axis %d (%g < %g)",
                  plan["edge"], s, i, room, (1 - s * s) * vals[i])


def after_edge(plan, ctx, space):
    """Further cuts through the centre of whatever region the edge cut left: the centre
    satisfies them, so they are applied or have no effect, and never raise."""
    for p in plan.get("post", []):
        g = np.array(p["g"])
        if not g.any():
            continue
        try:
            st = method(space, p["kind"])((g, 0.0 if p["b1"] is None else (0.0, p["b1"])))
        except Exception as ex:
            raise Violation("well-formed-cut-raised", f"a {p['kind']} cut through the centre after a {plan['edge']} cut: {type(ex).__name__}: {ex}")
        c = np.array(space.xc(), dtype=float)
        ctx.ev("post>" + st.name, c)
        check(bool(np.all(np.isfinite(c))), "not-finite", "a %s cut through the centre after a %s cut turned the centre into %s", p["kind"], plan["edge"], c)
        check(st != CutStatus.NoSoln, "false-no-solution", "a %s cut through the centre after a %s cut was answered NoSoln although the centre satisfies it", p["kind"], plan["edge"])
        ctx.probe("edge_follow_up")


def play_edge(plan, ctx, spaces, on_verdict):
    """spaces: list of spaces given the same story."""
    spaces = [prelude(plan, ctx, s) for s in spaces]
    cut, want = edge_cut(plan)
    before = [region(s) for s in spaces]
    sts = []
    for s in spaces:
        try:
            sts.append(deliver(s, cut))
        except Exception as e:
            moved = not np.array_equal(np.asarray(s.xc()), np.array(plan["x0"]))
            raise Violation("well-formed-cut-raised", f"{plan['edge']} {cut.kind} cut: {type(e).__name__}: {e}" + (" (centre already moved)" if moved else ""))
    ctx.ev("edge:" + plan["edge"] + ">" + "/".join(s.name for s in sts), *[s.xc() for s in spaces])
    ctx.probe("edge_" + plan["edge"])
    on_verdict(cut, want, sts, before, spaces)
    return spaces


# --------------------------------------------------------------------------- flat regions


def gen_flat(rng):
    """A history that ends in a cut with (nearly) equal offsets along an arbitrary direction,
    which leaves a flat region, followed by redelivered and further cuts."""
    n = rng.choice([2, 2, 3, 3, 4, 5])
    val = rng.choice([1.0, 3.0, 7.3, 40, [round(10 ** rng.uniform(-1, 1), 3) for _ in range(n)]])
    vec = lambda: [round(rng.gauss(0, 1), 4) if rng.random() < 0.85 else 0.0 for _ in range(n)]
    hist = [dict(g=vec(), a=round(rng.uniform(0, 0.5), 3)) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    ops = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.5:
            ops.append(dict(op="again", kind=rng.choice(["bias", "central", "q"]), s=rng.choice([1.0, 1.0, -1.0, 3.0, -0.5]),
                            b1=rng.choice([None, None, 0.0, 0.1, 5.0])))
        elif r < 0.85:
            ops.append(dict(op="other", kind=rng.choice(["bias", "bias", "central", "q"]), g=vec(), y=rng.randrange(50), f=round(rng.uniform(0, 0.8), 3)))
        else:
            ops.append(dict(op="restart", via=rng.choice(["deepcopy", "pickle"])))
    return dict(mode="flat", n=n, val=val, x0=[rfl(rng, -3, 3) for _ in range(n)], hist=hist, g=rng.choice([vec(), [rng.randint(-3, 3) for _ in range(n)]]),
                kind=rng.choice(["bias", "bias", "q", "central"]), a=rng.choice([0.0, 0.3, 0.1, 0.25, 0.7, round(rng.uniform(0, 0.9), 4)]),
                gap=rng.choice([0.0, 0.0, 0.0, 2e-16, 1e-15, 1e-12]), dirs=[vec() for _ in range(3)], ops=ops,
                space=rng.choice(["Ell", "EllStable"]), defer_off=rng.random() < 0.3, use_parallel=True)


def play_flat(plan, ctx):
    n = plan["n"]
    space = make_space(plan["space"], plan["val"], plan["x0"], plan["defer_off"])
    for h in plan["hist"]:
        g = np.array(h["g"])
        if not g.any():
            continue
        space.update_bias_cut((g, h["a"] * math.sqrt(probe_tsq(space, g))))
    xc, P = region(space)
    g = np.array(plan["g"], dtype=float)
    if not g.any() or not usable((xc, P)):
        return
    tau = math.sqrt(float(g @ P @ g))
    a = 0.0 if plan["kind"] == "central" else plan["a"]
    b = a * tau
    R = math.sqrt(float(np.linalg.eigvalsh(P)[-1]))
    # the points kept: a disc, sampled at its centre and rim
    L = np.linalg.cholesky(P)
    e = L.T @ g / tau
    alive = [xc - a * (L @ e)]
    for d in plan["dirs"] + np.eye(n).tolist():
        v = np.array(d) - (np.array(d) @ e) * e
        nv = float(np.linalg.norm(v))
        if nv < 1e-3:
            continue
        for s in (1.0, -1.0):
            alive.append(xc + L @ (-a * e + s * 0.999 * math.sqrt(1 - a * a) * v / nv))

    def give(kind, g, beta, why, must):
        try:
            st = method(space, kind)((g, beta))
        except Exception as ex:
            raise Violation("well-formed-cut-raised", f"{why}: {type(ex).__name__}: {ex}")
        c = np.array(space.xc(), dtype=float)
        ctx.ev("flat:" + why + ">" + st.name, c)
        check(bool(np.all(np.isfinite(c))), "not-finite", "%s: the centre is no longer finite: %s", why, c)
        if must:
            check(st != CutStatus.NoSoln, "false-no-solution", "%s %s cut answered NoSoln although points of the region satisfy it (n=%d)", why, kind, n)
        return st

    def holds(why):
        c = np.array(space.xc(), dtype=float)
        for d in plan["dirs"] + np.eye(n).tolist() + [g.tolist()]:
            d = np.array(d, dtype=float)
            nd = float(np.linalg.norm(d))
            if nd == 0:
                continue
            t = probe_tsq(space, d, flat=True)
            check(math.isfinite(t), "not-finite", "%s: half-width along %s is %s", why, d.tolist(), t)
            w = math.sqrt(max(t, 0.0))
            for y in alive:
                o = abs(float(d @ (y - c)))
                check(o <= w + 1e-5 * nd * R, "lost-point", "%s: a kept point is %g away from the centre along %s, the region only %g", why, o, d.tolist(), w)
        ctx.probe("flat_containment_checked")

    give(plan["kind"], g, [b, b * (1 + plan["gap"])], "equal-offsets", True)
    holds("equal-offsets")
    for op in plan["ops"]:
        if op["op"] == "restart":
            ctx.fault("crash-restore-" + op["via"])
            space = restore(store(space, op["via"]), op["via"])
            continue
        c = np.array(space.xc(), dtype=float)
        if op["op"] == "again":
            ctx.fault("redelivered-cut")
            st = give(op["kind"], op["s"] * g, 0.0 if op["b1"] is None else (0.0, op["b1"] * tau), "redelivered", True)
            if st == CutStatus.Success:
                # the plane of the cut and the flat region coincide up to rounding: which of
                # the points satisfy it is decided by rounding from here on
                alive = []
            holds("redelivered")
            continue
        if not alive:
            continue
        d = np.array(op["g"])
        y = alive[op["y"] % len(alive)]
        o = float(d @ (y - c))
        if not d.any() or abs(o) < 1e-3 * float(np.linalg.norm(d)) * R:
            continue
        if o > 0:
            d, o = -d, -o
        beta = 0.0 if op["kind"] == "central" else op["f"] * -o
        give(op["kind"], d, beta, "further", True)
        alive = [y for y in alive if float(d @ (y - c)) + beta <= -1e-6 * float(np.linalg.norm(d)) * R]
        holds("further")
