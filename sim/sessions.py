"""Complete client sessions (a solve or computation on real library code) that record
everything they observe.  Used for concurrency (C10) and input/result integrity (C16)."""
import numpy as np
from ellalgo.conjugate_gradient import conjugate_gradient
from ellalgo.cutting_plane import BSearchAdaptor, bsearch, cutting_plane_feas, cutting_plane_optim, cutting_plane_optim_q
from ellalgo.ell import Ell
from ellalgo.ell_config import CutStatus, Options
from ellalgo.ell_stable import EllStable
from ellalgo.oracles.ldlt_mgr import LDLTMgr
from ellalgo.oracles.lmi0_oracle import LMI0Oracle
from ellalgo.oracles.lmi_old_oracle import LMIOldOracle
from ellalgo.oracles.lmi_oracle import LMIOracle
from ellalgo.oracles.lowpass_oracle import LowpassOracle
from ellalgo.oracles.profit_oracle import ProfitOracle, ProfitQOracle, ProfitRbOracle
from ellalgo.oracles.spectral_fact import inverse_spectral_fact, spectral_fact

KINDS = ["feas_lmi", "feas_lmiold", "feas_lmi0", "feas_half", "optim_profit", "optim_rb", "optim_lowpass", "optim_q", "bs_lmi",
         "ldlt", "cg", "spectral", "space"]


def b(x):
    """Bitwise image of any observed value."""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, CutStatus):
        return x.name
    if isinstance(x, np.ndarray):
        return x.dtype.str + x.tobytes().hex()
    if isinstance(x, (tuple, list)):
        return [b(v) for v in x]
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    return float(x).hex()


def rmat(rng, m, sym=True, nd=2, s=1.0):
    a = [[0.0] * m for _ in range(m)]
    for i in range(m):
        for j in range(i + 1):
            a[i][j] = a[j][i] = round(rng.gauss(0, s), nd)
    return a


def gen_shared(rng):
    """Read-only inputs shared by all sessions of a run."""
    n, m = rng.choice([2, 3]), rng.choice([2, 3])
    F = [rmat(rng, m) for _ in range(n)]
    x = [round(rng.uniform(-1, 1), 2) for _ in range(n)]
    B = (np.tensordot(np.array(x), np.array(F), 1) + np.eye(m) * round(rng.uniform(0.2, 1.5), 2)).round(4).tolist()
    F0 = [(np.eye(m) * round(rng.uniform(0.2, 1), 2) + 0.5 * np.array(rmat(rng, m))).round(4).tolist()] + [rmat(rng, m) for _ in range(n - 1)]
    G = np.array([[rng.gauss(0, 1) for _ in range(m)] for _ in range(m)])
    A = (G @ G.T + np.eye(m)).round(4).tolist()
    return dict(n=n, m=m, F=F, B=B, F0=F0, A=A, S=rmat(rng, m), rhs=[round(rng.gauss(0, 1), 3) for _ in range(m)],
                x0=[round(rng.uniform(-2, 2), 2) for _ in range(n)], xp=[0.0, 0.0] if rng.random() < 0.5 else [round(rng.uniform(0, 3), 2), round(rng.uniform(0, 2), 2)],
                diag=[round(rng.uniform(1, 30), 2) for _ in range(n)],
                h=[round(rng.uniform(-1, 1), 3) for _ in range(rng.randint(2, 5))], nd=rng.choice([3, 4, 5]),
                elas=[0.1, 0.4] if rng.random() < 0.5 else [round(rng.uniform(0.05, 0.45), 3), round(rng.uniform(0.05, 0.45), 3)],
                price=[round(rng.uniform(5, 40), 1), round(rng.uniform(5, 40), 1)],
                params=[round(rng.uniform(10, 30), 1), round(rng.uniform(20, 60), 1), round(rng.uniform(5, 40), 1)],
                vparams=[0.003, 0.007, 1.0, 1.0, 1.0], iters=rng.randint(1, 25), tol=rng.choice([1e-20, 1e-8, 1e-3]))


def build_shared(s):
    d = {k: np.array(s[k], dtype=float) for k in ("B", "A", "S", "rhs", "x0", "xp", "diag", "h", "elas", "price")}
    d["F"] = [np.array(f) for f in s["F"]]
    d["F0"] = [np.array(f) for f in s["F0"]]
    d["r"] = inverse_spectral_fact(d["h"])
    d["r"][0] += 0.05
    o = Options()
    o.max_iters, o.tolerance = s["iters"], s["tol"]
    d["opt"] = o
    d["params"], d["vparams"] = tuple(s["params"]), tuple(s["vparams"])
    d["n"], d["m"], d["nd"] = s["n"], s["m"], s["nd"]
    return d


def gen_session(rng, kind=None):
    return dict(kind=kind or rng.choice(KINDS), space=rng.choice(["Ell", "EllStable"]), val=rng.choice([4.0, 20.0, "diag"]),
                opt=rng.random() < 0.85, defer_off=rng.random() < 0.2, use_parallel=rng.random() < 0.8, k=rng.randrange(1000))


class Rec:
    """Records a session's traffic with its oracle."""

    def __init__(self, inner, log, guard=None, nest=None):
        self.inner, self.log, self.guard, self.nest = inner, log, guard, nest

    def _call(self, name, *a):
        self.log.append((name, b(a)))
        if self.nest:
            self.nest()
        r = getattr(self.inner, name)(*a)
        if self.nest:
            self.nest()
        self.log.append(("reply", b(r)))
        if self.guard:
            self.guard(name, a, r)
        return r

    def assess_feas(self, *a):
        return self._call("assess_feas", *a)

    def assess_optim(self, *a):
        return self._call("assess_optim", *a)

    def assess_optim_q(self, *a):
        return self._call("assess_optim_q", *a)

    def update(self, g):
        self.log.append(("update", b(g)))
        self.inner.update(g)


class LmiLevel:
    """B + gamma*I - sum F x > 0"""

    def __init__(self, F, B):
        self.F, self.B = F, B
        self.o = LMIOracle(F, B)

    def update(self, g):
        self.o = LMIOracle(self.F, self.B + g * np.eye(len(self.B)))

    def assess_feas(self, x):
        return self.o.assess_feas(x)


class Half:
    def __init__(self, n, k):
        self.A = np.random.RandomState(k).randn(3, n)
        self.c = np.array([0.1, 0.2, -0.3])

    def assess_feas(self, x):
        v = self.A @ x - self.c
        i = int(np.argmax(v))
        return None if v[i] <= 0 else (self.A[i], float(v[i]))


def session(spec, sh, guard=None, nest=None):
    """-> function(log) running the whole session; returns the result.  nest() is called
    wherever client code runs in the middle of the session (before and after each oracle
    query is answered, between direct operations): a client may do anything there."""
    kind = spec["kind"]
    step = nest or (lambda: None)

    def mkspace(n, x0):
        val = sh["diag"] if spec["val"] == "diag" and len(sh["diag"]) == n else (20.0 if spec["val"] == "diag" else spec["val"])
        s = {"Ell": Ell, "EllStable": EllStable}[spec["space"]](val, x0)
        if spec["defer_off"]:
            s.no_defer_trick = True
        if not spec["use_parallel"]:
            s.helper.use_parallel_cut = False
        return s

    def run(log):
        k = spec["k"]
        own = (k // 5) % 3  # 0: exactly the shared inputs, else a variation of this session
        B = sh["B"] + 0.25 * own * np.eye(len(sh["B"])) if own else sh["B"]
        A = sh["A"] + 0.5 * own * np.eye(len(sh["A"])) if own else sh["A"]
        F0 = [f * (1.0 + 0.5 * own) for f in sh["F0"]] if own else sh["F0"]
        params = (sh["params"][0], sh["params"][1] * (1 + 0.1 * own), sh["params"][2] + own) if own else sh["params"]
        elas = sh["elas"] * (1.0 - 0.1 * own) if own else sh["elas"]
        price = sh["price"] + own if own else sh["price"]
        opt = (sh["opt"],) if spec["opt"] else ()
        res = None
        if kind.startswith("feas"):
            if kind == "feas_lmi":
                o = LMIOracle(sh["F"], B)
            elif kind == "feas_lmiold":
                o = LMIOldOracle(sh["F"], B)
            elif kind == "feas_lmi0":
                o = LMI0Oracle(F0)
            else:
                o = Half(sh["n"], k)
            sp = mkspace(sh["n"], sh["x0"])
            if not spec["opt"]:
                opt = (sh["opt"],)  # the default budget is too long for a session
            res = cutting_plane_feas(Rec(o, log, guard, nest), sp, *opt)
        elif kind in ("optim_profit", "optim_rb"):
            o = ProfitOracle(params, elas, price) if kind == "optim_profit" else ProfitRbOracle(params, elas, price, sh["vparams"])
            sp = mkspace(2, sh["xp"])
            res = cutting_plane_optim(Rec(o, log, guard, nest), sp, 0.0, *(opt or (sh["opt"],)))
        elif kind == "optim_q":
            sp = mkspace(2, sh["xp"])
            res = cutting_plane_optim_q(Rec(ProfitQOracle(params, elas, price), log, guard, nest), sp, 0.0, *(opt or (sh["opt"],)))
        elif kind == "optim_lowpass":
            lev = 0.05 * (1 + own)
            o = LowpassOracle(sh["nd"], 0.12 + 0.01 * (k % 5), 0.3, 0.9 - 0.02 * own, 1.1 + 0.03 * own, lev)
            r0 = np.zeros(sh["nd"])
            sp = mkspace(sh["nd"], r0)
            res = cutting_plane_optim(Rec(o, log, guard, nest), sp, lev, *(opt or (sh["opt"],)))
        elif kind == "bs_lmi":
            sp = mkspace(sh["n"], sh["x0"])
            ad = BSearchAdaptor(Rec(LmiLevel(sh["F"], B), log, guard, nest), sp, sh["opt"])
            o = Options()
            o.max_iters, o.tolerance = 3, 0.05
            res = bsearch(ad, (-1.0, 3.0 + k % 3) if k % 4 else (-1, 3 + k % 3), o)
            log.append(("x_best", b(np.asarray(ad.x_best))))
        elif kind == "ldlt":
            mgr = LDLTMgr(sh["m"])
            for mat in (A, sh["S"], sh["S"] - (5 + own) * np.eye(sh["m"]), A):
                ok = mgr.factorize(mat)
                log.append(("factor", ok))
                step()
                if ok:
                    log.append(("sqrt", b(mgr.sqrt())))
                else:
                    w = mgr.witness()
                    step()
                    log.append(("wit", b(w), b(mgr.sym_quad(sh["A"])), b(mgr.wit[mgr.pos[0]:mgr.pos[1]])))
                step()
            res = None
        elif kind == "cg":
            x = conjugate_gradient(A, sh["rhs"]) if k % 2 else conjugate_gradient(A, sh["rhs"], np.ones(sh["m"]), 1e-9, 200)
            log.append(("cg", b(x)))
            res = (x,)
        elif kind == "spectral":
            h = spectral_fact(sh["r"])
            log.append(("h", b(h), b(inverse_spectral_fact(h))))
            res = (h,)
        elif kind == "space":
            sp = mkspace(sh["n"], sh["x0"])
            rs = np.random.RandomState(k)
            for _ in range(6):
                g = rs.randn(sh["n"])
                beta = [float(rs.rand() * 0.3), float(0.3 + rs.rand())] if rs.rand() < 0.4 else float(rs.rand() * 0.5)
                st = [sp.update_bias_cut, sp.update_central_cut, sp.update_q][rs.randint(3)]((g, beta))
                step()
                log.append(("cut", st.name, b(sp.xc()), b(sp.tsq())))
            res = (sp.xc().copy(),)
        log.append(("result", b(res)))
        return res

    return run
