"""Driver world for C05-C07: scripted oracle and scripted (or real) search space around
the real cutting-plane drivers, compared with a small executable reference model."""
import copy

import numpy as np
from ellalgo.cutting_plane import cutting_plane_feas, cutting_plane_optim, cutting_plane_optim_q
from ellalgo.ell import Ell
from ellalgo.ell_config import CutStatus, Options
from ellalgo.ell_stable import EllStable
from ellalgo.ell_typing import SearchSpace

from .core import SimFault, SimInterrupt, Violation, check

EXCS = {"SimFault": SimFault, "SimInterrupt": SimInterrupt, "ValueError": ValueError, "StopIteration": StopIteration,
        "AssertionError": AssertionError, "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError, "TypeError": TypeError,
        "TimeoutError": TimeoutError, "MemoryError": MemoryError, "GeneratorExit": GeneratorExit, "RuntimeError": RuntimeError,
        "OverflowError": OverflowError, "FloatingPointError": FloatingPointError, "LinAlgError": np.linalg.LinAlgError,
        "ArithmeticError": ArithmeticError, "IndexError": IndexError, "AttributeError": AttributeError, "OSError": OSError,
        "NotImplementedError": NotImplementedError, "RecursionError": RecursionError, "KeyboardInterrupt": KeyboardInterrupt,
        "SystemExit": SystemExit, "EOFError": EOFError, "UserWarning": UserWarning, "Exception": Exception}


def rfl(rng, lo, hi, nd=3):
    return round(rng.uniform(lo, hi), nd)


def gen_round(rng, n, kind, tol, good):
    r = dict(g=[rfl(rng, -2, 2) for _ in range(n)], b=rfl(rng, 0, 0.2), form=rng.choice(["float", "list", "np", "int0", "pair", "pairl", "paira"]), w=rng.choice([0.0, rfl(rng, 0, 0.5), rfl(rng, 0, 3)]))
    if not any(r["g"]):
        r["g"][0] = 1.0
    x = rng.random()
    if x < good:
        r["status"] = "Success"
    else:
        pool = ["NoSoln", "NoEffect", "NoEffect"] + ([] if kind == "q" else ["Unknown"])
        r["status"] = rng.choice(pool)
    x = rng.random()
    if x < 0.05:
        r["tsq"] = tol * 0.5
    elif x < 0.07:
        r["tsq"] = rng.choice([0.0, 0.0, 1e-300, 1e-30])
    elif x < 0.08:
        r["tsq"] = rng.choice([float("inf"), 1e300])
    elif x < 0.12:
        r["tsq"] = tol
    elif x < 0.18:
        r["tsq"] = tol * 1.0000001
    else:
        r["tsq"] = round(rng.uniform(0.5, 50), 3)
    r["move"] = [rfl(rng, -1, 1) for _ in range(n)]
    if kind == "feas":
        r["none"] = rng.random() < 0.06
    else:
        y = rng.random()
        if y < 0.5:
            r["gamma1"] = None
        elif y < 0.62:
            r["gamma1"] = 0
        elif y < 0.7:
            r["gamma1"] = -0.0
        elif y < 0.74:
            r["gamma1"] = rng.choice([1.5, 1.5, 1e-300, -1e300, 1e-9, -1.0])
        else:
            r["gamma1"] = rfl(rng, -5, 5)
        r["gtype"] = rng.choice(["float", "np", "int" if r["gamma1"] == 0 else "float"])
    if kind == "q":
        r["more"] = rng.random() < 0.8
        r["mtype"] = rng.choice(["bool", "bool", "np", "int"])
        r["xq"] = [rng.randint(-5, 5) for _ in range(n)]
        r["xqalias"] = rng.random() < 0.2
    r["nested"] = rng.random() < 0.04
    return r


def gen(rng, kind):
    n = rng.choice([2, 2, 3, 4])
    fault_free = rng.random() < 0.3
    real = rng.choice([None, None, None, "Ell", "EllStable"])
    tol = rng.choice([1e-20, 1e-8, 0.25, 1.0, 1e-20, 1e-8, 0.25, 0.0])
    # runs differ in how long they tend to live
    good = rng.choice([0.5, 0.85, 0.97, 1.0]) if kind != "q" else rng.choice([0.2, 0.5, 0.8, 0.97])
    nr = rng.randint(0, 18)
    cycle = False
    if rng.random() < 0.05:
        nr, good = rng.randint(20, 120), 1.0 if kind != "q" else 0.9
    elif rng.random() < 0.02:
        nr, good, cycle = rng.randint(1, 9), 1.0, True
    rounds = [gen_round(rng, n, kind, tol, good) for _ in range(nr)]
    if nr >= 20 or cycle:
        for r in rounds:
            r["none"] = False
            r["nested"] = False
            r["more"] = True
            r["status"] = "NoEffect" if r["status"] != "Success" else "Success"
    if kind == "q" and rng.random() < 0.3:
        for r in rounds:
            r["more"] = True
    nofault_tsq = rng.random() < 0.5 or nr >= 20 or cycle
    if nofault_tsq:
        for r in rounds:
            if r["tsq"] < tol:
                r["tsq"] = 3.0
    fault = None
    if not fault_free and rounds and rng.random() < 0.75:
        fault = dict(at=rng.randrange(len(rounds)), where=rng.choice(["oracle", "oracle", "update", "xc", "tsq"]), exc=rng.choice(sorted(EXCS)))
    if cycle:
        real = None
        if fault:
            fault["at"] = rng.randrange(300)
    max_iters = rng.choice([0, 1, 2, rng.randint(0, 150), rng.randint(0, 20), rng.randint(0, 20), 2000])
    if cycle and rng.random() < 0.3:
        max_iters = rng.choice([2001, 3000, rng.randint(300, 6000)])
    return dict(n=n, real=real, style=rng.choice(["inplace", "rebind", "copy"]), x0=[rfl(rng, -2, 2) for _ in range(n)], rounds=rounds,
                fault=fault, cycle=cycle, tol=tol, max_iters=max_iters, optarg=rng.choice(["obj", "obj", "default", "kw", "class"]),
                gamma0=rng.choice([0.0, -10.0, 3.5, 0, -1e100, float("inf"), float("-inf")]), buf=rng.random() < 0.4, val=rng.choice([1.0, 40.0, 1000.0]))


def simplify(plan):
    if plan["fault"]:
        yield {**plan, "fault": None}
    for k, v in (("real", None), ("style", "inplace"), ("buf", False), ("optarg", "obj"), ("x0", [0.0] * plan["n"]), ("max_iters", 2000)):
        if plan[k] != v:
            yield {**plan, k: v}
    for i, r in enumerate(plan["rounds"]):
        for k, v in (("nested", False), ("form", "float"), ("gtype", "float"), ("mtype", "bool"), ("xqalias", False), ("tsq", 3.0), ("status", "Success")):
            if k in r and r[k] != v:
                rs = list(plan["rounds"])
                rs[i] = {**r, k: v}
                yield {**plan, "rounds": rs}


def round_at(plan, k):
    rs = plan["rounds"]
    if k < len(rs):
        return rs[k]
    return rs[k % len(rs)] if plan["cycle"] and rs else None


class StubSpace(SearchSpace):
    """Scripted search space: the plan decides every verdict, half-width and move."""

    def __init__(self, plan):
        self.plan = plan
        self.x = np.array(plan["x0"], dtype=float)
        self.t = 0.0
        self.k = 0

    def xc(self):
        return self.x.copy() if self.plan["style"] == "copy" else self.x

    def set_xc(self, x):
        self.x = np.array(x)

    def tsq(self):
        return self.t

    def _upd(self, cut):
        r = round_at(self.plan, self.k) or dict(status="NoSoln", tsq=5.0)
        self.k += 1
        self.t = r["tsq"]
        if r["status"] == "Success":
            mv = np.array(r["move"])
            if self.plan["style"] == "inplace":
                self.x += mv
            else:
                self.x = self.x + mv
        return CutStatus[r["status"]]

    update_bias_cut = update_central_cut = update_q = _upd


class Raiser:
    def __init__(self, plan):
        self.f = plan["fault"]
        self.obj = None
        self.round = -1  # index of the current oracle query
        self.stage = "start"

    def maybe(self, where, k):
        f = self.f
        if f and self.obj is None and f["where"] == where and f["at"] == k:
            self.obj = EXCS[f["exc"]]("injected")
            raise self.obj


class RecSpace(SearchSpace):
    """Wraps the space, records updates, injects failures."""

    def __init__(self, inner, log, raiser):
        self.inner, self.log, self.rz = inner, log, raiser
        self.updates = 0
        self.last = None
        self.over = False

    def xc(self):
        self.rz.maybe("xc", self.updates)
        return self.inner.xc()

    def set_xc(self, x):
        self.log.append(("set_xc",))
        self.inner.set_xc(x)

    def tsq(self):
        if self.last == "continue?":
            self.rz.maybe("tsq", self.updates - 1)
        return self.inner.tsq()

    def _upd(self, name, cut):
        if self.rz.obj is not None:
            self.log.append(("update-after-failure", name))
        k = self.updates
        self.rz.maybe("update", k)
        g, b = cut
        st = getattr(self.inner, name)(cut)
        self.updates += 1
        self.last = "continue?" if st == CutStatus.Success else "refused"
        self.log.append((name, [float(v) for v in g], [float(v) for v in np.atleast_1d(b)], st.name, float(self.inner.tsq()).hex()))
        return st

    def update_bias_cut(self, cut):
        return self._upd("update_bias_cut", cut)

    def update_central_cut(self, cut):
        return self._upd("update_central_cut", cut)

    def update_q(self, cut):
        return self._upd("update_q", cut)


class StubOracle:
    def __init__(self, plan, log, raiser, kind, nested_solve):
        self.plan, self.log, self.rz, self.kind = plan, log, raiser, kind
        self.k = 0
        self.gbuf = np.zeros(plan["n"])
        self.xbuf = np.zeros(plan["n"])
        self.nested_solve = nested_solve

    def _r(self):
        k = self.k
        self.rz.maybe("oracle", k)
        self.k += 1
        return round_at(self.plan, k)

    def _cut(self, r, x):
        n = self.plan["n"]
        if r is None:
            g, b = [1.0] + [0.0] * (n - 1), 1e9
            form = "float"
        else:
            g, b, form = r["g"], r["b"], r["form"]
        if self.plan["buf"]:
            self.gbuf[:] = g
            ga = self.gbuf
        else:
            ga = np.array(g, dtype=float)
        if form == "list":
            bb = [b]
        elif form == "np":
            bb = np.float64(b)
        elif form in ("pair", "pairl", "paira"):
            bb = {"pair": tuple, "pairl": list, "paira": np.array}[form]([float(b), float(b) + r["w"]])
        elif form == "int0":
            bb = 0
        else:
            bb = float(b)
        return ga, bb

    def _note(self, *a):
        if self.rz.obj is not None:
            self.log.append(("query-after-failure",))
        self.log.append(a)

    def assess_feas(self, x):
        self._note("feas?", [float(v).hex() for v in x])
        r = self._r()
        if r is None or r["none"]:
            self.log.append(("accepted",))
            return None
        if r["nested"]:
            self.nested_solve(self.k)
        return self._cut(r, x)

    def _gam(self, r):
        if r is None or r["gamma1"] is None:
            return None
        v = r["gamma1"]
        return np.float64(v) if r["gtype"] == "np" else int(v) if r["gtype"] == "int" else float(v)

    def assess_optim(self, x, gamma):
        self._note("optim?", [float(v).hex() for v in x], float(gamma).hex())
        r = self._r()
        if r is not None and r["nested"]:
            self.nested_solve(self.k)
        return self._cut(r, x), self._gam(r)

    def assess_optim_q(self, x, gamma, retry):
        self._note("optim_q?", [float(v).hex() for v in x], float(gamma).hex(), bool(retry))
        r = self._r()
        if r is not None and r["nested"]:
            self.nested_solve(self.k)
        if r is None:
            return self._cut(r, x), np.array(x), None, False
        xq = r["xq"]
        if r["xqalias"]:
            xo = x
        elif self.plan["buf"]:
            self.xbuf[:] = xq
            xo = self.xbuf
        else:
            xo = np.array(xq, dtype=float)
        more = {"bool": bool, "np": np.bool_, "int": int}[r["mtype"]](r["more"])
        return self._cut(r, x), xo, self._gam(r), more


# ------------------------------------------------------------------ reference model


def ref_feas(orc, sp, opt):
    done = 0
    while done < opt.max_iters:
        c = orc.assess_feas(sp.xc())
        if c is None:
            return np.array(sp.xc()), done
        if sp.update_bias_cut(c) is not CutStatus.Success:
            return None, done
        if sp.tsq() < opt.tolerance:
            return None, done
        done += 1
    return None, done


def ref_optim(orc, sp, gamma, opt):
    best, done = None, 0
    while done < opt.max_iters:
        x = np.array(sp.xc())
        c, g1 = orc.assess_optim(sp.xc(), gamma)
        if g1 is None:
            st = sp.update_bias_cut(c)
        else:
            best, gamma = x, g1
            st = sp.update_central_cut(c)
        if st is not CutStatus.Success:
            return best, gamma, done
        if sp.tsq() < opt.tolerance:
            return best, gamma, done
        done += 1
    return best, gamma, done


def ref_optim_q(orc, sp, gamma, opt):
    best, done, retry = None, 0, False
    while done < opt.max_iters:
        c, xq, g1, more = orc.assess_optim_q(sp.xc(), gamma, retry)
        if g1 is not None:
            best, gamma = np.array(xq), g1
        st = sp.update_q(c)
        if st is CutStatus.NoSoln or (st is CutStatus.NoEffect and not more):
            return best, gamma, done
        retry = st is CutStatus.NoEffect
        sp.last = "continue?"
        if sp.tsq() < opt.tolerance:
            return best, gamma, done
        done += 1
    return best, gamma, done


REF = {"feas": ref_feas, "optim": ref_optim, "q": ref_optim_q}
REAL = {"feas": cutting_plane_feas, "optim": cutting_plane_optim, "q": cutting_plane_optim_q}


class NestOracle:
    """Small independent problem a client solves from inside its oracle."""

    def assess_feas(self, x):
        return None if x[0] <= -0.5 else (np.array([1.0, 0.5]), float(x[0] + 0.5))

    def assess_optim(self, x, gamma):
        return (np.array([1.0, -1.0]), 0.0), 7.0

    def assess_optim_q(self, x, gamma, retry):
        return (np.array([1.0, -1.0]), 0.1), np.round(x), 9.0, False


def nested(kind):
    def solve(k):
        o = Options()
        o.max_iters = 3
        sp = Ell(4.0, np.zeros(2))
        if kind == "feas":
            REAL[kind](NestOracle(), sp, o)
        else:
            REAL[kind](NestOracle(), sp, -3.0, o)

    return solve


def options(plan):
    o = Options()
    if plan["optarg"] == "default":
        return o
    o.max_iters = plan["max_iters"]
    o.tolerance = plan["tol"]
    return o


def world(plan, kind, for_ref):
    log = []
    rz = Raiser(plan)
    if plan["real"]:
        inner = {"Ell": Ell, "EllStable": EllStable}[plan["real"]](plan["val"], np.array(plan["x0"], dtype=float))
    else:
        inner = StubSpace(plan)
    sp = RecSpace(inner, log, rz)
    orc = StubOracle(plan, log, rz, kind, (lambda k: None) if for_ref else nested(kind))
    return log, rz, inner, sp, orc


def norm(res):
    if res is None:
        return None
    out = [None if res[0] is None else [float(v).hex() for v in np.asarray(res[0], dtype=float)]]
    for v in res[1:-1]:
        out.append(float(v).hex())
    out.append(int(res[-1]))
    return out


def execute(plan, ctx, kind):
    # reference
    rlog, rrz, _, rsp, rorc = world(plan, kind, True)
    opt = options(plan)
    args = () if kind == "feas" else (plan["gamma0"],)
    rexc = None
    rres = None
    try:
        rres = norm(REF[kind](rorc, rsp, *args, opt))
    except BaseException as e:
        if e is not rrz.obj:
            raise
        rexc = e
    # real
    log, rz, inner, sp, orc = world(plan, kind, False)
    if rrz.obj is None:
        rz.f = None  # the protocol never gets to the fault point: harmless extra reads must not meet it
    if kind == "q":
        sp = QView(sp)
    exc = res = raw = None
    fn = REAL[kind]
    try:
        if plan["optarg"] == "default":
            raw = fn(orc, sp, *args)
        elif plan["optarg"] == "kw":
            raw = fn(orc, sp, *args, options=opt)
        elif plan["optarg"] == "class":
            class O(Options):
                max_iters = plan["max_iters"]
                tolerance = plan["tol"]
            raw = fn(orc, sp, *args, O())
        else:
            raw = fn(orc, sp, *args, opt)
        res = norm(raw)
    except BaseException as e:
        if rz.obj is None or e is not rz.obj:
            if rz.obj is not None:
                raise Violation("exception-changed", f"injected {type(rz.obj).__name__} reached the caller as {type(e).__name__}({e})")
            raise
        exc = e
    for ent in log:
        ctx.ev(ent[0] + (":" + ent[3] if ent[0].startswith("update_") else ":" + str(ent[-1]) if ent[0] == "optim_q?" else ""), str(ent[1:]))
    ctx.ev("end", str(res), type(exc).__name__)
    if rz.obj is not None:
        ctx.fault("%s-raises-%s" % (plan["fault"]["where"], plan["fault"]["exc"]))
    for r in plan["rounds"][:orc.k]:
        if r["nested"]:
            ctx.fault("nested-solve")
    if rrz.obj is not None:
        check(rz.obj is not None, "missing-call", "the driver skipped a call of the protocol (fault point not reached): %s", plan["fault"])
        check(exc is not None, "exception-swallowed", "an injected %s did not reach the caller; result %s", plan["fault"]["exc"], res)
    compare(rlog, log)
    if exc is None:
        check(res[0] == rres[0], "wrong-point", "returned point %s, the protocol gives %s", res[0], rres[0])
        check(res == rres, "wrong-result", "returned %s, the protocol gives %s", res, rres)
        ctx.probe("solved" if res[0] is not None else "none")
        if kind != "feas" and any(r.get("gamma1") == 0 for r in plan["rounds"][:orc.k]):
            ctx.probe("zero_improvement")
        if res[-1] == opt.max_iters:
            ctx.probe("budget_exhausted")
        # later use of the space and the oracle's buffers must not reach the result
        if raw[0] is not None and kind != "feas":
            if isinstance(inner, StubSpace):
                inner.x += 1000.0
            else:
                try:
                    inner.update_central_cut((np.ones(plan["n"]), 0.0))
                except Exception:
                    pass
            orc.xbuf += 1000.0
            check(norm(raw) == res, "result-changed-later", "the returned point changed after the solve: %s -> %s", res, norm(raw))


def compare(want, got):
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            cls = "protocol:" + str(a[0]) + "/" + str(b[0])
            raise Violation(cls, f"event {i}: the protocol has {a}, the driver did {b}")
    if len(want) != len(got):
        extra = (want if len(want) > len(got) else got)[min(len(want), len(got))]
        raise Violation("protocol:length", f"the protocol has {len(want)} events, the driver made {len(got)}; first unmatched: {extra}")


class QView:
    """In the discrete solve the half-width is also read after a no-effect cut that will
    be retried; failures of that read are injected there as well."""

    def __init__(self, rec):
        self._rec = rec

    def xc(self):
        return self._rec.xc()

    def tsq(self):
        self._rec.last = "continue?"
        return self._rec.tsq()

    def update_q(self, cut):
        return self._rec.update_q(cut)

    def update_bias_cut(self, cut):
        return self._rec.update_bias_cut(cut)

    def update_central_cut(self, cut):
        return self._rec.update_central_cut(cut)

    def set_xc(self, x):
        self._rec.set_xc(x)
