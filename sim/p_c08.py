"""C08: binary search discipline."""
from fractions import Fraction

import numpy as np
from ellalgo.cutting_plane import bsearch
from ellalgo.ell_config import Options

from .core import Violation, check
from .drv import EXCS, rfl

ID = "C08"
QUICK, THOROUGH = 24000, 600000
RULE = ("One evaluation = one binary search against a scripted party that answers truthfully (monotone), flakily, or fails at any probe; every "
        "probe, the stopping point, the returned value, type and count are checked against the bracket the answers imply.")
REAL = ["bsearch", "Options"]
STUB = ["the binary-search oracle (scripted)"]
ASSUMPTIONS = ["finite bounds, |bounds| <= 1e9", "floating-point probes may differ from the exact midpoint by a few ulps"]
LISTS = [["answers"]]
TYPES = {"float": float, "int": int, "np": np.float64, "f4": np.float32, "frac": Fraction}


def generate(rng):
    t = rng.choice(["float", "float", "float", "int", "int", "np", "f4", "frac"])
    sc = rng.choice([1, 8, 1000, 10 ** 6])
    if rng.random() < 0.5:
        lo, hi = sorted(rng.randint(-sc, sc) for _ in range(2))
        lo, hi = float(lo), float(hi)
    else:
        lo, hi = sorted(rfl(rng, -sc, sc, 4) for _ in range(2))
    if t == "int":
        lo, hi = int(lo), int(hi)
    if rng.random() < 0.04:
        lo, hi = hi, lo
    mono = rng.random() < 0.6
    thr = lo + (hi - lo) * rng.choice([0.0, 1.0, rng.random(), rng.random(), 1.5])
    fault = None
    if rng.random() < 0.35:
        fault = dict(at=rng.randrange(12), exc=rng.choice(sorted(EXCS)))
    return dict(t=t, lotype=rng.choice([t, t, t, "float"]) if t in ("float", "np") else t, lo=lo, hi=hi, thr=thr, mono=mono,
                answers=[rng.randrange(2) for _ in range(rng.randint(0, 30))], anstype=rng.choice(["bool", "bool", "np", "int"]),
                fault=fault, tol=rng.choice([1e-20, 1e-9, 1e-3, 0.25, 0.5, 1.0, (hi - lo) / 8]), iters=rng.choice([0, 1, 2, 5, 20, 60, 2000]),
                optarg=rng.choice(["pos", "kw", "default"]), nested=rng.random() < 0.1, ivt=rng.choice(["tuple", "list"]))


def simplify(plan):
    for k, v in (("fault", None), ("nested", False), ("anstype", "bool"), ("optarg", "pos"), ("ivt", "tuple"), ("t", "float"), ("lotype", plan["t"]), ("lo", 0.0), ("hi", 1.0), ("tol", 0.25)):
        if plan[k] != v:
            yield {**plan, k: v}


class Party:
    def __init__(self, plan):
        self.plan = plan
        self.k = 0
        self.obj = None
        self.probes = []
        self.dead = False

    def assess_bs(self, gamma):
        p = self.plan
        check(self.obj is None, "probe-after-failure", "another probe after the oracle failed")
        k = self.k
        self.k += 1
        if p["fault"] and p["fault"]["at"] == k:
            self.obj = EXCS[p["fault"]["exc"]]("injected")
            self.probes.append((gamma, None))
            raise self.obj
        if p["nested"] and k == 1:
            o = Options()
            o.tolerance = 0.1

            class In:
                def assess_bs(self, g):
                    return g > 3.3

            bsearch(In(), (0.0, 10.0), o)
        if p["mono"]:
            a = gamma >= p["thr"]
        else:
            a = bool(p["answers"][k % len(p["answers"])]) if p["answers"] else False
        self.probes.append((gamma, bool(a)))
        return {"bool": bool, "np": np.bool_, "int": int}[p["anstype"]](a)


def ex(v):
    return v if isinstance(v, (Fraction, int)) else Fraction(float(v))


def ulp_slack(T, lo, hi):
    if T is float or T is np.float64:
        return Fraction(8) * Fraction(float(np.spacing(max(abs(float(lo)), abs(float(hi)), 1e-300))))
    if T is np.float32:
        return Fraction(8) * Fraction(float(np.spacing(np.float32(max(abs(float(lo)), abs(float(hi)), 1e-30)))))
    return Fraction(0)


def edge(T, lo, hi, tol):
    return ulp_slack(T, lo, hi) + (tol * Fraction(1, 10 ** 6) if T is np.float32 else 0)


def execute(plan, ctx):
    T = TYPES[plan["t"]]
    conv = (lambda v: Fraction(v).limit_denominator(10 ** 6)) if T is Fraction else T
    lo, hi = TYPES[plan["lotype"]](plan["lo"]) if T is not Fraction else conv(plan["lo"]), conv(plan["hi"])
    o = Options()
    if plan["optarg"] != "default":
        o.tolerance, o.max_iters = plan["tol"], plan["iters"]
    party = Party(plan)
    iv = (lo, hi) if plan["ivt"] == "tuple" else [lo, hi]
    res = exc = None
    try:
        res = bsearch(party, iv) if plan["optarg"] == "default" else bsearch(party, iv, o) if plan["optarg"] == "pos" else bsearch(omega=party, intrvl=iv, options=o)
    except Violation:
        raise
    except BaseException as e:
        if party.obj is None:
            raise
        check(e is party.obj, "exception-changed", "injected %s reached the caller as %s", type(party.obj).__name__, type(e).__name__)
        exc = e
    if party.obj is not None:
        ctx.fault("oracle-raises-" + type(party.obj).__name__)
        check(exc is not None, "exception-swallowed", "the oracle's exception was swallowed, result %s", res)
    if plan["nested"] and party.k > 1:
        ctx.fault("nested-search")
    if not plan["mono"] and party.probes:
        ctx.fault("flaky-answers")
    tol = Fraction(o.tolerance)
    l, u = lo, hi
    for k, (g, a) in enumerate(party.probes):
        ctx.ev("probe:%s" % a, str(g))
        half = (ex(u) - ex(l)) / 2
        check(k < o.max_iters, "over-budget", "probe %d with a budget of %d", k + 1, o.max_iters)
        check(half >= tol - edge(T, l, u, tol), "probe-after-convergence", "probe at bracket [%s, %s] with tolerance %s", l, u, o.tolerance)
        check(type(g) is T, "type-changed", "probed a %s, the upper bound is a %s", type(g).__name__, T.__name__)
        mid = ex(l) + half
        if T is int:
            check(g == int(mid), "not-midpoint", "probed %s in [%s, %s]", g, l, u)
        else:
            check(abs(ex(g) - mid) <= ulp_slack(T, l, u), "not-midpoint", "probed %s in [%s, %s]", g, l, u)
        if a is None:
            return
        if a:
            u = g
        else:
            l = g
    ret, n = res
    ctx.ev("return", str(ret), n)
    check(type(ret) is T, "type-changed", "returned a %s, the upper bound is a %s", type(ret).__name__, T.__name__)
    check(ret == u, "wrong-value", "returned %s, the last accepted value (or initial upper bound) is %s; probes %s", ret, u, party.probes[-3:])
    check(n == len(party.probes), "wrong-count", "reported %s probes, made %d", n, len(party.probes))
    half = (ex(u) - ex(l)) / 2
    if n < o.max_iters:
        check(half <= tol + edge(T, l, u, tol), "stopped-early", "stopped at bracket [%s, %s], tolerance %s, %d of %d probes", l, u, o.tolerance, n, o.max_iters)
        check(half != tol or T is np.float32, "stopped-early", "stopped with half the bracket equal to the tolerance, not below it")
        ctx.probe("converged")
        if plan["mono"] and T in (float, np.float64) and hi >= plan["thr"] >= lo and hi > lo:
            check(Fraction(u) >= Fraction(plan["thr"]) and Fraction(u) - Fraction(plan["thr"]) <= 2 * tol + ulp_slack(T, l, u) * 4,
                  "threshold-missed", "returned %s, threshold %s, tolerance %s", ret, plan["thr"], o.tolerance)
            ctx.probe("threshold_checked")
    else:
        ctx.probe("budget_exhausted")
