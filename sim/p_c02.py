"""C02: accepted cuts shrink the region at the classical rate; tsq is honest."""
import math

import numpy as np
from ellalgo.ell_config import CutStatus

from . import cuts
from .core import check

ID = "C02"
QUICK, THOROUGH = 4800, 60000
RULE = ("One evaluation = one simulated life of a search space (seeded cut history with refused, redelivered, lost cuts and checkpoint "
        "restores); after each accepted cut the measured volume ratio is compared with the classical bound for the cut's depth and the "
        "reported half-width with the old region.")
REAL = ["Ell", "EllStable", "EllCalc", "EllCalcCore"]
STUB = ["the client that issues cuts (scripted by the plan)", "checkpoint storage"]
ASSUMPTIONS = ["region measured by tsq() after a central cut on a deep copy", "histories stop when the region's condition exceeds 1e7"]
LISTS = [["ops"]]
simplify = cuts.simplify_world


def generate(rng):
    return cuts.gen_world(rng)


def judge(plan, ctx, space_tsq, cut, old, new, st):
    n = plan["n"]
    if st != CutStatus.Success or cut.op.get("reject"):
        return
    g = cut.g.astype(float)
    t2 = float(g @ old[1] @ g)
    cond = cuts.scaled_cond(old[1])
    tol = 1e-8 + 3e-13 * cond
    check(abs(space_tsq - t2) <= tol * t2, "tsq-dishonest", "tsq() reports %.17g, the region's half-width along the cut is %.17g", space_tsq, t2)
    ctx.probe("halfwidth_checked")
    if cuts.near_edge(cut, n, True) or cuts.near_edge(cut, n, False):
        return
    L, w, Q = cuts.relative(old, new)
    lam = np.linalg.eigvalsh(Q)
    check(lam[0] > 0, "degenerate-region", "the region after the cut is not an ellipsoid")
    logdet = float(np.sum(np.log(lam)))
    a = 0.0 if cut.kind == "central" else cut.a0
    if cut.a1 is not None and cut.kind == "bias" and cut.a1 < cut.a0:
        return  # contradictory planes with parallel cuts off
    bound = cuts.log_vol_bound(a, n)
    tolv = (1e-7 + 3e-12 * cond) * n * max(1.0, 1.0 / lam[0])
    ctx.probe("rate_checked")
    if cut.a1 is not None:
        ctx.probe("rate_parallel")
    check(logdet <= bound + tolv, "volume-rate",
          "%s cut alpha=(%s,%s) n=%d: log of squared volume ratio %.9g exceeds the classical bound %.9g", cut.kind, cut.a0, cut.a1, n, logdet, bound)


def execute(plan, ctx):
    space = cuts.make_space(plan["space"], plan["val"], plan["x0"], plan["defer_off"], plan["use_parallel"])
    cuts.play(plan, ctx, space, lambda sp, cut, old, new, st: judge(plan, ctx, float(sp.tsq()), cut, old, new, st))
