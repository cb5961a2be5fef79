"""C01: a cut never loses a point that satisfies it."""
import math

import numpy as np
from ellalgo.ell_config import CutStatus

from . import cuts
from .core import Violation, check

ID = "C01"
QUICK, THOROUGH = 4800, 60000
RULE = ("One evaluation = one simulated life of a search space: a seeded history of bias/central/quantized, single/parallel cuts "
        "with refused cuts, redelivered stale cuts, lost cuts and checkpoint restores; after every delivery the old region (measured "
        "through tsq probes on copies) intersected with the cut must lie in the new region.")
REAL = ["Ell", "EllStable", "EllCalc", "EllCalcCore"]
STUB = ["the client that issues cuts (scripted by the plan)", "checkpoint storage (deepcopy or pickle bytes)"]
ASSUMPTIONS = ["region measured by tsq() after a central cut on a deep copy", "histories stop when the region's condition exceeds 1e7",
               "dimension 2..40"]
LISTS = [["ops"]]
simplify = cuts.simplify_world


def generate(rng):
    if rng.random() < 0.08:
        return cuts.gen_edge(rng)
    if rng.random() < 0.09:
        return cuts.gen_flat(rng)
    return cuts.gen_world(rng)


def judge(plan, ctx, cut, old, new, st):
    n = plan["n"]
    if cut.op.get("reject") in ("zero_grad", "negative", "short_grad", "long_grad", "bad_beta"):
        check(cuts.same_region(old, new, 1e-9), "refused-cut-moved-region", "a refused cut changed the region (%s)", cut.op["reject"])
        return
    if any(cuts.near_edge(cut, n, u, 1e-6, 1e-4) for u in (True, False)):
        ctx.probe("near_threshold_skipped")
        return
    if cut.kind != "q" and cut.a0 < 0 and cut.kind == "bias":
        return
    lo, hi = cuts.slab(cut)
    if lo > hi or hi <= -1:
        return  # the cut keeps no point of the region: nothing to lose
    if cut.a1 is not None and cut.a1 < 0:
        return
    check(st != CutStatus.NoSoln, "false-no-solution",
          "%s cut alpha=(%s,%s) n=%d answered NoSoln although the region holds points satisfying it", cut.kind, cut.a0, cut.a1, n)
    if any(cuts.near_edge(cut, n, u, 1e-3, 1e-3) for u in (True, False)):
        ctx.probe("near_threshold_verdict_only")
        return
    L, w, Q = cuts.relative(old, new)
    lam = np.linalg.eigvalsh(Q)
    check(lam[0] > 0, "degenerate-region", "the region after the cut is not an ellipsoid (eigenvalue %g)", lam[0])
    e = cuts.unit_dir(L, cut)
    worst = cuts.worst_point(L, e, lo, hi, w, Q)
    cond = cuts.scaled_cond(old[1])
    tol = (1e-7 + 3e-12 * cond) * max(1.0, 1.0 / lam[0])
    ctx.probe("containment_checked")
    if cut.a1 is not None:
        ctx.probe("containment_parallel")
    if cut.a0 < 0:
        ctx.probe("containment_shallow")
    check(worst <= 1 + tol, "lost-point",
          "%s cut alpha=(%s,%s) n=%d status %s: a point satisfying it is outside the new region (measure %.9g, tol %.2g)",
          cut.kind, cut.a0, cut.a1, n, st, worst, tol)


def execute_edge(plan, ctx):
    def judge(cut, want, sts, before, spaces):
        if want != CutStatus.NoSoln:
            check(sts[0] != CutStatus.NoSoln, "false-no-solution", "%s: %s cut answered NoSoln although a point satisfies it", plan["edge"], cut.kind)
            cuts.flat_region_ok(plan, cut, spaces[0])

    spaces = cuts.play_edge(plan, ctx, [cuts.make_space(plan["space"], plan["val"], plan["x0"], plan["defer_off"])], judge)
    cuts.after_edge(plan, ctx, spaces[0])


def execute(plan, ctx):
    if plan.get("mode") == "edge":
        return execute_edge(plan, ctx)
    if plan.get("mode") == "flat":
        return cuts.play_flat(plan, ctx)
    space = cuts.make_space(plan["space"], plan["val"], plan["x0"], plan["defer_off"], plan["use_parallel"])
    cuts.play(plan, ctx, space, lambda sp, cut, old, new, st: judge(plan, ctx, cut, old, new, st))
