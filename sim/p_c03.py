"""C03: verdicts are truthful; a refused cut is as if never submitted."""
import copy

import numpy as np
from ellalgo.ell_config import CutStatus

from . import cuts
from .core import Violation, check

ID = "C03"
QUICK, THOROUGH = 6000, 80000
RULE = ("One evaluation = one simulated life of a search space with many refusable cuts; each verdict is compared with the geometry of the "
        "measured region, and a twin that never sees the refused cuts must stay in step with it for the rest of the history.")
REAL = ["Ell", "EllStable", "EllCalc", "EllCalcCore"]
STUB = ["the client that issues cuts (scripted by the plan)", "checkpoint storage"]
ASSUMPTIONS = ["verdicts within 1e-6 (relative depth) of a threshold are not judged, except in the exactly representable cases", "histories stop when the region's condition exceeds 1e7"]
LISTS = [["ops"]]
simplify = cuts.simplify_world
EXC_ONLY = ("zero_grad", "negative", "short_grad", "long_grad", "bad_beta")


def generate(rng):
    if rng.random() < 0.12:
        return cuts.gen_edge(rng)
    return cuts.gen_world(rng, p_fault=0.5, faults=("reject", "reject2", "redeliver", "rollback"), maxops=24)


def execute_edge(plan, ctx):
    def judge(cut, want, sts, before, spaces):
        check(sts[0] == want, "wrong-verdict", "%s: %s cut exactly at (%s,%s) of the half-width, n=%d, answered %s; the geometry says %s",
              plan["edge"], cut.kind, cut.a0, cut.a1, plan["n"], sts[0], want)
        if want != CutStatus.Success:
            check(cuts.same_region(before[0], cuts.region(spaces[0]), 1e-9), "refused-cut-moved-region", "a refused edge cut changed the region")
        else:
            cuts.flat_region_ok(plan, cut, spaces[0])

    spaces = cuts.play_edge(plan, ctx, [cuts.make_space(plan["space"], plan["val"], plan["x0"], plan["defer_off"])], judge)
    cuts.after_edge(plan, ctx, spaces[0])


def execute(plan, ctx):
    if plan.get("mode") == "edge":
        return execute_edge(plan, ctx)
    n = plan["n"]
    space = cuts.make_space(plan["space"], plan["val"], plan["x0"], plan["defer_off"], plan["use_parallel"])
    state = dict(twin=copy.deepcopy(space))

    def on_cut(sp, cut, old, new, st):
        why = cut.op.get("reject")
        edge = cuts.near_edge(cut, n, plan["use_parallel"], 1e-6, 1e-4)
        if st == "raised":
            refused = True
        elif why in EXC_ONLY:
            # a malformed cut that was not refused by an exception: any answer but success is a refusal
            if st == CutStatus.Success:
                raise Violation("malformed-cut-applied", f"a cut with {why} was applied")
            refused = True
        else:
            want = cuts.expected_status(cut, n, plan["use_parallel"])
            refused = st != CutStatus.Success
            if not edge:
                check(st == want, "wrong-verdict", "%s cut alpha=(%s,%s) n=%d parallel=%s answered %s, the geometry says %s",
                      cut.kind, cut.a0, cut.a1, n, plan["use_parallel"], st, want)
                ctx.probe("verdict_" + st.name)
        twin = state["twin"]
        if refused:
            check(np.array_equal(np.asarray(sp.xc()), np.asarray(twin.xc())), "refused-cut-moved-centre",
                  "a refused %s cut (%s) moved the centre", cut.kind, st)
            ctx.probe("refused")
        else:
            st2 = cuts.deliver(twin, cut)
            check(st2 == st, "history-dependent-verdict", "with earlier refused cuts the verdict is %s, without them %s", st, st2)
            t1, t2 = float(sp.tsq()), float(twin.tsq())
            check(abs(t1 - t2) <= 1e-9 * abs(t2), "refused-cut-left-trace", "tsq %.17g with refused cuts, %.17g without", t1, t2)
        tn = cuts.region(twin)
        if refused:
            check(cuts.same_region(old, new, 1e-9 + 1e-15 * cuts.scaled_cond(old[1])), "refused-cut-moved-region",
                  "a refused %s cut (%s, %s) changed the region", cut.kind, st, why)
        if cuts.usable(tn):
            check(cuts.same_region(tn, new, 1e-9 + 1e-14 * cuts.scaled_cond(tn[1])), "refused-cut-left-trace",
                  "the region differs from that of a twin which never saw the refused cuts")

    # checkpoint/rollback applies to the twin as well
    ck = {}
    orig_store, orig_restore = cuts.store, cuts.restore

    def store(sp, via):
        ck["twin"] = copy.deepcopy(state["twin"])
        return orig_store(sp, via)

    def restore(blob, via):
        state["twin"] = copy.deepcopy(ck["twin"])
        return orig_restore(blob, via)

    cuts.play(plan, ctx, space, on_cut, store=store, restore=restore, on_move=lambda sp: state["twin"].set_xc(np.array(sp.xc())))
