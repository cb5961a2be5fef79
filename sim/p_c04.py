"""C04: Ell and EllStable are interchangeable."""
import math

import numpy as np
from ellalgo.ell_config import CutStatus

from . import cuts
from .core import Violation, check

ID = "C04"
QUICK, THOROUGH = 4000, 50000
RULE = ("One evaluation = one seeded cut history delivered to a plain and a stable search space side by side (each with its own scaling "
        "mode), with refused, redelivered, lost cuts and a crash/restore of either one; verdicts, centres, half-widths and regions are compared "
        "after every event.")
REAL = ["Ell", "EllStable", "EllCalc", "EllCalcCore"]
STUB = ["the client that issues cuts (scripted by the plan)", "checkpoint storage"]
ASSUMPTIONS = ["differences up to rounding scaled by the region's condition number are accepted", "histories stop at condition 1e7"]
LISTS = [["ops"]]


def generate(rng):
    if rng.random() < 0.08:
        return {**cuts.gen_edge(rng), "defer_off2": rng.random() < 0.5}
    w = cuts.gen_world(rng, maxops=24)
    w["defer_off2"] = rng.random() < 0.35
    for op in w["ops"]:
        op["lead"] = rng.randrange(2)
    return w


def simplify(plan):
    yield from cuts.simplify_world(plan)
    if plan["defer_off2"]:
        yield {**plan, "defer_off2": False}


def execute_edge(plan, ctx):
    def judge(cut, want, sts, before, spaces):
        check(sts[0] == sts[1], "verdicts-differ", "%s: %s cut exactly on a threshold: Ell %s, EllStable %s", plan["edge"], cut.kind, sts[0], sts[1])
        xs = [np.array(s.xc(), dtype=float) for s in spaces]
        check(bool(np.allclose(xs[0], xs[1], rtol=0, atol=1e-9)), "regions-differ", "%s: centres %s and %s", plan["edge"], xs[0], xs[1])
        for i in range(plan["n"]):
            e = np.zeros(plan["n"])
            e[i] = 1.0
            t = [cuts.probe_tsq(s, e, flat=True) for s in spaces]
            check(abs(t[0] - t[1]) <= 1e-9 * (1 + abs(t[0])), "halfwidths-differ", "%s: half-widths along axis %d: %s and %s", plan["edge"], i, *t)

    spaces = cuts.play_edge(plan, ctx, [cuts.make_space("Ell", plan["val"], plan["x0"], plan["defer_off"]),
                               cuts.make_space("EllStable", plan["val"], plan["x0"], plan["defer_off2"])], judge)
    if plan["edge"] in ("tangent", "second-tangent-first-tangent"):
        # one point is left: both must say so of every further cut, however deep
        for p in plan.get("post", []):
            g = np.array(p["g"])
            if not g.any():
                continue
            for b0 in (0.0, 0.5):
                sts = [cuts.method(s, p["kind"])((g, b0 if p["b1"] is None else (b0, b0 + p["b1"]))) for s in spaces]
                ctx.ev("post>" + "/".join(s.name for s in sts))
                check(sts[0] == sts[1], "verdicts-differ", "a %s cut of a region of one point: Ell %s, EllStable %s", p["kind"], sts[0], sts[1])
                xs = [np.array(s.xc(), dtype=float) for s in spaces]
                check(bool(np.allclose(xs[0], xs[1], rtol=0, atol=1e-9)), "regions-differ", "a cut of a region of one point: centres %s and %s", xs[0], xs[1])
            ctx.probe("edge_point_compared")


def execute(plan, ctx):
    if plan.get("mode") == "edge":
        return execute_edge(plan, ctx)
    n = plan["n"]
    sp = [cuts.make_space("Ell", plan["val"], plan["x0"], plan["defer_off"], plan["use_parallel"]),
          cuts.make_space("EllStable", plan["val"], plan["x0"], plan["defer_off2"], plan["use_parallel"])]
    reg = [cuts.region(s) for s in sp]
    check(cuts.same_region(reg[0], reg[1], 1e-9), "initial-differs", "initial regions differ")
    history, ck, maxcond, steps, bufs = [], None, 1.0, 0, {}
    for op in plan["ops"]:
        lead = op.get("lead", 0)
        if not (cuts.usable(reg[0]) and cuts.usable(reg[1])):
            ctx.ev("stop-ill-conditioned")
            return
        if op["op"] == "lost":
            ctx.fault("lost-cut")
            continue
        if op["op"] == "checkpoint":
            ck = ([cuts.store(s, op["via"]) for s in sp], op["via"], list(history))
            ctx.ev("checkpoint-" + op["via"])
            continue
        if op["op"] == "rollback":
            if ck:
                ctx.fault("crash-restore-" + ck[1])
                sp = [cuts.restore(b, ck[1]) for b in ck[0]]
                history = list(ck[2])
                reg = [cuts.region(s) for s in sp]
            else:
                # restart one of them from its own serialized state
                ctx.fault("crash-restore-one")
                sp[lead] = cuts.restore(cuts.store(sp[lead], op["via"]), op["via"])
                reg[lead] = cuts.region(sp[lead])
            continue
        if op["op"] == "move":
            reg[lead] = cuts.move(sp[lead], reg[lead], op["d"])
            x = np.array(reg[lead][0])
            sp[1 - lead].set_xc(x)
            x[:] = 77.0
            reg[1 - lead] = cuts.region(sp[1 - lead])
            check(np.array_equal(reg[0][0], reg[1][0]), "recentred-elsewhere", "set_xc with the same point: centres %s and %s", reg[0][0], reg[1][0])
            ctx.ev("move", reg[0][0])
            continue
        cut = cuts.concrete(op, reg[lead][1], reg[lead][0], history, n)
        if cut is None:
            continue
        if op["op"] == "redeliver":
            ctx.fault("redelivered-cut")
        if op.get("reject"):
            ctx.fault("refusable-cut:" + op["reject"])
        xb = reg[lead][0].copy()
        cut.bufs = bufs
        if op.get("lay"):
            ctx.fault("cut-in-" + op["lay"] + ("" if op["lay"] == "buffer" else "-array"))
        st = [cuts.deliver(s, cut) for s in sp]
        edge = cuts.near_edge(cut, n, plan["use_parallel"])
        if st[0] != st[1]:
            if edge:
                ctx.ev("threshold-split")
                return
            if op.get("reject") in ("short_grad", "long_grad", "bad_beta"):
                pass  # malformed input: only the absence of an effect matters
            else:
                raise Violation("verdicts-differ", f"{cut.kind} cut alpha=({cut.a0},{cut.a1}) n={n}: Ell {st[0]}, EllStable {st[1]}")
        cuts.spoil(bufs)
        new = [cuts.region(s) for s in sp]
        ctx.ev(cuts.tags(cut) + ">" + (st[0] if isinstance(st[0], str) else st[0].name), new[0][0], new[1][0], new[0][1])
        steps += 1
        if edge and st[0] == CutStatus.Success:
            # a cut on a threshold may leave an extremely thin region: do not judge it
            ctx.ev("threshold-cut")
            return
        maxcond = max(maxcond, cuts.scaled_cond(reg[0][1]))
        if not (cuts.usable(new[0]) and cuts.usable(new[1])):
            return
        maxcond = max(maxcond, cuts.scaled_cond(new[0][1]))
        tol = 1e-6 + 1e-11 * maxcond * (1 + steps)
        L, w, Q = cuts.relative(new[0], new[1])
        dev = max(float(np.abs(w).max()), float(np.abs(Q - np.eye(n)).max()))
        ctx.probe("compared")
        check(dev <= tol, "regions-differ", "after a %s cut alpha=(%s,%s) n=%d the regions differ by %.3g (tol %.2g)", cut.kind, cut.a0, cut.a1, n, dev, tol)
        if not isinstance(st[0], str) and cut.tau > 0 and not op.get("reject"):
            t = [float(s.tsq()) for s in sp]
            check(abs(t[0] - t[1]) <= tol * max(abs(t[0]), abs(t[1])), "halfwidths-differ", "tsq %.17g vs %.17g", t[0], t[1])
        if not op.get("reject"):
            history.append((cut, xb))
        reg = new
