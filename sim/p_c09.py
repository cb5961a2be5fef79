"""C09: a probe of the binary-search adaptor is a transaction."""
import copy
import math

import numpy as np
from ellalgo.cutting_plane import BSearchAdaptor, bsearch, cutting_plane_feas
from ellalgo.ell_config import Options

from . import cuts
from .core import SimFault, SimInterrupt, Violation, check, run_interrupted
from .drv import EXCS, rfl

ID = "C09"
QUICK, THOROUGH = 12000, 250000
RULE = ("One evaluation = one adaptor serving a seeded sequence of probes and whole binary searches over a level-parametrised convex oracle; "
        "the oracle fails at any call, its level update fails, or an interrupt lands before any executed statement (or inside an expression) of the library; after "
        "each the adaptor must be in its old state or in the committed one and must answer a retry like an undisturbed twin.")
REAL = ["BSearchAdaptor", "bsearch", "cutting_plane_feas", "Ell", "EllStable", "EllCalc"]
STUB = ["the level-parametrised oracle (random half-spaces and balls, stateless apart from the level)"]
ASSUMPTIONS = ["interrupts land at the woven points of library code, not inside numpy or the copy module"]
LISTS = [["actions"]]


def generate(rng):
    n = rng.choice([2, 2, 3, 4])
    m = rng.randint(1, 4)
    cons = []
    for _ in range(m):
        if rng.random() < 0.2:
            cons.append(dict(k="slab", a=[rfl(rng, -1, 1) or 0.1 for _ in range(n)], b=rfl(rng, -1.5, 1.5), s=rfl(rng, 0.05, 1), w=rfl(rng, 0.01, 0.5)))
        elif rng.random() < 0.55:
            cons.append(dict(k="half", a=[rfl(rng, -1, 1) or 0.1 for _ in range(n)], b=rfl(rng, -1.5, 1.5), s=rfl(rng, 0.2, 2)))
        else:
            cons.append(dict(k="ball", c=[rfl(rng, -1.5, 1.5) for _ in range(n)], b=rfl(rng, -1, 2), s=rfl(rng, 0.2, 2)))
    fault_free = rng.random() < 0.25
    acts = []
    for _ in range(rng.randint(1, 8)):
        f = None
        if not fault_free and rng.random() < 0.6:
            w = rng.choice(["oracle", "oracle", "update", "interrupt", "interrupt"])
            if w == "interrupt":
                f = dict(where=w, frac=round(rng.choice([rng.random(), 1 - rng.random() * 0.1, 1 - 0.02 * rng.random()]), 4), op=rng.random() < 0.3)
            else:
                f = dict(where=w, at=rng.choice([0, 0, 1, 2, 3, 5, 8]), exc=rng.choice(sorted(EXCS)))
        if rng.random() < 0.75:
            acts.append(dict(op="probe", gamma=rfl(rng, -2, 4), f=f))
        else:
            lo = rfl(rng, -3, 1)
            acts.append(dict(op="bsearch", lo=lo, hi=round(lo + rng.uniform(0.5, 6), 3), tol=rng.choice([0.5, 0.1, 0.01]), iters=rng.choice([3, 8, 2000]), f=f))
    return dict(n=n, use_parallel=rng.random() > 0.25, cons=cons, x0=[rfl(rng, -3, 3) for _ in range(n)], val=rng.choice([4.0, 25.0, 100.0, 25, 0.5, 1e-3, 1e4, 1e7, [9.0 + i for i in range(n)], [0.3 + i for i in range(n)]]),
                space=rng.choice(["Ell", "EllStable"]), defer_off=rng.random() < 0.2, pick=rng.choice(["first", "max"]),
                pre=[[[rfl(rng, -1, 1) or 0.1 for _ in range(n)], rng.choice([0.0, 0.0, 0.01, 0.2])] for _ in range(rng.choice([1, 2, 5, 20]))] if rng.random() < 0.3 else [],
                opt=rng.choice([None, [2000, 0.5], [2000, 1e-20], [40, 1e-8], [6, 1e-8], [2000, 1e-4]]), acts0=0, actions=acts)


def simplify(plan):
    if len(plan["cons"]) > 1:
        for i in range(len(plan["cons"])):
            yield {**plan, "cons": plan["cons"][:i] + plan["cons"][i + 1:]}
    for k, v in (("defer_off", False), ("use_parallel", True), ("pre", []), ("opt", None), ("space", "Ell"), ("x0", [0.0] * plan["n"])):
        if plan[k] != v:
            yield {**plan, k: v}
    for i, a in enumerate(plan["actions"]):
        if a["f"]:
            acts = list(plan["actions"])
            acts[i] = {**a, "f": None}
            yield {**plan, "actions": acts}


def values(plan, x, gamma):
    out = []
    for c in plan["cons"]:
        if c["k"] == "half":
            a = np.array(c["a"])
            out.append((float(a @ x) - c["b"] - c["s"] * gamma, a))
        elif c["k"] == "slab":
            a = np.array(c["a"])
            t = float(a @ x) - c["b"]
            w = c["w"] + c["s"] * gamma
            out.append((abs(t) - w, a if t >= 0 else -a, abs(t) + w if w > 0 else None))
        else:
            d = x - np.array(c["c"])
            out.append((float(d @ d) - c["b"] - c["s"] * gamma, 2 * d))
    return out


class LevelOracle:
    def __init__(self, plan):
        self.plan = plan
        self.gamma = None
        self.calls = 0
        self.updates = []
        self.fault = None
        self.obj = None
        self.watch = None
        self.accepted = None

    def _maybe(self, where):
        f = self.fault
        if f and self.obj is None and f["where"] == where:
            if f["at"] == self.seen[where]:
                self.obj = EXCS[f["exc"]]("injected")
                raise self.obj
            self.seen[where] += 1

    def arm(self, f):
        self.fault = f
        self.obj = None
        self.seen = {"oracle": 0, "update": 0}
        if f and f["where"] == "update":
            f = dict(f, at=f["at"] % 2)
            self.fault = f

    def update(self, gamma):
        check(self.obj is None, "call-after-failure", "update() called after the oracle failed")
        self.updates.append(gamma)
        self._maybe("update")
        self.gamma = gamma

    def assess_feas(self, x):
        check(self.obj is None, "call-after-failure", "oracle queried after it failed")
        if self.watch:
            self.watch(x)
        self._maybe("oracle")
        self.calls += 1
        vs = values(self.plan, np.asarray(x), self.gamma)
        bad = [t for t in vs if t[0] > 0]
        if not bad:
            self.accepted = np.array(x)
            return None
        t = bad[0] if self.plan["pick"] == "first" else max(bad, key=lambda t: t[0])
        v, g = t[:2]
        if not np.any(g):
            g = np.ones(len(g))
            return g, 0.0
        if len(t) == 3 and t[2] is not None:  # bounded on both sides: a parallel cut
            return g.copy(), (v, t[2])
        return g.copy(), v


def build(plan):
    orc = LevelOracle(plan)
    orc.arm(None)
    sp = cuts.make_space(plan["space"], plan["val"], plan["x0"], plan["defer_off"], plan["use_parallel"])
    for g, al in plan.get("pre", []):  # the space has a life before it is given to the adaptor
        g = np.array(g)
        probe = copy.deepcopy(sp)
        probe.update_central_cut((g, 0.0))
        sp.update_bias_cut((g, al * math.sqrt(probe.tsq())))
    if plan["pre"]:
        sp.set_xc(np.array(plan["x0"]))
    return orc, BSearchAdaptor(orc, sp, *opts(plan))


def opts(plan):
    if plan["opt"] is None:
        return ()
    o = Options()
    o.max_iters, o.tolerance = plan["opt"]
    return (o,)


def twin_of(plan, x):
    """An undisturbed adaptor whose centre is x (its region never changes)."""
    orc, ad = build(plan)
    ad.space.set_xc(np.array(x))
    return orc, ad


def execute(plan, ctx):
    orc, ad = build(plan)
    P0 = cuts.region(ad.space)[1]
    for act in plan["actions"]:
        x_before = np.array(ad.x_best)

        def call_on(o, a):
            if act["op"] == "probe":
                return lambda: a.assess_bs(act["gamma"])
            op = Options()
            op.tolerance, op.max_iters = act["tol"], act["iters"]
            return lambda: bsearch(a, (act["lo"], act["hi"]), op)

        # undisturbed outcome
        torc, tad = twin_of(plan, x_before)
        states = [x_before]  # every state an undisturbed execution commits
        tgam = []
        bs = tad.assess_bs

        def spy(gamma):
            # what a plain solve on a private copy says
            ref = LevelOracle(plan)
            ref.arm(None)
            ref.update(gamma)
            xr, _ = cutting_plane_feas(ref, copy.deepcopy(tad.space), *opts(plan))
            r = bs(gamma)
            check(bool(r) == (xr is not None), "not-the-solve", "probe at %s answered %s, a solve on a copy of the space at that level %s", gamma, r, xr)
            if r:
                check(np.allclose(tad.x_best, xr, rtol=1e-9, atol=1e-9 * (1 + float(np.abs(xr).max()))), "not-the-solve",
                      "probe at %s moved to %s, a solve on a copy of the space gives %s", gamma, tad.x_best, xr)
            tgam.append((gamma, r))
            check(r in (True, False), "bad-answer", "assess_bs returned %r", r)
            xs = np.array(tad.x_best)
            if r:
                check(np.array_equal(xs, torc.accepted), "committed-another-point", "probe at %s: the oracle accepted %s, the adaptor moved to %s", gamma, torc.accepted, xs)
                check(max(v for v, *_ in values(plan, xs, gamma)) <= 0, "committed-infeasible",
                      "probe at %s succeeded but the centre %s is not feasible there", gamma, xs)
                states.append(xs)
            else:
                check(np.array_equal(xs, states[-1]), "infeasible-probe-moved", "an infeasible probe at %s moved the centre", gamma)
            return r

        tad.assess_bs = spy
        want = call_on(torc, tad)()
        x_want = np.array(tad.x_best)
        if act["op"] == "bsearch":
            ctx.probe("searches")
            if any(r for _, r in tgam):
                g = want[0]
                check(max(v for v, *_ in values(plan, x_want, g)) <= 0, "best-not-feasible", "x_best %s is not feasible at the returned level %s", x_want, g)
                ctx.probe("search_accepted")
        else:
            ctx.probe("probe_" + str(bool(want)))

        def settle(tag):
            """After any end of the call: old or committed state, region shape intact."""
            xc, P = cuts.region(ad.space)
            check(cuts.same_region((np.zeros(plan["n"]), P0), (np.zeros(plan["n"]), P), 1e-9), "region-shape-changed", "the adaptor's region changed (%s)", tag)
            for s in states:
                if np.array_equal(xc, s):
                    return s
            raise Violation("torn-state", f"after {tag} the centre is {xc}, neither the old nor a committed one")

        f = act["f"]
        nup = len(orc.updates)
        allowed = [x_before]

        def watch(x):
            cur = np.asarray(ad.x_best)
            for s in states:
                if np.array_equal(cur, s):
                    return
            raise Violation("leak-during-probe", f"while a probe was running the adaptor's centre was {cur}")

        def gamma_ok(x):
            check(orc.updates and orc.gamma == orc.updates[-1], "level-not-set", "query before the level was set")

        orc.watch = watch
        if f is None:
            orc.arm(None)
            got = call_on(orc, ad)()
            x_now = settle("a normal return")
            same(ctx, act, want, got, x_want, x_now)
            check(list(map(float, orc.updates[nup:])) == list(map(float, torc.updates)), "levels-told", "levels told to the oracle: %s", orc.updates[nup:])
            check(list(map(float, orc.updates[nup:])) == [float(g) for g, _ in tgam], "levels-told", "oracle was told %s, probed %s", orc.updates[nup:], [g for g, _ in tgam])
            ctx.ev(act["op"] + ":" + str(want if act["op"] == "probe" else "done"), x_now, str(got))
            continue
        if f["where"] != "interrupt":
            orc.arm(f)
            try:
                got = call_on(orc, ad)()
            except BaseException as e:
                if orc.obj is None or isinstance(e, Violation):
                    raise
                check(e is orc.obj, "exception-changed", "injected %s reached the caller as %s(%s)", type(orc.obj).__name__, type(e).__name__, e)
                ctx.fault(f["where"] + "-raises-" + f["exc"])
                x_now = settle("an oracle failure")
                if act["op"] == "probe":
                    check(np.array_equal(x_now, x_before), "failed-probe-moved", "a failed probe moved the centre")
            else:
                check(orc.obj is None, "exception-swallowed", "the oracle's exception was swallowed")
                x_now = settle("a normal return")
                same(ctx, act, want, got, x_want, x_now)
                ctx.ev(act["op"] + ":" + str(want if act["op"] == "probe" else "done"), x_now)
                orc.arm(None)
                continue
        else:
            def mk(dry):
                if dry:
                    o2, a2 = twin_of(plan, x_before)
                    return call_on(o2, a2)
                orc.arm(None)
                return call_on(orc, ad)

            out, where, at, total = run_interrupted(mk, f["frac"], opcodes=f["op"])
            if out == "swallowed":
                raise Violation("interrupt-swallowed", f"an interrupt in {where} did not reach the caller")
            ctx.fault("interrupt-" + ("inside-expression" if f["op"] else "at-statement"))
            ctx.ev("interrupted", str(where), at, total)
            x_now = settle("an interrupt")
            if not np.array_equal(x_now, x_before):
                ctx.probe("interrupt_after_commit")
        # the retry behaves like an undisturbed call from the surviving state
        orc.arm(None)
        torc2, tad2 = twin_of(plan, x_now)
        want2 = call_on(torc2, tad2)()
        states.append(np.array(tad2.x_best))
        orc.watch = None
        got2 = call_on(orc, ad)()
        x_now2 = np.array(ad.x_best)
        ctx.ev("retry", x_now2, str(got2))
        same(ctx, act, want2, got2, np.array(tad2.x_best), x_now2)


def same(ctx, act, want, got, x_want, x_now):
    if act["op"] == "probe":
        check(bool(want) == bool(got), "outcome-differs", "probe at %s answered %s, an undisturbed one %s", act["gamma"], got, want)
    else:
        check(want[0] == got[0] and want[1] == got[1], "outcome-differs", "search gave %s, an undisturbed one %s", got, want)
    check(np.array_equal(x_want, x_now), "outcome-differs", "best point %s, an undisturbed call gives %s", x_now, x_want)
