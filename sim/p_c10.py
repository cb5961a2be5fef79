"""C10: concurrent sessions do not influence each other."""
import threading

import numpy as np

from . import core, sessions
from .core import SimInterrupt, Violation, check

ID = "C10"
QUICK, THOROUGH = 7000, 200000
NONDET_IS_VIOLATION = True
FORK = True  # every run happens in a process in which the library has not run before
RULE = ("One evaluation = 2..4 complete sessions (solves with all oracles and both spaces, factorizations, CG, spectral factorization) in real "
        "threads that a seeded scheduler parks and resumes before any statement or inside expressions (between operand load and store) of library code - at random times or at chosen code sites -, sharing start points, matrices, "
        "parameters and options, with sessions killed at an arbitrary point; each surviving session's log must equal, bit for bit, its log "
        "when run alone. 20 % of runs instead nest the sessions in one thread: the oracle of one runs another.")
REAL = ["all drivers, spaces, oracles, LDLTMgr, conjugate_gradient, spectral_fact; Python threads"]
STUB = ["thread scheduler (baton passed at points woven into the library at import; /repo untouched)", "half-space oracle in one session kind"]
ASSUMPTIONS = ["context switches at the woven points (every statement, every call result, every right operand); numpy kernels are atomic"]
LISTS = [["slices"], ["kills"], ["traps"], ["nest"], ["sessions"]]


def generate(rng):
    k = rng.choice([2, 2, 2, 3, 4])
    if rng.random() < 0.55:
        kind = rng.choice(sessions.KINDS)
        ss = [sessions.gen_session(rng, kind) for _ in range(k)]
    else:
        ss = [sessions.gen_session(rng) for _ in range(k)]
    op = rng.random() < 0.35
    scale = rng.choice([1, 3, 10, 40, 150]) * (4 if op else 1)
    slices = []
    for _ in range(rng.choice([3, 10, 60, 200])):
        slices.append([rng.randrange(k), 1 + int(rng.expovariate(1.0 / scale))])
    kills = []
    if rng.random() < 0.35:
        kills.append([rng.randrange(k), round(rng.random(), 4)])
    traps = []
    if rng.random() < 0.6:
        # targeted preemption: park a session at a chosen place of the code (not a chosen
        # time, which nearly always falls into the hottest loop) and run another for long
        if rng.random() < 0.7:
            slices = slices[:1] if rng.random() < 0.5 else []
        for _ in range(rng.choice([1, 2, 4, 12, 40])):
            traps.append([rng.randrange(k), round(rng.random(), 5), round(rng.random() ** 2, 4), rng.randrange(k), rng.choice([3, 30, 300, 3000, 1 << 30])])
    nest = []
    if rng.random() < 0.2:
        # no threads: client code of one session (its oracle) runs the next session inside
        slices, traps, op = [], [], False
        for _ in range(rng.choice([1, 2, 5])):
            nest.append([rng.randrange(k - 1), round(rng.random(), 4)])
    return dict(shared=sessions.gen_shared(rng), sessions=ss, slices=slices, kills=kills, opcodes=op, traps=traps, nest=nest)


def simplify(plan):
    if plan["opcodes"]:
        yield {**plan, "opcodes": False}
    for i, t in enumerate(plan["traps"]):
        for j, v in ((4, 1 << 30), (2, 0.0)):
            if t[j] != v:
                ts = [list(x) for x in plan["traps"]]
                ts[i][j] = v
                yield {**plan, "traps": ts}
    for i, s in enumerate(plan["sessions"]):
        for k, v in (("space", "Ell"), ("val", 4.0), ("defer_off", False), ("opt", True)):
            if s[k] != v:
                ss = list(plan["sessions"])
                ss[i] = {**s, k: v}
                yield {**plan, "sessions": ss}


class Sched:
    def __init__(self, ctx, n, slices, kills, opcodes, traps=()):
        self.ctx = ctx
        self.traps = {}
        for t, site, hit, u, ln in traps:
            self.traps.setdefault((t, site), {})[hit] = (u, ln)
        self.hits = {k: 0 for k in self.traps}
        self.n, self.slices, self.kills, self.opcodes = n, list(slices), dict(kills), opcodes
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.count = [0] * n
        self.out = [None] * n
        self.done = threading.Semaphore(0)
        self.rem = 0
        self.cur = None
        self.free = False
        self.switches = 0

    def pick(self):
        while self.slices:
            t, ln = self.slices.pop(0)
            t %= self.n
            if self.alive[t]:
                self.rem = ln
                return t
        self.rem = 1 << 60
        for t in range(self.n):
            if self.alive[t]:
                return t
        return None

    def tick(self, site, inner):
        if self.free or (inner and not self.opcodes):
            return
        i = self.cur
        self.count[i] += 1
        if self.kills.get(i) == self.count[i]:
            self.ctx.fault("session-killed")
            raise SimInterrupt("killed")
        self.rem -= 1
        j = None
        if (i, site) in self.hits:
            self.hits[i, site] += 1
            t = self.traps[i, site].pop(self.hits[i, site], None)
            if t is not None and t[0] != i and self.alive[t[0]]:
                j, self.rem = t
                self.ctx.fault("preempted-at-site")
        if self.rem <= 0 or j is not None:
            if j is None:
                j = self.pick()
            if j is not None and j != i:
                self.switches += 1
                self.ctx.ev("sw%d>%d:%s" % (i, j, core.SITES[site][1]))
                self.cur = j
                self.sems[j].release()
                self.sems[i].acquire()

    def body(self, i, fn):
        self.sems[i].acquire()

        try:
            fn()
        except SimInterrupt:
            self.out[i] = "killed"
        except BaseException as e:  # reported by the main thread
            self.out[i] = e
        finally:
            self.alive[i] = False
            if not self.free:
                j = self.pick()
                if j is not None:
                    self.cur = j
                    self.sems[j].release()
                else:
                    self.done.release()
            else:
                self.done.release()

    def run(self, fns):
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        j = self.pick()
        self.cur = j
        self.sems[j].release()
        if not self.done.acquire(timeout=20):
            # the library blocks (a lock held by a parked session): let everything run freely
            self.free = True
            self.ctx.probe("released_blocked_schedule")
            for s in self.sems:
                s.release()
        for t in ts:
            t.join(timeout=30)
            if t.is_alive():
                raise Violation("stuck-session", "a session never finished")


def count_events(fn, fine):
    """-> number of points passed, and how often each site was passed"""
    sites = {}

    def hook(site, inner):
        if inner and not fine:
            return
        sites[site] = sites.get(site, 0) + 1

    core.set_hook(hook)
    try:
        fn()
    finally:
        core.set_hook(None)
    return sum(sites.values()), sites


def attempt(fn, log):
    try:
        fn(log)
    except (ValueError, AssertionError, ZeroDivisionError, FloatingPointError, RuntimeError) as e:
        # a session may end in a (deterministic) error of its own; it is part of its log
        log.append(("error", type(e).__name__, str(e)))


def solo(spec, shared, opcodes):
    log = []
    fn = sessions.session(spec, sessions.build_shared(shared))
    cnt = count_events(lambda: attempt(fn, log), opcodes)
    return log, cnt


def execute(plan, ctx):
    specs = plan["sessions"]
    if not specs:
        return
    k = len(specs)
    # truly alone: each in a forked process of its own, in which nothing else has run
    ref = []
    for s in specs:
        how, out = core.in_fork(lambda: solo(s, plan["shared"], plan["opcodes"]))
        ref.append(out if how == "ok" else solo(s, plan["shared"], plan["opcodes"]))
    # alone, but after the others ran: nothing may have leaked
    for i, s in reversed(list(enumerate(specs))):
        log, cnt = solo(s, plan["shared"], plan["opcodes"])
        diff(ref[i][0], log, "sequential-leak", s)
    traps = []
    for t, f, g, u, ln in plan["traps"]:
        sites = ref[t % k][1][1]
        if sites:
            order = sorted(sites)
            st = order[min(int(f * len(order)), len(order) - 1)]
            traps.append((t % k, st, 1 + int(g * (sites[st] - 1)), u % k, ln))
    kills = [(t % k, max(1, int(f * ref[t % k][1][0]))) for t, f in plan["kills"]]
    sh = sessions.build_shared(plan["shared"])
    if plan.get("nest"):
        nested(plan, ctx, specs, ref, kills, sh)
        return
    logs = [[] for _ in specs]
    sched = Sched(ctx, k, plan["slices"], kills, plan["opcodes"], traps)
    fns = []
    for i, s in enumerate(specs):
        fn = sessions.session(s, sh)
        fns.append(lambda fn=fn, i=i: attempt(fn, logs[i]))
    core.set_hook(sched.tick)
    try:
        sched.run(fns)
    finally:
        core.set_hook(None)
    ctx.probe("switches", sched.switches)
    for i, s in enumerate(specs):
        ctx.ev("session:" + s["kind"], len(logs[i]), str(logs[i][-1:]))
        if isinstance(sched.out[i], BaseException):
            raise Violation("session-crashed:" + type(sched.out[i]).__name__, f"session {i} ({s['kind']}) raised {sched.out[i]!r} only when run concurrently")
        if sched.out[i] == "killed":
            # its log must be a prefix of the solo log
            check(logs[i] == ref[i][0][:len(logs[i])], "interference", "killed session %d (%s) had already diverged", i, s["kind"])
            continue
        diff(ref[i][0], logs[i], "interference", s)
    ctx.probe("compared", k)


def nested(plan, ctx, specs, ref, kills, sh):
    """One thread: at chosen pauses of session i (its oracle's code, or between its direct
    operations) session i+1 runs from start to end, possibly dying half-way."""
    k = len(specs)
    pauses = []
    for s in specs:
        n = [0]

        def count(n=n):
            n[0] += 1

        attempt(sessions.session(s, sessions.build_shared(plan["shared"]), None, count), [])
        pauses.append(n[0])
    at = {}
    for i, f in plan["nest"]:
        i %= k
        if i + 1 < k and pauses[i]:
            at.setdefault(i, set()).add(1 + int(f * (pauses[i] - 1)))
    limit = dict(kills)

    def run(i):
        log, n = [], [0]

        def pause():
            n[0] += 1
            if n[0] in at.get(i, ()):
                ctx.fault("nested-session")
                inner(i + 1)

        attempt(sessions.session(specs[i], sh, None, pause), log)
        ctx.ev("nested:" + specs[i]["kind"], i, len(log), str(log[-1:]))
        diff(ref[i][0], log, "interference", specs[i])

    def inner(j):
        if j not in limit:
            run(j)
            return
        left = [limit.pop(j)]

        def tick(site, fine):
            left[0] -= 1
            if left[0] == 0:
                core.set_hook(None)
                ctx.fault("session-killed")
                raise SimInterrupt("killed")

        core.set_hook(tick)
        try:
            attempt(sessions.session(specs[j], sh), [])
        except SimInterrupt:
            pass
        finally:
            core.set_hook(None)
        run(j)

    run(0)
    ctx.probe("nested_compared", k)


def diff(want, got, cls, spec):
    if want == got:
        return
    for n, (x, y) in enumerate(zip(want, got)):
        if x != y:
            raise Violation(cls, f"session {spec['kind']} ({spec['space']}) event {n}: alone {str(x)[:160]}, here {str(y)[:160]}")
    raise Violation(cls, f"session {spec['kind']}: {len(want)} events alone, {len(got)} here")
