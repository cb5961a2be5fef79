"""Simulator core: seeds, contexts, fault accounting, interrupts, shrinking, replay.

One run = one plan.  A plan is plain JSON produced by generate(rng) from one integer
seed and holds every choice (operations, faults, schedules), so executing a plan is a
pure function of the plan and the code under test.  No wall clock is read and no PRNG
is drawn from while a plan executes.
"""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
REPO = os.environ.get("ELLALGO_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "ellalgo") + os.sep
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"  # never trust cached bytecode of /repo
sys.path.insert(0, SRC)

import ast
import copy
import hashlib
import importlib.abc
import importlib.machinery
import json
import pickle
import random
import signal
import traceback
from collections import Counter

import numpy as np

np.seterr(all="ignore")
import warnings

warnings.simplefilter("ignore")

import ellalgo  # noqa: E402

if not os.path.realpath(ellalgo.__file__).startswith(os.path.realpath(SRC)):
    print("harness error: ellalgo is not imported from", SRC, file=sys.stderr)
    sys.exit(2)


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class HarnessError(Exception):
    pass


class RunTimeout(BaseException):
    pass


class Inconclusive(Exception):
    """A run that exceeded the wall alarm without exceeding the step limit."""


class SimFault(Exception):
    """An injected failure of a party (oracle down, element read failed, ...)."""


_FAULTS = {}


def sim_fault(name, *args):
    """A SimFault that is also a built-in exception of the given name (storage that fails
    with the exception types real storage fails with)."""
    base = {"LinAlgError": np.linalg.LinAlgError}.get(name) or (getattr(__import__("builtins"), name) if name != "SimFault" else None)
    if name not in _FAULTS:
        _FAULTS[name] = SimFault if base is None else type("SimFault_" + name, (SimFault, base), {})
    return _FAULTS[name](*args)


READ_FAULTS = ["SimFault", "SimFault", "ValueError", "IndexError", "KeyError", "TypeError", "ZeroDivisionError", "FloatingPointError",
               "OverflowError", "LinAlgError", "AssertionError", "RuntimeError", "MemoryError", "AttributeError"]


class SimInterrupt(BaseException):
    """An injected asynchronous interrupt (Ctrl-C, cancellation)."""


class StepLimit(BaseException):
    pass


def rng_for(seed, prop, index):
    return random.Random(f"{seed}:{prop}:{index}")


class Ctx:
    """Everything a run records: event log, fault counts, probes, steps."""

    def __init__(self, known=()):
        self.h = hashlib.sha256()
        self.sig = hashlib.sha256()
        self.tail = []
        self.faults = Counter()
        self.probes = Counter()
        self.steps = 0
        self.known_keys = set(known)
        self.known_hits = {}

    def ev(self, kind, *vals):
        """Record an event. kind goes into the abstract signature, vals into the log."""
        self.steps += 1
        line = kind + " " + " ".join(fmt(v) for v in vals)
        self.h.update(line.encode() + b"\n")
        self.sig.update(kind.encode() + b"\n")
        self.tail.append(line)
        if len(self.tail) > 60:
            del self.tail[:20]

    def fault(self, kind):
        self.faults[kind] += 1
        self.ev("fault:" + kind)

    def probe(self, kind, k=1):
        self.probes[kind] += k

    def known(self, key, msg):
        """A violation that matches a listed finding; otherwise it is a violation."""
        if key in self.known_keys:
            self.known_hits.setdefault(key, msg)
            return
        raise Violation(key, msg)

    def digest(self):
        return self.h.hexdigest()[:32]

    def signature(self):
        return self.sig.hexdigest()[:16]


def fmt(v):
    if isinstance(v, np.ndarray):
        return v.dtype.str + ":" + v.tobytes().hex() if v.size <= 64 else hashlib.sha256(v.tobytes()).hexdigest()
    if isinstance(v, float):
        return float(v).hex()
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(fmt(x) for x in v) + "]"
    return repr(v) if isinstance(v, (int, str, bool, type(None))) else str(v)


def check(cond, cls, msg="", *args):
    if not cond:
        raise Violation(cls, msg % args if args else msg)


class LineTracer:
    """Bounds the number of library lines one run may execute (confirms a hang)."""

    def __init__(self, limit):
        self.count, self.limit = 0, limit

    def _glob(self, frame, event, arg):
        return self._loc if frame.f_code.co_filename.startswith(PKG) else None

    def _loc(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count > self.limit:
                raise StepLimit()
        return self._loc

    def __enter__(self):
        self.prev = sys.gettrace()
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.prev)
        return False


# ---------------------------------------------------------------------------
# Preemption / interrupt points compiled into the library at import time.
#
# instrument() re-imports the library from /repo's sources with a call inserted before
# every statement of every function and around call results and right operands inside
# expressions (so that a read-modify-write can be split).  With no hook installed the
# inserted calls do nothing; the files in /repo are not touched.

_hook = None
SITES = []
INSTRUMENTED = False


def set_hook(fn):
    global _hook
    _hook = fn


def _sim_s(site):
    if _hook is not None:
        _hook(site, False)


def _sim_t(site, val):
    if _hook is not None:
        _hook(site, True)
    return val


class _Weave(ast.NodeTransformer):
    def __init__(self, filename):
        self.file = os.path.basename(filename)
        self.fn = []

    def _site(self, node):
        SITES.append((self.file, self.fn[-1] if self.fn else "<module>", getattr(node, "lineno", 0)))
        return len(SITES) - 1

    def _stmt(self, node):
        call = ast.Expr(ast.Call(ast.Name("__sim_s__", ast.Load()), [ast.Constant(self._site(node))], []))
        return ast.copy_location(call, node)

    def _block(self, body):
        out = []
        for i, st in enumerate(body):
            if isinstance(st, (ast.Global, ast.Nonlocal)) or (
                i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
            ):
                out.append(st)
                continue
            tick = self._stmt(st)
            st = self.visit(st)
            out += [tick, st]
        return out

    def _wrap(self, node):
        new = ast.Call(ast.Name("__sim_t__", ast.Load()), [ast.Constant(self._site(node)), node], [])
        return ast.copy_location(new, node)

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        node.body = self._block(node.body)
        self.fn.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.visit(st)
        return node

    def generic_visit(self, node):
        for field, val in ast.iter_fields(node):
            if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                if self.fn:
                    setattr(node, field, self._block(val))
                else:
                    setattr(node, field, [self.visit(v) for v in val])
            elif isinstance(val, list):
                setattr(node, field, [self.visit(v) if isinstance(v, ast.AST) else v for v in val])
            elif isinstance(val, ast.AST) and field not in ("annotation", "returns"):
                setattr(node, field, self.visit(val))
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        return self._wrap(node) if self.fn else node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.fn and not isinstance(node.right, ast.Call):
            node.right = self._wrap(node.right)
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if self.fn:
            node.value = self._wrap(node.value)
        return node

    def visit_Lambda(self, node):
        self.fn.append("<lambda>")
        node.body = self._wrap(self.visit(node.body))
        self.fn.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Match(self, node):
        for c in node.cases:
            c.body = self._block(c.body) if self.fn else c.body
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(_Weave(path).visit(tree))
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__sim_s__ = _sim_s
        module.__sim_t__ = _sim_t
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "ellalgo" and not name.startswith("ellalgo."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def instrument():
    global INSTRUMENTED
    if INSTRUMENTED:
        return
    INSTRUMENTED = True
    for m in [m for m in sys.modules if m == "ellalgo" or m.startswith("ellalgo.")]:
        del sys.modules[m]
    sys.meta_path.insert(0, _Finder())
    import ellalgo as e

    if not SITES and len(open(e.__file__).read()) > 0:
        import ellalgo.ell  # noqa: F401
    if not os.path.realpath(e.__file__).startswith(os.path.realpath(SRC)):
        raise HarnessError("instrumented library is not imported from " + SRC)


class Points:
    """Counts interrupt points on this thread; raises exc at the chosen one."""

    def __init__(self, at=None, exc=None, fine=False):
        self.count, self.at, self.exc, self.fine, self.fired = 0, at, exc, fine, False
        self.where = None

    def __call__(self, site, inner):
        if inner and not self.fine:
            return
        self.count += 1
        if self.count == self.at:
            self.fired = True
            self.where = SITES[site][:2]
            raise self.exc

    def __enter__(self):
        self.prev = _hook
        set_hook(self)
        return self

    def __exit__(self, *a):
        set_hook(self.prev)
        return False


def run_interrupted(make_call, frac, opcodes=False, exc=None):
    """Run make_call(True)() on a throw-away setup to count points, then interrupt
    make_call(False)() at the chosen fraction of them.
    -> (outcome, where or result, point, number of points)"""
    if not INSTRUMENTED:
        raise HarnessError("run_interrupted needs the instrumented library")
    dry = Points(fine=opcodes)
    call = make_call(True)
    try:
        with dry:
            call()
    except SimFault:
        pass
    total = dry.count
    call = make_call(False)
    if total == 0:
        return "none", None, 0, 0
    at = min(1 + int(frac * total), total)
    exc = exc or SimInterrupt("interrupt")
    tr = Points(at=at, exc=exc, fine=opcodes)
    try:
        with tr:
            res = call()
    except SimInterrupt as e:
        if e is not exc:
            raise
        return "interrupted", tr.where, at, total
    except SimFault:
        return "failed", None, at, total
    if tr.fired:
        return "swallowed", tr.where, at, total
    return "done", res, at, total


# ---------------------------------------------------------------------------
# Executing one plan with classification of outcomes


def lib_frame(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            return True
        tb = tb.tb_next
    return False


def execute(mod, plan, known=(), limit=None):
    """-> (ctx, violation or None).  Raises HarnessError for faults of the harness."""
    ctx = Ctx(known)
    try:
        if limit is not None:
            with LineTracer(limit=limit):
                mod.execute(plan, ctx)
        else:
            mod.execute(plan, ctx)
        return ctx, None
    except Violation as v:
        return ctx, v
    except StepLimit:
        return ctx, Violation("no-progress", f"more than {limit} library steps in one run")
    except RunTimeout:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and e.args != ("injected",):
            raise
        if lib_frame(e.__traceback__):
            where = traceback.extract_tb(e.__traceback__)
            libf = [f for f in where if f.filename.startswith(PKG)][-1]
            return ctx, Violation(
                "unexpected-exception:" + type(e).__name__,
                f"{type(e).__name__}({e}) from {os.path.basename(libf.filename)}:{libf.name}",
            )
        if isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, AssertionError, ArithmeticError)):
            # the checker could not digest what the library handed back; every plan is
            # digestible on the tree the checks were written for
            last = traceback.extract_tb(e.__traceback__)[-1]
            return ctx, Violation(
                "ill-formed-result:" + type(e).__name__,
                f"{type(e).__name__}({e}) while judging a result, at {os.path.basename(last.filename)}:{last.lineno}",
            )
        raise HarnessError("".join(traceback.format_exception(e)))


RUN_ALARM = 40
STEP_LIMIT = 2_000_000


def in_fork(fn):
    """Run fn() in a forked child and return ("ok", value) or ("exc", text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("exc", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise HarnessError("a forked run died")
    return pickle.loads(data)


class Snapshot:
    """The record of a run that took place in another process."""

    def __init__(self, ctx):
        self.tail, self.faults, self.probes, self.steps, self.known_hits = ctx.tail, ctx.faults, ctx.probes, ctx.steps, ctx.known_hits
        self._d, self._s = ctx.digest(), ctx.signature()

    def digest(self):
        return self._d

    def signature(self):
        return self._s


def execute_guarded(mod, plan, known=()):
    if not getattr(mod, "FORK", False):
        return execute_here(mod, plan, known)

    def run():
        try:
            ctx, v = execute_here(mod, plan, known)
        except Inconclusive as e:
            return None, str(e)
        return Snapshot(ctx), v and (v.cls, v.msg)

    how, out = in_fork(run)
    if how != "ok":
        raise HarnessError(out)
    if out[0] is None:
        raise Inconclusive(out[1])
    return out[0], out[1] and Violation(*out[1])


def execute_here(mod, plan, known=()):
    """execute() with a wall alarm; a hang is only reported if it also exceeds a
    deterministic step limit."""

    def on_alarm(sig, frm):
        raise RunTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_ALARM)
    try:
        return execute(mod, plan, known)
    except RunTimeout:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    ctx, v = execute(mod, plan, known, limit=STEP_LIMIT)
    if v is None:
        raise Inconclusive("run exceeded the wall alarm but not the step limit")
    return ctx, v


# ---------------------------------------------------------------------------
# Minimisation


def get_path(plan, path):
    for k in path:
        if plan is None:
            return None
        plan = plan.get(k) if isinstance(plan, dict) else plan[k]
    return plan


def set_path(plan, path, val):
    q = copy.deepcopy(plan)
    d = q
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = val
    return q


def minimise(mod, plan, cls, known, budget=400, wall=45.0):
    import time

    t0 = time.monotonic()
    tries = [0]

    def fails(p):
        if tries[0] >= budget or time.monotonic() - t0 > wall:
            return False
        tries[0] += 1
        try:
            _, v = execute_guarded(mod, p, known)
        except Exception:
            return False
        return v is not None and v.cls == cls

    best = plan
    progress = True
    while progress and tries[0] < budget and time.monotonic() - t0 <= wall:
        progress = False
        for path in getattr(mod, "LISTS", []):
            lst = get_path(best, path)
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                i = 0
                while True:
                    lst = get_path(best, path)
                    if i >= len(lst):
                        break
                    cand = set_path(best, path, lst[:i] + lst[i + size:])
                    if fails(cand):
                        best = cand
                        progress = True
                    else:
                        i += size
                if size == 1:
                    break
                size //= 2
        if hasattr(mod, "simplify"):
            for cand in mod.simplify(best):
                if cand != best and fails(cand):
                    best = cand
                    progress = True
                    break
    return best, tries[0]


def load_known(prop):
    """KNOWN_FINDINGS.txt lines: 'known: property=<id> key=<key> <text>'."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                parts = line[len("known:"):].split(None, 2)
                kv = dict(p.split("=", 1) for p in parts[:2])
                if kv.get("property") == prop:
                    out[kv["key"]] = parts[2].strip() if len(parts) > 2 else ""
    return out
