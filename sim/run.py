"""python -m sim.run <PROPERTY> [--tier quick|thorough] [--runs N] | --replay FILE | --digest SPEC"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# properties whose faults or schedules land inside library code
QUICK_WALL = 330.0  # a slow machine runs a shorter prefix of the same runs
WOVEN = {"C09", "C10", "C12", "C13", "C14", "C15", "C16"}


def load(prop):
    if prop in WOVEN:
        core.instrument()
    return importlib.import_module("sim.p_" + prop.lower())


def plan_for(mod, seed, index):
    rng = core.rng_for(seed, mod.ID, index)
    plan = mod.generate(rng)
    # the plan must survive JSON unchanged: what is executed is what a replay file holds
    return json.loads(json.dumps(plan))


def worker(args):
    prop, seed, lo, hi, known = args
    mod = load(prop)
    st = dict(n=0, steps=0, faults=Counter(), probes=Counter(), sigs=set(), nontriv=set(),
              faulted=0, known={}, digests={}, sample=None, fail=None, err=None)
    for i in range(lo, hi):
        plan = plan_for(mod, seed, i)
        try:
            ctx, v = core.execute_guarded(mod, plan, known)
        except core.HarnessError as e:
            st["err"] = (i, str(e))
            return st
        except core.Inconclusive:
            st["probes"]["inconclusive_runs"] += 1
            continue
        st["n"] += 1
        st["steps"] += ctx.steps
        st["faults"] += ctx.faults
        st["probes"] += ctx.probes
        s = ctx.signature()
        st["sigs"].add(s)
        if ctx.faults:
            st["faulted"] += 1
        if ctx.steps >= 2:
            st["nontriv"].add(s)
        if i % 16 == 0:
            st["digests"][i] = ctx.digest()
        for k, m in ctx.known_hits.items():
            st["known"].setdefault(k, (i, m))
        if st["sample"] is None:
            st["sample"] = dict(run=i, plan=plan, events=ctx.tail[:12], digest=ctx.digest())
        if v is not None:
            st["fail"] = (i, plan, v.cls, v.msg)
            return st
    return st


def short(obj, n=2500):
    s = json.dumps(obj)
    return obj if len(s) <= n else s[:n] + "..."


def digest_spec(prop, seed, idxs):
    """Digests of the given runs in a fresh interpreter (other hash seed)."""
    env = dict(os.environ, PYTHONHASHSEED="4242")
    out = subprocess.run([sys.executable, "-m", "sim.run", prop, "--digest", f"{seed}:" + ",".join(map(str, idxs))],
                         cwd=VERIF, env=env, capture_output=True, text=True, timeout=600)
    if out.returncode != 0:
        raise core.HarnessError("digest process failed: " + out.stderr[-2000:])
    return {int(k): v for k, v in json.loads(out.stdout.strip().splitlines()[-1]).items()}


def report(prop, seed, idx, plan, cls, msg, mod, known):
    best, tries = core.minimise(mod, plan, cls, known)
    ctx, v = core.execute_guarded(mod, best, known)
    if v is None or v.cls != cls:
        best = plan
        ctx, v = core.execute_guarded(mod, best, known)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}-s{seed}-r{idx}.json")
    doc = dict(property=prop, seed=seed, run=idx, violation=v.cls if v else cls, message=v.msg if v else msg,
               plan=best, digest=ctx.digest(), events=ctx.tail, minimised_in=tries, original_message=msg)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    # replay in a fresh process must fail the same way
    r = subprocess.run([sys.executable, "-m", "sim.run", prop, "--replay", path], cwd=VERIF, capture_output=True, text=True)
    same = r.returncode == 1 and "REPRODUCED" in r.stdout
    print(f"  run {idx}: {cls}: {msg}")
    print(f"  minimised: {doc['message']}  (replay in a fresh process: {'same' if same else 'DIFFERENT'})")
    print(f"VIOLATION property={prop} replay={path}")
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--digest")
    a = ap.parse_args()
    prop = a.prop
    mod = load(prop)
    known = core.load_known(prop)
    if a.replay:
        doc = json.load(open(a.replay))
        ctx, v = core.execute_guarded(mod, doc["plan"], known)
        if v is None:
            print("NOT REPRODUCED: the run passes")
            return 0
        same = v.cls == doc["violation"] and ctx.digest() == doc["digest"]
        print("\n".join(ctx.tail))
        print(f"{'REPRODUCED' if same else 'FAILS DIFFERENTLY'} {v.cls}: {v.msg}")
        print(f"VIOLATION property={prop} replay={a.replay}")
        return 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.digest:
        s, ids = a.digest.split(":")
        out = {}
        for i in ids.split(","):
            ctx, _ = core.execute_guarded(mod, plan_for(mod, int(s), int(i)), known)
            out[i] = ctx.digest()
        print(json.dumps(out))
        return 0
    n = a.runs or (mod.THOROUGH if a.tier == "thorough" else mod.QUICK)
    t0 = time.monotonic()
    chunk = max(1, min(64, n // (a.jobs * 6) or 1))
    jobs = [(prop, seed, lo, min(lo + chunk, a.start + n), known) for lo in range(a.start, a.start + n, chunk)]
    tot = dict(n=0, steps=0, faults=Counter(), probes=Counter(), sigs=set(), nontriv=set(), faulted=0, known={}, digests={})
    samples, fail, err = [], None, None
    pool = ProcessPoolExecutor(a.jobs, mp_context=mp.get_context("fork"))
    try:
        for st in pool.map(worker, jobs):
            for k in ("n", "steps", "faulted"):
                tot[k] += st[k]
            for k in ("faults", "probes"):
                tot[k] += st[k]
            for k in ("sigs", "nontriv"):
                tot[k] |= st[k]
            tot["digests"].update(st["digests"])
            for k, m in st["known"].items():
                tot["known"].setdefault(k, m)
            if st["sample"] and len(samples) < 2:
                samples.append(st["sample"])
            if st["err"]:
                err = st["err"]
                break
            if st["fail"]:
                fail = st["fail"]
                break
            if a.tier != "thorough" and not a.runs and time.monotonic() - t0 > QUICK_WALL:
                tot["probes"]["stopped_at_wall_limit"] += 1
                break
    except BrokenProcessPool:
        err = ("?", "a worker process died")
    finally:
        for p in list((getattr(pool, "_processes", None) or {}).values()):
            p.kill()
        pool.shutdown(wait=False, cancel_futures=True)
    if err:
        print(f"harness error in run {err[0]}:\n{err[1]}", file=sys.stderr)
        return 2
    # determinism: re-run a sample in a fresh interpreter with another hash seed
    redo = mism = 0
    if not fail:
        ids = sorted(tot["digests"])
        ids = ids[:: max(1, len(ids) // 40)][:40]
        got = digest_spec(prop, seed, ids[::-1]) if ids else {}
        redo = len(ids)
        bad = [i for i in ids if got[i] != tot["digests"][i]]
        mism = len(bad)
        if bad:
            print(f"note: {mism} of {redo} re-executed runs differ in a fresh process")
            if getattr(mod, "NONDET_IS_VIOLATION", False):
                i = bad[0]
                fail = (i, plan_for(mod, seed, i), "not-repeatable", "the same plan gave another event log in a fresh interpreter")
    wall_search = time.monotonic() - t0
    viol = 0
    if fail:
        viol = 1
        report(prop, seed, *fail, mod, known)
    for k, text in known.items():
        if k in tot["known"]:
            i, m = tot["known"][k]
            print(f"KNOWN-FINDING: property={prop} {k}: {text} [seen in run {i}: {m}]")
    wall = time.monotonic() - t0
    ev = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="exploration",
              coverage=dict(
                  evaluations=tot["n"], distinct_nontrivial=len(tot["nontriv"]),
                  rule=mod.RULE + " Non-trivial: at least two simulated events. Distinct: by hash of the abstract event sequence (event kinds, verdicts, fault kinds, scheduling choices; no floating-point payload).",
                  samples=[dict(run=s["run"], plan=short(s["plan"]), first_events=s["events"], digest=s["digest"]) for s in samples] or ["none"],
                  runs_per_hour=round(tot["n"] / wall_search * 3600) if wall_search else 0,
                  seeds=tot["n"], base_seed=seed,
                  simulated_steps=tot["steps"],
                  simulated_time="logical time only: one tick per party-to-party event (" + str(tot["steps"]) + " ticks)",
                  runs_with_faults=tot["faulted"], fault_free_runs=tot["n"] - tot["faulted"],
                  faults_injected=dict(sorted(tot["faults"].items())),
                  rare_condition_probes=dict(sorted(tot["probes"].items())),
                  distinct_event_sequences=len(tot["sigs"]),
                  determinism_reruns=redo, determinism_mismatches=mism,
                  real_components=mod.REAL, stub_components=mod.STUB, exhaustive=False),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(wall, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {a.tier}: {tot['n']} runs, {tot['steps']} steps, {len(tot['sigs'])} distinct sequences, "
          f"faults {sum(tot['faults'].values())}, {wall:.1f}s, violations {viol}")
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        rc = main()
    except core.HarnessError as e:
        print("harness error:", e, file=sys.stderr)
        rc = 2
    sys.exit(rc)
