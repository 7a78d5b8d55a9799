"""One worker process: executes the runs assigned to it and appends one JSON line per run."""
import json
import os
import sys
import time
import traceback

from sim import core


def execute(mod, scn):
    """Run one scenario. Returns (violation or None, ctx). Harness errors propagate."""
    ctx = core.Ctx()
    if bool(scn.get("x64")) != core.X64:
        raise RuntimeError("this run needs a process of the other precision")
    try:
        with core.quiet():
            mod.run(scn, ctx)
    except core.Violation as v:
        return v, ctx
    return None, ctx


def minimise(mod, scn, kind, deadline, max_exec=400):
    """Greedy delta debugging: keep the simplest scenario that fails in the same way."""
    n = 0
    progress = True
    while progress and time.time() < deadline and n < max_exec:
        progress = False
        for cand in mod.shrinks(scn):
            if time.time() > deadline or n >= max_exec:
                break
            n += 1
            try:
                v, _ = execute(mod, cand)
            except Exception:
                continue
            if v is not None and v.kind == kind:
                scn = cand
                progress = True
                break
    return scn, n


def main():
    job = json.loads(sys.argv[1])
    mod = core_import(job["prop"])
    core.setup_jax(x64=job.get("x64", False))
    core.REPLICA = job.get("replica", 0)
    out = open(job["out"], "w", buffering=1)
    if hasattr(mod, "worker_init"):
        with core.quiet():
            mod.worker_init(job)
    for i in job["runs"]:
        if time.time() > job["deadline"] or os.path.exists(job["stop"]):
            break
        seed = core.derive(job["seed"], job["prop"], i)
        scn = mod.gen(core.rng_for(seed, "scenario"), i, job["tier"])
        scn["seed"] = seed
        if job.get("x64"):
            scn["x64"] = True  # a user's process with double precision switched on
        scn = json.loads(json.dumps(scn))
        t0 = time.time()
        rec = dict(i=i, replica=job.get("replica", 0))
        try:
            v, ctx = execute(mod, scn)
        except Exception:
            rec["harness_error"] = traceback.format_exc()[-3000:]
            rec["scn"] = scn
            out.write(json.dumps(rec) + "\n")
            continue
        rec.update(digest=ctx.digest(), steps=ctx.steps, faults=dict(ctx.faults), probes=dict(ctx.probes),
                   states=sorted(ctx.states), t=round(time.time() - t0, 3))
        if i < 3:
            rec["sample"] = dict(scenario=scn, log=[_short(e) for e in ctx.events[:12]])
        if v is not None:
            open(job["stop"], "w").close()
            small, n = minimise(mod, scn, v.kind, time.time() + job["min_s"])
            v2, ctx2 = execute(mod, small)
            if v2 is None or v2.kind != v.kind:
                small, v2, ctx2 = scn, v, ctx
            rec["violation"] = dict(kind=v2.kind, msg=v2.msg, scenario=small, original=scn,
                                    min_execs=n, log=[_short(e) for e in ctx2.events[-40:]])
        out.write(json.dumps(rec) + "\n")
        if v is not None:
            break
    out.write(json.dumps(dict(done=True)) + "\n")
    out.close()


def _short(e):
    return json.loads(json.dumps(e, default=core._enc))


def core_import(prop):
    import importlib
    return importlib.import_module(f"sim.props.{prop.lower()}")


if __name__ == "__main__":
    main()
