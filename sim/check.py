"""python -m sim.check Cxx [--replay FILE]: decide one property on /repo's working tree.

Exit 0: the property held in every run. Exit 1 with a VIOLATION line: it does not.
Anything else (harness error, too few runs): exit 2.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from sim import core
from sim.worker import core_import, execute

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")


def known_findings(prop):
    """(kind-prefix, text) of each open finding listed for this property."""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                kv = dict(p.split("=", 1) for p in line.split()[1:3])
                out.append((kv["signature"], line.split(None, 3)[3]))
    return out


def digests(prop, seed, tier, plans):
    """Run each (list of runs, hash seed) in its own process; the digest of the last run of each."""
    tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_x_")
    try:
        ps = []
        for k, (runs, hs) in enumerate(plans):
            out = os.path.join(tmp, f"{k}.jsonl")
            job = dict(prop=prop, seed=seed, tier=tier, runs=runs, deadline=time.time() + 600, out=out,
                       stop=os.path.join(tmp, f"stop{k}"), replica=k, min_s=1, tmp=tmp, worker=k)
            env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE="1", TMPDIR=tmp, OMP_NUM_THREADS="1")
            env.pop("PYTHONPATH", None)
            ps.append((out, runs[-1], subprocess.Popen([sys.executable, "-m", "sim.worker", json.dumps(job)], cwd=ROOT, env=env,
                                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        res = []
        for out, i, p in ps:
            p.wait()
            d = None
            for line in open(out):
                r = json.loads(line)
                if r.get("i") == i:
                    d = r.get("digest")
            res.append(d)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def differ(prop, cross):
    a, b = digests(prop, cross["seed"], cross["tier"], cross["plans"])
    return a is not None and b is not None and a != b


def shrink_cross(prop, cross):
    """The shortest histories of the two processes we can find that still leave different records."""
    i = cross["plans"][0][0][-1]
    (ra, ha), (rb, hb) = cross["plans"]
    for pa, pb in (([i], [i]), ([i], rb), (ra, [i])):
        c = dict(cross, plans=[[pa, ha], [pb, hb]])
        if (pa, pb) != (ra, rb) and differ(prop, c):
            return c
    return cross


def replay(prop, path):
    doc = json.load(open(path))
    if doc["scenario"].get("cross_process"):
        bad = differ(prop, doc["scenario"]["cross"])
        print("replay: the two processes left", "different" if bad else "the same", "records")
        if bad:
            print(f"VIOLATION property={prop} replay={path}")
        return int(bad)
    mod = core_import(prop)
    core.setup_jax(x64=bool(doc["scenario"].get("x64")))
    if hasattr(mod, "worker_init"):
        with core.quiet():
            mod.worker_init(dict(prop=prop, seed=0, tier="quick", runs=[], replay=True))
    v, ctx = execute(mod, doc["scenario"])
    for e in ctx.events[-40:]:
        print("  ", json.dumps(e, default=core._enc))
    if v is None:
        print("replay: no violation")
        return 0
    print(f"replay: {v}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def hash_seed(w, r):
    return (w * 7919 + r * 104729 + 1) % 4294967295


def main():
    prop = sys.argv[1]
    if "--replay" in sys.argv:
        sys.exit(replay(prop, sys.argv[sys.argv.index("--replay") + 1]))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    mod = core_import(prop)
    n_workers = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 8))))
    n_runs = int(os.environ.get("VERIF_RUNS", mod.RUNS[tier]))
    soft = float(os.environ.get("VERIF_SOFT_S", "420" if tier == "quick" else "14400"))
    min_s = 100 if tier == "quick" else 300
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    stop = os.path.join(tmp, "stop")
    procs = []
    # A sample of the runs is executed a second time by another worker under another hash seed.
    replicas = getattr(mod, "REPLICAS", 0.06)
    n_rep = n_runs if replicas >= 1 else max(2, int(n_runs * replicas))
    plan = [[] for _ in range(n_workers)]
    # Every eighth run is that of a user who has double precision switched on, where the property's module
    # supports it; these runs have processes of their own (precision is a setting of the process).
    wide = [i for i in range(n_runs) if i % 8 == 7] if getattr(mod, "X64", False) and n_workers > 1 else []
    plain = [i for i in range(n_runs) if i not in set(wide)]
    n_plain = n_workers - bool(wide)
    for k, i in enumerate(plain):
        plan[k % n_plain].append(i)
    if wide:
        plan[-1] = wide
    rep = [[] for _ in range(n_workers)]
    for k, i in enumerate(i for i in plain if i < n_rep):
        rep[(k * 3 + 1 + k // n_plain) % n_plain].append(i)
    if wide:
        rep[-1] = [i for i in wide if i < n_rep][::-1]
    jobs = []
    for w in range(n_workers):
        if plan[w]:
            jobs.append((w, 0, plan[w]))
    for w in range(n_workers):
        if rep[w]:
            jobs.append((w, 1, rep[w]))
    outs = []

    def launch(w, r, runs):
        out = os.path.join(tmp, f"w{w}_{r}.jsonl")
        job = dict(prop=prop, seed=seed, tier=tier, runs=runs, deadline=t0 + soft, out=out, stop=stop,
                   replica=r, min_s=min_s, tmp=tmp, worker=w, x64=bool(wide) and w == n_workers - 1)
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed(w, r)),
                   PYTHONDONTWRITEBYTECODE="1", TMPDIR=tmp, OMP_NUM_THREADS="1")
        env.pop("PYTHONPATH", None)
        err = open(os.path.join(tmp, f"w{w}_{r}.err"), "w")
        p = subprocess.Popen([sys.executable, "-m", "sim.worker", json.dumps(job)], cwd=ROOT, env=env,
                             stdout=subprocess.DEVNULL, stderr=err)
        procs.append(p)
        outs.append((out, p))
        return p

    hard = t0 + soft + min_s + 120
    queue = list(jobs)
    running = []
    killed = False
    while queue or running:
        while queue and len(running) < n_workers:
            running.append(launch(*queue.pop(0)))
        time.sleep(0.05)
        running = [p for p in running if p.poll() is None]
        if os.path.exists(stop):
            queue = []
        if time.time() > hard:
            killed = True
            for p in running:
                p.kill()
            for p in running:
                p.wait()
            running, queue = [], []
    recs, errors, reps = {}, [], {}
    violation = None
    for out, p in outs:
        done = False
        lines = open(out).read().splitlines() if os.path.exists(out) else []
        for line in lines:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r.get("done"):
                done = True
                continue
            if "harness_error" in r:
                errors.append(r)
                continue
            if "violation" in r and (violation is None or r["i"] < violation["i"]):
                violation = r
            (reps if r["replica"] else recs)[r["i"]] = r
        if not done and not killed:
            err = open(out.replace(".jsonl", ".err")).read()[-2000:] if os.path.exists(out.replace(".jsonl", ".err")) else ""
            errors.append(dict(harness_error=f"worker ended early (rc={p.returncode}): {err}"))
    # the same run in two processes with different hash seeds must leave the same event log
    mism = [i for i in reps if i in recs and "digest" in recs[i] and "digest" in reps[i]
            and recs[i]["digest"] != reps[i]["digest"]]
    n_cmp = len([i for i in reps if i in recs])
    if violation is None and mism and getattr(mod, "REPLICA_IS_PROPERTY", False):
        i = mism[0]
        s = core.derive(seed, prop, i)
        scn = mod.gen(core.rng_for(s, "scenario"), i, tier)
        scn["seed"] = s
        wa = next(w for w, r, runs in jobs if r == 0 and i in runs)
        wb = next(w for w, r, runs in jobs if r == 1 and i in runs)
        cross = dict(seed=seed, tier=tier, plans=[[plan[wa][:plan[wa].index(i) + 1], hash_seed(wa, 0)],
                                                  [rep[wb][:rep[wb].index(i) + 1], hash_seed(wb, 1)]])
        cross = shrink_cross(prop, cross)
        violation = dict(i=i, violation=dict(kind="process-dependent", scenario=dict(scn, cross_process=True, cross=cross),
                         original=scn, min_execs=0, log=[],
                         msg=f"run {i} left different records in two processes (hash seeds differ)"))
    if hasattr(mod, "master_checks") and violation is None:
        violation = mod.master_checks(dict(seed=seed, tier=tier, tmp=tmp, root=ROOT, recs=recs, reps=reps))
    wall = time.time() - t0
    write_evidence(prop, mod, tier, seed, recs, reps, violation, wall, n_cmp, mism, errors, n_runs)
    rc = 0
    known = known_findings(prop)
    if violation is not None:
        v = violation["violation"]
        for sig, text in known:
            if v["kind"] == sig:
                violation = None
    for sig, text in known:
        print(f"KNOWN-FINDING: property={prop} {text}")
    if violation is not None:
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}_seed{seed}_run{violation['i']}.json")
        doc = dict(property=prop, verif_seed=seed, run=violation["i"], kind=v["kind"], message=v["msg"],
                   scenario=v["scenario"], original=v["original"], min_execs=v["min_execs"], log=v["log"])
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        if True:
            try:
                r = subprocess.run([sys.executable, "-m", "sim.check", prop, "--replay", path], cwd=ROOT,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200)
                doc["replayed"] = r.returncode == 1
            except subprocess.TimeoutExpired:
                doc["replayed"] = None
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        print(f"run {violation['i']}: {v['kind']}: {v['msg']}")
        print(f"replay reproduces it in a fresh process: {doc['replayed']}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif errors:
        for e in errors[:3]:
            print("HARNESS ERROR", e.get("i"), e["harness_error"], file=sys.stderr)
        rc = 2
    elif killed or len(recs) < max(1, n_runs // 3):
        print(f"only {len(recs)} of {n_runs} runs finished", file=sys.stderr)
        rc = 2
    else:
        print(f"{prop}: {len(recs)} runs held ({n_cmp} re-run in another process, {len(mism)} differing), {wall:.0f} s")
    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def write_evidence(prop, mod, tier, seed, recs, reps, violation, wall, n_cmp, mism, errors, n_runs):
    faults, probes, states, steps = {}, {}, set(), 0
    for r in recs.values():
        for k, n in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + n
        states.update(r.get("states", []))
        steps += r.get("steps", 0)
    samples = [r["sample"] for r in recs.values() if "sample" in r][:3]
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(
                  evaluations=len(recs),
                  distinct_nontrivial=len({r.get("digest") for r in recs.values() if r.get("steps", 0) > 0}),
                  rule=mod.RULE,
                  samples=samples,
                  runs_planned=n_runs,
                  simulated_runs_per_hour=round(len(recs) / max(wall, 1e-3) * 3600),
                  seeds_per_hour=round(len(recs) / max(wall, 1e-3) * 3600),
                  simulated_time=dict(unit=mod.TIME_UNIT, total=steps),
                  faults_injected=faults, probes=probes,
                  distinct_states=len(states), distinct_state_measure=mod.STATE_MEASURE,
                  real_components=mod.REAL, stubbed_components=mod.STUB,
                  rerun_in_other_process=n_cmp, rerun_digest_mismatches=len(mism),
                  harness_errors=len(errors)),
              assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 1), violations=0 if violation is None else 1)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
