"""Confirm planted bugs in a scratch copy of /repo.

python3 tools/verify_seed.py [--no-tests] [--no-check] [--check Cxx] ID...
For each seeded/ID: the patch applies, demo.sh passes on the clean copy and fails on the patched one, the stable
tests pass on the patched copy, and (unless --no-check) the property's quick check reports a violation.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **env))


def tests(copy):
    """The stable tests, on the copy: the scripts of /opt/vp with the paths replaced."""
    vp = tempfile.mkdtemp(prefix="seedvp_")
    try:
        shutil.copytree("/opt/vp/support", vp + "/support")
        for f in ("test.sh", "results.py", "support/env.sh"):
            if os.path.exists("/opt/vp/" + f):
                text = open("/opt/vp/" + f).read().replace("/repo", copy).replace("/opt/vp", vp)
                text = text.replace("unset PYTHONPATH", f"export PYTHONPATH={copy}/src")
                open(vp + "/" + f, "w").write(text)
        sh(f"bash {vp}/test.sh {vp}/out.json", copy)
        return json.load(open(vp + "/out.json"))
    finally:
        shutil.rmtree(vp)


def main():
    args = sys.argv[1:]
    only = None
    if "--check" in args:
        k = args.index("--check")
        only = args[k + 1]
        del args[k:k + 2]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(ROOT + "/seeded"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        tmp = tempfile.mkdtemp(prefix="seed_")
        try:
            copy = tmp + "/repo"
            shutil.copytree("/repo", copy, symlinks=True)
            demo = tmp + "/demo"
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            out = [i, meta["property"]]
            if "--no-demo" not in args:
                clean = sh(f"bash {demo}/demo.sh", copy)
            a = sh(f"git apply {d}/patch.diff", copy)
            if a.returncode:
                print(i, "patch does not apply", a.stderr)
                continue
            if "--no-demo" not in args:
                patched = sh(f"bash {demo}/demo.sh", copy)
                out.append(f"demo clean={clean.returncode} patched={patched.returncode}")
                if clean.returncode or not patched.returncode:
                    out.append("DEMO BAD " + clean.stderr[-600:] + patched.stdout[-300:])
                else:
                    out.append("[" + (patched.stderr or patched.stdout).strip().splitlines()[-1][:160] + "]")
            if "--no-tests" not in args:
                res = tests(copy)
                failed = failing(base, res)
                out.append("tests ok" if not failed else f"TESTS FAIL {failed[:3]}")
            if "--no-check" not in args:
                r = sh(f"bash {ROOT}/run.sh {only or meta['property']}", ROOT, VERIF_REPO=copy, VERIF_EVID=tmp + "/ev")
                line = [x for x in r.stdout.splitlines() if x.startswith("run ")] or (r.stdout + r.stderr).splitlines()[-1:]
                out.append(f"check {['MISSED', 'caught'][r.returncode] if r.returncode < 2 else 'ERROR'} {line[0][:160] if line else ''}")
            print(" | ".join(out), flush=True)
        finally:
            shutil.rmtree(tmp)


def names(x):
    if isinstance(x, dict):
        for k in ("passed", "pass", "stable", "tests"):
            if k in x:
                return names(x[k])
        return {k for k, v in x.items() if v in ("passed", "pass", True, "PASS")}
    return set(x)


def failing(base, res):
    return sorted(names(base) - names(res))


if __name__ == "__main__":
    main()
