"""Sensitivity tests: textual mutants of flowMC in a scratch copy, each against the checks that should see it.

python3 tools/mutants.py [NAME-SUBSTRING ...] [--check Cxx] ; the mutants are in tools/mutants.txt
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out, cur = [], None
    for line in open(os.path.join(ROOT, "tools", "mutants.txt")):
        if line.startswith("### "):
            name, file, checks = line[4:].split()
            cur = dict(name=name, file=file, checks=checks.split(","), old=[], new=[], part=None)
            out.append(cur)
        elif line.startswith("--- old"):
            cur["part"] = "old"
        elif line.startswith("--- new"):
            cur["part"] = "new"
        elif cur and cur["part"]:
            cur[cur["part"]].append(line)
    return out


def main():
    args = sys.argv[1:]
    only = None
    if "--check" in args:
        k = args.index("--check")
        only = args[k + 1]
        del args[k:k + 2]
    for m in load():
        if args and not any(a in m["name"] for a in args):
            continue
        checks = [c for c in m["checks"] if only is None or c == only]
        if not checks:
            continue
        tmp = tempfile.mkdtemp(prefix="mut_")
        try:
            shutil.copytree("/repo/src", tmp + "/src")
            p = os.path.join(tmp, "src/flowMC", m["file"])
            text = open(p).read()
            old, new = "".join(m["old"]), "".join(m["new"])
            if text.count(old) != 1:
                print(f"{m['name']}: old text found {text.count(old)} times")
                continue
            open(p, "w").write(text.replace(old, new))
            for c in checks:
                t = time.time()
                r = subprocess.run(["bash", os.path.join(ROOT, "run.sh"), c], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=tmp, VERIF_EVID=tmp + "/evidence"))
                line = [x for x in r.stdout.splitlines() if x.startswith("run ")] or (r.stdout + r.stderr).splitlines()[-1:]
                print(f"{m['name']:40s} {c} {['MISSED', 'caught', 'ERROR'][min(r.returncode, 2)]} {time.time() - t:4.0f}s  {line[0][:230] if line else ''}", flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
