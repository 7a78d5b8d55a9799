"""Does every defect that was repaired come back as a violation when its repair is taken back?

python3 tools/reverts.py [COMMIT...]: for each "fixed:" entry of known_findings.txt a scratch clone of /repo with that
commit reverted, judged by the quick check of the entry's property.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, **env))


def main():
    only = sys.argv[1:]
    for line in open(ROOT + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        if not m or (only and m[2] not in only):
            continue
        tmp = tempfile.mkdtemp(prefix="revert_")
        try:
            copy = tmp + "/repo"
            sh(f"git clone -q /repo {copy}", tmp)
            a = sh(f"git -c user.name=x -c user.email=x@x revert -n {m[2]}", copy)
            if a.returncode:
                print(m[2], m[1], "does not revert:", sh("git diff --name-only --diff-filter=U", copy).stdout.split(), flush=True)
                continue
            for f in ("src/flowMC/_version.py",):
                if os.path.exists("/repo/" + f) and not os.path.exists(copy + "/" + f):
                    shutil.copy("/repo/" + f, copy + "/" + f)
            t = time.time()
            r = sh(f"bash run.sh {m[1]}", ROOT, VERIF_REPO=copy, VERIF_EVID=tmp + "/ev", VERIF_SEED="1")
            first = [x for x in (r.stdout + r.stderr).splitlines() if x.startswith("run ")] or [(r.stdout + r.stderr)[-200:]]
            print(m[2], m[1], {0: "MISSED", 1: "caught"}.get(r.returncode, f"TROUBLE {r.returncode}"), f"{time.time() - t:.0f}s",
                  first[0][:200], flush=True)
        finally:
            shutil.rmtree(tmp)


main()
