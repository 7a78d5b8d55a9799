"""Automatic mutants of flowMC: one random small edit each, judged by the checks of the file it is in.

python3 tools/automut.py SEED COUNT [FILE-SUBSTRING]; prints one line per mutant. A surviving mutant is then run
against the repository's tests (tools/verify_seed.py's runner); those that pass both deserve a look.
"""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "resource/kernel/MALA.py": "C01 C03 C17", "resource/kernel/HMC.py": "C01 C02 C03",
    "resource/kernel/Gaussian_random_walk.py": "C01 C02 C17", "resource/kernel/NF_proposal.py": "C03 C01 C08",
    "strategy/take_steps.py": "C04 C03 C06 C13", "strategy/parallel_tempering.py": "C12 C05 C01 C08",
    "strategy/train_model.py": "C10 C13 C08", "strategy/optimization.py": "C14", "strategy/update_state.py": "C15 C16",
    "strategy/lambda_function.py": "C15 C13", "Sampler.py": "C15", "resource/buffers.py": "C16 C09",
    "resource/states.py": "C16 C09", "resource/logPDF.py": "C03 C12", "resource/optimizer.py": "C10 C11",
    "resource/model/nf_model/base.py": "C10 C09 C11", "resource/model/nf_model/rqSpline.py": "C11 C09",
    "resource/model/nf_model/realNVP.py": "C11 C09", "resource/model/common.py": "C11 C08",
    "resource/model/flowmatching/base.py": "C11 C10 C09", "resource_strategy_bundle/RQSpline_MALA.py": "C04 C05",
    "resource_strategy_bundle/RQSpline_MALA_PT.py": "C04 C05 C01",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.Mod: ast.FloorDiv}


def sites(tree):
    """(kind, node) of everything that can be changed, docstrings, annotations and prints left out."""
    out = []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ("__repr__", "print_parameters", "get_distribution", "get_initial_hamiltonian", "to_precision", "serialize"):
                return
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None:
                    pass
            for s in n.body:
                visit(s)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            return
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append(("cmp", n))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            out.append(("bin", n))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            out.append(("un", n))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            out.append(("const", n))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.append(("name", n))
        if isinstance(n, ast.BoolOp):
            out.append(("bool", n))
        if isinstance(n, (ast.AugAssign, ast.Expr)) or (isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)):
            out.append(("del", n))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append(("args", n))
        if isinstance(n, ast.If):
            out.append(("if", n))
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(tree)
    return out


def mutate(text, r):
    tree = ast.parse(text)
    s = sites(tree)
    weights = {"cmp": 4, "bin": 3, "un": 4, "const": 2, "name": 1, "bool": 3, "del": 3, "args": 2, "if": 3}
    kind, n = r.choices(s, [weights[k] for k, _ in s])[0]
    line = n.lineno
    before = ast.unparse(n)
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "un":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if not isinstance(n.op, ast.UAdd):
            n.operand = ast.UnaryOp(type(n.op)(), n.operand)
    elif kind == "const":
        n.value = (not n.value) if type(n.value) is bool else n.value + r.choice([1, 1, -1]) if type(n.value) is int else n.value * r.choice([2.0, 0.5])
    elif kind == "name":
        fn = [f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef) and f.lineno <= n.lineno <= f.end_lineno]
        scope = max(fn, key=lambda f: f.lineno) if fn else tree
        pool = sorted({m.id for m in ast.walk(scope) if isinstance(m, ast.Name) and m.id != n.id and isinstance(m.ctx, ast.Store)}
                      | ({a.arg for a in scope.args.args if a.arg != "self"} if fn else set()) - {n.id})
        if not pool:
            return None
        n.id = r.choice(pool)
    elif kind == "bool":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "args":
        i = r.randrange(len(n.args) - 1)
        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
    elif kind == "if":
        n.test = ast.Constant(r.choice([True, False]))
    elif kind == "del":
        for p in ast.walk(tree):
            for f in ("body", "orelse"):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.Pass()
    after = "(deleted)" if kind == "del" else ast.unparse(n)
    new = ast.unparse(ast.fix_missing_locations(tree))
    if new == ast.unparse(ast.parse(text)):
        return None
    return new, f"{kind} L{line}: {before[:90]!r} -> {after[:90]!r}".replace("\n", " ")


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    files = [f for f in CHECKS if sub in f]
    size = [os.path.getsize("/repo/src/flowMC/" + f) ** 0.5 for f in files]
    for k in range(count):
        r = random.Random(f"{seed}/{k}")
        f = r.choices(files, size)[0]
        text = open("/repo/src/flowMC/" + f).read()
        m = None
        while m is None:
            m = mutate(text, r)
        new, what = m
        tmp = tempfile.mkdtemp(prefix="amut_")
        try:
            shutil.copytree("/repo", tmp + "/repo", symlinks=True)
            open(f"{tmp}/repo/src/flowMC/{f}", "w").write(new)
            verdict, t = "SURVIVED", time.time()
            for c in CHECKS[f].split():
                p = subprocess.run(["bash", os.path.join(ROOT, "run.sh"), c], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_EVID=tmp + "/evidence"))
                if p.returncode:
                    line = [x for x in p.stdout.splitlines() if x.startswith("run ")] or (p.stdout + p.stderr).splitlines()[-1:]
                    verdict = f"{'caught' if p.returncode == 1 else 'HARNESS'} {c} {line[0][:90] if line else ''}"
                    break
            if not verdict.startswith("caught"):
                import json
                from verify_seed import failing, tests
                bad = failing(json.load(open("/opt/vp/BASELINE.json")), tests(tmp + "/repo"))
                verdict += " TESTS " + ("pass" if not bad else f"fail {len(bad)}")
            print(f"{seed}/{k} {f} {what} | {verdict} {time.time() - t:.0f}s", flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
