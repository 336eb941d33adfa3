#!/usr/bin/env python3
"""usage: mutate.py OUT N [FILE-SUBSTRING...]: N random mutants per file on scratch copies of /repo, judged by the checks that cover the file.
Survivors are written to OUT with their diff: each is equivalent, outside every property, or a gap."""
import ast, copy, json, os, random, shutil, subprocess, sys, difflib
SRC = os.environ.get("MUT_SRC", "/repo"); ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "taskgraph/task_graph.py": "C01 C02 C04", "taskgraph/mittask.py": "C01 C02", "taskgraph/mitres.py": "C05 C01 C02 C03", "taskgraph/mitex.py": "C06 C05 C02 C07 C03 C25",
 "taskgraph/utils.py": "C08 C06 C03 C23", "taskgraph/measurement_reduction.py": "C07 C25", "spam/full_transition_tomography.py": "C10 C09", "spam/full_spam_correction.py": "C10 C09 C03",
 "spam/spam_mitres.py": "C10 C09 C25 C03", "postselection/": "C11 C12", "leakage_detection/leakage_detection.py": "C12 C03", "frame_randomisation/frame_randomisation.py": "C13 C03 C25",
 "coherent_pauli_checks/box": "C14 C15", "coherent_pauli_checks/mono": "C14", "coherent_pauli_checks/pauli_sampler": "C15", "coherent_pauli_checks/coherent": "C15 C03",
 "noise_model/qermit_pauli.py": "C16 C17 C15", "noise_model/noise_model.py": "C17 C18", "noise_model/pauli_error": "C18", "noise_model/transpiler": "C18", "noise_model/noisy_aer": "C18",
 "noise_model/mock": "C18", "zero_noise_extrapolation/zne.py": "C19 C20 C03 C25", "clifford_noise_characterisation/ccl.py": "C21 C03 C25", "clifford_noise_characterisation/cdr_post.py": "C21 C03",
 "clifford_noise_characterisation/dfsc.py": "C22 C03 C25", "spectral_filtering/": "C23 C03 C25", "probabilistic_error_cancellation/": "C24 C03"}
SKIP = {"plot", "draw", "get_task_graph", "_get_nodes", "__str__", "__repr__", "gen_plot", "visualise", "plot_fit"}


def sites(tree):
    """(description, function that mutates the i-th node in a copy)"""
    out = []
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n.body[0]))
        if isinstance(n, ast.FunctionDef):
            for a in ([n.returns] if n.returns else []) + [x.annotation for x in n.args.args if x.annotation] + n.decorator_list:
                skip.update(id(x) for x in ast.walk(a))
            if any(k in n.name for k in SKIP):
                skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.Raise) and n.exc:
            skip.update(id(x) for x in ast.walk(n.exc))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("TypeVar", "NewType", "cast", "isinstance"):
            skip.update(id(x) for x in ast.walk(n))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        def add(d, f, i=i, n=n):
            out.append((getattr(n, "lineno", 0), d, i, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            t = sw.get(type(n.ops[0]))
            if t:
                add("cmp", lambda m, t=t: m.ops.__setitem__(0, t()))
        if isinstance(n, ast.BoolOp):
            add("bool", lambda m: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or()))
        if isinstance(n, ast.Constant) and n.value is not None and not isinstance(n.value, str):
            if isinstance(n.value, bool):
                add("flip", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, (int, float)):
                add("const+1", lambda m: setattr(m, "value", m.value + 1))
                if n.value:
                    add("const->0", lambda m: setattr(m, "value", 0))
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.FloorDiv, ast.FloorDiv: ast.Mod, ast.Pow: ast.Mult}
            t = sw.get(type(n.op))
            if t:
                add("binop", lambda m, t=t: setattr(m, "op", t()))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add("slice", lambda m: (setattr(m.slice, "lower", None), setattr(m.slice, "upper", None), setattr(m.slice, "step", None)))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                add("swapargs", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
            if n.keywords:
                for k in range(len(n.keywords)):
                    add("dropkw", lambda m, k=k: m.keywords.pop(k))
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                add("nocopy", ("replace", lambda m: m.func.value))
            if isinstance(n.func, ast.Attribute) and n.func.attr == "append":
                add("insert0", lambda m: (setattr(m.func, "attr", "insert"), m.args.insert(0, ast.Constant(0))))
            if isinstance(n.func, (ast.Name, ast.Attribute)) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("copy", "deepcopy", "list", "sorted", "reversed", "set", "abs", "round", "tuple", "dict") and len(n.args) == 1:
                add("unwrap", ("replace", lambda m: m.args[0]))
        if isinstance(n, ast.UnaryOp):
            add("nounary", ("replace", lambda m: m.operand))
        if isinstance(n, (ast.If, ast.IfExp)):
            add("if1", lambda m: setattr(m, "test", ast.Constant(True)))
            add("if0", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise)) or isinstance(n, (ast.Break, ast.Continue)):
            add("delete", ("replace", lambda m: ast.Pass()))
        if isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Name, ast.Tuple)):
            add("delassign", ("replace", lambda m: ast.Pass()))
        if isinstance(n, ast.comprehension):
            add("reviter", lambda m: setattr(m, "iter", ast.parse("list(reversed(list(%s)))" % ast.unparse(m.iter), mode="eval").body))
            if n.ifs:
                add("noif", lambda m: m.ifs.clear())
        if isinstance(n, ast.For):
            add("reviter", lambda m: setattr(m, "iter", ast.parse("list(reversed(list(%s)))" % ast.unparse(m.iter), mode="eval").body))
    return out


class Rep(ast.NodeTransformer):
    def __init__(s, old, new): s.old, s.new = old, new
    def visit(s, n): return s.new if n is s.old else s.generic_visit(n)


def mutate(src, site):
    tree = ast.parse(src)
    n = list(ast.walk(tree))[site[2]]
    if isinstance(site[3], tuple):
        tree = Rep(n, site[3][1](n)).visit(tree)
    else:
        site[3](n)
    return ast.unparse(ast.fix_missing_locations(tree)) + "\n"


def main():
    out, n, sub = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    rng = random.Random(int(os.environ.get("MUT_SEED", "1")))
    W = "/tmp/mutw%d" % os.getpid()
    files = sorted(subprocess.run("cd %s; git ls-files 'qermit/*.py'" % SRC, shell=True, capture_output=True, text=True).stdout.split())
    for f in files:
        props = next((v for k, v in MAP.items() if k in f), None)
        if props is None or "__init__" in f or (sub and not any(s in f for s in sub)):
            continue
        src = open(SRC + "/" + f).read()
        base = ast.unparse(ast.parse(src)) + "\n"
        ss = sites(ast.parse(src))
        rng.shuffle(ss)
        for s in ss[:n]:
            try:
                new = mutate(src, s)
            except Exception:
                continue
            if new == base:
                continue
            subprocess.run("rm -rf %s && mkdir %s && cp -a %s/qermit %s/ && cp -a %s/setup.py %s/ 2>/dev/null" % (W, W, SRC, W, SRC, W), shell=True)
            open(W + "/" + f, "w").write(new)
            d = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm="", n=2)][2:]
            res = []
            for p in props.split():
                try:
                    r = subprocess.run(["nice", ROOT + "/check", p], env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True, timeout=600, cwd=ROOT)
                    res.append((p, r.returncode))
                    if r.returncode == 1:
                        break
                except subprocess.TimeoutExpired:
                    res.append((p, "timeout"))
            killed = any(c == 1 for _, c in res)
            with open(out, "a") as o:
                o.write(json.dumps({"f": f, "line": s[0], "op": s[1], "res": res, "killed": killed, "diff": d}) + "\n")
    subprocess.run("rm -rf " + W, shell=True)


main()
