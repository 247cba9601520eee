#!/usr/bin/env python3
"""Mutants of /repo's sources (one small change of the syntax tree each) that pass the tests: which do the checks catch?

mutate.py [file ...]     prints one line per mutant; the surviving ones at the end. Works in scratch copies under /tmp.
Not used by any check. WORKERS sets the number of copies (3), SAMPLE="SEED N" takes N of the mutants.
"""
import ast, concurrent.futures as cf, copy, os, random, shutil, subprocess, sys, tempfile, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
V = plant.V
F = "padasip/filters/"
ORDER = {
    "padasip/ann/mlp.py": "C28 C29 C30 C31 C12 C16 C15 C34 C44 C38 C33 C42 C45",
    "padasip/detection/le.py": "C19 C20 C33 C31 C45 C15", "padasip/detection/elbnd.py": "C21 C31 C33 C15",
    "padasip/detection/ese.py": "C22 C32 C31 C33 C40 C45 C15",
    "padasip/filters/__init__.py": "C13 C12 C31 C16 C38", "padasip/filters/base_filter.py": "C01 C02 C08 C12 C14 C18 C17 C15 C43 C44 C13 C03 C04",
    "padasip/misc/error_evaluation.py": "C27 C31 C17 C15", "padasip/preprocess/input_from_history.py": "C24 C31 C17 C15",
    "padasip/preprocess/lda.py": "C26 C31 C33 C15", "padasip/preprocess/pca.py": "C25 C31 C33 C15",
    "padasip/preprocess/standardize.py": "C23 C31 C17 C15", "padasip/preprocess/standardize_back.py": "C23 C31 C17 C15",
}
REST = "C05 C06 C07 C08 C09 C12 C01 C02 C03 C41 C13 C35 C11 C10 C39 C44 C36"
SWAP = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.Pow: [ast.Mult],
        ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
        ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.And: [ast.Or], ast.Or: [ast.And], ast.MatMult: [ast.Mult]}
NAMES = {"zeros": "ones", "ones": "zeros", "mean": "median", "std": "var", "abs": "square", "max": "min", "sum": "prod", "min": "max",
         "sign": "tanh", "argsort": "argmax", "eigvalsh": "eigvals", "identity": "ones", "sqrt": "cbrt", "log10": "log2"}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    doc = {id(n.body[0]) for n in nodes if hasattr(n, "body") and isinstance(n.body, list) and n.body and
           isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    docc = {id(c) for n in nodes if id(n) in doc for c in ast.walk(n)}

    def made(i, change):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        change(n)
        return ast.unparse(ast.fix_missing_locations(t))
    for i, n in enumerate(nodes):
        if id(n) in docc:
            continue
        at = getattr(n, "lineno", 0)
        what = ast.unparse(n)[:70].replace("\n", " ; ") if not isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) else ""
        if isinstance(n, (ast.BinOp, ast.AugAssign, ast.BoolOp)):
            for o in SWAP.get(type(n.op), []):
                yield at, what + " -> " + o.__name__, made(i, lambda m: setattr(m, "op", o()))
        if isinstance(n, ast.Compare):
            for o in SWAP.get(type(n.ops[0]), []):
                yield at, what + " -> " + o.__name__, made(i, lambda m: setattr(m, "ops", [o()]))
        if isinstance(n, ast.UnaryOp):
            yield at, what + " without op", made(i, lambda m: (setattr(m, "op", ast.UAdd() if isinstance(m.op, ast.USub) else ast.UAdd())
                                                             if isinstance(m.op, ast.USub) else
                                                             setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            for v in (n.value + 1, n.value * 2 if n.value not in (0, 1) else n.value - 1):
                yield at, "%r -> %r" % (n.value, v), made(i, lambda m: setattr(m, "value", v))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield at, "%r negated" % n.value, made(i, lambda m: setattr(m, "value", not m.value))
        if isinstance(n, ast.Constant) and n.value == "float64":
            yield at, "float32", made(i, lambda m: setattr(m, "value", "float32"))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.If, ast.For)):
            for p in nodes:
                for fld in ("body", "orelse", "finalbody"):
                    b = getattr(p, fld, None)
                    if isinstance(b, list) and any(c is n for c in b):
                        yield at, "without: " + what, made(nodes.index(p), lambda m: setattr(
                            m, fld, [ast.Pass() if c is n else d for c, d in zip(b, getattr(m, fld))]))
        if isinstance(n, ast.If):
            yield at, "if not: " + what, made(i, lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            yield at, what + " -> " + NAMES[n.attr], made(i, lambda m: setattr(m, "attr", NAMES[m.attr]))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for e in ("lower", "upper"):
                if getattr(n.slice, e) is not None:
                    yield at, what + " without " + e, made(i, lambda m: setattr(m.slice, e, None))
        if isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    yield at, what + " without " + n.keywords[k].arg, made(i, lambda m: m.keywords.pop(k))


def main(files):
    if not files:
        files = [f for f in subprocess.run(["git", "-C", "/repo", "ls-files", "padasip"], capture_output=True, text=True).stdout.split()
                 if f.endswith(".py")]
    jobs = []
    for f in files:
        src = open("/repo/" + f, newline="").read().replace("\r\n", "\n")
        seen = {ast.unparse(ast.parse(src))}
        for at, what, new in mutants(src):
            if new not in seen:
                seen.add(new)
                jobs.append((f, at, what, new))
    if os.environ.get("SAMPLE"):        # "SEED N": that many of them, by chance
        seed, many = map(int, os.environ["SAMPLE"].split())
        jobs = random.Random(seed).sample(jobs, min(many, len(jobs)))
    print(len(jobs), "mutants", flush=True)
    local = threading.local()
    made = []

    def one(job):
        f, at, what, new = job
        if not hasattr(local, "t"):
            local.t = tempfile.mkdtemp(prefix="mutate-", dir="/tmp")
            made.append(local.t)
            shutil.copytree("/repo", local.t + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        t = local.t + "/repo"
        was = open("/repo/" + f, newline="").read()
        with open(t + "/" + f, "w", newline="") as o:
            o.write(new)
        try:
            r = subprocess.run(plant.TEST, cwd=t, env=plant.ENV, capture_output=True, timeout=120)
            if r.returncode:
                return job, "tests"
        except subprocess.TimeoutExpired:
            return job, "tests"
        else:
            for c in ORDER.get(f, REST).split():
                env = dict(os.environ, PADASIP_REPO=t, PBT_EVIDENCE=local.t, PBT_REPLAYS=local.t, VERIF_SEED="1", VERIF_TIER="quick")
                try:
                    r = subprocess.run([V + "/check.sh", c], env=env, capture_output=True, text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    return job, "timeout in " + c
                if r.returncode:
                    return job, c if "VIOLATION property=%s " % c in r.stdout else c + " exit %d" % r.returncode
            return job, "SURVIVED"
        finally:
            with open(t + "/" + f, "w", newline="") as o:
                o.write(was)
    left = []
    with cf.ThreadPoolExecutor(int(os.environ.get("WORKERS", "3"))) as ex:
        for done in cf.as_completed([ex.submit(one, j) for j in jobs]):
            job, how = done.result()
            line = "%s:%d %s: %s" % (job[0], job[1], job[2], how)
            if how != "tests":
                print(line, flush=True)
            if how == "SURVIVED" or " " in how:
                left.append(line)
    print("\nnot caught:")
    print("\n".join(left))
    for t in made:
        shutil.rmtree(t)


if __name__ == "__main__":
    main(sys.argv[1:])
