"""Mutation campaign over the anchored sources: python3 tools/mutate.py OUT.jsonl [FILE...]
Each mutant is one small edit of one source file in a scratch copy of /repo; the checks anchored to the file run until one reports a violation.
Survivors are printed for review (equivalent, out of domain, or a gap to close). Uses MC_REPO, never touches /repo."""
import ast, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get("MUT_SC", "/tmp/mut_repo")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "+", ast.Pow: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.MatMult: "*"}


def seg(src, lines, n):
    return off(lines, n.lineno, n.col_offset), off(lines, n.end_lineno, n.end_col_offset)


def off(lines, l, c):
    return sum(len(x) for x in lines[:l - 1]) + len(lines[l - 1].encode()[:c].decode())


def mutants(src):
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    out = []

    def add(n, new, why):
        a, b = seg(src, lines, n)
        if src[a:b] != new:
            out.append((n.lineno, a, b, new, why))
    txt = lambda n: src[slice(*seg(src, lines, n))]
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) :
            for d in list(getattr(n, "decorator_list", [])):
                skip |= {id(x) for x in ast.walk(d)}
            if isinstance(n, ast.FunctionDef):
                for a in [n.returns] + [x.annotation for x in n.args.args + n.args.kwonlyargs]:
                    if a is not None:
                        skip |= {id(x) for x in ast.walk(a)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.If) and "__name__" in ast.dump(n.test):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "logging", "log"):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "TypeVar", "cast", "super"):
            skip |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"{txt(n.left)} {CMP[type(n.ops[0])]} {txt(n.comparators[0])}", "cmp")
        if isinstance(n, (ast.BinOp,)) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, f"({txt(n.left)} {BIN[type(n.op)]} {txt(n.right)})", "bin")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            add(n, f"({txt(n.left)})", "drop right")
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add(n, f"{txt(n.target)} {BIN[type(n.op)]}= {txt(n.value)}", "aug")
        if isinstance(n, ast.BoolOp):
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({txt(v)})" for v in n.values) + ")", "bool")
            add(n, f"({txt(n.values[0])})", "drop bool")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, f"({txt(n.operand)})", "unary")
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const"); 
                if n.value > 0:
                    add(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 2 + (n.value == 0)), "const")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n.test, ast.Compare):
            add(n.test, f"(not ({txt(n.test)}))", "negate")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "drop statement")
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                add(n, "pass", "drop assignment")
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "drop jump")
        if isinstance(n, ast.Call):
            a = [x for x in n.args if not isinstance(x, ast.Starred)]
            for i in range(len(a) - 1):
                s0, s1 = seg(src, lines, a[i]), seg(src, lines, a[i + 1])
                new = src[seg(src, lines, n)[0]:s0[0]] + txt(a[i + 1]) + src[s0[1]:s1[0]] + txt(a[i]) + src[s1[1]:seg(src, lines, n)[1]]
                add(n, new, "swap args")
            kw = [k for k in n.keywords if k.arg]
            for i in range(len(kw)):
                s0, s1 = seg(src, lines, kw[i]), seg(src, lines, n)
                rest = src[s0[1]:s1[1]].lstrip()
                new = src[s1[0]:s0[0]] + (rest[1:] if rest.startswith(",") else rest)
                add(n, new, "drop keyword")
            if isinstance(n.func, ast.Attribute) and len(n.args) == 0 and n.func.attr in ("copy", "flatten", "tolist", "serialize"):
                add(n, txt(n.func.value), "drop method")
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n.lower, f"({txt(n.lower)}) + 1", "slice")
            if n.upper is not None:
                add(n.upper, f"({txt(n.upper)}) - 1", "slice")
    seen, res = set(), []
    for ln, a, b, new, why in sorted(out):
        m = src[:a] + new + src[b:]
        if m in seen:
            continue
        seen.add(m)
        try:
            compile(m, "m", "exec")
        except SyntaxError:
            continue
        res.append((ln, why, src[a:b], new, m))
    return res


def main():
    out = sys.argv[1]
    files = sys.argv[2:]
    by = {}
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        for f in d["anchors"]["files"]:
            p = "/repo/" + f
            fs = [f] if os.path.isfile(p) else [os.path.relpath(os.path.join(r, x), "/repo") for r, _, xs in os.walk(p) for x in xs if x.endswith(".py") and "test" not in r]
            for x in fs:
                by.setdefault(x, set()).add(d["id"])
    extra = json.loads(os.environ.get("MUT_EXTRA", "{}"))
    cost = {}
    for p in set().union(*by.values()):
        try:
            cost[p] = json.load(open(f"{V}/evidence/{p}.json"))["wall_s"]
        except Exception:
            cost[p] = 5
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)["key"]) for l in open(out)}
    if os.path.exists(SC):
        shutil.rmtree(SC)
    subprocess.run(["cp", "-a", "/repo", SC], check=True)
    for f in files or sorted(by):
        checks = sorted(by.get(f, set()) | set(extra.get(f, [])), key=lambda p: cost.get(p, 5))
        if not checks:
            continue
        src = open(f"/repo/{f}", encoding="utf-8", newline="").read()
        for ln, why, old, new, m in mutants(src):
            key = (f, ln, why, old[:80], new[:80])
            if key in done:
                continue
            with open(f"{SC}/{f}", "w", encoding="utf-8", newline="") as fh:
                fh.write(m)
            t, killed = time.time(), None
            for c in checks:
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-B", V + "/mc/run.py", c, "--jobs", os.environ.get("MUT_JOBS", "8")], env={**os.environ, "MC_REPO": SC, "MC_REPLAYS": "/tmp/mut_replays", "MC_EVIDENCE": "/tmp/mut_evidence"}, capture_output=True, text=True, timeout=150)
                    if r.returncode == 1:
                        killed = c
                        break
                    if r.returncode != 0:
                        killed = c + "!" + str(r.returncode)
                        break
                except subprocess.TimeoutExpired:
                    killed = c + "!timeout"
                    break
            with open(out, "a") as fh:
                fh.write(json.dumps({"key": key, "checks": checks, "killed": killed, "s": round(time.time() - t, 1)}) + "\n")
        with open(f"{SC}/{f}", "w", encoding="utf-8", newline="") as fh:
            fh.write(src)
    shutil.rmtree(SC)


if __name__ == "__main__":
    if sys.argv[1] == "--count":
        n = 0
        for f in sys.argv[2:]:
            k = len(mutants(open("/repo/" + f, encoding="utf-8", newline="").read()))
            n += k
            print(k, f)
        print(n)
    else:
        main()
