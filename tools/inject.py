"""Stateful and threshold faults: python3 tools/inject.py OUT.jsonl [FILE...]
Where tools/mutate.py edits one expression, this wraps one function of a scratch copy of /repo so that it misbehaves only under a condition: a result
cached per object, per shape or across objects, a buffer handed out twice, results wrong beyond a size, from the third call on, or narrowed.  The checks
anchored to the file run until one reports a violation; survivors are printed for review.  Uses MC_REPO, never touches /repo."""
import ast, json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get("MUT_SC", "/tmp/mut_repo")

HELPER = r'''
def _inj(kind):
    import functools as _ft, os as _os
    import numpy as _np
    state = {"acted": False, "tries": 0}

    def act():
        if not state["acted"]:
            state["acted"] = True
            open(_os.environ["INJ_MARK"], "a").close()

    def same(a, b):
        try:
            if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
                return _np.array_equal(a, b)
            if isinstance(a, (list, tuple)):
                return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            if isinstance(a, dict):
                return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
            if hasattr(a, "__dict__") and not callable(a):
                return type(a) is type(b) and same(a.__dict__, b.__dict__)
            return callable(a) or bool(a == b)
        except Exception:
            return False

    def stale(kept, f, args, kw):
        """the cached value is returned; does it differ from the true one?"""
        if not state["acted"] and state["tries"] < 3000:
            state["tries"] += 1
            if not same(kept, f(*args, **kw)):
                act()
        return kept

    def key(a, how):
        if isinstance(a, _np.ndarray):
            return ("a", str(a)) if how == "text" else ("a", a.shape) if how == "shape" else ("a", a.shape, float(_np.sum(a))) if how == "sum" else ("a", a.shape, a.tobytes())
        if how == "text" and isinstance(a, (list, tuple, dict)):
            return ("t", str(a)[:200], len(a))
        if isinstance(a, (list, tuple)):
            return ("l", len(a)) if how == "shape" else ("l", tuple(key(x, how) for x in a))
        if isinstance(a, dict):
            return ("d", tuple(sorted(map(str, a)))) if how == "shape" else ("d", repr(a))
        if isinstance(a, (int, float, str, bool, type(None), _np.generic)):
            return ("v",) if how == "shape" and not isinstance(a, (str, bool)) else ("v", a)
        return ("o", type(a).__name__) if how == "shape" else ("o", id(a))

    def spoil(r, n):
        if isinstance(r, _np.ndarray) and r.size > n and r.ndim:
            act(); r = r.copy(); r.flat[-1] = r.flat[0]
        elif isinstance(r, list) and len(r) > n:
            act(); r = r[:-1] + r[:1]
        elif isinstance(r, dict) and len(r) > n:
            act(); r = dict(list(r.items())[:-1])
        return r

    def narrow(r, t):
        if isinstance(r, _np.ndarray) and r.dtype.kind in "fiu":
            n = r.astype(t).astype(r.dtype)
            if not _np.array_equal(n, r): act()
            return n
        if isinstance(r, bool) or not isinstance(r, (int, float, _np.number)):
            return tuple(narrow(x, t) for x in r) if type(r) is tuple else r
        try:
            n = type(r)(_np.asarray(r).astype(t))
            if n != r: act()
            return n
        except Exception:
            return r

    def deco(f):
        store, calls, keep = {}, {}, []

        @_ft.wraps(f)
        def g(*args, **kw):
            own = args[0] if args and hasattr(args[0], "__dict__") and type(args[0]).__module__ == f.__module__ else None
            rest = args[1:] if own is not None else args
            if kind in ("memo_shape", "memo_sum", "memo_global", "memo_text"):
                how = {"memo_text": "text", "memo_shape": "shape", "memo_sum": "sum", "memo_global": "value"}[kind]
                k = (id(own) if own is not None and kind != "memo_global" else 0, tuple(key(a, how) for a in rest), tuple((n, key(a, how)) for n, a in sorted(kw.items())))
                if k not in store:
                    store[k] = f(*args, **kw)
                    keep.append((args, kw))
                    return store[k]
                return stale(store[k], f, args, kw)
            if kind == "third":
                k = id(own)
                if k not in calls: keep.append(own)
                calls[k] = calls.get(k, 0) + 1
                if calls[k] > 2 and calls[k] % 3 == 0 and k in store:
                    return stale(store[k], f, args, kw)
                store[k] = f(*args, **kw)
                return store[k]
            if kind == "skip_third":
                k = id(own)
                if k not in calls: keep.append(own)
                calls[k] = calls.get(k, 0) + 1
                return act() if calls[k] == 3 else f(*args, **kw)
            r = f(*args, **kw)
            if kind == "buffer":
                if isinstance(r, _np.ndarray) and r.ndim:
                    k = (id(own), r.shape, r.dtype)
                    if k in store:
                        act(); store[k][...] = r
                    else:
                        keep.append(own); store[k] = r.copy()
                    return store[k]
                if type(r) is list:
                    k = id(own)
                    act() if k in store else keep.append(own)
                    b = store.setdefault(k, [])
                    b[:] = r
                    return b
                if type(r) is dict:
                    k = id(own)
                    act() if k in store else keep.append(own)
                    b = store.setdefault(k, {})
                    b.clear(); b.update(r)
                    return b
                return r
            if kind.startswith("size"):
                return spoil(r, int(kind[4:]))
            if kind.startswith("to_"):
                return narrow(r, kind[3:])
            return r
        return g
    return deco

'''


def functions(src):
    """(line of the def, qualified name, node) of every function worth wrapping."""
    tree = ast.parse(src)
    out = []

    def walk(body, pre):
        for n in body:
            if isinstance(n, ast.ClassDef):
                walk(n.body, pre + n.name + ".")
            elif isinstance(n, ast.FunctionDef):
                if n.name.startswith("__") and n.name not in ("__call__", "__getitem__", "__add__", "__sub__", "__mul__") and n.name.endswith("__"):
                    continue
                if any("setter" in ast.dump(d) or "abstract" in ast.dump(d) or "classmethod" in ast.dump(d) or "overload" in ast.dump(d) for d in n.decorator_list):
                    continue
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                    continue
                real = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, (ast.Pass, ast.Raise))]
                trivial = len(real) == 1 and isinstance(real[0], ast.Return) and isinstance(real[0].value, (ast.Attribute, ast.Constant, ast.Name))
                if real and not trivial:
                    out.append((n, pre + n.name))
    walk(tree.body, "")
    return tree, out


def mutants(src):
    lines = src.splitlines(keepends=True)
    tree, fs = functions(src)
    at = 0
    for s in tree.body:     # the helper goes after the docstring and the __future__ imports
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.ImportFrom) and s.module == "__future__":
            at = s.end_lineno
        else:
            break
    nl = "\r\n" if "\r\n" in src else "\n"
    for n, q in fs:
        rets = [x for x in ast.walk(n) if isinstance(x, ast.Return) and x.value is not None]
        kinds = ["memo_shape", "memo_sum", "memo_global", "third", "buffer", "memo_text", "size6", "size40", "size300", "size1000", "to_float32", "to_int16", "to_int32"] if rets else ["skip_third"]
        for k in kinds:
            if os.environ.get("INJ_KINDS") and k not in os.environ["INJ_KINDS"].split(","):
                continue
            L = list(lines)
            ind = L[n.lineno - 1][:len(L[n.lineno - 1]) - len(L[n.lineno - 1].lstrip())]
            L[n.lineno - 1] = f"{ind}@_inj({k!r}){nl}" + L[n.lineno - 1]
            L[at:at] = [HELPER.replace("\n", nl)]
            m = "".join(L)
            try:
                compile(m, "m", "exec")
            except SyntaxError:
                continue
            yield n.lineno, k, q, m


def main():
    out, files = sys.argv[1], sys.argv[2:]
    by = {}
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        for f in d["anchors"]["files"]:
            p = "/repo/" + f
            fs = [f] if os.path.isfile(p) else [os.path.relpath(os.path.join(r, x), "/repo") for r, _, xs in os.walk(p) for x in xs if x.endswith(".py") and "test" not in r]
            for x in fs:
                by.setdefault(x, set()).add(d["id"])
    extra = json.loads(os.environ.get("MUT_EXTRA", "{}"))
    only = json.loads(os.environ.get("MUT_ONLY", "{}"))
    cost = {}
    for p in set().union(*by.values()):
        try:
            cost[p] = json.load(open(f"{V}/evidence/{p}.json"))["wall_s"]
        except Exception:
            cost[p] = 5
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)["key"]) for l in open(out)}
    shutil.rmtree(SC, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", SC], check=True)
    for f in files or sorted(by):
        checks = only.get(f) or sorted(by.get(f, set()) | set(extra.get(f, [])), key=lambda p: cost.get(p, 5))
        if not checks:
            continue
        src = open(f"/repo/{f}", encoding="utf-8", newline="").read()
        for ln, kind, q, m in mutants(src):
            key = (f, q, kind)
            if key in done:
                continue
            with open(f"{SC}/{f}", "w", encoding="utf-8", newline="") as fh:
                fh.write(m)
            t, killed = time.time(), None
            mark = SC + "_mark"
            if os.path.exists(mark):
                os.remove(mark)
            for i, c in enumerate(checks):
                if i == 4 and not os.path.exists(mark):
                    killed = "never differs"
                    break
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-B", V + "/mc/run.py", c, "--jobs", os.environ.get("MUT_JOBS", "8")], env={**os.environ, "MC_MAXVIOL": "1", "MC_REPO": SC, "MC_REPLAYS": SC + "_replays", "MC_EVIDENCE": SC + "_evidence", "INJ_MARK": mark}, capture_output=True, text=True, timeout=300)
                    if r.returncode:
                        killed = c if r.returncode == 1 else c + "!" + str(r.returncode)
                        break
                except subprocess.TimeoutExpired:
                    killed = c + "!timeout"
                    break
            if not killed and not os.path.exists(mark):
                killed = "never differs"
            with open(out, "a") as fh:
                fh.write(json.dumps({"key": key, "line": ln, "checks": checks, "killed": killed, "s": round(time.time() - t, 1)}) + "\n")
        with open(f"{SC}/{f}", "w", encoding="utf-8", newline="") as fh:
            fh.write(src)
    shutil.rmtree(SC)


if __name__ == "__main__":
    if sys.argv[1] == "--count":
        n = 0
        for f in sys.argv[2:]:
            k = len(list(mutants(open("/repo/" + f, encoding="utf-8", newline="").read())))
            n += k
            print(k, f)
        print(n)
    else:
        main()
