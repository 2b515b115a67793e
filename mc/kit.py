"""Shared machinery of the bounded model checker.

A property module (mc/props/<ID>.py) exposes a `PROP` object (class Property):
  scenarios: list of Scenario.  A scenario enumerates *cases* (JSON values) and explores each case
  exhaustively: every case closes the system with one configuration, and `run(case, ctx)` drives the real
  code through every operation sequence / input of the stated alphabet, in lockstep with a reference model.
A disagreement (or any exception escaping from the code under test) raises; the case is then the replayable
counterexample.
"""
from __future__ import annotations
import hashlib, json, multiprocessing as mp, os, signal, sys, time, traceback, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")


class Violation(Exception):
    pass


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    """Counters of one case.  state(): a canonical observed state; op(): operations executed on the real code;
    trace(): operation sequences (or model runs) replayed in lockstep against the implementation."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.states = set()
        self.extra_states = 0
        self.ops = 0
        self.traces = 0
        self.outcomes = set()
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def state(self, key):
        if len(self.states) < 400000:
            self.states.add(hash8(key))

    def op(self, n=1):
        self.ops += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def check(self, cond, msg, **detail):
        if not cond:
            if detail:
                msg = msg + " | " + json.dumps(jsonable(detail))[:1500]
            raise Violation(msg)

    def equal(self, got, want, msg, **detail):
        """Exact array equality, shape included."""
        import numpy as np
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape}, expected {w.shape} | {json.dumps(jsonable(detail))[:1200]}")
        if g.size and not np.array_equal(g, w):
            bad = np.argwhere(g != w)
            i = tuple(int(v) for v in bad[0]) if bad.size else ()
            raise Violation(f"{msg}: at {i} got {g[i]!r}, expected {w[i]!r} ({len(bad)} of {g.size} differ) | "
                            f"{json.dumps(jsonable(detail))[:1200]}")

    def close(self, got, want, tol, msg, **detail):
        """|got-want| <= tol elementwise (tol scalar or array), shape included; NaN never agrees."""
        import numpy as np
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape}, expected {w.shape} | {json.dumps(jsonable(detail))[:1200]}")
        ok = np.abs(g - w) <= tol
        if g.size and not np.all(ok):
            bad = np.argwhere(~ok)
            i = tuple(int(v) for v in bad[0])
            raise Violation(f"{msg}: at {i} got {g[i]!r}, expected {w[i]!r} within {np.broadcast_to(tol, g.shape)[i]!r} "
                            f"({len(bad)} of {g.size} off) | {json.dumps(jsonable(detail))[:1200]}")


def hash8(key):
    import numpy as np
    if isinstance(key, bytes):
        b = key
    else:
        b = repr(_canon(key)).encode()
    return hashlib.blake2b(b, digest_size=8).digest()


def _canon(k):
    import numpy as np
    if isinstance(k, np.ndarray):
        return ("nd", k.shape, str(k.dtype), hashlib.blake2b(np.ascontiguousarray(k).tobytes(), digest_size=12).hexdigest())
    if isinstance(k, (list, tuple)):
        return tuple(_canon(v) for v in k)
    if isinstance(k, dict):
        return tuple(sorted((str(a), _canon(b)) for a, b in k.items()))
    return k


class Scenario:
    def __init__(self, name, cases, run, note=""):
        self.name, self.cases, self.run, self.note = name, cases, run, note


class Property:
    def __init__(self, pid, scenarios, level, rule, assumptions=(), timeout=400):
        self.pid, self.scenarios, self.level, self.rule = pid, scenarios, level, rule
        self.assumptions, self.timeout = list(assumptions), timeout


class _Timeout(Exception):
    pass


def _alarm(*_):
    raise _Timeout("case did not terminate within its time limit")


_PROP = None
_TIER = None
_KNOWN = None


def _run_one(item):
    sname, idx, case = item
    sc = next(s for s in _PROP.scenarios if s.name == sname)
    ctx = Ctx(_TIER)
    t = time.time()
    viol = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_PROP.timeout)
    try:
        sc.run(case, ctx)
    except Violation as e:
        viol = str(e)
    except _Timeout as e:
        viol = f"no termination: {e}"
    except MemoryError:
        viol = "memory exhausted"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        frames = [f"{f.filename}:{f.lineno} {f.name}" for f in tb[-6:]]
        viol = f"unexpected {type(e).__name__}: {e} | " + " < ".join(reversed(frames))
    finally:
        signal.alarm(0)
    return {"scenario": sname, "idx": idx, "case": case, "viol": viol, "states": ctx.states, "ops": ctx.ops,
            "traces": ctx.traces, "known": ctx.known, "wall": time.time() - t}


def _init_worker():
    try:
        import numpy as np
        np.seterr(all="ignore")
    except Exception:
        pass
    import warnings, logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.stdout = open(os.devnull, "w")   # the code under test prints progress


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh)["findings"]


def run_property(prop, tier, seed, jobs=None, only=None, maxviol=int(os.environ.get("MC_MAXVIOL", "3")), verbose=False):
    global _PROP, _TIER
    _PROP, _TIER = prop, tier
    t0 = time.time()
    items = []
    per = {}
    for sc in prop.scenarios:
        if only and sc.name != only:
            continue
        cs = list(sc.cases(tier))
        per[sc.name] = {"cases": len(cs), "note": sc.note}
        items += [(sc.name, i, c) for i, c in enumerate(cs)]
    jobs = jobs or int(os.environ.get("MC_JOBS", "0")) or min(8, os.cpu_count() or 1)
    known = [k for k in load_known() if k["property"] == prop.pid and k.get("status") == "known"]
    states, ops, traces, viols, seen_known, slow = set(), 0, 0, [], {}, []
    samples = []
    done = 0
    pool = mp.get_context("fork").Pool(jobs, _init_worker)
    try:
        for r in pool.imap_unordered(_run_one, items, chunksize=max(1, min(8, len(items) // (jobs * 50)))):
            done += 1
            for h in r["states"]:
                states.add((r["scenario"], h))
            ops += r["ops"]; traces += r["traces"]
            p = per[r["scenario"]]
            p["ops"] = p.get("ops", 0) + r["ops"]
            p["states"] = p.get("states", 0) + len(r["states"])
            p["wall"] = round(p.get("wall", 0) + r["wall"], 2)
            slow.append((r["wall"], r["scenario"], r["idx"]))
            if len([s for s in samples if s["scenario"] == r["scenario"]]) < 2:
                samples.append({"scenario": r["scenario"], "case": jsonable(r["case"]), "operations": r["ops"],
                                "states": len(r["states"])})
            if r["viol"]:
                k = match_known(known, r)
                if k is not None:
                    seen_known.setdefault(k["id"], (k, r))
                else:
                    viols.append(r)
                    if len(viols) >= maxviol:
                        break
    finally:
        pool.terminate(); pool.join()
    wall = time.time() - t0
    viols.sort(key=lambda r: (r["scenario"], r["idx"]))
    for kid, (k, r) in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop.pid} {k['what']}")
    lines = []
    rdir = os.environ.get("MC_REPLAYS") or os.path.join(VERIF, "replays")
    for r in viols:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop.pid}-{r['scenario']}-{r['idx']}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop.pid, "scenario": r["scenario"], "case": jsonable(r["case"]), "tier": tier,
                       "message": r["viol"],
                       "replay": f"/opt/venv/bin/python -B {VERIF}/mc/run.py {prop.pid} --replay {path}"}, fh, indent=1)
        lines.append((path, r))
    cov = {
        "samples": samples,
        "scenarios": per,
        "cases": len(items),
        "exhaustive": done == len(items) and not viols,
    }
    cov["rule"] = prop.rule
    if prop.level == "model_checking":
        cov.update(states=len(states), transitions=ops, traces_validated_against_impl=traces)
    else:
        cov.update(evaluations=ops, distinct_nontrivial=len(states))
    ev = {"property": prop.pid, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(wall, 3), "violations": len(viols)}
    if not only:
        edir = os.environ.get("MC_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, f"{prop.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print(f"{prop.pid} [{tier}] cases={len(items)} done={done} states={len(states)} operations={ops} traces={traces} "
          f"violations={len(viols)} known={len(seen_known)} wall={wall:.1f}s")
    if verbose:
        for n, p in per.items():
            print("   ", n, p)
        print("    slowest:", sorted(slow, reverse=True)[:4])
    for path, r in lines:
        print(f"VIOLATION property={prop.pid} replay={path}")
        print(f"    [{r['scenario']}] {r['viol'][:1200]}")
    return 1 if viols else 0


def match_known(known, r):
    case = jsonable(r["case"])
    for k in known:
        if k["scenario"] != r["scenario"]:
            continue
        if k["case"] == case and k.get("message_contains", "") in r["viol"]:
            return k
    return None


def replay(prop, path):
    global _PROP, _TIER
    with open(path) as fh:
        d = json.load(fh)
    _PROP, _TIER = prop, d.get("tier", "quick")
    a = _run_one((d["scenario"], 0, d["case"]))
    b = _run_one((d["scenario"], 0, d["case"]))
    if a["viol"] != b["viol"]:
        sys.__stdout__.write("replay diverged: the two runs of the same case disagree\n")
        print(a["viol"], "\n", b["viol"], file=sys.__stdout__)
    if a["viol"]:
        print(f"VIOLATION property={prop.pid} replay={path}", file=sys.__stdout__)
        print("   ", a["viol"], file=sys.__stdout__)
        return 1
    print("replay: no violation", file=sys.__stdout__)
    return 0
