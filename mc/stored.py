"""The networks stored in the repository, and the inputs they are run on."""
import itertools, json, os
import numpy as np
from kit import REPO


def networks():
    """JSON files in the engine's format"""
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith(".") and d not in ("node_modules", "__pycache__"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith(".json") and os.path.getsize(p) < 2e7:
                try:
                    with open(p, encoding="utf-8") as fh:
                        d = json.load(fh)
                except ValueError:
                    continue
                if isinstance(d, dict) and str(d.get("engine")).upper() in ("TFLITE", "ONNX") and isinstance(d.get("graph"), list):
                    out.append(os.path.relpath(p, REPO))
    return out


def load(path):
    with open(os.path.join(REPO, path), encoding="utf-8") as f:
        return json.load(f)


def codes(n, deep=False, lo=-128, hi=127):
    """Rows of n codes: every code of a single input, every corner and grid point of few, unit rows, ramps and stripes of many."""
    v = [lo, hi, 0, -1, 1, (lo + hi) // 3, 97]
    if n == 1:
        return np.arange(lo, hi + 1).reshape(-1, 1)
    if n == 2:
        g = np.arange(lo, hi + 1, 1 if deep else 5)
        return np.array([(a, b) for a in g for b in g])
    rows = [np.full(n, k) for k in v]
    if n <= 12:
        rows += [np.array(p) for p in itertools.product((lo, hi), repeat=n)] if n <= 9 or deep else []
        rows += [np.array(p) for p in itertools.product(v[:5], repeat=n)] if n <= 4 or (deep and n <= 6) else []
    k = np.arange(n)
    for i in range(0, n, 1 if n <= 64 or deep else max(1, n // 60)):
        for a, b in ((0, hi), (0, lo), (lo, hi), (hi, lo)):
            r = np.full(n, a); r[i] = b
            rows.append(r)
    rows += [lo + (k * (hi - lo)) // max(n - 1, 1), hi - (k * (hi - lo)) // max(n - 1, 1)]
    rows += [lo + (k * m + o) % (hi - lo + 1) for m in (37, 53, 101, 7919, 3) for o in (0, 11, 128)]
    rows += [np.where((k * m) % p > p // 2, hi, lo) for m, p in ((1, 2), (1, 5), (3, 7), (1, 28), (5, 28))]
    return np.array(rows)
