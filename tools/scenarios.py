"""writes SCENARIOS.md: every scenario of every check with its number of cases in both tiers"""
import contextlib, glob, importlib, io, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("MC_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(ROOT, "mc"), os.path.join(ROOT, "mc/props")] + [os.path.join(R, d) for d in ("core", "inference_engine", "quantizer", "demo/demo_lib", "model_converters/keras2json", "model_converters/tflite2json", "model_converters/onnx2json")]
import tempfile
os.chdir(tempfile.mkdtemp())
out = ["# Scenarios of the checks", "", "Each scenario is a closed space of cases that is explored completely (one case may stand for thousands of executions; the evidence files count them). Written by `tools/scenarios.py`.", "",
       "| property | scenario | cases quick / thorough | what is enumerated |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "mc/props/*.py"))):
    n = os.path.basename(f)[:-3]
    if n.startswith("_"):
        continue
    with contextlib.redirect_stdout(io.StringIO()):
        p = importlib.import_module(n).PROP
    for s in p.scenarios:
        out.append(f"| {n} | {s.name} | {len(list(s.cases('quick')))} / {len(list(s.cases('thorough')))} | {s.note} |")
open(os.path.join(ROOT, "SCENARIOS.md"), "w").write("\n".join(out) + "\n")
print(len(out) - 6, "scenarios")
