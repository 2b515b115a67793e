"""Setup: nothing is compiled; check that the interpreter, numpy and the code under test's packages can be found."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
import numpy
repo = os.environ.get("MC_REPO", "/repo")
for d in ("core/itcl_quantization", "inference_engine/itcl_inference_engine", "quantizer/itcl_quantizer"):
    assert os.path.isdir(os.path.join(repo, d)), d
n = len([f for f in os.listdir(os.path.join(HERE, "props")) if f.endswith(".py") and f != "__init__.py"])
print(f"numpy {numpy.__version__}, {n} property modules")
