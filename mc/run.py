"""Entry point: /opt/venv/bin/python -B mc/run.py <ID> [--tier quick|thorough] [--only SCENARIO] [--replay FILE] [-v]"""
import os, sys
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import argparse, importlib, shutil, tempfile, warnings
warnings.simplefilter("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    rp = os.path.abspath(a.replay) if a.replay else None
    import kit
    sys.modules.setdefault("kit", kit)
    for sub in ("core", "inference_engine", "quantizer", "model_converters/keras2json",
                "model_converters/tflite2json", "model_converters/onnx2json", "demo/demo_lib"):
        sys.path.insert(1, os.path.join(kit.REPO, sub))
    scratch = tempfile.mkdtemp(prefix="mc_")
    os.environ["MC_SCRATCH"] = scratch
    os.environ["MPLCONFIGDIR"] = scratch
    os.chdir(scratch)
    import atexit
    pid = os.getpid()

    def cleanup():
        if os.getpid() == pid:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(cleanup)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        mod = importlib.import_module(f"props.{a.pid}")
    except Exception as e:  # the code under test no longer imports: the property cannot hold
        import traceback
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(kit.REPO + "/") for f in tb) or isinstance(e, (ImportError, AttributeError)):
            os.makedirs(os.path.join(kit.VERIF, "replays"), exist_ok=True)
            path = os.path.join(kit.VERIF, "replays", f"{a.pid}-import.txt")
            with open(path, "w") as fh:
                traceback.print_exc(file=fh)
            print(f"VIOLATION property={a.pid} replay={path}")
            return 1
        return 2
    if rp:
        return kit.replay(mod.PROP, rp)
    return kit.run_property(mod.PROP, a.tier, seed, jobs=a.jobs, only=a.only, verbose=a.v)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
