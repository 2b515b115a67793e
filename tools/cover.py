"""Which lines of the repository a check executes: cover.py OUT.txt <arguments of mc/run.py>; appends file:line once per process."""
import os, runpy, sys
out, repo = os.path.abspath(sys.argv[1]), os.environ.get("MC_REPO", "/repo") + "/"
T = sys.monitoring
T.use_tool_id(3, "cover")


def line(code, n):
    f = code.co_filename
    if f.startswith(repo):
        with open(f"{out}.{os.getpid()}", "a") as h:
            h.write(f"{f[len(repo):]}:{n}\n")
    return T.DISABLE


T.register_callback(3, T.events.LINE, line)
T.set_events(3, T.events.LINE)
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc")
sys.path.insert(0, here)
sys.argv = [os.path.join(here, "run.py")] + sys.argv[2:]
runpy.run_path(sys.argv[0], run_name="__main__")
