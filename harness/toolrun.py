"""Run a support tool as it is, at a given time and with a given file operation failing or being the last."""
import json, os, runpy, sys, time
spec = json.loads(sys.argv[1])
now = spec["now"]
time.time = lambda: now


def breaks(name, how):
    real = getattr(os, name)

    def f(*a, **k):
        if how == "exit-after":
            real(*a, **k)
        if how.startswith("exit"):
            os._exit(77)
        raise OSError(28, "no space left (injected)")
    setattr(os, name, f)


if spec.get("fault"):
    breaks(*spec["fault"])
sys.argv = [spec["script"]] + sys.argv[2:]
runpy.run_path(spec["script"], run_name="__main__")
