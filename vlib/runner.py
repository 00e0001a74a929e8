"""Entry point: runner.py <property> [quick|thorough] [--seed N] [--replay FILE]"""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core


def load(pid):
    num = int(pid[1:])
    if num <= 9:
        name = "freqcd"
    elif num <= 16:
        name = "timestamps"
    elif num <= 24:
        name = "epochs"
    else:
        name = {49: "faults", 50: "datasets", 51: "datasets", 40: "extra", 41: "extra", 42: "extra", 45: "extra", 46: "tool", 47: "tool", 48: "tool", 43: "freqcd", 44: "stub", 37: "stub", 30: "numerics", 34: "numerics", 39: "numerics", 36: "testcase"}.get(num, "search")
    mod = importlib.import_module("checks." + name)
    return getattr(mod, pid)()


def selftest():
    """Reports which of the tools the checks rely on are there."""
    import shutil
    import subprocess
    bad = [x for x in ("gcc", "clang", "valgrind", "make") if not shutil.which(x)]
    p = subprocess.run([core.PYPY, "-B", "-c", "import numpy, scipy.fft, configargparse, fpfind.fpfind"], env=core.child_env())
    if p.returncode:
        bad.append("project interpreter")
    print("selftest:", "missing " + ", ".join(bad) if bad else "ok")


def main():
    pid = sys.argv[1]
    if pid == "--selftest":
        return selftest()
    check = load(pid)
    check.pid = pid
    if len(sys.argv) > 2 and sys.argv[2] == "--worker":
        k, n, start, seed, tier, tmp, deadline = sys.argv[3:10]
        single = None
        if "--case" in sys.argv:
            single = json.loads(sys.argv[sys.argv.index("--case") + 1])
        shared = json.load(open(os.path.join(tmp, "shared.json")))
        core.worker_main(check, int(k), int(n), int(start), int(seed), tier, tmp, shared, float(deadline), single)
        os._exit(0)
    sys.exit(core.main(check, sys.argv[2:]))


main()
