"""Replay a recorded counterexample on the real code."""
import json
import os
import sys
from fractions import Fraction

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    rec = json.load(open(sys.argv[1]))
    import importlib

    from . import h
    mod = importlib.import_module(f"checks.{rec['property'].lower()}")
    R = h.Runner(rec["property"], "quick")

    def conv(x):
        if x in ("True", "False"):
            return x == "True"
        f = Fraction(x)
        return f
    vals = {k: conv(v) for k, v in rec["exact_inputs"].items()}

    def run(hname, fn, /, **kw):
        if hname != rec["harness"]:
            return
        for k in ("box", "max_paths", "side_ms", "validate"):
            kw.pop(k, None)
        R.cur = lambda hc: fn(hc, **kw)
        ok, info = R.concrete(vals, rec["obligation"] if not rec["obligation"].startswith("exception") else None)
        print("REPRODUCED" if ok else "not reproduced", info)
        sys.exit(1 if ok else 0)
    R.run = run
    mod.main(R)
    print("harness not found")


if __name__ == "__main__":
    main()
