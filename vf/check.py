"""Entry point: python -m vf.check C05 [--tier quick|thorough] [--only NAME]"""

from __future__ import annotations

import argparse
import importlib
import os
import sys
import time

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.pop("ENABLE_APPROX", None)
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    import z3
    z3.set_param("memory_max_size", 12000)
    from . import h
    import differt2d
    from differt2d import abc, defaults, geometry, logic, optimize, scene, utils  # noqa: F401
    h.start_monitor()
    if not os.path.realpath(differt2d.__file__).startswith(os.path.realpath(h.REPO) + os.sep):
        print(f"INCONCLUSIVE: differt2d imported from {differt2d.__file__}")
        return 2
    mod = importlib.import_module(f"checks.{a.pid.lower()}")
    R = h.Runner(a.pid, a.tier)
    R.only = a.only
    try:
        mod.main(R)
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        R.errors.append(f"check crashed: {type(e).__name__}: {str(e)[:300]}")
    rc = R.finish(level="model_checking", bounds=getattr(mod, "BOUNDS", ()),
                  assumptions=COMMON + list(getattr(mod, "ASSUMPTIONS", ())))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


COMMON = [
    "float32 arithmetic is modelled as exact real arithmetic extended with NaN/+-inf (no rounding, overflow, signed zero); sin/cos/exp/logistic are axiomatised over-approximations",
    "trusted: JAX tracing/lowering to jaxpr and the primitive semantics of vf/symjax.py (validated on every run by pushing solver witnesses through both the encoding and the real code), z3/cvc5",
]


def rel(*names):
    return names


if __name__ == "__main__":
    sys.exit(main())
