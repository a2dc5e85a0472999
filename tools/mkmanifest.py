"""Write MANIFEST.json from the list of checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C27": "convergence of Adam within a fixed number of steps on a non-convex objective is not a statement an SMT encoding can decide: it needs thousands of chained non-linear steps; what the solver can decide about these paths (consistency with whatever the optimiser returns) is C21, and the step count/returned value is C20",
    "C28": "single-precision error bounds need bit-precise floating point through square roots and divisions of symbolic operands, which is far beyond z3/cvc5 here (one float32 intersection test alone does not finish); the encoding uses exact real arithmetic instead and says so",
}
TODO = "check not built yet"
TECH = "symbolic execution of the real code (JAX jaxpr interpreter over SMT terms) + z3/cvc5, counterexamples replayed on the real code"
NOTE = ("Bounded: every obligation is decided by the solver for all values of the symbolic inputs within the stated sizes (see evidence bounds); "
        "float32 is modelled as exact extended-real arithmetic; trusts JAX tracing, the primitive semantics in vf/symjax.py (validated on every run by replaying solver witnesses), and z3/cvc5.")
EXTRA = {
    "C03": ("symbolic execution of flag histories + SMT bounded model checking of recorded two-thread schedules; counterexamples replayed on real threads", None),
    "C12": ("symbolic execution of the candidate enumeration with symbolic filter outcomes; the Rust graph library is exercised concretely for each size", None),
}

props = [json.loads(x) for x in open(f"{ROOT}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(f"{ROOT}/checks/{i.lower()}.py"):
        t, n = EXTRA.get(i, (None, None))
        checks.append(dict(property=i, quick_cmd=f"./run_check {i} quick", thorough_cmd=f"VF_TIMEOUT=7200 ./run_check {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t or TECH, level="model_checking", level_note=n or NOTE))
    else:
        na.append(dict(property=i, reason=TODO))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks import /repo's current source and interpret the jaxprs JAX makes of it. See DESIGN.md.")
with open(f"{ROOT}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
