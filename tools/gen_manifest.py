"""writes MANIFEST.json from the checks present in checks/"""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C26": "the search is scipy's compiled truncated-Newton (TNC) minimiser iterating to a floating-point tolerance: there is no mcsas3 "
    "code that decides global optimality, and the compiled iteration is outside what can be encoded; what mcsas3 itself "
    "contributes (objective, bounds, start) is decided under C16",
    "C27": "the intensities come from the C kernels of the sasmodels library, which is not part of this repository; what "
    "mcsas3 does with them is decided under C17",
}
checks, na = [], []
for i in ids:
    p = os.path.join(V, "checks", f"{i}.py")
    if i in NA or not os.path.exists(p):
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
        continue
    m = ast.parse(open(p).read())
    c = {}
    for s in m.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in ("OUTSIDE", "ASSUMPTIONS", "STUBS"):
            c[s.targets[0].id] = ast.literal_eval(s.value)
    checks.append(
        dict(
            property=i,
            quick_cmd=f"./check {i} quick",
            thorough_cmd=f"./check {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the instrumented mcsas3 source, assertions decided by z3, counterexamples replayed on the unmodified code",
            level="model_checking",
            level_note="Every path of the real code within the stated bounds is executed with symbolic values and each assertion "
            "is decided by the solver for all of them. Trusted: z3, the encoding of numpy/pandas operations (validated on "
            "replayed witnesses), exact reals in place of float64. " + "Stand-ins: " + "; ".join(c.get("STUBS", []) or ["none"]) + ". Assumed: "
            + "; ".join(c.get("ASSUMPTIONS", []) or ["nothing further"]) + ". Outside: " + c.get("OUTSIDE", ""),
        )
    )
json.dump(
    dict(
        version=1,
        setup_cmd="./check --setup",
        checks=checks,
        not_applicable=na,
        notes="No hooks in /repo: the source is instrumented in memory when a check imports it (symx/loader.py).",
    ),
    open(os.path.join(V, "MANIFEST.json"), "w"),
    indent=1,
)
