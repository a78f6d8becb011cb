#!/opt/venv/bin/python
"""writes MANIFEST.json from the contracts present"""
import importlib, json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), "/repo"]
NA = {
    "C26": "Accuracy of numerical linear algebra (SVD, QR, fractional powers) depends on floating-point error analysis of LAPACK kernels inside torch, for which no "
           "contract is available to a deductive verifier here.",
}
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    f = ROOT / "contracts" / f"{i.lower()}.py"
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif not f.exists():
        na.append(dict(property=i, reason="no check has been built for it yet"))
    else:
        m = importlib.import_module(f"contracts.{i.lower()}")
        checks.append(dict(
            property=i,
            quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=getattr(m, "TECHNIQUE", "contract-based deductive verification: the functions of /repo, mechanically instrumented on every run, are executed on symbolic "
                              "values under their contracts; verification conditions discharged by z3/cvc5; bounded concrete cross-check"),
            level=m.LEVEL,
            level_note=getattr(m, "NOTE", "") or ("Every obligation generated from the current source is discharged for all inputs of the stated contracts; contracts "
                                                  "marked bounded hold up to the stated bound and are not counted as proved. Trusted: " + "; ".join(m.TRUSTED[:4])),
        ))
(ROOT / "MANIFEST.json").write_text(json.dumps(dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import torch, safetensors, yaml, sys; sys.path.insert(0, \"/verif\"); import vc.core'",
    checks=checks, not_applicable=na,
    notes="No hooks: the checks rewrite the functions of /repo in memory on every run (vc/instrument.py) and leave /repo untouched."), indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in na])
