"""writes properties.jsonl and MANIFEST.json from tools/specs.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from specs import NOT_APPLICABLE, SPECS  # noqa: E402

props, checks, na = [], [], []
for s in SPECS:
    pid = s["id"]
    assert len(s["title"]) <= 80, (pid, len(s["title"]))
    props.append(dict(
        id=pid, title=s["title"], statement=s["statement"],
        quantifier=dict(over=s["over"], text=s["text"]),
        why_tests_cant=s["why"],
        anchors=dict(
            files=s["files"],
            mechanism=[dict(name=n, where=w) for n, w in s["mechanism"]],
            observe_at=s.get("observe", []),
            hook_needed=None,
        ),
    ))
    if pid in NOT_APPLICABLE:
        na.append(dict(property=pid, reason=NOT_APPLICABLE[pid]))
        continue
    assert os.path.exists(os.path.join(ROOT, "harness", pid.lower() + ".py")), pid
    src = open(os.path.join(ROOT, "harness", pid.lower() + ".py")).read()
    g = {}
    head = src[: src.index("OUTSIDE")]
    exec(head[head.index("BOUNDS"):], g)
    tail = src[src.index("OUTSIDE"):]
    # OUTSIDE is one expression
    import ast
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == "OUTSIDE":
            g["OUTSIDE"] = ast.literal_eval(node.value)
    checks.append(dict(
        property=pid,
        quick_cmd=f"python3-vt -m sx.runner {pid} --tier quick",
        thorough_cmd=f"python3-vt -m sx.runner {pid} --tier thorough",
        evidence_file=f"evidence/{pid}.json",
        technique="path-exhaustive symbolic execution of the real Python source, assertions decided by z3",
        level="model_checking",
        level_note=(
            "Holds for every input within the bounds when all cases are reported as decided completely (no loops are cut: inputs are "
            f"bounded, paths are not). Bounds: {g['BOUNDS']}. Outside: {g['OUTSIDE']}. Trusted: z3 and the models of builtins, str, re and "
            "datetime in sx/, which every run compares with the unmodified code by replaying the model of each explored path."
        ),
    ))

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(
        version=1,
        setup_cmd="python3-vt -c 'import z3, sx.runner'",
        checks=checks,
        not_applicable=na,
        notes="No hooks in /repo: the checks instrument its source in memory. known-findings.json lists findings and fixed defects.",
    ), f, indent=1)
    f.write("\n")
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
