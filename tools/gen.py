"""Regenerates properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, technique="", note="", level="model_checking"):
    for f in files:
        assert os.path.exists("/repo/" + f), f
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a,
                  _technique=technique, _note=note, _level=level))


OPS = "core/itcl_quantization/quantization/operators.py"
LUTF = "core/itcl_quantization/quantization/lut.py"
IE = "inference_engine/itcl_inference_engine/"
QZ = "quantizer/itcl_quantizer/"
LOCK = "explicit-state bounded model checking: exhaustive enumeration of "
exec(open(os.path.join(V, "tools", "table.py"), encoding="utf-8").read())

with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in P:
        fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
PY = "/opt/venv/bin/python -B mc/run.py "
checks = [{"property": p["id"], "quick_cmd": PY + p["id"] + " --tier quick", "thorough_cmd": PY + p["id"] + " --tier thorough",
           "evidence_file": f"evidence/{p['id']}.json", "technique": p["_technique"], "level": p["_level"], "level_note": p["_note"]}
          for p in P if os.path.exists(os.path.join(V, "mc", "props", p["id"] + ".py"))]
na = [{"property": p["id"], "reason": p["_note"]} for p in P if not os.path.exists(os.path.join(V, "mc", "props", p["id"] + ".py"))]
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B mc/selfcheck.py", "checks": checks, "not_applicable": na,
               "notes": "No hooks: every check drives the public API of the code in /repo's working tree (no build step: the packages are imported from the tree). "
                        "Every run enumerates a closed bounded space; counterexamples are written to replays/ and re-run with --replay."}, fh, indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
