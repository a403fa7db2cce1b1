#!/opt/venv/bin/python
"""Regenerates MANIFEST.json from the implemented property modules."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = ("abstract interpretation of the repository source with trace partitioning: the code generator is partially "
        "evaluated per class schema and the generated functions are interpreted over abstract values")
NOTE = ("Decided per class schema in the enumerated catalogue (see DESIGN.md): for a schema the verdict holds for every "
        "value of the abstract classes, because element values stay uninterpreted terms. Trusted: the analyser's own "
        "semantics of Python expressions and its models of the standard library, jinja2, beartype, plum and the format "
        "backends. Schemas outside the catalogue are not covered.")
EXTRA = {}
ex = os.path.join(V, "tools", "notes.json")
if os.path.exists(ex):
    EXTRA = json.load(open(ex))
props = [json.loads(ln) for ln in open(os.path.join(V, "properties.jsonl")) if ln.strip()]
NA = {
    "P31": "Wall-clock time, memory and throughput are quantities of a running process; no static argument over this "
           "source bounds them.",
    "P32": "The text produced by third-party codecs (orjson, json, PyYAML, tomli-w, msgpack) is decided by native code "
           "outside /repo; nothing in the repository's source determines it.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sa", "props", i.lower() + ".py")):
        e = EXTRA.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"{PY} check.py {i} --tier quick",
            "thorough_cmd": f"{PY} check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": e.get("technique", TECH),
            "level": "other",
            "level_note": e.get("note", NOTE),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No static check is implemented for it yet.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: no check imports or executes /repo's code. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
