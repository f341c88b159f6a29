#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import registry as R

NOTE = ("Decided by static analysis of the current source for symbolic sizes, contents and settings. Trusts the models of "
        "jax/equinox/stdlib operations in sa/ and real arithmetic for floating point; constructs outside the models are "
        "reported as undecided obligations, never as violations.")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, p in sorted({**R.PROPERTIES, **R.NOT_APPLICABLE}.items()):
        assert len(p["title"]) <= 80, pid
        f.write(json.dumps(dict(
            id=pid, title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mechanism"]))) + "\n")
m = dict(
    version=1, setup_cmd="python3 tools/setup_check.py",
    checks=[dict(property=pid, quick_cmd=f"python3 check.py {pid}", thorough_cmd=f"python3 check.py {pid} --tier thorough",
                 technique=p.get("technique") or "gated-SSA dataflow value graph with value numbering against reference formulas",
                 level="other", level_note=(p["note"] + " " if p["note"] else "") + NOTE)
            for pid, p in sorted(R.PROPERTIES.items())],
    not_applicable=[dict(property=pid, reason=p["reason"]) for pid, p in sorted(R.NOT_APPLICABLE.items())])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
