"""Write properties.jsonl and MANIFEST.json from the property table."""
import json, os
from .props import PROPS
from .runner import VERIF

NOTE = ("Decided from the typed intermediate representation of /repo's current source, without running it. Obligations that are neither proved nor refuted are reported as undecided in the "
        "evidence and raise no alarm. Trusts the models of bellpepper-core, bellpepper's sha256, ff and num-bigint in sa/models.py, and the analyser itself; soundness goals hold at the sizes listed.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS.values():
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p.get("observe_at", [
                                    "the constraints and wires added to the constraint system, and the values returned"]), "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m sa.dump", "checks": [], "not_applicable": [], "notes": "See DESIGN.md. `python3 -m sa.docs` rewrites this file from sa/props.py."}
    for p in PROPS.values():
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                                "technique": p.get("technique", "interprocedural abstract interpretation of the typed IR (polynomial value numbering, closed-form loop summaries), uniqueness propagation on the extracted constraints"),
                                "level": "other", "level_note": p.get("note", NOTE)})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
