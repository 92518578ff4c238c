"""The parameter names by which the specifications call the arguments of a function.

params.json was written from the pinned tree by `python3 -m sa.params`; the arguments are matched by position, so that
renaming a parameter changes nothing.
"""
import json, os

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "params.json")
NAMES = json.load(open(FILE)) if os.path.exists(FILE) else {}


def now(b):
    return [(p.get("pat") or {}).get("name") or "a%d" % i for i, p in enumerate(b["params"])]


def names(b):
    from .gadget import erase
    r = NAMES.get(erase(b["path"]))
    return r if r is not None and len(r) == len(b["params"]) else now(b)


if __name__ == "__main__":
    from .prog import load
    from .gadget import lookup, erase
    from .runner import all_specs
    prog = load()
    out = {}
    for s in all_specs().values():
        b = lookup(prog, s.path)
        out[erase(b["path"])] = now(b)
    with open(FILE, "w") as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write("\n")
