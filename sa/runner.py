"""Run the obligations of a property, in parallel, and report."""
import importlib, json, multiprocessing as mp, os, queue, signal, sys, time, traceback
from . import prog as progmod
from .ob import Report

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = {"quick": 780, "thorough": 3000}
KNOWN = os.path.join(VERIF, "known-findings.json")


def all_specs():
    from . import contracts
    S = {}
    for m in ("specs_util", "specs_mp", "specs_gad", "specs_car", "specs_btc", "specs_cnv"):
        S.update(importlib.import_module("sa." + m).S)
    return S


def match(S, names):
    """names of specifications; a trailing * matches any ending"""
    out = []
    for n in names:
        got = [x for x in S if x.startswith(n[:-1])] if n.endswith("*") else [n]
        assert got and all(x in S for x in got), n
        out += [x for x in got if x not in out]
    return out


def closure(S, names):
    """the specifications named, and those that establish the contracts they use"""
    from . import contracts
    out, todo = [], list(names)
    while todo:
        n = todo.pop(0)
        if n in out:
            continue
        out.append(n)
        for c in S[n].contracts:
            for d in contracts.DEPS[c]:
                todo.append(d)
    return out


def child(q, prog, kind, name, only, tier):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    rep = Report(name)
    try:
        if kind == "spec":
            from . import gadget, contracts
            sp = all_specs()[name]
            if tier == "thorough":
                sp.sizes = tuple(sp.sizes) + tuple(getattr(sp, "more", ()))
            gadget.check(rep, prog, sp, contracts.C, only)
        else:
            from . import lints
            getattr(lints, name)(rep, prog)
    except MemoryError:
        rep.undecided("engine", name, "out of memory")
    except Exception:
        rep.undecided("engine", name, "internal: " + traceback.format_exc()[-600:])
    q.put((kind, name, rep.items, sorted(map(str, rep.functions)), sorted(map(str, rep.calls))))
    q.close()
    q.join_thread()


def run(jobs, prog, tier, budget):
    """jobs: (kind, name, only); returns {(kind, name): (items, functions, calls)}"""
    q = mp.Queue()
    todo, live, res, t0 = list(jobs), {}, {}, time.time()
    n = min(8, os.cpu_count() or 4)
    while todo or live:
        while todo and len(live) < n:
            k, nm, only = todo.pop(0)
            p = mp.Process(target=child, args=(q, prog, k, nm, only, tier))
            p.start()
            live[(k, nm)] = p
        try:
            k, nm, items, fns, calls = q.get(timeout=0.5)
            res[(k, nm)] = (items, fns, calls)
            live.pop((k, nm)).join()
        except queue.Empty:
            pass
        for key, p in list(live.items()):
            if not p.is_alive() and q.empty():
                time.sleep(0.2)
                if q.empty() and key in live:
                    res[key] = ([{"rule": "engine", "where": key[1], "status": "undecided", "msg": "the analysis ended (signal %s)" % p.exitcode,
                                  "loc": None, "key": "engine|" + key[1]}], [], [])
                    live.pop(key)
        if time.time() - t0 > budget:
            for key, p in live.items():
                p.kill()
                p.join()
                res[key] = ([{"rule": "engine", "where": key[1], "status": "undecided", "msg": "not decided within %ds" % budget,
                              "loc": None, "key": "engine|" + key[1]}], [], [])
            for k, nm, only in todo:
                res[(k, nm)] = ([{"rule": "engine", "where": nm, "status": "undecided", "msg": "not started within %ds" % budget,
                                  "loc": None, "key": "engine|" + nm}], [], [])
            break
    return res


def known(prop):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in d.get("findings", []) if e["property"] == prop}


def main(prop, tier, verbose=False):
    from .props import PROPS
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    prog = progmod.load()
    S = all_specs()
    jobs = []
    only = P.get("only")
    names = P.get("specs", ())
    if names == "all":
        names = list(S)
    names = match(S, names)
    names = closure(S, names) if not P.get("shallow") else list(names)
    for n in names:
        jobs.append(("spec", n, only))
    jobs.sort(key=lambda j: -getattr(S[j[1]], "cost", 1))
    for n in P.get("lints", ()):
        jobs.append(("lint", n, None))
    res = run(jobs, prog, tier, BUDGET[tier])
    items, fns, calls = [], set(), set()
    for key in sorted(res):
        it, f, c = res[key]
        for i in it:
            i["unit"] = key[1]
        items += it
        fns |= set(f)
        calls |= set(c)
    kn = known(prop)
    bad, kf, seen = [], {}, set()
    for i in items:
        if i["status"] != "violated":
            continue
        if i["key"] in kn:
            kf.setdefault(i["key"], i)
        elif (i["key"], i["msg"]) not in seen:
            seen.add((i["key"], i["msg"]))
            bad.append(i)
    st = lambda s: [i for i in items if i["status"] == s]
    rules = {}
    for i in items:
        r = rules.setdefault(i["rule"], {"proved": 0, "violated": 0, "undecided": 0})
        r[i["status"]] += 1
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": P["explain"],
            "units_analysed": [k[1] for k in sorted(res)],
            "functions_analysed": sorted(fns),
            "functions": len(fns),
            "obligations": len(items), "discharged": len(st("proved")), "undecided": len(st("undecided")),
            "by_rule": rules,
            "undecided_items": [{"unit": i["unit"], "rule": i["rule"], "where": i["where"], "why": i["msg"][:300]} for i in st("undecided")][:60],
            "samples": [{"unit": i["unit"], "rule": i["rule"], "where": i["where"], "what": i["msg"][:160]} for i in st("proved")[:: max(1, len(st("proved")) // 12)]][:14],
            "rules_applied": RULES,
        },
        "assumptions": P.get("assumptions", []) + ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s (%s): %d obligations in %d units over %d functions: %d proved, %d undecided, %d violated (%d known), %.1fs" % (
        prop, tier, len(items), len(res), len(fns), len(st("proved")), len(st("undecided")), len(st("violated")), len(kf), time.time() - t0))
    if verbose:
        for i in st("undecided"):
            print("  undecided [%s] %s %s: %s" % (i["unit"], i["rule"], i["where"], i["msg"][:400]))
    for k in sorted(kf):
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]["what"]))
    if not bad:
        return 0
    rp = os.path.join(VERIF, "evidence", prop + ".violation.json")
    with open(rp, "w") as f:
        json.dump({"property": prop, "violations": bad, "replay": "python3 /verif/check.py %s --tier %s" % (prop, tier)}, f, indent=1)
    for i in bad[:20]:
        print("  %s [%s] %s%s: %s" % (i["rule"], i["unit"], i["where"], " at " + i["loc"] if i["loc"] else "", i["msg"][:600]))
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


RULES = {
    "O1": "the value returned for the honest wires is the specified function of the inputs",
    "O2": "the honest witness satisfies every constraint emitted",
    "O3": "the stated predicate follows from the constraints emitted, unfolded at the sizes given",
    "O4": "every wire expression returned equals the value returned beside it, at the honest witness",
    "O5": "the constraint system is the same with a witness and without one",
    "O6": "no panic and no error is reachable on specified inputs",
    "O7": "no two wires, constraints or scopes of the system share a name",
    "anchor": "the public function exists",
}
ASSUME = [
    "bellpepper-core (ConstraintSystem, AllocatedNum, AllocatedBit, Boolean), bellpepper's sha256, ff, num-bigint and num-integer behave as modelled in sa/models.py",
    "the field is the Pallas scalar field that the crate's binaries use; integers of the symbolic domain are unbounded, with the field's canonical representatives below the modulus",
    "soundness (O3) is derived at the sizes listed in the obligations; the other rules hold for all sizes",
]
