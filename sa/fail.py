"""Rule O9: a component that fails makes the gadget fail.

Every call in the gadget's body, and in the functions it calls, that can return a
SynthesisError is taken to return one, one call site at a time. The gadget must then
return an error or abort on every path that reaches the site.
"""
from .gadget import *
from . import evalr

SMALL = 8


def site_name(k, mode="W"):
    return "%s at %s%s" % (k[1].split("::")[-1], k[0], "" if mode == "W" else ", without a witness")


def covered(prog):
    """the functions whose call sites are met where they are themselves analysed"""
    from . import props, runner
    S = runner.all_specs()
    P = next(p for p in props.PROPS.values() if p.get("only") == ["O9"])
    bs = [lookup(prog, S[n].path) for n in runner.match(S, P["specs"])]
    return {b["path"] for b in bs if b is not None}


def check(rep, g, spec, cx, contracts):
    nm = g.body["path"]
    if spec.case is None and spec.sizes and any(spec.sizes):
        sz = [s for s in spec.sizes if all(v <= SMALL or k.startswith("NUM") for k, v in s.items() if isinstance(v, int))] or spec.sizes[:1]
        spec = Cased(spec, max(sz, key=lambda s: sum(v for v in s.values() if isinstance(v, int))))
        cx = Ctx(ge=spec.pre, nz=spec.nz, conds=spec.conds, gens=spec.gens)
        g = Gadget(g.prog, spec, contracts)
    g.covered = covered(g.prog)
    T.EXPAND = max(T.EXPAND, spec.expand)
    for mode in spec.modes:
        sites = {}
        I, args, r, e = run(g, spec, sites, None, mode)
        rep.functions |= I.visited
        rep.calls |= I.calls
        if e is not None:
            rep.undecided("O9", nm, "not analysable: " + e)
            continue
        part = getattr(spec, "share", (0, 1))
        for i, k in enumerate(sorted(sites, key=str)):
            if i % part[1] == part[0]:
                one_site(rep, g, spec, cx, k, nm, mode)


def run(g, spec, sites, inject, mode):
    g.run = {}
    g.sites, g.inject = sites, inject
    return g.analyse(mode)


def one_site(rep, g, spec, cx, k, nm, mode):
    try:
        I, args, r, e = run(g, spec, {}, k, mode)
    except Unsupported as u:
        e = str(u)
    if e is not None:
        rep.undecided("O9", nm, "failure of %s: %s" % (site_name(k, mode), e), k[0])
        return
    r = I.get(r)
    if isinstance(r, VEnum) and r.variant == "Err":
        rep.proved("O9", nm, "failure of " + site_name(k, mode))
        return
    # the part of the runs that reach the site and neither return an error nor abort
    left = ONE
    for x in I.effs:
        if isinstance(x, Abort):
            left = simp(left * (ONE - simp(x.cond)))
    good = simp(I.is_variant(r, ("Ok",))) if isinstance(r, VIte) and I.adt_of(r) == "std::result::Result" else ONE
    reached = [(co, fr) for x, fr, co in walk(I.effs) if isinstance(x, Ext) and x.name == "failed"]
    if not reached:
        rep.proved("O9", nm, "failure of %s: every path that reaches it ends there" % site_name(k, mode))
        return
    for co, fr in reached:
        rng = []
        for v, n in fr:
            rng += [v, n - 1 - v]
        with cx.enter():
            with assuming(*co, ge=rng):
                p = simp(left * good)
                if p is ZERO or logic.prove_zero(p) or logic.absurd():
                    rep.proved("O9", nm, "failure of " + site_name(k, mode))
                    continue
        try:
            pt, n = evalr.refute(p, cx.ge, cx.gens, list(cx.conds) + list(co), cx.nz, fr, 300, want=40)
        except Unsupported:
            pt, n = None, 0
        if pt is not None:
            rep.violated("O9", nm, "the failure of %s is swallowed: the gadget succeeds%s" % (site_name(k, mode), "" if not pt[0] else " at " + show_point(pt)), k[0], key="O9|%s|%s" % (nm, k[1]))
        else:
            rep.undecided("O9", nm, "failure of %s: neither reported nor swallowed" % site_name(k, mode), k[0])
