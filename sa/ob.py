"""Obligations: what a check asked about the program, and what the analysis answered."""
import json, os, sys, time, traceback
from fractions import Fraction
from .values import *
from . import logic, evalr
from .logic import simp, assuming
from .terms import *
from . import terms as T


class Report:
    """the obligations of one property"""

    def __init__(self, prop):
        self.prop = prop
        self.items = []
        self.functions = set()
        self.calls = set()
        self.assumptions = []
        self.sites = 0

    def add(self, rule, where, status, msg="", loc=None, key=None):
        self.items.append({"rule": rule, "where": where, "status": status, "msg": msg, "loc": loc,
                           "key": key or "%s|%s" % (rule, where)})

    def proved(self, rule, where, msg=""):
        self.add(rule, where, "proved", msg)

    def violated(self, rule, where, msg, loc=None, key=None):
        self.add(rule, where, "violated", msg, loc, key)

    def undecided(self, rule, where, msg, loc=None):
        self.add(rule, where, "undecided", msg, loc)

    def count(self, st):
        return sum(1 for i in self.items if i["status"] == st)


class Ctx:
    """the standing facts under which a gadget is judged"""

    def __init__(self, ge=(), nz=(), conds=(), gens=None):
        self.ge, self.nz, self.conds, self.gens = list(ge), list(nz), list(conds), dict(gens or {})

    def enter(self):
        return assuming(*self.conds, ge=self.ge, nz=self.nz)


def prove_or_refute(cx, p, frees=(), conds=(), tries=300, want=40):
    """('proved', None) | ('violated', valuation) | ('undecided', points)"""
    p = P(p)
    rng = []
    for v, n in frees:
        rng += [v, n - 1 - v]
    with cx.enter():
        with assuming(*conds, ge=rng):
            if logic.absurd():
                return "proved", None
            if logic.prove_zero(p) or split_zero(p):
                return "proved", None
    r, good = evalr.refute(p, cx.ge, cx.gens, list(cx.conds) + list(conds), cx.nz, frees, tries, want=want)
    if r is not None:
        return "violated", r
    return "undecided", good


def field_form(p):
    """p over the field: the canonical integer of a field element is that element"""
    if is_int(p):
        return p
    mp = {}
    for a in p.atoms():
        t = tup(a)
        if t[0] == "nat":
            mp[a] = t[1]
    if not mp:
        return p
    r = ZERO
    for m, c in p.t.items():
        x = P(c)
        for a, e in m:
            y = mp.get(a, of_atom(a))
            for _ in range(abs(e)):
                x = x * (y if e > 0 else mk_inv(y))
        r = r + x
    return field_form(r) if r != p else r


def small_div(p):
    """div(x, m) with 0 <= x < 2m is the test x >= m"""
    mp = {}
    for a in p.leaves():
        t = tup(a)
        if t[0] == "div" and logic.nonneg(t[1]) and logic.nonneg(2 * t[2] - 1 - t[1]):
            mp[a] = ge(t[1] - t[2])
    return simp(subst(p, mp)) if mp else p


def field_tests(p):
    """eqz over the field, of the field form of its argument"""
    mp = {}
    for a in p.leaves():
        t = tup(a)
        if t[0] == "eqz" and not is_int(t[1]):
            q = simp(field_form(t[1]))
            if q != t[1]:
                mp[a] = eqz(q)
    return simp(subst(p, mp)) if mp else p


def halves(p):
    """div(x, 2) = (x - bit(x, 0)) / 2"""
    mp = {}
    for a in p.leaves():
        t = tup(a)
        if t[0] == "div" and t[2] == TWO and logic.nonneg(t[1]):
            mp[a] = (t[1] - mk_bit(t[1], ZERO)).scale(Fraction(1, 2))
    return simp(subst(p, mp)) if mp else p


def split_zero(p, depth=4):
    """p = 0 by case analysis on the tests it contains"""
    p = simp(field_tests(simp(p)))
    p = simp(small_div(p))
    p = simp(field_form(p))
    if not logic.prove_zero(p):
        p = simp(field_form(halves(p)))
    if logic.prove_zero(p):
        return True
    if depth == 0:
        return False
    for a in sorted(x for x in p.leaves() if tup(x)[0] == "wire" and tup(x)[3] == "B" and not any(tup(l)[0] == "bv" for l in p_leaves(tup(x)))):
        return all(holds_if(p, a, v, depth) for v in (ONE, ZERO))
    for a in sorted(p.leaves(), key=lambda a: len(tup(a)[1].t) if tup(a)[0] in ("eqz", "ge") else 0):
        t = tup(a)
        if t[0] not in ("eqz", "ge") or any(tup(l)[0] in ("bv",) for l in p_leaves(t)):
            continue
        for c, v in ((of_atom(a), ONE), (ONE - of_atom(a), ZERO)):
            with assuming(c):
                if logic.absurd():
                    continue
                q = simp(subst(p, {a: v}))
                more = []
                if is_int(t[1]):
                    d = t[1]
                    if t[0] == "eqz" and v is ONE:
                        q = solve_for(q, d)
                    elif t[0] == "eqz":
                        more = [x - 1 for x in (d, -d) if logic.nonneg(x)][:1]
                    elif v is ZERO and logic.nonneg(d + 1):
                        q = solve_for(q, d + 1)
                    elif v is ONE and logic.nonneg(-d):
                        q = solve_for(q, d)
                elif v is ZERO and t[0] == "eqz":
                    q = rename_nz(q, t[1])
                with assuming(ge=more):
                    if not (logic.prove_zero(q) or split_zero(q, depth - 1)):
                        return False
        return True
    return False


def holds_if(p, a, v, depth):
    with assuming(of_atom(a) if v is ONE else ONE - of_atom(a)):
        if logic.absurd():
            return True
        q = simp(subst(p, {a: v}))
        return logic.prove_zero(q) or split_zero(q, depth - 1)


def never(conds, rng, depth=4):
    """the conditions cannot hold together"""
    conds = [P(c) for c in conds]
    with assuming(ge=rng):
        if any(simp(c) is ZERO for c in conds):
            return True
    with assuming(*conds, ge=rng):
        if logic.absurd():
            return True
    if depth:
        for c in conds:
            for a in sorted(c.leaves()):
                t = tup(a)
                if t[0] == "wire" and t[3] == "B" and all(isinstance(i, Poly) and not i.leaves() for i in t[2]):
                    return all(never([subst(x, {a: v}) for x in conds], [subst(P(x), {a: v}) for x in rng], depth - 1) for v in (ONE, ZERO))
    return False


def solve_for(q, d):
    """q, where the integer d is known to vanish"""
    for m, c in d.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and tup(m[0][0])[0] in ("sym", "lv"):
            a = m[0][0]
            rest = d - Poly({m: c})
            if not rest.has(a):
                return simp(subst(q, {a: rest.scale(-c)}))
    return q


def p_leaves(t):
    s = set()
    for x in t[1:]:
        if isinstance(x, Poly):
            s |= x.leaves()
    return s


def rename_nz(q, A):
    """write q in terms of d = A, known not to vanish, so that d * inv(d) cancels"""
    for m, c in A.t.items():
        if len(m) == 1 and m[0][1] == 1 and sort_of(m[0][0]) == "F" and tup(m[0][0])[0] in ("wire", "sym"):
            a = m[0][0]
            rest = A - Poly({m: c})
            if rest.has(a):
                continue
            d = sym("#d%d" % a, "F")
            logic.add_nz(d)
            return simp(subst(q, {a: (d - rest).scale(1 / c)}))
    return q


def show_point(r):
    pt, x = r
    s = ", ".join("%s=%s" % kv for kv in sorted(pt.items())[:14])
    return "differs by %s at {%s}" % (str(x)[:60], s)


def eq(rep, rule, where, cx, actual, expected, loc=None, frees=(), conds=(), what="value"):
    """actual and expected are the same value for every input"""
    try:
        out = list(compare(cx, actual, expected, list(frees), list(conds), what))
    except Unsupported as u:
        rep.undecided(rule, where, "not comparable: %s" % u, loc)
        return False
    worst = "proved"
    for st, msg in out:
        if st == "violated":
            rep.violated(rule, where, msg, loc)
            return False
        if st == "undecided":
            worst = "undecided"
            rep.undecided(rule, where, msg, loc)
    if worst == "proved":
        rep.proved(rule, where, what)
    return worst == "proved"


def norm(cx, v, frees, conds):
    rng = []
    for x, n in frees:
        rng += [x, n - 1 - x]
    with cx.enter():
        with assuming(*conds, ge=rng):
            if logic.absurd():
                return None
            return vsimp(v)


def feasible(cx, frees, conds):
    """False: provably no input gets here; a point: some input does; None: not known"""
    rng = []
    for v, n in frees:
        rng += [v, n - 1 - v]
    with cx.enter():
        with assuming(*conds, ge=rng):
            if logic.absurd():
                return False
    r, good = evalr.refute(ONE, cx.ge, cx.gens, list(cx.conds) + list(conds), cx.nz, frees, 400, want=1)
    return r


def compare(cx, a, e, frees, conds, what):
    if e is ANY:
        yield "proved", ""
        return
    a2, e2 = norm(cx, a, frees, conds), norm(cx, e, frees, conds)
    if a2 is None or e2 is None:
        yield "proved", ""
        return
    a, e = a2, e2
    if a is e or a == e:
        yield "proved", ""
        return
    if isinstance(a, Poly) and isinstance(e, Poly):
        st, r = prove_or_refute(cx, a - e, frees, conds)
        if st == "violated":
            yield st, "%s is %s, not %s: %s" % (what, clip(a), clip(e), show_point(r))
        elif st == "undecided":
            yield st, "%s: %s = %s not proved (%s points agree)" % (what, clip(a), clip(e), r)
        else:
            yield st, ""
        return
    for x, y, flip in ((a, e, 0), (e, a, 1)):
        if isinstance(x, VIte):
            l = (x.a, y) if not flip else (y, x.a)
            r = (x.b, y) if not flip else (y, x.b)
            yield from compare(cx, l[0], l[1], frees, conds + [x.c], what)
            yield from compare(cx, r[0], r[1], frees, conds + [ONE - x.c], what)
            return
    if isinstance(a, VTuple) and isinstance(e, VTuple) and len(a.es) == len(e.es):
        for i, (x, y) in enumerate(zip(a.es, e.es)):
            yield from compare(cx, x, y, frees, conds, "%s.%d" % (what, i))
        return
    if isinstance(a, VStruct) and isinstance(e, VStruct):
        for k in e.f:
            if k not in a.f:
                raise Unsupported("field %s" % k)
            if e.f[k] is ANY:
                continue
            yield from compare(cx, a.f[k], e.f[k], frees, conds, what + "." + k)
        return
    if isinstance(a, VEnum) and isinstance(e, VEnum):
        if a.variant == e.variant:
            if a.variant == "Err" or e.fs and e.fs[0] is ANY:
                yield "proved", ""
                return
            for x, y in zip(a.fs, e.fs):
                yield from compare(cx, x, y, frees, conds, what + ("" if a.variant in ("Ok",) else "." + a.variant))
            return
        f = feasible(cx, frees, conds)
        if f is False:
            yield "proved", ""
        elif f is None:
            yield "undecided", "%s is %s, not %s, where no input is known to get" % (what, a.variant, e.variant)
        else:
            yield "violated", "%s is %s, not %s, e.g. at {%s}" % (what, a.variant, e.variant, ", ".join("%s=%s" % kv for kv in sorted(f[0].items())[:10]))
        return
    if isinstance(a, (VSeq, VUpd)) and isinstance(e, (VSeq, VUpd)):
        la, le = a.len(), e.len()
        bad = False
        for st, msg in compare(cx, la, le, frees, conds, what + ".len"):
            if st != "proved":
                bad = True
                yield st, msg
        if bad:
            return
        nc = simp(le).as_int()
        if nc is not None and nc <= T.EXPAND:
            for i in range(nc):
                with cx.enter():
                    x, y = seq_get(a, P(i)), seq_get(e, P(i))
                yield from compare(cx, x, y, frees, conds, what + "[%d]" % i)
            return
        j = fresh_lv()
        rng = []
        for v, n in frees:
            rng += [v, n - 1 - v]
        with cx.enter():
            with assuming(*conds, ge=rng + [j, le - 1 - j]):
                x, y = seq_get(a, j), seq_get(e, j)
        yield from compare(cx, x, y, frees + [(j, le)], conds, what + "[]")
        return
    if isinstance(a, VOpaque) and isinstance(e, VOpaque) and a.name == e.name:
        yield "proved", ""
        return
    raise Unsupported("%s: %s against %s" % (what, type(a).__name__, type(e).__name__))


class _Any(Val):
    def key(self):
        return ()

    def __repr__(self):
        return "_"


ANY = _Any()


def clip(p, n=160):
    s = repr(p)
    return s if len(s) <= n else s[:n] + "..."
