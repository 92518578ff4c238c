"""Loop summaries: the recurrences of the cells a loop writes are solved in closed form."""
from .values import *
from . import logic
from .logic import assuming, simp, nonneg, add_cond
from .terms import *
from . import terms as T
from .interp import (effs_polys, Diverge, NeedPeel, Alloc, Enforce, Abort, Guard, Loop, Ext, eff_subst, eff_map,
                     INT_W)


class Exit:
    def __init__(self, kind, cond, value, store):
        self.kind, self.cond, self.value, self.store = kind, cond, value, store


def iterate(I, k, body, label):
    """one iteration; continues are merged; returns (value, exits)"""
    saved, I.pend = I.pend, []
    exits = []
    v = None
    dead = None
    try:
        try:
            v = body(k)
        except Diverge as d:
            if d.kind == "continue" and d.label == label:
                v = UNIT
            elif d.kind == "abort" and not I.pend:
                raise
            elif d.kind == "abort":
                rest = ONE
                for p in I.pend:
                    rest = rest * (ONE - p["cond"])
                I.effs.append(Abort(d.label, rest, d.loc, d.detail))
                dead = d
            elif d.kind in ("break", "return"):
                exits.append(Exit(d.kind if d.label == label or d.kind == "return" else "outer", None, d.value, I.store))
            else:
                raise Unsupported("exit from a loop", d.loc)
        for p in reversed(I.pend):
            if p["kind"] == "continue" and p["label"] == label:
                if v is None:
                    v = UNIT
                    I.store = p["store"]
                else:
                    I.store = I.merge_store(p["cond"], p["store"], I.store)
            elif p["kind"] in ("break", "return"):
                exits.append(Exit(p["kind"], p["cond"], p["value"], p["store"]))
            else:
                raise Unsupported("exit from a loop", I.where)
    finally:
        I.pend = saved
    return v, exits


# ------------------------------------------------------------------ templates
class Leaf:
    """a number that changes: phi(name) at the start of iteration k"""

    def __init__(self, name, v0, sort):
        self.name, self.v0, self.sort = name, v0, sort
        self.phi = mk("phi", name, sort)
        self.closed = None


class ELeaf:
    """an element (index j) of a sequence of constant length"""

    def __init__(self, name, j, v0, sort):
        self.name, self.j, self.v0, self.sort = name, j, v0, sort
        self.closed = None

    def phi(self, j):
        return mk("phie", self.name, j, self.sort)


def pick_sort(a, b):
    if is_bool(a) and is_bool(b):
        return "B"
    if is_int(a) and is_int(b):
        if (nonneg_syntactic(a) or nonneg(a)) and (nonneg_syntactic(b) or nonneg(b)):
            return "N"
        return "Z"
    return "F"


class Gen:
    def __init__(self, I, k, tag):
        self.I, self.k, self.tag = I, k, tag
        self.leaves = {}
        self.eleaves = {}
        self.grow = {}
        self.tmpl = {}      # cell -> template function data
        self.sorts = {}
        self.final = False
        self.dirty = False

    # template trees: ("same", v) | ("leaf", name) | ("node", v0, [subs]) | ("elem", name, v0, sub) | ("grow", ...) ...
    def generalize(self, v0, v1, name, j=None):
        if v0 is v1 or v0 == v1:
            return ("same", v0)
        if isinstance(v0, Poly) and isinstance(v1, Poly):
            s = self.sorts.get(name) or pick_sort(v0, v1)
            self.sorts[name] = s
            if j is None:
                self.leaves[name] = Leaf(name, v0, s)
                return ("leaf", name)
            self.eleaves[name] = ELeaf(name, j, v0, s)
            return ("eleaf", name)
        if isinstance(v0, VOpaque) and v0.name == "uninit":
            return ("same", v0)
        if same_shape(v0, v1):
            if isinstance(v0, VTuple):
                return ("tuple", v0, [self.generalize(a, b, "%s.%d" % (name, i), j) for i, (a, b) in enumerate(zip(v0.es, v1.es))])
            if isinstance(v0, VStruct):
                return ("struct", v0, {f: self.generalize(v0.f[f], v1.f[f], name + "." + f, j) for f in v0.f})
            if isinstance(v0, VEnum):
                return ("enum", v0, [self.generalize(a, b, "%s.%d" % (name, i), j) for i, (a, b) in enumerate(zip(v0.fs, v1.fs))])
        if isinstance(v0, VIte) and isinstance(v1, VIte) and v0.c is v1.c:
            return ("ite", v0, [self.generalize(v0.a, v1.a, name + ".a", j), self.generalize(v0.b, v1.b, name + ".b", j)])
        if isinstance(v0, (VSeq, VUpd)) and isinstance(v1, (VSeq, VUpd)):
            if j is not None:
                raise Unsupported("nested sequence written in a loop", self.I.where)
            l0, l1 = v0.len(), v1.len()
            d = simp(l1 - l0)
            if d is ZERO:
                jj = fresh_lv()
                with assuming(ge=[jj, l0 - 1 - jj]):
                    e0, e1 = vsimp(seq_get(v0, jj)), vsimp(seq_get(v1, jj))
                return ("elem", v0, jj, self.generalize(e0, e1, name + "[]", jj))
            # growth at the back
            if isinstance(v0, VSeq) and isinstance(v1, VSeq):
                if nonneg(d):
                    pre = v1.segs[:len(v0.segs)]
                    if VSeq(pre) == v0:
                        return ("grow", v0, d, VSeq(v1.segs[len(v0.segs):]), name)
                    # equal segments may have been merged or renamed
                    if seq_eq(seq_slice(v1, ZERO, l0), v0):
                        return ("grow", v0, d, seq_slice(v1, l0, l1), name)
                if nonneg(-d):
                    if seq_eq(seq_slice(v0, ZERO, l1), v1):
                        return ("back", v0, -d)
                    if seq_eq(seq_slice(v0, -d, l0), v1):
                        return ("front", v0, -d)
            raise NeedPeel()
        if isinstance(v0, VIter) and isinstance(v1, VIter) and v0.base is v1.base:
            off = self.generalize(v0.off, v1.off, name + ".off", j)
            return ("iter", v0, off)
        if isinstance(v0, VEnum) or isinstance(v1, VIte):
            raise NeedPeel()
        raise Unsupported("loop writes %s into %s (%s)" % (type(v1).__name__, type(v0).__name__, name), self.I.where)

    def inst(self, t, k, j=None):
        """the template's value at the start of iteration k"""
        kd = t[0]
        if kd == "same":
            return t[1]
        if kd == "leaf":
            L = self.leaves[t[1]]
            if L.closed is not None:
                return subst(L.closed, {self.k.atom(): k})
            return L.phi
        if kd == "eleaf":
            L = self.eleaves[t[1]]
            if L.closed is not None:
                return subst(L.closed, {self.k.atom(): k, L.j.atom(): j})
            return L.phi(j)
        if kd == "tuple":
            return VTuple([self.inst(x, k, j) for x in t[2]])
        if kd == "struct":
            return VStruct(t[1].path, {f: self.inst(x, k, j) for f, x in t[2].items()})
        if kd == "enum":
            return VEnum(t[1].adt, t[1].variant, [self.inst(x, k, j) for x in t[2]])
        if kd == "ite":
            return mk_ite(t[1].c, self.inst(t[2][0], k, j), self.inst(t[2][1], k, j))
        if kd == "elem":
            v0, jj, sub = t[1], t[2], t[3]
            j2 = fresh_lv()
            n = v0.len()
            return VSeq([(n, j2, self.inst_e(sub, k, j2, v0, jj))])
        if kd == "grow":
            v0, d, x, name = t[1], t[2], t[3], t[4]
            x = self.grow.get(name, x)
            return VSeq(list(v0.segs) + self.grown(x, d, k, name))
        if kd == "back":
            return seq_slice(t[1], ZERO, t[1].len() - t[2] * k)
        if kd == "front":
            return seq_slice(t[1], t[2] * k, t[1].len())
        if kd == "iter":
            from .models import iter_at
            return iter_at(t[1].base, self.inst(t[2], k, j))
        raise AssertionError(kd)

    def inst_e(self, t, k, j, v0, jj):
        if t[0] == "same":
            return vsubst(t[1], {jj.atom(): j})
        if t[0] in ("tuple", "struct", "enum", "ite"):
            v = t[1]
            if t[0] == "tuple":
                return VTuple([self.inst_e(x, k, j, v0, jj) for x in t[2]])
            if t[0] == "struct":
                return VStruct(v.path, {f: self.inst_e(x, k, j, v0, jj) for f, x in t[2].items()})
            if t[0] == "enum":
                return VEnum(v.adt, v.variant, [self.inst_e(x, k, j, v0, jj) for x in t[2]])
            return mk_ite(subst(v.c, {jj.atom(): j}), self.inst_e(t[2][0], k, j, v0, jj), self.inst_e(t[2][1], k, j, v0, jj))
        return self.inst(t, k, j)

    def grown(self, x, d, k, name):
        """k iterations' worth of pushed elements; x is what iteration self.k pushes"""
        ka = self.k.atom()
        if d.has(ka):
            raise Unsupported("a loop that grows a sequence unevenly", self.I.where)
        if len(x.segs) == 1:
            n, v, b = x.segs[0]
            if n is ONE or n.as_int() == 1:
                j = fresh_lv()
                return [(k, j, vsubst(b, {ka: j}))]
            j = fresh_lv()
            q = mk_div(j, n)
            mp = {ka: q}
            b2 = b
            if v is not None:
                w = fresh_lv()
                b2 = vsubst(vsubst(b, {v.atom(): w}), {ka: q})
                b2 = vsubst(b2, {w.atom(): j - n * q})
            else:
                b2 = vsubst(b, mp)
            return [(n * k, j, b2)]
        j = fresh_lv()
        q = mk_div(j, d)
        r = fresh_lv()
        with assuming(ge=[r, d - 1 - r]):
            el = seq_get(x, r)
        el = vsubst(vsubst(el, {ka: q}), {r.atom(): j - d * q})
        return [(d * k, j, el)]

    # -------------------------------------------------------- equations
    def equations(self, t, post, eqs, j=None):
        kd = t[0]
        if kd == "same":
            return
        if kd == "leaf":
            if not isinstance(post, Poly):
                raise Unsupported("loop variable %s" % t[1], self.I.where)
            eqs[t[1]] = post
        elif kd == "eleaf":
            eqs[t[1]] = (post, j)
        elif kd == "tuple":
            for x, p in zip(t[2], proj(post, VTuple)):
                self.equations(x, p, eqs, j)
        elif kd == "struct":
            if not isinstance(post, VStruct):
                raise Unsupported("loop variable shape", self.I.where)
            for f, x in t[2].items():
                self.equations(x, post.f[f], eqs, j)
        elif kd == "enum":
            if not isinstance(post, VEnum) or post.variant != t[1].variant:
                raise NeedPeel()
            for x, p in zip(t[2], post.fs):
                self.equations(x, p, eqs, j)
        elif kd == "ite":
            if isinstance(post, VIte) and post.c is t[1].c:
                self.equations(t[2][0], post.a, eqs, j)
                self.equations(t[2][1], post.b, eqs, j)
            else:
                with assuming(t[1].c):
                    self.equations(t[2][0], vsimp(post), eqs, j)
                with assuming(ONE - t[1].c):
                    self.equations(t[2][1], vsimp(post), eqs, j)
        elif kd == "elem":
            n = t[1].len()
            jj = fresh_lv()
            with assuming(ge=[jj, n - 1 - jj]):
                self.equations(t[3], vsimp(seq_get(post, jj)), eqs, jj)
        elif kd == "grow":
            v0, d, x, name = t[1], t[2], t[3], t[4]
            cur = self.inst(t, self.k)
            lc = cur.len()
            x2 = seq_slice(post, lc, post.len())
            if isinstance(post, VSeq) and len(post.segs) >= len(cur.segs) and VSeq(post.segs[:len(cur.segs)]) == cur:
                x2 = VSeq(post.segs[len(cur.segs):])
            if simp(x2.len() - d) is not ZERO:
                raise Unsupported("a loop that grows a sequence unevenly", self.I.where)
            self.grow[name] = x2
        elif kd == "iter":
            self.equations(t[2], post.off, eqs, j)


def proj(v, cls):
    if isinstance(v, VTuple):
        return v.es
    raise Unsupported("loop variable shape")


# ------------------------------------------------------------------ recurrences
RECDEF = {}


def solve_step(s, phi, k, v0, n=None):
    """closed form of x(0) = v0, x(k+1) = s(x(k), k)"""
    pa, ka = phi.atom(), k.atom()
    if s is phi:
        return v0
    if not s.has(pa):
        last = subst(s, {ka: k - 1})
        if subst(s, {ka: P(-1)}) is v0:
            return last
        if last is s and simp(s - v0) is ZERO:
            return v0
        return ite(eqz(k), v0, last)
    l = linear_in(s, pa)
    if l is not None:
        al, d = l
        if al is ONE:
            j = fresh_lv()
            return v0 + mk_sum(k, j, subst(d, {ka: j}))
        if not al.has(ka):
            j = fresh_lv()
            r = v0 * mk_pow(al, k)
            if d.t:
                if not d.has(ka) and al.const() is not None and al.const() != 1:
                    r = r + d * (mk_pow(al, k) - 1).scale(1 / (al.const() - 1))
                else:
                    r = r + mk_sum(k, j, mk_pow(al, k - 1 - j) * subst(d, {ka: j}))
            return r
        # reset: s = c*A + (1-c)*al0*phi with c = [k mod g == 0]
        r = solve_reset(al, d, k, v0)
        if r is not None:
            return r
        # a product of invertible factors: alpha(k) = u(k+1)/u(k)
    a = s.atom()
    if a is not None and tup(a)[0] == "div" and tup(a)[1] is phi and not tup(a)[2].has(pa) and not tup(a)[2].has(ka):
        return mk_div(v0, mk_pow(tup(a)[2], k))
    # setting one more bit: s = phi + 2^e - 2^e * bit(phi, e)
    r = solve_setbit(s, phi, k, v0)
    if r is not None:
        return r
    return None


def solve_reset(al, d, k, v0):
    ka = k.atom()
    conds = [a for a in al.atoms() if sort_of(a) == "B" and of_atom(a).has(ka)]
    if len(conds) != 1:
        return None
    c = conds[0]
    t = tup(c)
    if t[0] != "eqz":
        return None
    # eqz(k - g*div(k, g)) up to sign
    g = None
    for a in t[1].leaves():
        tt = tup(a)
        if tt[0] == "div" and tt[1] is k:
            g = tt[2]
    if g is None or eqz(mk_mod(k, g)) is not of_atom(c):
        return None
    al1, al0 = subst(al, {c: ONE}), subst(al, {c: ZERO})
    d1, d0 = subst(d, {c: ONE}), subst(d, {c: ZERO})
    if al1.t or d0.t or d1.has(ka) or al0.has(ka):
        return None
    # value after an iteration at a multiple of g is d1; u = d1/al0 would be the value before
    u = d1 * mk_inv(al0)
    m = mk_mod(k, g)
    inner = u * mk_pow(al0, m)
    edge = u * mk_pow(al0, g)
    return ite(of_atom(c), ite(eqz(k), v0, edge), inner)


def solve_setbit(s, phi, k, v0):
    pa = phi.atom()
    bits = [a for a in s.leaves() if tup(a)[0] == "bit" and tup(a)[1] is phi]
    if len(bits) != 1 or v0 is not ZERO:
        return None
    b = bits[0]
    e = tup(b)[2]
    if e.has(pa):
        return None
    pw = mk_pow(TWO, e)
    if s is not phi + pw - pw * of_atom(b):
        return None
    step = subst(e, {k.atom(): k + 1}) - e
    if step.has(k.atom()) or not nonneg(step - 1):
        return None
    j = fresh_lv()
    return mk_sum(k, j, subst(pw, {k.atom(): j}))


def rec_atom(s, phi, k, v0, sort):
    """an uninterpreted recurrence, identified by its definition"""
    d = (show(v0), show(subst(s, {phi.atom(): sym("#x", sort), k.atom(): sym("#k", "N")})))
    i = RECDEF.setdefault(d, len(RECDEF))
    RECDEF[i] = (v0, s, phi, k)
    return mk("rec", "R%d" % i, k, sort)


def solve_all(G, eqs, n):
    k = G.k
    todo = {}
    for nm, s in eqs.items():
        if nm in G.leaves:
            todo[nm] = s
    phis = {G.leaves[nm].phi.atom(): nm for nm in G.leaves}
    progress = True
    while todo and progress:
        progress = False
        for nm in sorted(todo):
            L = G.leaves[nm]
            s = todo[nm]
            s = resolve_phis(G, s)
            deps = {phis[a] for a in s.leaves() if a in phis} - {nm}
            if any(d in todo for d in deps) or has_unsolved_e(G, s):
                continue
            with assuming(ge=[k, n - 1 - k]) if n is not None else assuming(ge=[k]):
                s = simp(s)
                c = solve_step(s, L.phi, k, L.v0, n)
            if c is None:
                c = rec_atom(s, L.phi, k, L.v0, L.sort)
            L.closed = c
            del todo[nm]
            progress = True
        progress = solve_elems(G, eqs, n) or progress
    if todo:
        for nm in sorted(todo):
            # mutually dependent: guess that a variable without its own dependency is known first
            L = G.leaves[nm]
            L.closed = mk("rec", "M:" + nm, k, L.sort)
        raise Unsupported("mutually recursive loop variables %s" % sorted(todo), G.I.where)
    solve_elems(G, eqs, n)
    for nm, L in G.eleaves.items():
        if L.closed is None:
            raise Unsupported("element recurrence %s" % nm, G.I.where)


def resolve_phis(G, p):
    for _ in range(8):
        mp = {}
        for a in p.leaves():
            t = tup(a)
            if t[0] == "phi":
                for nm, L in G.leaves.items():
                    if L.phi.atom() == a and L.closed is not None:
                        mp[a] = L.closed
            elif t[0] == "phie":
                L = G.eleaves.get(t[1])
                if L is not None and L.closed is not None:
                    mp[a] = subst(L.closed, {L.j.atom(): t[2]})
        if not mp:
            return p
        p = subst(p, mp)
    return p


def has_unsolved_e(G, p):
    return any(tup(a)[0] == "phie" and tup(a)[1] in G.eleaves and G.eleaves[tup(a)[1]].closed is None for a in p.leaves())


def solve_elems(G, eqs, n):
    """x_j(k+1) = ite(j == idx(k), val(k), x_j(k))"""
    k, ka = G.k, G.k.atom()
    done = False
    for nm, L in G.eleaves.items():
        if L.closed is not None or nm not in eqs:
            continue
        s, j = eqs[nm]
        s = resolve_phis(G, s)
        me = L.phi(j)
        d = s - me
        if any(tup(a)[0] == "phi" for a in d.leaves()):
            continue
        if not d.t:
            L.closed = subst(L.v0, {})
            done = True
            continue
        others = [a for a in d.leaves() if tup(a)[0] == "phie" and tup(a)[1] in G.eleaves and
                  G.eleaves[tup(a)[1]].closed is None]
        # every term carries the indicator eqz(j - idx)
        conds = [a for a in d.atoms() if tup(a)[0] == "eqz" and of_atom(a).has(j.atom())]
        if not others:
            # additive
            i = fresh_lv()
            c = L.v0 + mk_sum(k, i, subst(subst(d, {j.atom(): L.j}), {ka: i}))
            # written once, at index = offset + iteration
            L.closed = c
            if len(conds) == 1:
                w = once(conds[0], d, j, k, L, me)
                if w is not None:
                    L.closed = w
            done = True
            continue
        if len(conds) == 1:
            w = once(conds[0], d, j, k, L, me)
            if w is not None:
                L.closed = w
                done = True
                continue
            # values[idx] += a(k): the old element at idx is the element at j under the condition
            c = conds[0]
            d1 = subst(d, {c: ONE})
            if (d - of_atom(c) * d1) is ZERO or True:
                e = tup(c)[1]
                l = linear_in(e, j.atom())
                if l is not None and l[0].as_int() in (1, -1):
                    idx = -l[1] if l[0].as_int() == 1 else l[1]
                    mp = {a: me for a in d1.leaves() if tup(a)[0] == "phie" and tup(a)[1] == nm and simp(tup(a)[2] - idx) is ZERO}
                    d2 = subst(d1, mp)
                    if subst(d, {c: ZERO}).t == {} and not any(tup(a)[0] == "phie" for a in d2.leaves()):
                        i = fresh_lv()
                        L.closed = L.v0 + mk_sum(k, i, subst(subst(of_atom(c) * d2, {j.atom(): L.j}), {ka: i}))
                        done = True
                        continue
                    lin = linear_in(d2, me.atom()) if me.atom() is not None else None
        else:
            continue
    return done


def once(c, d, j, k, L, me):
    """the element j is written in iteration k = j - off only (index strictly increasing by one)"""
    if subst(d, {c: ZERO}).t:
        return None
    e = tup(c)[1]
    l = linear_in(e, j.atom())
    if l is None or l[0].as_int() not in (1, -1):
        return None
    idx = -l[1] if l[0].as_int() == 1 else l[1]
    li = linear_in(idx, k.atom())
    if li is None or li[0].as_int() not in (1, -1):
        return None
    inc = li[0].as_int() == 1
    off = li[1]
    kk = (L.j - off) if inc else (off - L.j)      # iteration that writes element j
    val = subst(d, {c: ONE}) + me
    # elements read at idx are the original ones (written only now)
    mp = {}
    for a in val.leaves():
        t = tup(a)
        if t[0] == "phie" and t[1] == L.name:
            if simp(subst(t[2], {j.atom(): idx}) - idx) is ZERO:
                mp[a] = subst(L.v0, {L.j.atom(): t[2]})
            else:
                return None
    val = subst(val, mp)
    val = subst(subst(val, {k.atom(): sym("#kk", "N")}), {j.atom(): L.j})
    val = subst(val, {sym("#kk", "N").atom(): kk})
    written = ge(k - 1 - kk) * ge(kk)
    return ite(written, val, L.v0)


# ------------------------------------------------------------------ driver
def run(I, n, body, label, loc, start=ZERO, depth=0):
    n = simp(P(n))
    if nonneg(-n):
        return VSeq([])
    if n is ONE:
        I.loopvars.append(start)
        try:
            v, ex = iterate(I, ZERO, lambda k: body(start), label)
        finally:
            I.loopvars.pop()
        if ex:
            raise Unsupported("exit from a loop", loc)
        return seq1([v])
    snap = (I.store, I.effs, dict(I.wcount), list(I.pend))
    cn = n.as_int()
    if cn is not None and cn <= I.unroll:
        return unrolled(I, cn, body, label, loc, start)
    try:
        return summary(I, n, body, label, loc, start)
    except NeedPeel:
        I.store, I.effs, I.wcount, I.pend = snap[0], snap[1], dict(snap[2]), snap[3]
        if depth > 2:
            raise Unsupported("loop does not settle", loc)

    def peeled():
        wc = dict(I.wcount)
        saved, I.effs = I.effs, []
        I.loopvars.append(start)
        try:
            v, ex = iterate(I, ZERO, lambda k: body(start), label)
        finally:
            I.loopvars.pop()
        if ex:
            raise Unsupported("exit from a loop", loc)
        first = I.effs
        I.wcount = wc
        I.effs = []
        rest = run(I, n - 1, body, label, loc, start + 1, depth + 1)
        tail = I.effs
        I.effs = saved
        for e in merge_peel(first, tail, n):
            I.emit(e)
        return seq_merge1(v, rest, n)
    if nonneg(n - 1):
        return peeled()
    return I.branch(ge(n - 1), peeled, lambda: VSeq([]))


def unrolled(I, n, body, label, loc, start):
    """a loop of a known small number of iterations, one after the other"""
    wc, out, last = dict(I.wcount), [], None
    for i in range(n):
        I.wcount = dict(wc)
        I.loopvars.append(start + i)
        try:
            v, ex = iterate(I, P(i), lambda k: body(start + i), label)
        finally:
            I.loopvars.pop()
        last = I.wcount
        if ex:
            if len(ex) == 1 and ex[0].kind == "break" and ex[0].cond is None:
                break
            for x in ex:
                if x.kind == "return" and x.value is not None:
                    if x.cond is None:
                        raise Diverge("return", None, x.value, loc)
                    I.pend = I.pend + [{"cond": x.cond, "kind": "return", "label": None, "value": x.value, "store": x.store}]
                    add_cond(ONE - x.cond)
                else:
                    raise Unsupported("exit from a loop", loc)
        out.append(v if v is not None else UNIT)
    if last is not None:
        I.wcount = last
    return VSeq([(ONE, None, v) for v in out])


def seq_merge1(v, rest, n):
    """[v] ++ rest, as one segment when rest's template at -1 is v"""
    if isinstance(rest, VSeq) and len(rest.segs) == 1:
        m, x, b = rest.segs[0]
        if x is None and b == v:
            return VSeq([(n, None, v)])
        if x is not None and vsubst(b, {x.atom(): P(-1)}) == v:
            y = fresh_lv()
            return VSeq([(n, y, vsubst(b, {x.atom(): y - 1}))])
    return seq_concat(seq1([v]), rest)


def merge_peel(first, tail, n):
    loops = [e for e in tail if isinstance(e, Loop)]
    if len(tail) == 1 and len(loops) == 1:
        L = tail[0]
        back = [eff_subst(e, {L.var.atom(): P(-1)}) for e in L.effs]
        if [e.key() for e in back] == [e.key() for e in first]:
            k = fresh_lv()
            return [Loop(k, n, [eff_subst(e, {L.var.atom(): k - 1}) for e in L.effs], L.loc)]
    return first + tail


def summary(I, n, body, label, loc, start):
    base, effs0, wc0 = I.store, I.effs, I.wcount
    k = fresh_lv()
    G = Gen(I, k, loc)
    tm = {}
    v = None
    rng = [k, n - 1 - k] if n is not None else [k]

    def once_through():
        I.store = dict(base)
        for c, t in tm.items():
            I.store[c] = G.inst(t, k)
        cur = I.store
        cur0 = dict(cur)
        I.effs = []
        I.wcount = dict(wc0)
        I.loopvars.append(start + k)
        try:
            with assuming(ge=rng):
                v, ex = iterate(I, k, lambda kk: body(start + kk), label)
                post = I.store
                post = {c: (post[c] if post[c] is cur0[c] else vsimp(post[c])) for c in base}
                ef = I.effs
        finally:
            I.loopvars.pop()
            I.store, I.effs = base, effs0
        return v, ex, cur0, post, ef

    for rnd in range(7):
        try:
            v, ex, cur, post, ef = once_through()
        except Diverge as d:
            if d.kind != "abort":
                raise
            I.wcount = wc0
            # every iteration aborts
            if nonneg(n - 1):
                raise
            I.abort_if(d.label, ge(n - 1), d.loc, d.detail)
            return VSeq([])
        changed = False
        G.dirty = False
        with assuming(ge=rng):
            for c in base:
                if post[c] is cur[c] or post[c] == cur[c]:
                    continue
                name = "%s.%s" % (I.names[c], c - 0 if False else "")
                name = "%s#%d" % (I.names[c], c)
                t = G.generalize(base[c], post[c] if c not in tm else post[c], name) if c not in tm else regen(G, tm[c], base[c], cur[c], post[c], name)
                if c not in tm or t != tm[c]:
                    if not same_t(t, tm.get(c)):
                        changed = True
                tm[c] = t
        if not changed and not G.dirty:
            break
    else:
        raise Unsupported("loop does not settle", loc)
    wc1 = I.wcount
    if not tm:
        final_store = dict(base)
    else:
        eqs = {}
        with assuming(ge=rng):
            for c, t in tm.items():
                G.equations(t, post[c], eqs)
        solve_all(G, eqs, n)
        # once more with the closed forms in place
        v, ex, cur, post, ef = once_through()
        wc1 = I.wcount
        with assuming(ge=rng):
            for c, t in tm.items():
                if t[0] == "grow":
                    G.equations(t, post[c], {})
                else:
                    regrow(G, t, post[c])
        with assuming(ge=rng):
            for c in base:
                if c not in tm and not (post[c] is cur[c] or post[c] == cur[c]):
                    raise Unsupported("loop variable %s escapes" % I.names[c], loc)
        final_store = dict(base)
    if n is None:
        return G, tm, k, v, ex, ef, wc1
    for c, t in tm.items():
        final_store[c] = finalize(G, t, n, base[c], post[c])
    for c in base:
        if c not in tm and isinstance(base[c], VOpaque) and base[c].name == "uninit" and not (post[c] == base[c]):
            if nonneg(n - 1):
                final_store[c] = vsubst(post[c], {k.atom(): n - 1})
    leak = {L.phi.atom() for L in G.leaves.values()}
    for p in effs_polys(ef):
        if leak & p.leaves():
            raise Unsupported("loop variable without a closed form", loc)
    I.store, I.effs = final_store, effs0
    I.wcount = wc1
    add_facts_after(I, ef, k, n)
    if ef:
        I.emit(Loop(k, n, ef, loc))
    for x in ex:
        if x.kind == "return" and x.value is not None and not vhas(x.value, k.atom()) and not ef:
            c = any_of(n, k, x.cond if x.cond is not None else ONE)
            I.pend = I.pend + [{"cond": c, "kind": "return", "label": None, "value": x.value, "store": final_store}]
            add_cond(ONE - c)
        else:
            raise Unsupported("exit from a loop", loc)
    if v is None:
        v = UNIT
    return VSeq([(n, k, v)])


def any_of(n, k, c):
    return simp(ONE - eqz(mk_sum(n, k, c)))


def add_facts_after(I, ef, k, n):
    pass


def same_t(a, b):
    if b is None:
        return False
    try:
        return repr_t(a) == repr_t(b)
    except Exception:
        return False


def repr_t(t):
    if t[0] == "same":
        return ("same",)
    if t[0] in ("leaf", "eleaf"):
        return t
    if t[0] in ("tuple", "enum", "ite"):
        return (t[0],) + tuple(repr_t(x) for x in t[2])
    if t[0] == "struct":
        return (t[0],) + tuple((f, repr_t(x)) for f, x in sorted(t[2].items()))
    if t[0] == "elem":
        return ("elem", repr_t(t[3]))
    if t[0] == "grow":
        return ("grow", t[2])
    if t[0] in ("back", "front"):
        return (t[0], t[2])
    if t[0] == "iter":
        return ("iter", repr_t(t[2]))
    return t


def regen(G, t, v0, cur, post, name, j=None):
    """extend a template with leaves that turned out to change"""
    kd = t[0]
    if kd in ("leaf", "eleaf"):
        nm = t[1]
        L = (G.leaves if kd == "leaf" else G.eleaves)[nm]
        if isinstance(post, Poly):
            if L.sort in ("N", "B", "Z"):
                okk = {"B": is_bool, "N": lambda p: is_int(p) and (nonneg_syntactic(p) or nonneg(p)), "Z": is_int}[L.sort](post)
                if not okk:
                    new = "F" if not is_int(post) else "Z" if L.sort == "N" or not nonneg(post) else "N"
                    G.sorts[nm] = new
                    G.dirty = True
                    if kd == "leaf":
                        G.leaves[nm] = Leaf(nm, L.v0, new)
                    else:
                        G.eleaves[nm] = ELeaf(nm, L.j, L.v0, new)
                    return (kd, nm, new)[:2] if False else (kd, nm)
            return t
        raise NeedPeel()
    if kd == "same":
        if post is cur or post == cur:
            return t
        return G.generalize(t[1], post, name, j)
    if kd == "tuple":
        return ("tuple", t[1], [regen(G, x, a, b, c, "%s.%d" % (name, i), j) for i, (x, a, b, c) in enumerate(zip(t[2], t[1].es, cur.es, post.es))])
    if kd == "struct":
        if not isinstance(post, VStruct):
            raise NeedPeel()
        return ("struct", t[1], {f: regen(G, x, t[1].f[f], cur.f[f], post.f[f], name + "." + f, j) for f, x in t[2].items()})
    if kd == "enum":
        if not isinstance(post, VEnum) or post.variant != t[1].variant:
            raise NeedPeel()
        return ("enum", t[1], [regen(G, x, a, b, c, "%s.%d" % (name, i), j) for i, (x, a, b, c) in enumerate(zip(t[2], t[1].fs, cur.fs, post.fs))])
    return t


def regrow(G, t, post):
    if t[0] == "struct" and isinstance(post, VStruct):
        for f, x in t[2].items():
            regrow(G, x, post.f[f])
    elif t[0] == "tuple":
        for x, p in zip(t[2], post.es):
            regrow(G, x, p)
    elif t[0] == "enum" and isinstance(post, VEnum):
        for x, p in zip(t[2], post.fs):
            regrow(G, x, p)
    elif t[0] == "grow":
        G.equations(t, post, {})


def finalize(G, t, n, v0, post):
    return vsimp(G.inst(t, n))


def unclamp(p):
    """q with q >= 0 exactly when p >= 0, where p is [x >= 0] * a + b, b < 0 and a + b >= 0 implies x >= 0"""
    for g in p.atoms():
        if tup(g)[0] == "ge":
            l = linear_in(p, g)
            if l is not None and nonneg(-l[1] - 1):
                q = simp(l[0] + l[1])
                with assuming(ge=[q]):
                    if nonneg(tup(g)[1]):
                        return q
    return p


def while_summary(I, label, it, loc):
    """a loop whose exit test comes first: for (k = 0; cont(k); k++) body"""
    base = I.store
    wc0 = dict(I.wcount)
    effs0 = I.effs
    G, tm, k, v, ex, ef, wc1 = summary(I, None, it, label, loc, ZERO)
    I.store, I.effs, I.wcount = base, effs0, wc0
    if len(ex) != 1 or ex[0].kind != "break" or ex[0].cond is None:
        raise Unsupported("loop exit", loc)
    b = ex[0].cond
    for c, t in tm.items():
        if not (ex[0].store.get(c) == G.inst(t, k) or ex[0].store.get(c) is base.get(c)):
            with assuming(ge=[k]):
                if not veq(ex[0].store[c], G.inst(t, k)):
                    raise Unsupported("loop exit after a change", loc)
    cont = ONE - b
    a = cont.atom()
    neg = False
    if a is None:
        a = (ONE - cont).atom()
        neg = True
    if a is None or tup(a)[0] != "ge":
        raise Unsupported("loop condition %r" % (cont,), loc)
    p = tup(a)[1] if not neg else -tup(a)[1] - 1
    p = unclamp(p)
    l = linear_in(p, k.atom())
    if l is None or l[0].as_int() is None or l[0].as_int() >= 0:
        raise Unsupported("loop condition %r" % (cont,), loc)
    s = -l[0].as_int()
    top = l[1]

    def nonempty():
        n = mk_div(top, P(s)) + 1
        run(I, n, lambda kk: it(kk), label, loc)
        return UNIT
    if nonneg(top + s):
        n = mk_div(top + s, P(s))
        run(I, n, lambda kk: it(kk), label, loc)
        return UNIT
    return I.branch(ge(top), nonempty, lambda: UNIT)
