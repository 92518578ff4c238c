"""Linear facts over polynomials and their use to decide 0/1 conditions.

The decision procedure is Fourier-Motzkin elimination on monomials (a polyhedral
abstract domain): it only ever answers "yes, always" or "not known".
"""
from fractions import Fraction
from .terms import *
from . import terms as T


class Ctx:
    def __init__(self, parent=None):
        self.ge = list(parent.ge) if parent else []        # polys known >= 0
        self.sub = dict(parent.sub) if parent else {}      # atom id -> Poly
        self.nz = list(parent.nz) if parent else []        # polys known != 0
        self.conds = list(parent.conds) if parent else []  # 0/1 polys known to be 1
        self.bad = parent.bad if parent else False         # contradiction
        self.cache = {}

    def copy(self):
        return Ctx(self)


_stack = [Ctx()]


def ctx():
    return _stack[-1]


class assuming:
    """with assuming(cond, ...): each cond is a 0/1 polynomial taken to be 1"""

    def __init__(self, *conds, ge=(), eq=(), nz=()):
        self.a = (conds, ge, eq, nz)

    def __enter__(self):
        c = ctx().copy()
        _stack.append(c)
        conds, g, e, n = self.a
        for p in g:
            add_ge(p)
        for p in e:
            add_eq(p)
        for p in n:
            add_nz(p)
        for p in conds:
            add_cond(p)
        return c

    def __exit__(self, *x):
        _stack.pop()


class fresh_ctx:
    def __enter__(self):
        _stack.append(Ctx())
        return _stack[-1]

    def __exit__(self, *x):
        _stack.pop()


def add_ge(p):
    c = ctx()
    p = P(p)
    if c.sub:
        p = subst(p, c.sub)
    k = p.const()
    if k is not None:
        if k < 0:
            c.bad = True
        return
    c.ge.append(p)
    c.cache = {}


def add_nz(p):
    c = ctx()
    p = P(p)
    if c.sub:
        p = subst(p, c.sub)
    k = p.const()
    if k is not None:
        if k == 0:
            c.bad = True
        return
    c.nz.append(p)
    c.cache = {}


def solve_for(p, prefer=None):
    """an atom a and expression e with  p == 0  <=>  a == e"""
    best = None
    for m, co in p.t.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        a = m[0][0]
        t = tup(a)
        if t[0] not in ("sym", "wire", "lv", "phi", "opq", "nat", "rec"):
            continue
        rest = p - Poly({m: co})
        if rest.has(a):
            continue
        if abs(co) != 1 and (sort_of(a) != "F" and True):
            # integer symbol with a coefficient: only when the division is exact
            if any((c / co).denominator != 1 for c in rest.t.values()):
                continue
        key = (0 if (prefer and prefer(a)) else 1, {"lv": 0, "wire": 1, "sym": 2}.get(t[0], 3), akey(a))
        if best is None or key < best[0]:
            best = (key, a, rest.scale(-1 / co))
    if best is None:
        return None
    return best[1], best[2]


def add_eq(p, prefer=None):
    c = ctx()
    p = P(p)
    if c.sub:
        p = subst(p, c.sub)
    k = p.const()
    if k is not None:
        if k != 0:
            c.bad = True
        return
    s = solve_for(p, prefer)
    if s is not None:
        a, e = s
        mp = {a: e}
        srt = sort_of(a)
        c.sub = {x: subst(y, mp) for x, y in c.sub.items()}
        c.sub[a] = e
        c.ge = [subst(q, mp) for q in c.ge]
        c.nz = [subst(q, mp) for q in c.nz]
        c.conds = [subst(q, mp) for q in c.conds]
        if srt in ("N", "B"):
            c.ge.append(e)
        if srt == "B":
            c.ge.append(ONE - e)
        for q in list(c.ge):
            if q.const() is not None:
                if q.const() < 0:
                    c.bad = True
        c.ge = [q for q in c.ge if q.const() is None]
        for q in c.nz:
            if not q.t:
                c.bad = True
        for q in c.conds:
            if q is ZERO:
                c.bad = True
        c.cache = {}
    else:
        if is_int(p):
            c.ge.append(p)
            c.ge.append(-p)
        c.conds.append(eqz(p))
        c.cache = {}


def add_cond(p):
    """the 0/1 polynomial p equals 1"""
    c = ctx()
    p = P(p)
    if c.sub:
        p = subst(p, c.sub)
    k = p.const()
    if k is not None:
        if k == 0:
            c.bad = True
        return
    at = p.atom()
    if at is not None:
        t = tup(at)
        if t[0] == "ge":
            c.conds.append(p)
            add_ge(t[1])
            return
        if t[0] == "eqz":
            add_eq(t[1])
            ctx().conds.append(subst(p, ctx().sub))
            return
        if sort_of(at) == "B":
            add_eq(p - 1)
            return
    q = (ONE - p).atom()
    if q is not None:
        t = tup(q)
        if t[0] == "ge":
            c.conds.append(p)
            add_ge(-t[1] - 1)
            return
        if t[0] == "eqz":
            c.conds.append(p)
            add_nz(t[1])
            return
        if sort_of(q) == "B":
            add_eq(ONE - p)
            return
    # a product of conditions: each factor is 1
    m = p.mono()
    if m is not None and m[1] == 1:
        for a, e in m[0]:
            add_cond(of_atom(a))
        return
    # try to factor out negated atoms: p = x * (1 - y)
    for a in sorted(p.atoms(), key=akey):
        if sort_of(a) == "B":
            p0 = subst(p, {a: ZERO})
            p1 = subst(p, {a: ONE})
            if not p0.t:
                add_cond(of_atom(a))
                add_cond(p1)
                return
            if not p1.t:
                add_cond(ONE - of_atom(a))
                add_cond(p0)
                return
    c.conds.append(p)
    c.cache = {}


# ---------------------------------------------------------------- bounds of atoms
def bound_facts(monos, depth):
    """facts p >= 0 about the given monomials"""
    out = []
    seen = set()
    work = list(monos)
    while work and len(seen) < 60:
        m = work.pop()
        if m in seen or m == ():
            continue
        seen.add(m)
        x = Poly({m: F1})
        if all(sort_of(a) in ("N", "B") and e > 0 for a, e in m):
            out.append(x)
        bs = [(a, e) for a, e in m if sort_of(a) == "B"]
        if bs:
            rest = tuple(y for y in m if y[0] != bs[0][0])
            r = Poly({rest: F1})
            if all(sort_of(a) in ("N", "B") and e > 0 for a, e in rest):
                out.append(r - x)
                work.append(rest)
        for a, e in m:
            t = tup(a)
            if t[0] == "div" and len(m) >= 1 and e == 1:
                b = t[2]
                rest = Poly({tuple(y for y in m if y[0] != a): F1})
                d = of_atom(a)
                # bounds on b*d: x - b*d >= 0, b*d + b - 1 - x >= 0
                bm = b.mono()
                if bm is not None:
                    if len(m) == 1 or rest.mono()[0] == bm[0]:
                        lo = t[1] - b * d
                        hi = b * d + b - 1 - t[1]
                        out.append(lo)
                        out.append(hi)
                        for q in (lo, hi):
                            work.extend(k for k in q.t if k not in seen)
            if t[0] == "pow" and e == 1 and t[1].const() is not None and t[1].const() >= 1:
                if depth > 0 and nonneg(t[2], depth - 1):
                    rest = tuple(y for y in m if y[0] != a)
                    if all(sort_of(q) in ("N", "B") and k > 0 for q, k in rest):
                        out.append(x - Poly({rest: F1}))
                        if rest:
                            work.append(rest)
                        if depth > 1 and nonneg(t[2] - 1, depth - 2):
                            out.append(x - Poly({rest: F1}).scale(t[1].const()))
            if t[0] == "div" and len(m) == 1 and sort_of(a) not in ("N", "B") and depth > 0 and nonneg(t[1], depth - 1):
                out.append(x)
            if t[0] == "sum" and len(m) == 1:
                v, b = open_sum(t)
                if sort_of(a) != "N" and depth > 0:
                    with assuming(ge=[v, t[1] - 1 - v]):
                        if nonneg(b, depth - 1):
                            out.append(x)
                if depth > 0:
                    ub = upper(b)
                    if ub is not None and ub is not b:
                        u = mk_sum(t[1], v, ub)
                        out.append(u - x)
                        work.extend(k for k in u.t if k not in seen)
    out += div_pairs(seen, depth)
    return out


def div_pairs(monos, depth):
    """what two quotients tell about each other"""
    ds = sorted({a for m in monos for a, e in m if tup(a)[0] == "div"}, key=akey)
    out = []
    if len(ds) < 2 or len(ds) > 6 or depth <= 0:
        return out
    for i, a in enumerate(ds):
        for b in ds[i + 1:]:
            ta, tb = tup(a), tup(b)
            x, y = of_atom(a), of_atom(b)
            if ta[2] is tb[2]:
                if nonneg(ta[1] - tb[1], depth - 1):
                    out.append(x - y)
                if nonneg(tb[1] - ta[1], depth - 1):
                    out.append(y - x)
            elif ta[1] is tb[1]:
                for (q, tq), (r, tr) in (((x, ta), (y, tb)), ((y, tb), (x, ta))):
                    e1, e2 = pow2(tq[2]), pow2(tr[2])
                    if e1 is not None and e2 is not None and nonneg(e2 - e1, depth - 1):
                        k = mk_pow(TWO, e2 - e1)
                        out.append(q - k * r)
                        out.append(k - 1 - q + k * r)
                        break
    return out


def pow2(p):
    """e, where p = 2^e"""
    if p is ONE:
        return ZERO
    r = ZERO
    m = p.mono()
    if m is None:
        return None
    c = m[1]
    k = 0
    while c > 1 and c % 2 == 0:
        c /= 2
        k += 1
    if c != 1:
        return None
    r = r + k
    for a, e in m[0]:
        t = tup(a)
        if t[0] != "pow" or t[1] is not TWO:
            return None
        r = r + t[2] * e
    return r


def absurd(depth=2):
    """contradictory(), with case analysis on the tests inside the facts"""
    if contradictory():
        return True
    if depth == 0:
        return False
    c = ctx()
    key = ("absurd", depth)
    if key in c.cache:
        return c.cache[key]
    c.cache[key] = r = False
    for a in sorted({a for q in c.ge for a in q.atoms() if tup(a)[0] in ("ge", "eqz")}, key=akey)[:2]:
        x = of_atom(a)
        ok = True
        for v in (x, ONE - x):
            with assuming(v):
                resimp()
                if not absurd(depth - 1):
                    ok = False
                    break
        if ok:
            r = True
            break
    c.cache[key] = r
    return r


def resimp():
    """rewrite the facts with what the context decides"""
    c = ctx()
    mp = {}
    for q in c.conds:
        a = q.atom()
        b = (ONE - q).atom()
        if a is not None:
            mp[a] = ONE
        elif b is not None:
            mp[b] = ZERO
    if mp:
        old, c.ge = c.ge, []
        for q in old:
            add_ge(subst(q, mp))
        c.cache = {}


def upper(p):
    """an upper bound of p that replaces 0/1 atoms in single positive monomials by 1"""
    r = ZERO
    for m, c in p.t.items():
        x = Poly({m: c})
        if c > 0 and all(sort_of(a) in ("N", "B") and e > 0 for a, e in m):
            x = Poly({tuple(y for y in m if sort_of(y[0]) != "B"): c})
        elif c < 0 and all(sort_of(a) in ("N", "B") and e > 0 for a, e in m):
            bs = [y for y in m if sort_of(y[0]) == "B"]
            if bs:
                x = ZERO
        else:
            return None
        r = r + x
    return r


def fm_unsat(ineqs, limit=220):
    """True if the system of linear inequalities (polys >= 0, monomials as variables) has no solution"""
    rows = set()
    for p in ineqs:
        k = p.const()
        if k is not None:
            if k < 0:
                return True
            continue
        rows.add(p.scale(1 / content(p, True)))
    while True:
        vars_ = {}
        for p in rows:
            for m, c in p.t.items():
                if m != ():
                    v = vars_.setdefault(m, [0, 0])
                    v[0 if c > 0 else 1] += 1
        if not vars_:
            return False
        # variables with one sign only can be dropped with their rows
        m = min(vars_, key=lambda x: (vars_[x][0] * vars_[x][1] - vars_[x][0] - vars_[x][1], mkey(x)))
        pos = [p for p in rows if p.t.get(m, 0) > 0]
        neg = [p for p in rows if p.t.get(m, 0) < 0]
        rest = {p for p in rows if m not in p.t}
        for p in pos:
            for q in neg:
                r = p.scale(-q.t[m]) + q.scale(p.t[m])
                k = r.const()
                if k is not None:
                    if k < 0:
                        return True
                    continue
                rest.add(r.scale(1 / content(r, True)))
                if len(rest) > limit:
                    return False
        rows = rest
        if not rows:
            return False


def _relevant(goal, facts):
    vs = set(m for m in goal.t if m != ())
    todo = list(facts)
    out = []
    changed = True
    while changed and len(out) < 40:
        changed = False
        for p in list(todo):
            if any(m in vs for m in p.t if m != ()):
                out.append(p)
                todo.remove(p)
                for m in p.t:
                    if m != () and m not in vs:
                        vs.add(m)
                changed = True
    return out, vs


def unit_bounds(c):
    """bounds of single atoms among the facts"""
    key = ("unit", len(c.ge))
    if key in c.cache:
        return c.cache[key]
    d = {}
    for q in c.ge:
        ms = [m for m in q.t if m != ()]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
            continue
        a, k, k0 = ms[0][0][0], q.t[ms[0]], q.t.get((), 0)
        lo, hi = d.get(a, (None, None))
        x = -k0 / k
        if k > 0:
            lo = x if lo is None else max(lo, x)
        else:
            hi = x if hi is None else min(hi, x)
        d[a] = (lo, hi)
    c.cache[key] = d
    return d


def atom_interval(a, d):
    t = tup(a)
    lo, hi = d.get(a, (None, None))
    so = sort_of(a)
    if so == "F":
        return None, None
    if t[0] in ("ge", "eqz") or so == "B":
        lo = 0 if lo is None else max(lo, 0)
        hi = 1 if hi is None else min(hi, 1)
    elif so == "N":
        lo = 0 if lo is None else max(lo, 0)
    if t[0] == "div" and isinstance(t[2], Poly):
        k = t[2].as_int()
        if k is not None and k > 0:
            l, h = interval(t[1])
            if l is not None:
                lo = l // k if lo is None else max(lo, l // k)
            if h is not None:
                hi = h // k if hi is None else min(hi, h // k)
    return lo, hi


def interval(p):
    """integer interval of p by the bounds of its atoms"""
    c = ctx()
    key = ("iv", p)
    if key in c.cache:
        return c.cache[key]
    d = unit_bounds(c)
    lo = hi = 0
    for m, k in p.t.items():
        a, b = 1, 1
        for x, e in m:
            l, h = atom_interval(x, d)
            if e < 0 or l is None or l < 0:
                if len(m) == 1 and e == 1:
                    a, b = l, h
                    continue
                a = b = None
                break
            a = None if a is None else a * l ** e
            b = None if b is None or h is None else b * h ** e
        if k < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + k * a
        hi = None if hi is None or b is None else hi + k * b
        if lo is None and hi is None:
            break
    c.cache[key] = (lo, hi)
    return lo, hi


def nonneg(p, depth=2):
    """p >= 0 in the current context (True / False = not known)"""
    p = P(p)
    c = ctx()
    if c.sub:
        p = subst(p, c.sub)
    k = p.const()
    if k is not None:
        return k >= 0
    if nonneg_syntactic(p):
        return True
    key = (p, depth)
    if key in c.cache:
        return c.cache[key]
    c.cache[key] = False
    lo, hi = interval(p)
    if lo is not None and lo >= 0:
        c.cache[key] = True
        return True
    r = _nonneg(p, c, depth)
    c.cache[key] = r
    return r


def _nonneg(p, c, depth):
    if any(tup(a)[0] in ("wire",) and sort_of(a) == "F" for a in p.atoms()):
        pass
    facts, vs = _relevant(p, c.ge)
    b = bound_facts(set(vs) | set(m for m in p.t if m != ()), depth)
    more, vs2 = _relevant(p, facts + b + [q for q in c.ge if q not in facts])
    sysm = [-p - 1] + more
    if fm_unsat(sysm):
        return True
    # case split on conditions inside p
    if depth > 0:
        for a in sorted(p.atoms(), key=akey):
            if tup(a)[0] in ("ge", "eqz"):
                x = of_atom(a)
                with assuming(x) as c1:
                    ok = c1.bad or nonneg(subst(p, {a: ONE}), depth - 1)
                if not ok:
                    return False
                with assuming(ONE - x) as c2:
                    ok = c2.bad or nonneg(subst(p, {a: ZERO}), depth - 1)
                return ok
    return False


def nonzero(p):
    c = ctx()
    if c.sub:
        p = subst(p, c.sub)
    k = p.const()
    if k is not None:
        return k != 0
    q = p.scale(1 / content(p))
    for z in c.nz:
        z = z.scale(1 / content(z))
        if z is q or z is -q:
            return True
    if is_int(p):
        return nonneg(p - 1) or nonneg(-p - 1)
    return False


def contradictory():
    c = ctx()
    if c.bad:
        return True
    if "contra" in c.cache:
        return c.cache["contra"]
    facts = list(c.ge)
    vs = set()
    for p in facts:
        vs |= set(m for m in p.t if m != ())
    b = bound_facts(vs, 1)
    r = fm_unsat(facts + b)
    if not r:
        for q in c.nz[-6:]:
            if is_int(q) and len(q.t) <= 4 and nonneg(q) and nonneg(-q):
                r = True
                break
    if not r:
        for q in c.conds:
            s = simp(q, skip=q)
            if s is ZERO:
                r = True
                break
    c.cache["contra"] = r
    return r


def decide_atom(a):
    """1, 0 or None for a condition atom"""
    c = ctx()
    key = ("d", a)
    if key in c.cache:
        return c.cache[key]
    c.cache[key] = None
    t = tup(a)
    x = of_atom(a)
    r = None
    for q in c.conds:
        if q is x:
            r = 1
        elif q is ONE - x:
            r = 0
    if r is None and t[0] == "ge":
        if nonneg(t[1]):
            r = 1
        elif nonneg(-t[1] - 1):
            r = 0
    elif r is None and t[0] == "eqz":
        if nonzero(t[1]):
            r = 0
        elif is_int(t[1]) and nonneg(t[1]) and nonneg(-t[1]):
            r = 1
    c.cache[key] = r
    return r


def simp(p, skip=None, _memo=None):
    """simplify conditions and divisions that the context decides"""
    p = P(p)
    c = ctx()
    if c.sub:
        p = subst(p, c.sub)
    if not any(tup(a)[0] in ("ge", "eqz", "div", "bit", "sum", "inv") or tup(a)[:2] == ("app", "tdiv") for a in p.leaves()):
        return p
    key = ("s", p, skip)
    if key in c.cache:
        return c.cache[key]
    mp = {}
    for a in p.atoms():
        if skip is not None and of_atom(a) is skip:
            continue
        r = simp_atom(a)
        if r is not None and r is not of_atom(a):
            mp[a] = r
    r = p
    if mp:
        r = subst(p, mp)
        if r is not p and r.t:
            r = simp(r)
    c.cache[key] = r
    return r


def simp_atom(a):
    t = tup(a)
    k = t[0]
    if t[:2] == ("app", "tdiv") and isinstance(t[2], Poly):
        x, y = simp(t[2]), simp(t[3])
        if nonneg(x) and nonneg(y - 1):
            return simp(mk_div(x, y))
    if k in ("ge", "eqz"):
        d = decide_atom(a)
        if d is not None:
            return P(d)
    if k == "ge" and isinstance(t[1], Poly):
        r = bit_length(t[1])
        if r is not None:
            return simp(r)
    if k == "sum":
        v, b = open_sum(t)
        n = simp(t[1])
        if nonneg(-n):
            return ZERO
        with assuming(ge=[v, n - 1 - v]):
            b2 = simp(b)
        if b2 is b and n is t[1]:
            return None
        return mk_sum(n, v, b2)
    if not any(tup(x)[0] in ("ge", "eqz", "div", "bit", "sum", "inv") for x in T._atom_info[a][1]) and k not in ("div", "bit"):
        return None
    s = lambda x: simp(x) if isinstance(x, Poly) else (tuple(s(y) for y in x) if isinstance(x, tuple) else x)
    if k in ("sym", "wire", "pow", "div", "bit", "nat", "inv", "ge", "eqz", "app", "opq", "phi", "phie", "any", "rec"):
        args = [s(x) for x in t[1:]]
        if k == "div":
            x, b = args
            if nonneg(x) and nonneg(b - 1 - x):
                return ZERO
            if b.as_int() is not None and nonneg(x - b) and nonneg(2 * b - 1 - x):
                return ONE
            e = T.log2p(b)
            if e is not None and e.as_int() is not None and x.atom() is not None and nonneg(x) and nonneg(2 * b - 1 - x):
                return T.mk_bit(x, e)
        if k == "bit":
            x, b = args
            if b.as_int() is not None and x.atom() is not None and nonneg(P(1 << b.as_int()) - 1 - x) and nonneg(x):
                return ZERO
            if b.as_int() is not None and len(x.t) > 1 and x.atom() is None and nonneg(x):
                q = simp(mk_div(x, P(1 << b.as_int())) - 2 * mk_div(x, P(2 << b.as_int())))
                if q.as_int() is not None:
                    return q
        if k == "ge":
            r = bit_length(args[0])
            if r is not None:
                return r
        r = rebuild(t, args)
        return r
    return None


def bit_length(p):
    """the test p >= 0 about a bit length, as a test about the number"""
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and tup(m[0][0])[0] == "div":
            a = m[0][0]
            x, b = tup(a)[1:3]
            rest = p - Poly({m: c})
            if b.as_int() is not None and any(tup(y)[:2] == ("app", "nbits") for y in x.atoms()) and not rest.has(a) and is_int(rest):
                # floor(x / b) >= -rest, or floor(x / b) <= rest
                q = x + b * rest if c > 0 else b * rest + b - 1 - x
                return bit_length(q) or ge(q)
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and tup(m[0][0])[:2] == ("app", "nbits"):
            a = m[0][0]
            rest = p - Poly({m: c})
            if rest.has(a):
                return None
            x = tup(a)[2]
            x = x[0] if isinstance(x, tuple) else x
            if not nonneg(x):
                return None
            if c < 0 and nonneg(rest):
                return ge(mk_pow(TWO, rest) - 1 - x)
            if c > 0 and nonneg(-rest - 1):
                return ge(x - mk_pow(TWO, -rest - 1))
    return None


def simp_div_only(p):
    return simp(p)


def prove_eq(a, b):
    """a == b in the current context, by normalisation and case split on conditions"""
    return prove_zero(P(a) - P(b))


def prove_zero(p, depth=6):
    if contradictory_quick():
        return True
    p = simp(p)
    if not p.t:
        return True
    if depth == 0:
        return False
    # split on a condition atom (prefer the ones at the top level)
    cands = []
    for a in p.leaves():
        t = tup(a)
        if sort_of(a) == "B" and t[0] in ("ge", "eqz", "opq", "sym", "bit", "wire") and not any(
                tup(x)[0] == "bv" for x in T._atom_info[a][1]) and not (t[0] == "bit"):
            cands.append(((0 if a in p.atoms() else 1), len(akey(a)), akey(a), a))
    cands.sort()
    for _, _, _, a in cands[:1]:
        x = of_atom(a)
        with assuming(x) as c1:
            ok = c1.bad or absurd() or prove_zero(p, depth - 1)
        if not ok:
            return False
        with assuming(ONE - x) as c2:
            return c2.bad or absurd() or prove_zero(p, depth - 1)
    # expand bits
    q = expand_bits(p)
    if q is not p:
        return not simp(q).t
    if is_int(p) and nonneg(p) and nonneg(-p):
        return True
    return False


def contradictory_quick():
    return ctx().bad


def expand_bits(p):
    mp = {}
    for a in p.leaves():
        t = tup(a)
        if t[0] == "bit":
            v, i = t[1], t[2]
            mp[a] = mk_div(v, mk_pow(TWO, i)) - 2 * mk_div(v, mk_pow(TWO, i + 1))
    if not mp:
        return p
    return subst(p, mp)
