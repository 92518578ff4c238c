"""Instances of a closed-form constraint system, and what they determine.

A summary (effects) is parametric in the sizes; `Inst` unfolds its closed forms at one choice of
the sizes into polynomials over the scalar field whose variables are wires.  `Det` then
propagates, over those polynomials, which wires are functions of the inputs and which integer
ranges hold (uniqueness propagation in the manner of Picus, plus interval arithmetic):
nothing is executed and no solver is asked.
"""
from fractions import Fraction
from .terms import *
from .terms import _atoms
from . import terms as T
from . import evalr
from .evalr import PRIME, Env, Undef
from .interp import Alloc, Enforce, Abort, Guard, Loop, Ext
from .values import *

P_ = PRIME


class ValueDep(Exception):
    """the shape depends on something that is not a size"""


class SizeEnv(Env):
    def __init__(self, sizes):
        Env.__init__(self, None, {})
        self.sizes = sizes

    def leaf(self, kind, name, idx, sort):
        if kind == "sym" and name == "NUMBITS":
            return evalr.NBITS
        if kind == "sym" and name in self.sizes:
            x = self.sizes[name]
            return x[idx[0]] if idx and isinstance(x, (list, tuple)) else x
        raise ValueDep(name)


# ---------------------------------------------------------------- instance polynomials
def ip_const(c):
    c %= P_
    return {(): c} if c else {}


def ip_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = (r.get(m, 0) + c * k) % P_
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def ip_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        if not m1:
            for m, c in b.items():
                r[m] = (r.get(m, 0) + c * c1) % P_
            continue
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m2 else m1
            r[m] = (r.get(m, 0) + c1 * c2) % P_
    return {m: c for m, c in r.items() if c}


def ip_scale(a, k):
    k %= P_
    return {m: c * k % P_ for m, c in a.items()} if k else {}


def ip_pow(a, e):
    r = ip_const(1)
    for _ in range(e):
        r = ip_mul(r, a)
    return r


def ip_vars(a):
    s = set()
    for m in a:
        s.update(m)
    return s


def ip_key(a):
    return tuple(sorted(a.items()))


def inv(x):
    return pow(x, -1, P_)


def sgn(c):
    """signed representative"""
    return c if c <= P_ // 2 else c - P_


class Inst:
    def __init__(self, sizes):
        self.sizes = sizes
        self.env = SizeEnv(sizes)
        self.names = []          # var id -> key
        self.ids = {}
        self.args = {}           # opaque var -> tuple of argument IPs
        self.info = {}           # wire var -> dict
        self.order = []          # events in emission order
        self.cons = []           # (a, b, c, loc, label)
        self.exts = []
        self.aborts = []
        self._hw = {}

    def var(self, key):
        i = self.ids.get(key)
        if i is None:
            i = len(self.names)
            self.ids[key] = i
            self.names.append(key)
        return i

    def haswire(self, a):
        """does the atom depend on anything but sizes and bound indices?"""
        r = self._hw.get(a)
        if r is None:
            r = False
            for l in T._atom_info[a][1] | {a}:
                t = _atoms[l]
                if t[0] == "wire" or t[0] == "shabit" or t[0] == "sym" and t[1] not in self.sizes and t[1] != "NUMBITS":
                    r = True
            self._hw[a] = r
        return r

    def int(self, p, b):
        try:
            return self.env.int(p, b)
        except Undef as u:
            raise ValueDep(str(u))

    def ip(self, p, b=None):
        b = b or {}
        p = P(p)
        r = {}
        for m, c in p.t.items():
            x = ip_const(c.numerator * inv(c.denominator) if c.denominator != 1 else int(c))
            for a, e in m:
                y = self.atom(a, b)
                if isinstance(y, dict):
                    if e < 0:
                        k = y.get((), 0)
                        if set(y) - {()} or not k:
                            y = self.opaque("inv", (y,))
                        else:
                            y = ip_const(inv(k))
                        e = -e
                    x = ip_mul(x, ip_pow(y, e))
                else:
                    if isinstance(y, Fraction):
                        y = y.numerator * inv(y.denominator % P_)
                    x = ip_scale(x, pow(y, e, P_))
                if not x:
                    break
            r = ip_add(r, x)
        return r

    def opaque(self, kind, args, extra=()):
        v = self.var((kind, tuple(ip_key(a) for a in args), extra))
        self.args[v] = (kind, args, extra)
        return {(v,): 1}

    def atom(self, a, b):
        if a in b:
            return b[a]
        t = _atoms[a]
        k = t[0]
        if k == "wire" or k == "sym" and t[1] not in self.sizes and t[1] != "NUMBITS":
            v = self.var((k, t[1], tuple(self.int(i, b) for i in t[2]), t[-1]))
            return {(v,): 1}
        if not self.haswire(a):
            try:
                return self.env.atom(a, b)
            except Undef as u:
                raise ValueDep(str(u))
        if k == "sum":
            n = self.int(t[1], b)
            v = atom_id(("bv", t[2].height()))
            r = {}
            for i in range(max(n, 0)):
                b2 = dict(b)
                b2[v] = i
                for m, c in self.ip(t[2], b2).items():
                    r[m] = (r.get(m, 0) + c) % P_
            return {m: c for m, c in r.items() if c}
        if k == "pow":
            e = self.int(t[2], b)
            return ip_pow(self.ip(t[1], b), e)
        args = tuple(self.ip(x, b) for x in t[1:] if isinstance(x, Poly))
        ex = tuple(x for x in t[1:] if not isinstance(x, Poly))
        if k == "nat":
            return args[0] if not ex else self.opaque(k, args, ex)
        if k == "eqz":
            if not set(args[0]) - {()}:
                return 1 if not args[0] else 0
            # a canonical sign and scale
            m0 = min(m for m in args[0] if m)
            args = (ip_scale(args[0], inv(args[0][m0])),)
        if k == "ge":
            # the canonical integers of compound field elements
            args += tuple(self.ip(tup(x)[1], b) for x in sorted(t[1].atoms()) if tup(x)[0] == "nat" and len(tup(x)[1].t) > 1)
        return self.opaque(k, args, ex)

    # ------------------------------------------------------------ effects
    def run(self, effs, b=None):
        b = b or {}
        for e in effs:
            if isinstance(e, Loop):
                n = self.int(e.n, b)
                if n > 3000:
                    raise ValueDep("long loop")
                for i in range(max(n, 0)):
                    b2 = dict(b)
                    b2[e.var.atom()] = i
                    self.run(e.effs, b2)
            elif isinstance(e, Guard):
                try:
                    c = self.int(e.cond, b)
                except ValueDep:
                    if all(isinstance(x, Abort) for x in flat(e.effs)):
                        continue
                    raise
                if c:
                    self.run(e.effs, b)
            elif isinstance(e, Alloc):
                v = self.var(("wire", e.wid, tuple(self.int(i, b) for i in e.idx), e.sort))
                self.info[v] = {"eff": e, "b": b, "inp": e.inp, "label": self.label(e.ns, b)}
                self.order.append(("alloc", v, e.inp))
            elif isinstance(e, Enforce):
                c = (self.ip(e.a, b), self.ip(e.b, b), self.ip(e.c, b), e.loc, self.label(e.ns, b))
                self.cons.append(c)
                self.order.append(("enforce", len(self.cons) - 1))
            elif isinstance(e, Abort):
                try:
                    c = self.int(e.cond, b)
                except ValueDep:
                    continue
                if c:
                    self.aborts.append((e, b))
            elif isinstance(e, Ext):
                args = tuple(self.val(x, b) for x in e.args)
                self.exts.append((e.name, args, self.val(e.res, b), e.loc, self.label(e.ns, b)))
                self.order.append(("ext", len(self.exts) - 1))
        return self

    def val(self, v, b):
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, Poly):
            return self.ip(v, b)
        if isinstance(v, (VSeq, VUpd)):
            n = self.int(v.len(), b)
            out = []
            for i in range(n):
                out.append(self.val(self.get(v, i, b), b))
            return out
        if isinstance(v, VStruct):
            out = {}
            for k, x in v.f.items():
                try:
                    out[k] = self.val(x, b)
                except ValueDep:
                    if k not in ("value", "values", "limb_values"):
                        raise
                    out[k] = None
            return out
        if isinstance(v, VTuple):
            return [self.val(x, b) for x in v.es]
        if isinstance(v, VIte):
            return self.val(v.a if self.int(v.c, b) else v.b, b)
        if isinstance(v, VEnum):
            return (v.variant, [self.val(x, b) for x in v.fs])
        return v

    def get(self, s, i, b):
        if isinstance(s, VUpd):
            if self.int(s.i, b) == i:
                return s.v
            return self.get(s.base, i, b)
        off = 0
        for n, var, body in s.segs:
            k = self.int(n, b)
            if i < off + k:
                return vsubst(body, {var.atom(): P(i - off)}) if var is not None else body
            off += max(k, 0)
        raise ValueDep("index")

    def label(self, ns, b):
        out = []
        if not isinstance(ns, VCS):
            return repr(ns)
        for part in ns.ns:
            t, args = part[0], part[1]
            xs = []
            for a in args:
                try:
                    xs.append(str(self.int(a, b)) if isinstance(a, Poly) else str(a))
                except ValueDep:
                    xs.append(repr(a))
            s = t
            for x in xs:
                if "{" in s:
                    i = s.index("{")
                    j = s.index("}", i)
                    s = s[:i] + x + s[j + 1:]
                else:
                    s += "," + x
            out.append(s)
        return "/".join(out)

    def show(self, a, n=6):
        s = []
        for m, c in list(a.items())[:n]:
            s.append("%d*%s" % (sgn(c), "*".join(self.vname(v) for v in m) or "1"))
        return " + ".join(s) + (" + ..." if len(a) > n else "") or "0"

    def vname(self, v):
        k = self.names[v]
        if k[0] in ("wire", "sym"):
            return k[1] + (("(%s)" % ",".join(map(str, k[2]))) if k[2] else "")
        return "%s#%d" % (k[0], v)


class Labels(Inst):
    """the names only"""

    def ip(self, p, b=None):
        return {}

    def val(self, v, b):
        return None


class Named:
    def __init__(self, ins):
        self.env = ins.env

    def int(self, p, b):
        try:
            return self.env.int(p, b)
        except Undef as u:
            raise ValueDep(str(u))


class Sample(Labels):
    """the names at one valuation of the inputs"""

    def __init__(self, sizes, env):
        Labels.__init__(self, sizes)
        self.at = env

    def int(self, p, b):
        try:
            return self.env.int(p, b)
        except (Undef, ValueDep):
            return self.at.int(p, b)

    def label(self, ns, b):
        # names that show a value are compared by their form
        return Inst.label(Named(self), ns, b)

    def events(self):
        out = []
        for o in self.order:
            if o[0] == "alloc":
                out.append(("wire", self.info[o[1]]["label"], o[2]))
            elif o[0] == "enforce":
                out.append(("constraint", self.cons[o[1]][4]))
            else:
                x = self.exts[o[1]]
                if x[0] not in ("zero", "need", "use"):
                    out.append((x[0], x[4]))
        return out


def sqrt(n):
    """a square root modulo the field's prime, or None (Tonelli and Shanks)"""
    n %= P_
    if n == 0:
        return 0
    if pow(n, (P_ - 1) // 2, P_) != 1:
        return None
    q, s = P_ - 1, 0
    while q % 2 == 0:
        q, s = q // 2, s + 1
    z = next(x for x in range(2, 100) if pow(x, (P_ - 1) // 2, P_) == P_ - 1)
    m, c, t, r = s, pow(z, q, P_), pow(n, q, P_), pow(n, (q + 1) // 2, P_)
    while t != 1:
        i, y = 0, t
        while y != 1:
            i, y = i + 1, y * y % P_
        b = pow(c, 1 << (m - i - 1), P_)
        m, c = i, b * b % P_
        t, r = t * c % P_, r * b % P_
    return r


def factored(a, b, c):
    """two linear forms whose product vanishes exactly when a * b = c, or None"""
    if not c:
        return (a, b)
    if any(len(m) > 1 for p in (a, b, c) for m in p):
        return None
    ma, mb = next((m for m in a if m), None), next((m for m in b if m), None)
    if ma is None or mb is None:
        return None
    t = b.get(ma, 0) * inv(a[ma]) % P_
    k = ip_add(b, a, -t)
    if not set(k) - {()}:
        # b = t a + k, c = g a + c0: t a^2 + (k - g) a - c0 = 0
        k = k.get((), 0)
        g = c.get(ma, 0) * inv(a[ma]) % P_
        c0 = ip_add(c, a, -g)
        if set(c0) - {()}:
            return None
        c0 = c0.get((), 0)
        d = sqrt((k - g) ** 2 + 4 * t * c0)
        if d is None:
            return None
        r1, r2 = ((g - k + d) * inv(2 * t) % P_, (g - k - d) * inv(2 * t) % P_)
        return (ip_add(a, ip_const(r1), -1), ip_scale(ip_add(a, ip_const(r2), -1), t))
    # (a - y)(b - x) = 0 with c = x a + y b - x y
    b2 = next(m for m in k if m)
    y = ip_add(c, a, -c.get(ma, 0) * inv(a[ma])).get(b2, 0) * inv(k[b2]) % P_
    x = (c.get(ma, 0) - y * b.get(ma, 0)) * inv(a[ma]) % P_
    rest = ip_add(ip_add(ip_add(c, a, -x), b, -y), ip_const(x * y))
    if rest:
        return None
    return (ip_add(a, ip_const(y), -1), ip_add(b, ip_const(x), -1))


def flat(effs):
    for e in effs:
        if isinstance(e, (Loop, Guard)):
            yield from flat(e.effs)
        else:
            yield e


# ---------------------------------------------------------------- determination
class Det:
    def __init__(self, inst, known=(), ranges=None, facts=()):
        self.I = inst
        self.start = (tuple(known), dict(ranges or {}))
        self.known = set(known)          # input variables
        self.sol = {}                    # var -> IP over known variables
        self.rng = dict(ranges or {})    # var -> (lo, hi) integers
        self.frng = []                   # (IP, lo, hi)
        self.rows = []                   # IPs that vanish: the original rows
        self.prod = []                   # (a, b): a*b = 0
        self.live = []
        self.why = {}
        self.nfresh = 0
        self.rels = []                   # what the digits sum up to
        for a, b, c, loc, lab in inst.cons:
            self.add(a, b, c)
        for f in facts:
            self.rows.append(f)

    def add(self, a, b, c):
        p = ip_add(ip_mul(a, b), c, -1)
        if not p:
            return
        self.rows.append(p)
        f = factored(a, b, c)
        if f:
            self.prod.append(f)

    def fresh(self, tag):
        self.nfresh += 1
        return self.I.var(("aux", tag, self.nfresh))

    # ------------------------------------------------------------ substitution
    def is_known(self, v):
        if v in self.known or v in self.sol:
            return True
        a = self.I.args.get(v)
        if a is not None:
            if all(self.is_known(x) for y in a[1] for x in ip_vars(y)):
                self.known.add(v)
                return True
        return False

    def red(self, p):
        """p with the solved wires replaced"""
        vs = [v for v in ip_vars(p) if v in self.sol]
        if not vs:
            return p
        vs = set(vs)
        r = {}
        for m, c in p.items():
            if not (set(m) & vs):
                x = {m: c}
            else:
                x = {tuple(v for v in m if v not in vs): c}
                for v in m:
                    if v in vs:
                        x = ip_mul(x, self.sol[v])
            r = ip_add(r, x)
        return r

    def unknowns(self, p):
        return {v for v in ip_vars(p) if not self.is_known(v)}

    def solve(self, v, p, why):
        self.sol[v] = self.red(p)
        self.why[v] = why
        self.changed = True

    # ------------------------------------------------------------ ranges
    def ir(self, p):
        """integer interval of p read with signed coefficients, when every variable has one"""
        lo = hi = 0
        for m, c in p.items():
            c = sgn(c)
            a, b = 1, 1
            for v in m:
                r = self.getr(v)
                if r is None:
                    return None
                xs = [a * r[0], a * r[1], b * r[0], b * r[1]]
                a, b = min(xs), max(xs)
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        return lo, hi

    def getr(self, v):
        r = self.rng.get(v)
        if r is None and self.I.names[v][0] in ("eqz", "ge", "bit", "shabit", "sha"):
            return (0, 1)
        return r

    def setr(self, v, lo, hi):
        o = self.getr(v)
        if o is not None:
            lo, hi = max(lo, o[0]), min(hi, o[1])
            if (lo, hi) == o:
                return
        self.rng[v] = (lo, hi)
        self.changed = True
        if lo == hi and v not in self.sol and v not in self.known and v not in self.I.args:
            self.sol[v] = ip_const(lo)
            self.why[v] = "range"

    def boolish(self):
        """w*(w-1) = 0 and the like; a multi-wire boolean form gets a fresh boolean"""
        done = self.__dict__.setdefault("booldone", set())
        for n, (a, b) in enumerate(self.prod):
            if n in done:
                continue
            # b = k*(1 - s*a)  <=>  b + k s a = k
            lin = lambda p: all(len(m) <= 1 for m in p)
            if not (lin(a) and lin(b)):
                continue
            m = next((m for m in a if m), None)
            if m is None or m not in b:
                continue
            t = b[m] * inv(a[m]) % P_            # b = t*a + k ?
            k = ip_add(b, a, -t)
            if set(k) - {()}:
                continue
            k = k.get((), 0)
            # a*(t a + k) = 0: a in {0, -k/t}
            root = -k * inv(t) % P_
            done.add(n)
            if root == 0:
                self.rows.append(a)
                self.changed = True
                continue
            f = ip_scale(a, inv(root))           # f in {0, 1}
            vs = [mm for mm in f if mm]
            if len(vs) == 1:
                v = vs[0][0]
                c = f[vs[0]]
                k0 = f.get((), 0)
                # c v + k0 in {0,1}
                x0, x1 = -k0 * inv(c) % P_, (1 - k0) * inv(c) % P_
                x0, x1 = sorted((sgn(x0), sgn(x1)))
                if x1 - x0 == 1:
                    self.setr(v, x0, x1)
                self.changed = True
                continue
            u = self.fresh("bool")
            self.rng[u] = (0, 1)
            self.rows.append(ip_add({(u,): 1}, f, -1))
            self.changed = True

    def ranges(self):
        """a wire bounded by a linear row whose other wires are bounded"""
        for p in self.rows:
            un = [m for m in p if m and any(self.getr(v) is None for v in m)]
            if len(un) > 1:
                continue
            if un:
                cand = [un[0]]
            else:
                if len(p) > 40:
                    cand = [m for m in p if len(m) == 1 and self.getr(m[0])[1] - self.getr(m[0])[0] > 1]
                    if len(cand) > 3:
                        cand = cand[:3]
                else:
                    cand = [m for m in p if len(m) == 1]
            for m in cand:
                if len(m) != 1:
                    continue
                k = inv(p[m])
                q = {mm: -c * k % P_ for mm, c in p.items() if mm != m}
                if any(m[0] in mm for mm in q):
                    continue
                r = self.ir(q)
                if r is None or r[1] - r[0] >= P_ // 2 or max(abs(r[0]), abs(r[1])) >= P_ // 2:
                    continue
                o = self.rng.get(m[0])
                if o is not None:
                    # both intervals must name the same representative
                    if o[1] - r[0] >= P_ or r[1] - o[0] >= P_:
                        continue
                self.setr(m[0], r[0], r[1])

    def tighten(self):
        """bounds of each wire of a row that holds over the integers"""
        seen = self.__dict__.setdefault("tightsig", {})
        for n, p in enumerate(self.rows):
            ms = [m for m in p if m]
            if len(ms) < 2 or any(len(m) != 1 for m in ms):
                continue
            rs = [self.getr(m[0]) for m in ms]
            if None in rs or seen.get(n) == rs:
                continue
            seen[n] = rs
            for s in self.scales(p):
                cs = [sgn(p[m] * s % P_) for m in ms]
                k = sgn(p.get((), 0) * s % P_)
                lo = k + sum(min(c * a, c * b) for c, (a, b) in zip(cs, rs))
                hi = k + sum(max(c * a, c * b) for c, (a, b) in zip(cs, rs))
                if -P_ < lo and hi < P_:
                    break
            else:
                continue
            for m, c, (a, b) in zip(ms, cs, rs):
                # -c v is the rest, between
                x, y = lo - min(c * a, c * b), hi - max(c * a, c * b)
                if c > 0:
                    x, y = -y, -x
                c = abs(c)
                x, y = -(-x // c), y // c
                if x > a or y < b:
                    self.setr(m[0], x, y)

    # ------------------------------------------------------------ rules
    def linear(self):
        todo = []
        self.lasted = []
        for p in self.live:
            q = self.red(p)
            U = self.unknowns(q)
            if not U:
                if q:
                    self.kfact(q)
                continue
            if len(U) == 1:
                (u,) = U
                if all(m.count(u) <= 1 for m in q):
                    A = {tuple(v for v in m if v != u): c for m, c in q.items() if u in m}
                    K = {m: c for m, c in q.items() if u not in m}
                    if not set(A) - {()}:
                        self.solve(u, ip_scale(K, -inv(A[()])), "linear")
                        continue
                    if self.nonzero(A):
                        self.solve(u, ip_scale(ip_mul(K, self.I.opaque("inv", (A,))), -1), "quotient")
                        self.known.update(ip_vars(self.sol[u]))
                        continue
            if self.radix(q, U):
                continue
            if len(U) == 1 and len(q) <= 3 and all(set(m) <= U and len(m) <= 2 for m in q):
                self.quadratic(q, *U)
            todo.append(q)
        self.live = todo

    def quadratic(self, q, u):
        k = ip_key(self.norm(q))
        seen = self.__dict__.setdefault("quads", set())
        if k in seen or (u, u) not in q:
            return
        seen.add(k)
        f = factored({(u,): 1}, {(u,): q[(u, u)]}, {m: -c % P_ for m, c in q.items() if m != (u, u)})
        if f:
            self.prod.append(f)
            self.changed = True

    def nonzero(self, A):
        return any(ip_key(self.norm(A)) == k for k in self.__dict__.get("nzs", ()))

    def norm(self, A):
        ms = [m for m in A if m]
        if not ms:
            return A
        return ip_scale(A, inv(A[min(ms)]))

    def kfact(self, q):
        k = ip_key(self.norm(q))
        s = self.__dict__.setdefault("kf", {})
        if k not in s:
            s[k] = q
            self.changed = True

    def radix(self, q, U):
        """sum c_i u_i = K with bounded unknowns in mixed radix: K fixes every u_i"""
        K = {}
        c = {}
        for m, x in q.items():
            mu = [v for v in m if v in U]
            if not mu:
                K[m] = x
            elif len(m) == 1:
                c[m[0]] = x
            else:
                return False
        if any(u not in self.rng for u in c):
            return False
        # scale so that one coefficient is 1; prefer the scale of least total
        best = None
        for unit in sorted(c, key=lambda u: abs(sgn(c[u])))[:2] + sorted(c, key=lambda u: -abs(sgn(c[u])))[:2]:
            k = inv(c[unit])
            cs = sorted(((abs(sgn(x * k % P_)), sgn(x * k % P_), u) for u, x in c.items()))
            tot = 0
            good = True
            for ab, s, u in cs:
                lo, hi = self.rng[u]
                if ab <= tot and hi > lo:
                    good = False
                    break
                tot += ab * (hi - lo)
            if good and tot < P_ and (best is None or tot < best[0]):
                best = (tot, k, cs)
        if best is None:
            return False
        tot, k, cs = best
        lo = sum(min(s * self.rng[u][0], s * self.rng[u][1]) for _, s, u in cs)
        X = ip_scale(K, -k)
        if not set(X) - {()}:
            n = (X.get((), 0) - lo) % P_
            for ab, s, u in reversed(cs):
                a, b = self.rng[u]
                d = min(b - a, n // ab)
                n -= d * ab
                self.sol[u] = ip_const(a + d if s > 0 else b - d)
                self.why[u] = "radix"
            if n:
                self.kfact(ip_const(1))
            self.changed = True
            return True
        rel = dict(ip_scale(X, P_ - 1))
        for _, s, u in cs:
            self.sol[u] = self.I.opaque("digit", (X,), (tuple((s2, self.rng[u2]) for _, s2, u2 in cs), s))
            self.known.update(ip_vars(self.sol[u]))
            self.why[u] = "radix"
            rel = ip_add(rel, self.sol[u], s)
        self.rels.append(rel)
        self.frng.append((X, lo, lo + tot, tuple((ab, self.rng[u]) for ab, s, u in cs)))
        self.changed = True
        return True

    def groups(self):
        """square linear systems over one set of unknowns"""
        by = {}
        for p in self.live:
            U = frozenset(self.unknowns(p))
            if 1 < len(U) <= 40 and all(sum(1 for v in m if v in U) <= 1 and (len(m) == 1 or not (set(m) & U)) for m in p):
                by.setdefault(U, []).append(p)
        for U in list(by):
            rows = [p for V, ps in by.items() if V <= U for p in ps]
            if len(rows) < len(U):
                continue
            us = sorted(U)
            mat = []
            for p in rows:
                mat.append([p.get((u,), 0) for u in us] + [{m: c for m, c in p.items() if not (set(m) & U)}])
            piv = 0
            for col in range(len(us)):
                r = next((i for i in range(piv, len(mat)) if mat[i][col]), None)
                if r is None:
                    continue
                mat[piv], mat[r] = mat[r], mat[piv]
                k = inv(mat[piv][col])
                mat[piv] = [x * k % P_ for x in mat[piv][:-1]] + [ip_scale(mat[piv][-1], k)]
                for i in range(len(mat)):
                    if i != piv and mat[i][col]:
                        f = mat[i][col]
                        mat[i] = [(x - f * y) % P_ for x, y in zip(mat[i][:-1], mat[piv][:-1])] + [ip_add(mat[i][-1], mat[piv][-1], -f)]
                piv += 1
            for row in mat:
                nz = [i for i, x in enumerate(row[:-1]) if x]
                if len(nz) == 1 and us[nz[0]] not in self.sol:
                    self.solve(us[nz[0]], ip_scale(row[-1], -1), "linear system")

    def tworoots(self):
        """(w - r)(w - r') = 0 where r' = r +- 2^k and 0 <= w < 2^k"""
        for a, b in self.prod:
            a, b = self.red(a), self.red(b)
            U = self.unknowns(a) | self.unknowns(b)
            if len(U) != 1:
                continue
            (w,) = U
            if w not in self.rng:
                continue
            rs = []
            for p in (a, b):
                if any(w in m and len(m) > 1 for m in p) or (w,) not in p:
                    break
                k = inv(p[(w,)])
                rs.append({m: -c * k % P_ for m, c in p.items() if m != (w,)})
            if len(rs) != 2:
                continue
            d = ip_add(rs[1], rs[0], -1)
            if set(d) - {()} or not d:
                continue
            d = sgn(d[()])
            lo, hi = self.rng[w]
            if d < 0:
                rs.reverse()
                d = -d
            # w = r or w = r + d, w in [lo, hi]: exclusive when d > hi - lo (and no wrap)
            if hi - lo < d and hi - lo + d < P_ - (hi - lo):
                self.sol[w] = self.I.opaque("tworoot", (rs[0],), (d, lo, hi))
                self.known.update(ip_vars(self.sol[w]))
                self.why[w] = "tworoot"
                self.frng.append((rs[1], lo, hi + d, None))
                self.changed = True

    def comparator(self):
        pass

    def exts(self):
        for name, args, res, loc, lab in self.I.exts:
            if name == "sha256":
                if all(self.is_known(v) for x in args[0] for v in ip_vars(x)):
                    for j, r in enumerate(res):
                        for v in ip_vars(r):
                            if not self.is_known(v):
                                self.solve(v, self.I.opaque("sha", tuple(self.red(x) for x in args[0]), (j,)), "sha256")
                                self.known.update(ip_vars(self.sol[v]))
            elif name == "range":
                lc, n = args[0], args[1].get((), 0)
                if id(args) in self.__dict__.setdefault("extdone", set()):
                    continue
                self.extdone.add(id(args))
                u = self.fresh("range")
                self.rng[u] = (0, (1 << n) - 1)
                row = ip_add({(u,): 1}, lc, -1)
                self.rows.append(row)
                self.live.append(row)
                self.changed = True
            elif name == "zero":
                if id(args) in self.__dict__.setdefault("extdone", set()):
                    continue
                self.extdone.add(id(args))
                self.rows.append(args[0])
                self.live.append(args[0])
                self.changed = True

    def tests(self):
        """a test for zero whose outcome is fixed by a constraint"""
        done = self.__dict__.setdefault("testsdone", set())
        for r in list(self.rows):
            if len(r) > 2:
                continue
            ms = [m for m in r if m]
            if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0] in done:
                continue
            v = ms[0][0]
            a = self.I.args.get(v)
            if a is None or a[0] != "eqz":
                continue
            val = -r.get((), 0) * inv(r[ms[0]]) % P_
            if val not in (0, 1):
                continue
            done.add(v)
            if val:
                self.rows.append(a[1][0])
                self.live.append(a[1][0])
            else:
                self.nzs = set(self.__dict__.get("nzs", ())) | {ip_key(self.norm(a[1][0]))}
            self.changed = True

    def booleans(self):
        """the tests whose outcome is the same in every solution of a constraint among booleans"""
        done = self.__dict__.setdefault("boolrows", {})
        for i, r in enumerate(list(self.rows)):
            if len(r) > 40:
                continue
            vs = ip_vars(r)
            if not vs or len(vs) > 6 or (len(vs) == 1 and len(r) <= 2):
                continue
            q = self.red(r) if vs & self.sol.keys() else r
            vs = sorted(ip_vars(q))
            if not vs or len(vs) > 6 or done.get(i) == vs or any(self.getr(v) != (0, 1) for v in vs):
                continue
            done[i] = vs
            if not any(self.I.args.get(v, ("",))[0] in ("eqz", "ge") for v in vs):
                continue
            sols = []
            for k in range(1 << len(vs)):
                x = {v: k >> j & 1 for j, v in enumerate(vs)}
                if not sum(c for m, c in q.items() if all(x[v] for v in m)) % P_:
                    sols.append(x)
            for v in vs:
                got = {x[v] for x in sols}
                if len(got) == 1:
                    row = {(v,): 1}
                    if got.pop():
                        row[()] = -1 % P_
                    if row not in self.rows:
                        self.rows.append(row)
                        self.live.append(row)
                        self.changed = True

    # ------------------------------------------------------------ case split on a known coefficient
    def cases(self):
        cand = {}
        for p in self.live:
            U = self.unknowns(p)
            for u in U:
                if any(m.count(u) > 1 for m in p):
                    continue
                A = {}
                for m, c in p.items():
                    if u in m and not (set(m) & (U - {u})):
                        A[tuple(v for v in m if v != u)] = c
                if set(A) - {()} and not any(v in U for m in A for v in m):
                    A = self.norm(A)
                    cand.setdefault(ip_key(A), (A, set()))[1].update(U)
        tried = self.__dict__.setdefault("tried", {})
        for k, (A, U) in cand.items():
            comp = self.component(U)
            sig = len(comp)
            if tried.get(k) == sig:
                continue
            tried[k] = sig
            if not (set(A) - {()}):
                continue
            d1 = self.sub(comp)
            d1.nzs = set(self.__dict__.get("nzs", ())) | {k}
            d1.live = [d1.strip(p, A) for p in comp]
            d1.prod = [(d1.strip(a, A), d1.strip(b, A)) for a, b in d1.prod]
            d1.propagate(False)
            d0 = self.sub(comp)
            # A = 0: eliminate one of its variables
            lin = [m for m in A if len(m) == 1 and sum(1 for mm in A if m[0] in mm) == 1]
            if lin:
                m = lin[0]
                v = m[0]
                s = {mm: -c * inv(A[m]) % P_ for mm, c in A.items() if mm != m}
                sb = lambda p: ip_subst(p, v, s)
            else:
                m = max(A)
                sb = lambda p: ip_rewrite(p, m, {mm: -c * inv(A[m]) % P_ for mm, c in A.items() if mm != m})
            d0.live = [sb(p) for p in comp]
            d0.prod = [(sb(a), sb(b)) for a, b in d0.prod]
            d0.propagate(False)
            got = [u for u in d1.sol if u in d0.sol and u not in self.sol]
            for u in got:
                z = self.I.opaque("ite", (A, d0.sol[u], d1.sol[u]))
                self.sol[u] = z
                self.known.update(ip_vars(z))
                for q in (d0, d1):
                    for v in ip_vars(q.sol[u]):
                        if q.is_known(v):
                            self.known.add(v)
                self.why[u] = "case split"
                self.changed = True
            if got:
                return

    def strip(self, p, A):
        """p divided by A when A divides it as K*A"""
        q = self.divide(p, A)
        return q if q is not None else p

    def divide(self, p, A):
        if not p:
            return None
        # p = A * q with q sharing no variables of A: collect by the leading monomial of A
        lead = max(m for m in A)
        av = ip_vars(A)
        q = {}
        for m, c in p.items():
            r = list(m)
            ok = True
            for v in lead:
                if v in r:
                    r.remove(v)
                else:
                    ok = False
                    break
            if ok:
                q[tuple(r)] = c * inv(A[lead]) % P_
        if q and ip_mul(q, A) == p:
            return q
        return None

    def component(self, U):
        U = set(U)
        rows = list(self.live)
        out = []
        ch = True
        while ch:
            ch = False
            for i, p in enumerate(rows):
                if p is None:
                    continue
                V = self.unknowns(p)
                if V & U:
                    out.append(p)
                    rows[i] = None
                    if not V <= U:
                        U |= V
                        ch = True
                    ch = True
        return out

    def sub(self, rows):
        d = Det.__new__(Det)
        d.I = self.I
        d.known = set(self.known)
        d.sol = dict(self.sol)
        d.rng = dict(self.rng)
        d.frng = []
        d.rows = list(rows)
        vs = set()
        for p in rows:
            vs |= self.unknowns(p)
        d.prod = [(self.red(a), self.red(b)) for a, b in self.prod if (ip_vars(a) | ip_vars(b)) & vs]
        d.live = list(rows)
        d.why = {}
        d.nfresh = self.nfresh + 1000
        d.rels = []
        d.changed = True
        d.booldone = set()
        d.noext = True
        return d

    def propagate(self, split=True):
        if not getattr(self, "started", False):
            self.started = True
            if not self.live:
                self.live = list(self.rows)
            self.nrows = len(self.rows)
        for _ in range(400):
            self.changed = False
            if not getattr(self, "noext", False):
                self.exts()
                self.booleans()
                self.tests()
            self.boolish()
            if len(self.rows) > self.nrows:
                self.live += [r for r in self.rows[self.nrows:] if not any(r is x for x in self.live)]
                self.nrows = len(self.rows)
            for _ in range(8):
                self.changed, old = False, self.changed
                self.ranges()
                self.tighten()
                new = self.changed
                self.changed = old or new
                if not new:
                    break
            self.linear()
            self.groups()
            self.tworoots()
            if not self.changed and split:
                self.cases()
            if not self.changed:
                break
        return self

    def given(self, vs):
        """the same constraints, with the wires vs taken as further inputs"""
        known, rng = self.start
        return Det(self.I, known + tuple(vs), rng).propagate()

    def case(self, zero=(), nonzero=(), vs=()):
        """the same constraints, where a further input v is c for (v, c) in zero, and the polynomials nonzero are not"""
        known, rng = self.start
        d = Det(self.I, known + tuple(vs), rng)
        for v, c in zero:
            d.known.discard(v)
            d.sol[v] = ip_const(c)
        for A in nonzero:
            d.nzs = set(d.__dict__.get("nzs", ())) | {ip_key(d.norm(A))}
            d.rows += [q for q in (d.divide(p, A) for p in d.rows) if q is not None]
        return d.propagate()

    # ------------------------------------------------------------ goals
    def unique(self, p):
        return not self.unknowns(p)

    def zero(self, p):
        """p = 0 follows (in the field)"""
        p = self.red(p)
        if not p:
            return True
        if self.nrm_in(p):
            return True
        q = self.deep(p)
        if not q:
            return True
        if self.rels and self.span([p], self.rels, False):
            return True
        if self.span([p], [self.red(r) for r in self.rows], False):
            return True
        return q != p and self.span([q], [self.deep(self.red(r)) for r in self.rows], False)

    def deep(self, p):
        """p with the solved wires replaced, also under the opaque operations"""
        p = self.red(p)
        r = {}
        for m, c in p.items():
            x = {(): c}
            for v in m:
                x = ip_mul(x, self.deepvar(v))
            r = ip_add(r, x)
        return r

    def deepvar(self, v):
        a = self.I.args.get(v)
        if a is None:
            return {(v,): 1}
        if self.__dict__.get("deepn") != len(self.sol):
            self.deepn, self.deepc = len(self.sol), {}
        r = self.deepc.get(v)
        if r is None:
            r = self.deepc[v] = self.deepvar_(v, *a)
        return r

    def deepvar_(self, v, kind, args, ex):
        new = tuple(self.deep(x) for x in args)
        if new == tuple(args):
            return {(v,): 1}
        if kind == "eqz":
            if not set(new[0]) - {()}:
                return {} if new[0] else {(): 1}
            m0 = min(m for m in new[0] if m)
            new = (ip_scale(new[0], inv(new[0][m0])),)
        return self.I.opaque(kind, new, ex)

    def nrm_in(self, p):
        return ip_key(self.norm(p)) in self.__dict__.get("kf", {})

    def span(self, goals, rows, rational):
        """every goal is a linear combination of rows"""
        mons = set()
        for g in goals:
            mons |= set(g)
        mons -= {()}
        # rows connected to the goal's monomials, in rounds; short rows first
        for cap in (24, 1 << 30):
            rel, ms = [], set(mons)
            pend = [r for r in rows if r and len(r) <= cap]
            while True:
                near = [r for r in pend if (set(r) - {()}) & ms or set(r) == {()}]
                if not near or len(rel) + len(near) > 600:
                    break
                pend = [r for r in pend if not ((set(r) - {()}) & ms or set(r) == {()})]
                rel += near
                for r in near:
                    ms |= set(r)
                ms.discard(())
                if self.combines(goals, rel, rational):
                    return True
        return False

    def combines(self, goals, rel, rational):
        basis = {}

        def reduce(r):
            r = dict(r)
            while True:
                ms = [m for m in r if m in basis]
                if not ms:
                    return r
                m = max(ms, key=lambda x: (len(x), x))
                k = r[m]
                for mm, c in basis[m].items():
                    x = r.get(mm, 0) - k * c
                    if not rational:
                        x %= P_
                    if x:
                        r[mm] = x
                    else:
                        r.pop(mm, None)
        for r in rel:
            if rational:
                r = {m: Fraction(c) for m, c in r.items()}
            r = reduce(r)
            nz = [m for m in r if m]
            if not nz:
                if r:
                    return True          # the rows are inconsistent
                continue
            m = max(nz, key=lambda x: (len(x), x))
            k = r[m]
            r = {mm: (c / k if rational else c * inv(k) % P_) for mm, c in r.items()}
            for b in list(basis):
                if m in basis[b]:
                    kk = basis[b][m]
                    nb = dict(basis[b])
                    for mm, c in r.items():
                        x = nb.get(mm, 0) - kk * c
                        if not rational:
                            x %= P_
                        if x:
                            nb[mm] = x
                        else:
                            nb.pop(mm, None)
                    basis[b] = nb
            basis[m] = r
        return all(not reduce({m: (Fraction(c) if rational else c) for m, c in g.items()}) for g in goals)

    def lifted(self, more=True):
        """rows that hold over the integers"""
        out = []
        seen = set()
        cand = list(self.rows) + [self.partial(r) for r in self.rows]
        if more:
            cand += [self.constants(r) for r in cand]
            cand += [self.replaced(r, self.isubs()) for r in list(cand)]
        for p in cand:
            k = ip_key(p)
            if k in seen or not p:
                continue
            seen.add(k)
            for s in self.scales(p):
                q = ip_scale(p, s)
                r = self.ir(q)
                if r is not None and -P_ < r[0] and r[1] < P_:
                    out.append({m: sgn(c) for m, c in q.items()})
                    break
        return out

    def scales(self, p):
        yield 1
        ks = sorted({c for m, c in p.items() if m}, key=lambda c: abs(sgn(c)))
        for c in ks[:1] + ks[-2:]:
            if c != 1:
                yield inv(c)

    def partial(self, p):
        """p with the wires that have no range replaced by their solutions"""
        vs = {v for v in ip_vars(p) if v in self.sol and v not in self.rng}
        r = {}
        for m, c in p.items():
            if not (set(m) & vs):
                x = {m: c}
            else:
                x = {tuple(v for v in m if v not in vs): c}
                for v in m:
                    if v in vs:
                        x = ip_mul(x, self.sol[v])
            r = ip_add(r, x)
        return r

    def constants(self, p):
        """p with the wires of a known constant value replaced"""
        r = {}
        for m, c in p.items():
            k = []
            for v in m:
                x = self.sol.get(v)
                if x is not None and not set(x) - {()}:
                    c = c * x.get((), 0) % P_
                else:
                    k.append(v)
            r = ip_add(r, {tuple(k): c}) if c else r
        return r

    def isubs(self):
        """the solved wires whose solution holds over the integers"""
        n = len(self.sol)
        if self.__dict__.get("isubn") == n:
            return self.isubd
        self.isubn, self.isubd = n, {}
        for v, x in self.sol.items():
            if v in self.rng and len(x) <= 8:
                q = ip_add({(v,): 1}, x, -1)
                r = self.ir(q)
                if r is not None and -P_ < r[0] and r[1] < P_:
                    self.isubd[v] = x
        return self.isubd

    def replaced(self, p, sub, field=True):
        if not any(v in sub for v in ip_vars(p)):
            return p
        r = {}
        for m, c in p.items():
            x = {tuple(v for v in m if v not in sub): c}
            for v in m:
                if v in sub:
                    y = {}
                    for a, k in x.items():
                        for b, l in sub[v].items():
                            z = tuple(sorted(a + b))
                            y[z] = y.get(z, 0) + k * sgn(l)
                    x = y
            for a, k in x.items():
                k += r.get(a, 0)
                if field:
                    k %= P_
                if k:
                    r[a] = k
                else:
                    r.pop(a, None)
        return r

    def integer(self, goal):
        """goal (signed integer coefficients) = 0 follows over the integers"""
        rows = self.lifted()
        if self.span([goal], rows, True):
            return True
        g = self.replaced(goal, self.isubs(), False)
        return g != goal and self.span([g], rows, True)

    def iv(self, p):
        """interval of an integer polynomial (unreduced coefficients); None: unbounded"""
        lo = hi = 0
        for m, c in p.items():
            a, b = 1, 1
            for v in m:
                r = self.getr(v)
                if r is None:
                    return None, None
                xs = [a * r[0], a * r[1], b * r[0], b * r[1]]
                a, b = min(xs), max(xs)
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        return lo, hi

    def atleast(self, p, k=0):
        """p >= k follows over the integers (p with integer coefficients)"""
        return any(self.atleast_(p, k, more) for more in (0, 1, 2))

    def atleast_(self, p, k, more):
        keep = {m for m in p if m}
        rows = []
        mons = set(keep)
        pend = self.lifted(more)
        if more == 2:                   # only what is left once constants are inserted
            fixed = {v for v, x in self.sol.items() if not set(x) - {()}}
            pend = [r for r in pend if not ip_vars(r) & fixed]
        ch = True
        while ch:
            ch = False
            for r in list(pend):
                if set(r) & mons:
                    pend.remove(r)
                    rows.append({m: Fraction(c) for m, c in r.items()})
                    mons |= {m for m in r if m}
                    ch = True
        # eliminate what links two rows and is not in the goal
        def sub(r, q, m):
            k = r[m] / q[m]
            z = dict(r)
            for mm, c in q.items():
                x = z.get(mm, 0) - k * c
                if x:
                    z[mm] = x
                else:
                    z.pop(mm, None)
            return z
        def bounded(rows):
            cand = [dict(p)]
            for r in rows:
                for z in list(cand):
                    m = next((m for m in sorted(keep, key=lambda x: (len(x), x), reverse=True) if m in r and m in z), None)
                    if m is not None:
                        cand.append(sub({a: Fraction(b) for a, b in z.items()}, r, m))
                if len(cand) > 200:
                    break
            for z in cand:
                lo, hi = self.iv(z)
                if lo is not None and lo >= k:
                    return True
            return False
        if bounded(rows):
            return True
        for _ in range(400):
            cnt = {}
            for r in rows:
                for m in r:
                    if m and m not in keep:
                        cnt[m] = cnt.get(m, 0) + 1
            link = [m for m, n in cnt.items() if n > 1]
            if not link:
                break
            m = min(link, key=lambda x: (cnt[x], x))
            q = min((r for r in rows if m in r), key=len)
            rows = [z for z in (sub(r, q, m) if m in r else r for r in rows if r is not q) if z]
        return bounded(rows)

    def excluded(self, boxes):
        """no assignment satisfies the constraints when every p of [(p, lo, hi)] lies in its interval.
        Every such p must have a known digit expansion."""
        # the digits of p above hi vanish
        zero = set()
        for p, lo, hi in boxes:
            if lo != 0 or hi & (hi + 1):
                return False
            m = self.expansion(p)
            if m is None:
                return False
            zero |= {v for i, b in m.items() if i >= hi.bit_length() for mm in b for v in mm}
        rows = list(self.rows)
        while True:
            rows = [{m: c for m, c in r.items() if not (set(m) & zero)} for r in rows]
            if any(r and not set(r) - {()} for r in rows):
                return True
            new = {m[0] for r in rows if len(r) == 1 for m in r if len(m) == 1} - zero
            if not new:
                return self.span([{(): 1}], [r for r in rows if r], False)
            zero |= new

    def expansion(self, p):
        """{weight: digit} with p = sum of boolean digits times powers of two, among the rows"""
        for r in self.rows + [self.partial(x) for x in self.rows]:
            vs = ip_vars(p)
            m0 = next(iter(m for m in p if m), None)
            if m0 is None or m0 not in r:
                continue
            q = ip_add(ip_scale(p, r[m0] * inv(p[m0]) % P_), r, -1)     # k p - r, r = 0
            k = inv(r[m0] * inv(p[m0]) % P_)
            q = ip_scale(q, k)                                          # p = q
            out = {}
            for m, c in q.items():
                if len(m) != 1 or c & (c - 1) or self.getr(m[0]) != (0, 1):
                    out = None
                    break
                out[c.bit_length() - 1] = {m: 1}
            if out:
                return out
        return None

    def implied(self):
        """bounds that follow from comparison indicators with a known value"""
        if self.__dict__.get("implieddone"):
            return
        self.implieddone = True
        for r in list(self.rows):
            if len(r) > 4:
                continue
            ms = [m for m in r if m]
            if not (len(ms) == 1 and len(ms[0]) == 1 and ms[0][0] in self.I.args):
                r = self.deep(r)
                ms = [m for m in r if m]
            if len(ms) != 1 or len(ms[0]) != 1:
                continue
            a = self.I.args.get(ms[0][0])
            if a is None or a[0] != "ge":
                continue
            a = (a[0], [self.deep(x) for x in a[1]])
            val = -r.get((), 0) * inv(r[ms[0]]) % P_
            if val not in (0, 1):
                continue
            named = self.named()
            nats = a[1][1:]
            if len(nats) > 1:
                continue
            small = not nats and self.ir(a[1][0])
            small = bool(small) and -(P_ // 4) < small[0] and small[1] < P_ // 4
            for X, l, h in [(X, l, h) for X, l, h, _ in self.frng] + [(q, x[0], x[1]) for q, x in named]:
                X2 = self.deep(X)
                for s in (1, -1):
                    c = ip_add(a[1][0], X2, s)      # the indicator is [c - s X >= 0]
                    if set(c) - {()}:
                        continue
                    c = sgn(c.get((), 0))
                    if not small:
                        # the integer is that of X up to a constant
                        if len(nats) != 1:
                            continue
                        k = ip_add(X2, nats[0], -1)
                        if set(k) - {()}:
                            continue
                        k = sgn(k.get((), 0))
                        if l - k < 0 or h - k >= P_ // 2:
                            continue
                    if s == 1 and l <= c <= h:
                        self.frng.append((X, l, c, None) if val else (X, c + 1, h, None))
                    elif s == -1 and l <= -c <= h:
                        self.frng.append((X, -c, h, None) if val else (X, l, -c - 1, None))

    def named(self):
        """the expressions that fresh names stand for, with their ranges"""
        n = (len(self.rows), len(self.sol))
        if self.__dict__.get("namedn") != n:
            self.namedn, self.namedl = n, []
            for r in self.rows:
                for m in r:
                    if len(m) == 1 and self.I.names[m[0]][0] == "aux" and m[0] in self.rng and all(m[0] not in x for x in r if x != m):
                        k = inv(r[m])
                        self.namedl.append(({x: -c * k % P_ for x, c in r.items() if x != m}, m[0]))
        return [(q, self.rng[u]) for q, u in self.namedl]

    def within(self, p, lo, hi):
        """lo <= p <= hi follows, p read as the field element of that interval"""
        self.implied()
        # through a fresh name
        ms = [m for m in p if m]
        if len(ms) == 1 and len(ms[0]) == 1:
            v = ms[0][0]
            r = self.rng.get(v)
            if r is not None:
                q = self.ir(p)
                if q is not None and lo <= q[0] and q[1] <= hi:
                    return True
        # the rows that bound it, up to sign and a constant, together
        pk = self.deep(p)
        blo, bhi = -(P_ // 4), P_ // 4
        for X, l, h in [(X, l, h) for X, l, h, _ in self.frng] + [(q, x[0], x[1]) for q, x in self.named()]:
            if len(X) > 12:
                continue
            q = self.deep(X)
            for s in (1, -1):
                d = ip_add(q, pk, -s)
                if set(d) - {()}:
                    continue
                k = sgn(d.get((), 0))           # X = s p + k
                x, y = sorted((s * (l - k), s * (h - k)))
                if lo <= x and y <= hi:
                    return True
                if -(P_ // 4) < x and y < P_ // 4:
                    blo, bhi = max(blo, x), min(bhi, y)
        return lo <= blo and bhi <= hi

    def free_wires(self):
        return [v for v in self.I.info if not self.is_known(v) and not self.I.info[v]["inp"]]


def ip_subst(p, v, s):
    r = {}
    for m, c in p.items():
        n = m.count(v)
        if not n:
            r = ip_add(r, {m: c})
        else:
            r = ip_add(r, ip_mul({tuple(x for x in m if x != v): c}, ip_pow(s, n)))
    return r


def ip_rewrite(p, m, s):
    r = {}
    for mm, c in p.items():
        l = list(mm)
        ok = True
        for v in m:
            if v in l:
                l.remove(v)
            else:
                ok = False
                break
        if ok:
            r = ip_add(r, ip_mul({tuple(l): c}, s))
        else:
            r = ip_add(r, {mm: c})
    return r
