"""The value domain: polynomials with rational coefficients over interned atoms.

An abstract number (usize, BigInt, field element, linear combination, boolean as 0/1)
is a `Poly`.  The same polynomial stands for an integer and for its image in the field
(the embedding is a ring homomorphism).  Two expressions that a compiler's value
numbering / scalar evolution would identify get the same normal form:
  * ring laws, powers with symbolic exponents, floor division;
  * if-then-else as  c*a + (1-c)*b  over idempotent 0/1 conditions;
  * sums over a symbolic number of terms, with telescoping, Kronecker selection and
    closed forms.
Nothing here enumerates values.
"""
from fractions import Fraction
from math import gcd
from functools import lru_cache

F0, F1 = Fraction(0), Fraction(1)

# ---------------------------------------------------------------- atoms
_atoms = []            # id -> tuple
_atom_ids = {}
_atom_info = []        # id -> (sort, frozenset of leaf atom ids, height of sums)

# sorts: F field, Z integer, N integer >= 0, B 0/1
BOOL_KINDS = {"ge", "eqz", "bit", "any"}


class Poly:
    __slots__ = ("t", "h", "_lv", "_ht", "__weakref__")
    table = {}

    def __new__(cls, d):
        key = frozenset(d.items())
        p = cls.table.get(key)
        if p is None:
            p = object.__new__(cls)
            p.t = d
            p.h = hash(key)
            p._lv = None
            p._ht = None
            cls.table[key] = p
        return p

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    # ---- ring operations
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, F0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if self is ONE:
            return o
        if o is ONE:
            return self
        d = {}
        simple = True
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = mono_mul(m1, m2)
                if isinstance(r, tuple):
                    v = d.get(r, F0) + c1 * c2
                    if v:
                        d[r] = v
                    else:
                        d.pop(r, None)
                else:
                    for m3, c3 in r.t.items():
                        v = d.get(m3, F0) + c1 * c2 * c3
                        if v:
                            d[m3] = v
                        else:
                            d.pop(m3, None)
        return Poly(d)

    __rmul__ = __mul__

    def scale(self, f):
        if not f:
            return ZERO
        return Poly({m: c * f for m, c in self.t.items()})

    # ---- queries
    def const(self):
        if not self.t:
            return F0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def as_int(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def atom(self):
        """the single atom (coefficient one, exponent one), or None"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def mono(self):
        if len(self.t) == 1:
            return next(iter(self.t.items()))
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def leaves(self):
        """all atom ids, at any depth"""
        if self._lv is None:
            s = set()
            for a in self.atoms():
                s.add(a)
                s |= _atom_info[a][1]
            self._lv = frozenset(s)
        return self._lv

    def height(self):
        if self._ht is None:
            self._ht = max([_atom_info[a][2] for a in self.atoms()] or [0])
        return self._ht

    def has(self, aid):
        return aid in self.leaves()

    def __repr__(self):
        return show(self)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)}) if x else ZERO
    raise TypeError("not a number: %r" % (x,))


ZERO = Poly({})
ONE = Poly({(): F1})
TWO = Poly({(): Fraction(2)})


def _polys_of(t):
    for x in t:
        if isinstance(x, Poly):
            yield x
        elif isinstance(x, tuple):
            yield from _polys_of(x)


def atom_id(t):
    i = _atom_ids.get(t)
    if i is None:
        i = len(_atoms)
        _atom_ids[t] = i
        _atoms.append(t)
        lv = set()
        ht = 0
        for p in _polys_of(t):
            lv |= p.leaves()
            ht = max(ht, p.height())
        if t[0] == "sum":
            ht += 1
        _atom_info.append((atom_sort(t), frozenset(lv), ht))
    return i


def atom_sort(t):
    k = t[0]
    if k in BOOL_KINDS:
        return "B"
    if k in ("sym", "wire", "opq", "phi", "phie", "rec"):
        return t[-1]
    if k in ("lv", "bv"):
        return "N"
    if k == "pow":
        return "N" if is_int(t[1]) else "F"
    if k == "div":
        return "N" if nonneg_syntactic(t[1]) else "Z"
    if k == "nat":
        return "N"
    if k == "shabit":
        return "B"
    if k == "inv":
        return "F"
    if k == "sum":
        b = t[2]
        if is_int(b):
            return "N" if nonneg_syntactic(b) else "Z"
        return "F"
    if k == "app":
        return "N" if t[1] in ("nbits", "ceil", "trunc", "len", "count", "CAP", "NUMBITS") else ("Z" if t[1] in ("log2",) else "Z")
    raise ValueError(t)


def mk(*t):
    return Poly({((atom_id(t), 1),): F1})


def of_atom(a):
    return Poly({((a, 1),): F1})


def sort_of(a):
    return _atom_info[a][0]


def tup(a):
    return _atoms[a]


def sym(name, sort="F", idx=()):
    return mk("sym", name, tuple(P(i) for i in idx), sort)


_fresh = [0]


def fresh_lv():
    _fresh[0] += 1
    return mk("lv", _fresh[0])


def is_int(p):
    for m, c in p.t.items():
        for a, e in m:
            if sort_of(a) == "F" or (e < 0):
                return False
        # fractions are allowed: closed forms such as n(n-1)/2 are integers as a whole
    return True


def nonneg_syntactic(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if sort_of(a) not in ("N", "B"):
                return False
    return True


# ---------------------------------------------------------------- monomials
def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    pows = False
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    special = False
    bases = {}
    for a, e in d.items():
        if e == 0:
            continue
        t = _atoms[a]
        s = sort_of(a)
        if s == "B" and e > 1:
            e = 1
        if t[0] == "pow":
            b = t[1]
            if b in bases or e != 1:
                special = True
            bases.setdefault(b, []).append((a, e))
        elif t[0] in ("inv",):
            special = special or False
        out.append((a, e))
    out.sort()
    if not special:
        return tuple(out)
    r = Poly({tuple((a, e) for a, e in out if _atoms[a][0] != "pow"): F1})
    for b, l in bases.items():
        ex = ZERO
        for a, e in l:
            ex = ex + _atoms[a][2].scale(Fraction(e))
        pw = mk_pow(b, ex)
        # multiply without re-entering the same special case for ever
        r = r * pw
    return r


def _factor(n):
    f = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def mk_pow(base, ex):
    base, ex = P(base), P(ex)
    e = ex.as_int()
    if e is not None:
        if e == 0:
            return ONE
        b = base.const()
        if b is not None:
            if b == 0:
                return ZERO if e > 0 else mk("inv", ZERO)
            return P(b ** e)
        m = base.mono()
        if m is not None:
            mm, c = m
            if all(_atoms[a][0] != "pow" and not (sort_of(a) == "B") for a, _ in mm):
                return Poly({tuple((a, k * e) for a, k in mm): c ** e})
        if e > 0:
            r = ONE
            for _ in range(e):
                r = r * base
            return r
        if base.atom() is None and m is None:
            return mk_pow(mk_inv(base), P(-e))
    b = base.const()
    if b is not None:
        if b == 1:
            return ONE
        if b == 0:
            return eqz(ex)
        if b.denominator == 1 and b > 0:
            n = int(b)
            if n < 10 ** 6:
                f = _factor(n)
                if len(f) > 1 or list(f.values()) != [1]:
                    r = ONE
                    for p, k in f.items():
                        r = r * mk_pow(P(p), ex.scale(Fraction(k)))
                    return r
            c0 = ex.t.get((), F0)
            if c0 and c0.denominator == 1:
                rest = ex - P(c0)
                return mk("pow", base, rest).scale(Fraction(n) ** int(c0))
            return mk("pow", base, ex)
        if b.numerator == 1 and b > 0:
            return mk_pow(P(b.denominator), -ex)
    m = base.mono()
    if m is not None:
        mm, c = m
        if c != 1 or len(mm) > 1 or (len(mm) == 1 and mm[0][1] != 1) or (len(mm) == 1 and _atoms[mm[0][0]][0] == "pow"):
            r = mk_pow(P(c), ex) if c != 1 else ONE
            for a, k in mm:
                t = _atoms[a]
                if t[0] == "pow":
                    r = r * mk_pow(t[1], t[2] * ex.scale(Fraction(k)))
                else:
                    r = r * mk_pow(of_atom(a), ex.scale(Fraction(k)))
            return r
        if sort_of(mm[0][0]) == "B":
            # b^e = 1 - (1-b)*[e != 0]
            return ONE - (ONE - base) * (ONE - eqz(ex))
    # constant part of the exponent
    c0 = ex.t.get((), F0)
    if c0 and c0.denominator == 1 and ex.const() is None:
        return mk("pow", base, ex - P(c0)) * mk_pow(base, P(c0))
    return mk("pow", base, ex)


def log2p(p):
    """exponent e with p == 2^e, or None"""
    m = p.mono()
    if m is None:
        return None
    mm, c = m
    if c <= 0 or (c.numerator != 1 and c.denominator != 1):
        return None
    n, d = c.numerator, c.denominator
    if n & (n - 1) or d & (d - 1):
        return None
    e = P(n.bit_length() - 1) - P(d.bit_length() - 1)
    for a, k in mm:
        t = _atoms[a]
        if t[0] == "pow" and t[1].as_int() == 2:
            e = e + t[2].scale(Fraction(k))
        else:
            return None
    return e


def mk_inv(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return P(1 / c) if c else mk("inv", ZERO)
    m = p.mono()
    if m is not None:
        mm, c = m
        if all(sort_of(a) != "B" and _atoms[a][0] != "pow" for a, _ in mm):
            return Poly({tuple((a, -k) for a, k in mm): 1 / c})
        if len(mm) == 1 and _atoms[mm[0][0]][0] == "pow":
            t = _atoms[mm[0][0]]
            return mk_pow(t[1], -t[2]).scale(1 / c)
    # sign normalisation
    s = lead_sign(p)
    if s < 0:
        return -mk("inv", -p)
    return mk("inv", p)


# a total order on atoms that does not depend on the order of their creation
_akey = {}


def akey(a):
    k = _akey.get(a)
    if k is None:
        k = show_atom(a)
        _akey[a] = k
    return k


_mkey = {}


def mkey(m):
    k = _mkey.get(m)
    if k is None:
        k = (sum(abs(e) for _, e in m), sorted((akey(a), e) for a, e in m))
        _mkey[m] = k
    return k


def lead_sign(p):
    best = None
    for m, c in p.t.items():
        if m == ():
            continue
        k = mkey(m)
        if best is None or k > best[0]:
            best = (k, c)
    if best is None:
        c = p.t.get((), F0)
        return 1 if c >= 0 else -1
    return 1 if best[1] > 0 else -1


def content(p, with_const=True):
    from math import gcd
    num, den = 0, 1
    for m, c in p.t.items():
        if m == () and not with_const:
            continue
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
    return Fraction(num, den) if num else F1


def is_bool(p):
    """syntactically 0/1"""
    c = p.const()
    if c is not None:
        return c in (0, 1)
    if len(p.t) > 24:
        return False
    for m in p.t:
        for a, e in m:
            if sort_of(a) != "B":
                return False
    return (p * p) is p


def eqz(p):
    """[p == 0] as a 0/1 polynomial"""
    p = P(p)
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if is_bool(p):
        return ONE - p
    if is_bool(p + 1):          # p = b - 1
        return p + 1
    if len(p.t) in (2, 3):
        for s in (ONE, P(-1)):
            f = match_bits(s * p + 1) if len(p.t) == 3 else match_bits(s * p)
            if f is not None and f[2] is ONE:
                b = mk_bit(f[0], f[1])
                return b if len(p.t) == 3 else ONE - b
    p = p.scale(1 / content(p))
    if lead_sign(p) < 0:
        p = -p
    m = p.mono()
    if m is not None:
        # a product is zero iff a factor is; powers of positive integers never are
        mm, _ = m
        nz = ONE
        fs = []
        for a, k in mm:
            t = _atoms[a]
            if t[0] == "pow" and t[1].const() is not None and t[1].const() > 0:
                continue
            fs.append(a)
        if not fs:
            return ZERO
        if len(fs) > 1 or len(fs) != len(mm) or mm[0][1] != 1:
            for a in fs:
                x = of_atom(a)
                nz = nz * (x if sort_of(a) == "B" else ONE - eqz(x))
            return ONE - nz
    # 0/1-affine: eqz(x*b + ...) left as is
    return mk("eqz", p)


def ge(p):
    """[p >= 0] for an integer-valued p"""
    p = P(p)
    c = p.const()
    if c is not None:
        return ONE if c >= 0 else ZERO
    ct = content(p, with_const=False)
    p = p.scale(1 / ct)
    c0 = p.t.get((), F0)
    if c0.denominator != 1:
        import math
        p = p - P(c0) + P(math.floor(c0))
    if nonneg_syntactic(p):
        return ONE
    if nonneg_syntactic(-p - 1):
        return ZERO
    # boolean affine forms b - 1 >= 0, -b >= 0
    if is_bool(p + 1):
        return p + 1
    if is_bool(-p):
        return ONE + p
    if lead_sign(p) < 0:
        return ONE - mk("ge", -p - 1)
    return mk("ge", p)


def gt(a, b):
    return ge(P(a) - P(b) - 1)


def lt(a, b):
    return ge(P(b) - P(a) - 1)


def le(a, b):
    return ge(P(b) - P(a))


def eq(a, b):
    return eqz(P(a) - P(b))


def ite(c, a, b):
    a, b = P(a), P(b)
    if a is b:
        return a
    return c * a + (ONE - c) * b


def b_and(a, b):
    return a * b


def b_or(a, b):
    return a + b - a * b


def b_not(a):
    return ONE - a


def _int_terms(p):
    return all(c.denominator == 1 for c in p.t.values())


QUOTIENTS = {}      # quotients known by the way an analysis names its numbers


def mk_div(a, b):
    """floor(a / b), b > 0"""
    a, b = P(a), P(b)
    bc = b.const()
    if bc == 1:
        return a
    if QUOTIENTS:
        q = QUOTIENTS.get((a, b))
        if q is not None:
            return q
    ac = a.const()
    if ac is not None and bc is not None and bc > 0:
        return P((ac / bc).__floor__())
    if not a.t:
        return ZERO
    m = b.mono()
    q = ZERO
    if m is not None:
        bm, c = m
        binv = {x: -k for x, k in bm}
        for am, k in a.t.items():
            if k.denominator != 1:
                continue
            r = mono_mul(am, tuple(sorted(binv.items())))
            term = (Poly({r: F1}) if isinstance(r, tuple) else r).scale(k / c)
            tm = term.mono()
            if not am and not bm and tm is not None and tm[1] >= 1:
                term = P(tm[1].__floor__())
                tm = term.mono()
            if tm is None or tm[1].denominator != 1:
                continue
            ok = True
            for x, e in tm[0]:
                t = _atoms[x]
                if e < 0:
                    ok = False
                if t[0] == "pow" and not nonneg_syntactic(t[2]):
                    # 2^(e) with e possibly negative
                    ok = False
                if sort_of(x) == "F":
                    ok = False
            if ok:
                q = q + term
    if q.t:
        return q + mk_div(a - q * b, b)
    at = a.atom()
    if at is not None:
        t = _atoms[at]
        if t[0] == "div" and nonneg_syntactic(b):
            return mk_div(t[1], t[2] * b)
        if t[0] == "bit" and bc is not None and bc > 1:
            return ZERO
    if is_bool(a) and bc is not None and bc > 1:
        return ZERO
    if bc is not None and bc > 1 and bc.denominator == 1 and all(k.denominator == 1 for k in a.t.values()) and all(
            e > 0 and sort_of(x) != "F" for m in a.t for x, e in m):
        # floor((g y + r) / (g n)) = floor((y + floor(r / g)) / n)
        n = int(bc)
        gs = {m: gcd(int(k), n) for m, k in a.t.items()}
        g = min([x for x in gs.values() if x > 1], default=1)
        if g > 1:
            y = Poly({m: k / g for m, k in a.t.items() if k % g == 0})
            r = Poly({m: k for m, k in a.t.items() if k % g})
            return mk_div(y + mk_div(r, P(g)), P(n // g))
    return mk("div", a, b)


def mk_mod(a, b):
    a, b = P(a), P(b)
    if b.as_int() == 2:
        return mk_bit(a, ZERO)
    return a - b * mk_div(a, b)


def mk_bits(v, lo, w):
    """bits lo .. lo+w-1 of v"""
    v, lo, w = P(v), P(lo), P(w)
    if w.as_int() == 1:
        return mk_bit(v, lo)
    if w.as_int() == 0:
        return ZERO
    return mk_div(v, mk_pow(TWO, lo)) - mk_pow(TWO, w) * mk_div(v, mk_pow(TWO, lo + w))


def mk_bit(v, i):
    v, i = P(v), P(i)
    vc, ic = v.as_int(), i.as_int()
    if vc is not None and ic is not None:
        return P((vc >> ic) & 1)
    if vc == 0:
        return ZERO
    if is_bool(v):
        return v * eqz(i)
    at = v.atom()
    if at is not None:
        t = _atoms[at]
        if t[0] == "div":
            e = log2p(t[2])
            if e is not None:
                return mk_bit(t[1], i + e)
    # v = div(u,2^lo) - 2^w div(u,2^(lo+w)): a field of bits of u
    f = match_bits(v)
    if f is not None:
        u, lo, w = f
        d = w - i - 1
        if d.const() is not None and d.const() >= 0 or nonneg_syntactic(d) or _BOUND(d):
            return mk_bit(u, lo + i)
    return mk("bit", v, i)


def _BOUND(d):
    from . import logic
    return logic.nonneg(d)


def match_bits(v):
    """v == bits(u, lo, w) for some u, lo, w"""
    if len(v.t) != 2:
        return None
    items = sorted(v.t.items(), key=lambda x: -x[1])
    for (m1, c1), (m2, c2) in (items, items[::-1]):
        if c1 != 1:
            continue
        t1 = Poly({m1: F1})
        a1 = t1.atom()
        if a1 is not None and _atoms[a1][0] == "div":
            u = _atoms[a1][1]
            lo = log2p(_atoms[a1][2])
            if lo is None:
                continue
        else:
            u, lo = t1, ZERO
        # second: -2^w * div(u, 2^(lo+w))
        dv = None
        rest = []
        for a, e in m2:
            t = _atoms[a]
            if t[0] == "div" and e == 1 and dv is None:
                dv = t
            else:
                rest.append((a, e))
        if dv is None or dv[1] is not u:
            continue
        w = log2p(Poly({tuple(rest): -c2}))
        hi = log2p(dv[2])
        if w is None or hi is None or (hi - lo - w) is not ZERO:
            continue
        return u, lo, w
    return None


def mk_nat(p):
    """the natural number of a field element"""
    p = P(p)
    if is_int(p):
        return p
    at = p.atom()
    return mk("nat", p)


def embed(p):
    """the field element of an integer: nat(q) at top level is q again"""
    p = P(p)
    r = ZERO
    changed = False
    for m, c in p.t.items():
        term = P(c)
        for a, e in m:
            t = _atoms[a]
            if t[0] == "nat":
                x = t[1]
                changed = True
            else:
                x = of_atom(a)
            for _ in range(abs(e)):
                term = term * (x if e > 0 else mk_inv(x))
        r = r + term
    return r if changed else p


# ---------------------------------------------------------------- sums
def bv(h):
    return mk("bv", h)


EXPAND = 0          # sums of at most this many terms are written out


def mk_sum(n, var, body):
    """sum of body over var = 0 .. n-1"""
    n, body = P(n), P(body)
    va = var.atom()
    nc = n.as_int()
    if nc is not None and nc <= 0:
        return ZERO
    if not body.has(va):
        return n * body
    if nc == 1:
        return subst(body, {va: ZERO})
    if nc is not None and nc <= EXPAND:
        r = ZERO
        for i in range(nc):
            r = r + subst(body, {va: P(i)})
        return r
    # telescoping pairs
    terms = dict(body.t)
    total = ZERO
    for m in list(terms):
        if m not in terms:
            continue
        c = terms[m]
        tp = Poly({m: c})
        if not tp.has(va):
            continue
        sh = subst(tp, {va: var + 1})
        if len(sh.t) != 1:
            continue
        (m2, c2), = sh.t.items()
        if m2 in terms and terms[m2] == -c2 and m2 != m:
            # f(k) - f(k+1)
            total = total + subst(tp, {va: ZERO}) - subst(tp, {va: n})
            del terms[m]
            del terms[m2]
    # bits: sum 2^k bit(v, lo + k)
    out = total
    for m, c in terms.items():
        out = out + _sum_mono(n, var, va, m).scale(c)
    return out


def _sum_mono(n, var, va, m):
    inv, dep = [], []
    for a, e in m:
        if a == va or va in _atom_info[a][1]:
            dep.append((a, e))
        else:
            inv.append((a, e))
    pre = Poly({tuple(inv): F1})
    if not dep:
        return pre * n
    # exponents that depend on var: split off the invariant part
    dep2 = []
    for a, e in dep:
        t = _atoms[a]
        if t[0] == "pow" and t[2].has(va) and not t[1].has(va):
            ex0, ex1 = ZERO, ZERO
            for mm, c in t[2].t.items():
                x = Poly({mm: c})
                if x.has(va):
                    ex1 = ex1 + x
                else:
                    ex0 = ex0 + x
            if ex0.t:
                pre = pre * mk_pow(t[1], ex0)
                q = mk_pow(t[1], ex1)
                (qm, qc), = q.t.items()
                pre = pre.scale(qc)
                dep2 += list(qm)
                continue
        dep2.append((a, e))
    dep = tuple(sorted(dep2))
    return pre * _sum_dep(n, var, va, dep)


def linear_in(p, va):
    """p = a*var + b with a, b free of var; (a, b) or None"""
    a, b = ZERO, ZERO
    for m, c in p.t.items():
        d = dict(m)
        if va in d:
            if d[va] != 1:
                return None
            del d[va]
            q = Poly({tuple(sorted(d.items())): c})
            if q.has(va):
                return None
            a = a + q
        else:
            q = Poly({m: c})
            if q.has(va):
                return None
            b = b + q
    return a, b


def _has_kron(a, va):
    t = _atoms[a]
    if t[0] == "eqz" and t[1].has(va):
        l = linear_in(t[1], va)
        return l is not None and l[0].as_int() in (1, -1)
    if t[0] == "sum":
        return any(_has_kron(x, va) for x in t[2].leaves())
    return False


def _sum_dep(n, var, va, dep):
    body = Poly({dep: F1})
    if len(dep) == 1:
        a, e = dep[0]
        if a == va:
            if e == 1:
                return (n * n - n).scale(Fraction(1, 2))
            if e == 2:
                return (n * n * n).scale(Fraction(1, 3)) - (n * n).scale(Fraction(1, 2)) + n.scale(Fraction(1, 6))
    # geometric with a constant ratio
    if all(_atoms[a][0] == "pow" and _atoms[a][1].const() is not None for a, e in dep):
        ratio = F1
        ok = True
        for a, e in dep:
            t = _atoms[a]
            l = linear_in(t[2], va)
            k = l[0].as_int() if l else None
            if k is None:
                ok = False
                break
            ratio *= t[1].const() ** k
        if ok and ratio != 1:
            first = subst(body, {va: ZERO})
            last = subst(body, {va: n})
            return (last - first).scale(1 / (ratio - 1))
    # Kronecker selection
    for a, e in dep:
        t = _atoms[a]
        if t[0] == "eqz":
            l = linear_in(t[1], va)
            if l is not None and l[0].as_int() in (1, -1):
                k = -l[1] if l[0].as_int() == 1 else l[1]
                if _BOUND(k) and _BOUND(n - 1 - k):
                    rest = Poly({tuple(x for x in dep if x[0] != a): F1})
                    return subst(rest, {va: k})
                if _BOUND(-k - 1) or _BOUND(k - n):
                    return ZERO
                continue
            # [floor(var/g) == j] f(var)
            f = match_group(t[1], va)
            if f is not None:
                g, j = f
                if not (_BOUND(j) and _BOUND(g - 1)):
                    continue
                rest = Poly({tuple(x for x in dep if x[0] != a): F1})
                r = fresh_lv()
                cnt = p_min(g, n - g * j)
                b2 = subst(rest, {va: g * j + r})
                return mk_sum(cnt, r, reduce_div(b2, r, g))
    # swap with an inner sum when that allows a selection
    for a, e in dep:
        t = _atoms[a]
        if t[0] == "sum" and e == 1 and not t[1].has(va) and _has_kron(a, va):
            v2, b2 = open_sum(t)
            rest = Poly({tuple(x for x in dep if x[0] != a): F1})
            from . import logic
            with logic.assuming(ge=[v2, t[1] - 1 - v2]):
                inner = mk_sum(n, var, rest * b2)
                if not any(_atoms[x][0] == "eqz" for x in inner.leaves() - rest.leaves()):
                    return mk_sum(t[1], v2, inner)
    # bits of a number
    for a, e in dep:
        t = _atoms[a]
        if t[0] == "bit" and e == 1 and not t[1].has(va):
            l = linear_in(t[2], va)
            rest = Poly({tuple(x for x in dep if x[0] != a): F1})
            if l is not None and l[0] is ONE and rest is mk_pow(TWO, var):
                v, lo = t[1], l[1]
                return mk_div(v, mk_pow(TWO, lo)) - mk_pow(TWO, n) * mk_div(v, mk_pow(TWO, lo + n))
            if l is not None and l[0] is P(-1) and rest is mk_pow(TWO, -var):
                # reversed: sum 2^-k bit(v, lo - k), k < n
                v, lo = t[1], l[1]
                s = mk_div(v, mk_pow(TWO, lo - n + 1)) - mk_pow(TWO, n) * mk_div(v, mk_pow(TWO, lo + 1))
                return mk_pow(TWO, ONE - n) * s
    # choose a canonical direction
    pre1, f1 = _split_inv(body, va)
    rv = subst(body, {va: n - 1 - var})
    pre2, f2 = _split_inv(rv, va) if len(rv.t) == 1 else (None, None)
    b1 = subst(f1, {va: bv(f1.height())})
    if f2 is not None:
        b2 = subst(f2, {va: bv(f2.height())})
        k1, k2 = show(b1), show(b2)
        if (len(k2), k2) < (len(k1), k1):
            return pre2 * mk("sum", n, b2)
    return pre1 * mk("sum", n, b1)


def _split_inv(p, va):
    (m, c), = p.t.items()
    inv, dep = [], []
    for a, e in m:
        (dep if (a == va or va in _atom_info[a][1]) else inv).append((a, e))
    pre = Poly({tuple(inv): c})
    dep2 = ONE
    for a, e in dep:
        t = _atoms[a]
        if t[0] == "pow" and not t[1].has(va):
            ex0, ex1 = ZERO, ZERO
            for mm, cc in t[2].t.items():
                x = Poly({mm: cc})
                if x.has(va):
                    ex1 = ex1 + x
                else:
                    ex0 = ex0 + x
            if ex0.t:
                pre = pre * mk_pow(t[1], ex0)
                dep2 = dep2 * mk_pow(t[1], ex1)
                continue
        dep2 = dep2 * Poly({((a, e),): F1})
    (m2, c2), = dep2.t.items()
    return pre.scale(c2), Poly({m2: F1})


def match_group(p, va):
    """p = +-(div(var, g) - j)"""
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            t = _atoms[m[0][0]]
            if t[0] == "div" and t[1].atom() == va and not t[2].has(va):
                j = (Poly({m: c}) - p).scale(1 / c)
                if not j.has(va):
                    return t[2], j
    return None


def reduce_div(p, r, g):
    """simplify div(r, g) to 0 (0 <= r < g)"""
    d = mk_div(r, g)
    a = d.atom()
    if a is None:
        return p
    return subst(p, {a: ZERO})


def p_min(a, b):
    """min(a, b) as a 0/1-polynomial"""
    a, b = P(a), P(b)
    d = a - b
    c = d.const()
    if c is not None:
        return a if c <= 0 else b
    return ite(ge(b - a), a, b)


def p_max(a, b):
    a, b = P(a), P(b)
    c = (a - b).const()
    if c is not None:
        return a if c >= 0 else b
    return ite(ge(a - b), a, b)


def open_sum(t):
    """(fresh var, body) of a sum atom"""
    n, b = t[1], t[2]
    v = fresh_lv()
    h = b.height()
    return v, subst(b, {atom_id(("bv", h)): v})


# ---------------------------------------------------------------- substitution
def subst(p, mp, memo=None):
    """simultaneous substitution of atoms (ids) by polynomials"""
    if not mp:
        return p
    if memo is None:
        memo = {}
    keys = frozenset(mp)
    return _subst(p, mp, keys, memo)


def _subst(p, mp, keys, memo):
    if not (p.leaves() & keys):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    r = ZERO
    acc = {}
    for m, c in p.t.items():
        if not any((a in keys) or (_atom_info[a][1] & keys) for a, _ in m):
            acc[m] = acc.get(m, F0) + c
            continue
        term = P(c)
        for a, e in m:
            if a in keys:
                x = mp[a]
            elif _atom_info[a][1] & keys:
                x = _subst_atom(a, mp, keys, memo)
            else:
                x = None
            if x is None:
                term = term * Poly({((a, e),): F1})
            elif e > 0:
                for _ in range(e):
                    term = term * x
            else:
                xi = mk_inv(x)
                for _ in range(-e):
                    term = term * xi
        r = r + term
    r = r + Poly({m: c for m, c in acc.items() if c})
    memo[p] = r
    return r


def _subst_atom(a, mp, keys, memo):
    t = _atoms[a]
    if t[0] == "sum":
        v, b = open_sum(t)
        n = _subst(t[1], mp, keys, memo)
        return mk_sum(n, v, subst(b, mp))
    s = lambda x: _subst(x, mp, keys, memo) if isinstance(x, Poly) else (tuple(s(y) for y in x) if isinstance(x, tuple) else x)
    return rebuild(t, [s(x) for x in t[1:]])


def rebuild(t, args):
    k = t[0]
    if k == "pow":
        return mk_pow(args[0], args[1])
    if k == "div":
        return mk_div(args[0], args[1])
    if k == "bit":
        return mk_bit(args[0], args[1])
    if k == "nat":
        return mk_nat(args[0])
    if k == "inv":
        return mk_inv(args[0])
    if k == "ge":
        return ge(args[0])
    if k == "eqz":
        return eqz(args[0])
    if k == "app":
        return mk_app(args[0], *args[1:])
    if k == "any":
        return mk_any(args[0], args[1], args[2])
    if k == "sum":
        raise AssertionError
    return mk(k, *args)


def mk_any(n, var, c):
    """[exists var < n with c]"""
    return mk("any", n, var, c)


def mk_app(name, *args):
    args = tuple(args)
    if name == "sorted":
        # in any order
        args = args[:1] + tuple(sorted(args[1:], key=repr))
        if len(args) == 2:
            return args[1]
    if name == "trunc":
        p = args[0]
        # trunc(integer + c), 0 <= c < 1
        c0 = p.t.get((), F0)
        rest = p - P(c0)
        if is_int(rest) and _int_terms(rest) and all(
                tup(a)[0] == "app" and tup(a)[1] in ("ceil", "floor") or sort_of(a) in "ZNB" and tup(a)[0] != "app"
                for a in rest.atoms()):
            return rest + P(c0.__floor__())
    if name == "ceil":
        p = args[0]
        # pull integer parts out
        ip = ZERO
        for m, c in p.t.items():
            if c.denominator == 1 and all(tup(a)[0] != "app" or tup(a)[1] in ("ceil", "trunc", "nbits") for a, _ in m) \
                    and all(sort_of(a) in "ZNB" and e > 0 for a, e in m):
                ip = ip + Poly({m: c})
        rest = p - ip
        if not rest.t:
            return ip
        if ip.t:
            return ip + mk("app", "ceil", rest)
    if name == "log2":
        p = args[0]
        e = log2p(p)
        if e is not None:
            return e
        ct = content(p)
        if ct.denominator == 1:
            n = int(ct)
            k = (n & -n).bit_length() - 1
            if k:
                return P(k) + mk("app", "log2", p.scale(Fraction(1, 1 << k)))
    if name == "nbits":
        c = args[0].as_int()
        if c is not None:
            return P(abs(c).bit_length())
        e = log2p(args[0] + 1)
        if e is not None:
            return e
        e = log2p(args[0])
        if e is not None:
            return e + 1
    return mk("app", name, *args)


# ---------------------------------------------------------------- printing
def show_atom(a):
    t = _atoms[a]
    k = t[0]
    if k == "sym":
        return t[1] + ("(" + ",".join(map(show, t[2])) + ")" if t[2] else "")
    if k == "wire":
        return "w[" + str(t[1]) + "]" + ("(" + ",".join(map(show, t[2])) + ")" if t[2] else "")
    if k == "lv":
        return "k%d" % t[1]
    if k == "bv":
        return "_%d" % t[1]
    if k == "pow":
        return "(%s)^(%s)" % (show(t[1]), show(t[2]))
    if k == "sum":
        return "Sum[_%d<%s](%s)" % (t[2].height(), show(t[1]), show(t[2]))
    parts = []
    for x in t[1:]:
        if isinstance(x, Poly):
            parts.append(show(x))
        elif isinstance(x, tuple):
            parts.append("(" + ",".join(show(y) if isinstance(y, Poly) else str(y) for y in x) + ")")
        else:
            parts.append(str(x))
    return "%s(%s)" % (k, ",".join(parts))


_show = {}


def show(p):
    s = _show.get(p)
    if s is not None:
        return s
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: mkey(x[0]), reverse=True):
        fs = []
        for a, e in sorted(m, key=lambda x: akey(x[0])):
            fs.append(akey(a) + ("^%d" % e if e != 1 else ""))
        f = "*".join(fs)
        if not f:
            f = str(abs(c))
        elif abs(c) != 1:
            f = "%s*%s" % (abs(c), f)
        out.append(("-" if c < 0 else "+") + f)
    s = "".join(out)
    if s.startswith("+"):
        s = s[1:]
    _show[p] = s
    return s
