"""Random interpretation of closed forms (Gulwani and Necula's alternative to full decision
procedures for value numbering).

Two closed forms that the normaliser could not identify are interpreted at random points of
their parameters (sizes, bounds, field elements).  A point at which they differ refutes the
equality and is reported with it; agreement on every point leaves the equality undecided.
Only closed forms that the abstract interpretation derived are interpreted here: no
statement of the analysed program is run.
"""
import random
from fractions import Fraction
from .terms import *
from .terms import _atoms
from . import terms as T

PRIME = 0x40000000000000000000000000000000224698FC094CF91B992D30ED00000001   # 255 bits
NBITS = 255


class Undef(Exception):
    """this point is outside the domain of the closed form"""


class Env:
    def __init__(self, rng, gens=None):
        self.rng = rng
        self.v = {}
        self.gens = gens or {}
        self.memo = {}
        self.bias = rng.choice((None, None, 0, 1)) if rng is not None else None     # towards the least or the greatest values

    # ------------------------------------------------------------ leaves
    def leaf(self, kind, name, idx, sort):
        if name == "NUMBITS":
            return NBITS
        key = (kind, name, idx)
        if key in self.v:
            return self.v[key]
        g = self.gens.get((kind, name)) or self.gens.get(name)
        if g is not None:
            x = g(self, idx) if callable(g) else g
        else:
            x = self.draw(sort)
        self.v[key] = x
        return x

    def draw(self, sort):
        r = self.rng
        if sort == "B":
            return r.randrange(2)
        if sort == "N":
            return r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6])
        if sort == "Z":
            return r.randrange(-5, 6)
        return r.choice([0, 1, 2, 3, r.randrange(1 << 8), r.randrange(1 << 34), r.randrange(PRIME), PRIME - 1])

    # ------------------------------------------------------------ polynomials
    def ev(self, p, b=None):
        """value of p: an exact rational when p is over the integers, else a residue"""
        b = b or {}
        if is_int(p):
            r = self.raw(p, b, False)
            return r
        return self.raw(p, b, True)

    def int(self, p, b=None):
        r = self.ev(p, b)
        if isinstance(r, Fraction):
            if r.denominator != 1:
                raise Undef("not an integer")
            r = int(r)
        return r

    def field(self, p, b=None):
        r = self.ev(p, b)
        if isinstance(r, Fraction):
            return r.numerator * pow(r.denominator, -1, PRIME) % PRIME
        return r % PRIME

    def raw(self, p, b, fld):
        tot = 0 if fld else Fraction(0)
        for m, c in p.t.items():
            if fld:
                x = c.numerator * pow(c.denominator, -1, PRIME) % PRIME
            else:
                x = c
            for a, e in m:
                if x == 0:
                    break
                y = self.atom(a, b)
                if fld:
                    if isinstance(y, Fraction):
                        y = y.numerator * pow(y.denominator, -1, PRIME)
                    y %= PRIME
                    x = x * pow(y, e, PRIME) % PRIME if e >= 0 else x * pow(pow(y, -1, PRIME) if y else 0, -e, PRIME) % PRIME
                else:
                    if e < 0:
                        if y == 0:
                            raise Undef("division by zero")
                        x = x / (Fraction(y) ** (-e))
                    else:
                        x = x * (y ** e if e != 1 else y)
            tot = tot + x
        if fld:
            return tot % PRIME
        return int(tot) if tot.denominator == 1 else tot

    def atom(self, a, b):
        if a in b:
            return b[a]
        t = _atoms[a]
        closed = not (b and (T._atom_info[a][1] & b.keys()))
        if closed and a in self.memo:
            return self.memo[a]
        r = self.atom_(a, t, b)
        if closed:
            self.memo[a] = r
        return r

    def atom_(self, a, t, b):
        k = t[0]
        if k == "sym" or k == "wire":
            return self.leaf(k, t[1], tuple(self.int(i, b) for i in t[2]), t[-1])
        if k == "pow":
            ex = self.int(t[2], b)
            if ex > 20000 or ex < -20000:
                raise Undef("huge power")
            if is_int(t[1]):
                base = self.int(t[1], b)
                if ex < 0:
                    if base == 0:
                        raise Undef("division by zero")
                    return Fraction(1, base ** -ex)
                return base ** ex
            return pow(self.field(t[1], b), ex, PRIME)
        if k == "ge":
            x = self.ev(t[1], b)
            return 1 if x >= 0 else 0
        if k == "eqz":
            x = self.ev(t[1], b)
            return 1 if x == 0 else 0
        if k == "div":
            y = self.int(t[2], b)
            x = self.ev(t[1], b)
            if y <= 0:
                raise Undef("division by %d" % y)
            return (x // y) if not isinstance(x, Fraction) else x.__floordiv__(y)
        if k == "bit":
            x, i = self.int(t[1], b), self.int(t[2], b)
            if i < 0 or i > 100000 or x < 0:
                raise Undef("bit")
            return (x >> i) & 1
        if k == "nat":
            return self.field(t[1], b)
        if k == "inv":
            x = self.field(t[1], b)
            return pow(x, -1, PRIME) if x else 0
        if k == "sum":
            n = self.int(t[1], b)
            if n > 4000:
                raise Undef("long sum")
            v = atom_id(("bv", t[2].height()))
            f = not is_int(t[2])
            tot = 0
            for i in range(max(n, 0)):
                b2 = dict(b)
                b2[v] = i
                x = self.ev(t[2], b2)
                tot = (tot + x) % PRIME if f else tot + x
            return tot
        if k == "any":
            n = self.int(t[1], b)
            va = t[2].atom()
            for i in range(max(n, 0)):
                b2 = dict(b)
                b2[va] = i
                if self.int(t[3], b2):
                    return 1
            return 0
        if k == "app":
            return self.app(t, b)
        if k == "lv":
            if "lv" in self.gens:
                key = ("lv", t[1], ())
                if key not in self.v:
                    self.v[key] = self.gens["lv"](self, t[1])
                return self.v[key]
            raise Undef("free index")
        if k == "shabit":
            return self.shabit(t, b)
        if k == "rec":
            return self.rec(t, b)
        raise Undef("atom " + k)

    def app(self, t, b):
        n = t[1]
        if n == "nbits":
            return abs(self.int(t[2], b)).bit_length()
        if n in ("bitand", "bitor", "bitxor"):
            x, y = self.int(t[2], b), self.int(t[3], b)
            return x & y if n == "bitand" else x | y if n == "bitor" else x ^ y
        if n == "tdiv":
            x, y = self.int(t[2], b), self.int(t[3], b)
            if y == 0:
                raise Undef("division by zero")
            q = abs(x) // abs(y)
            return q if (x < 0) == (y < 0) else -q
        if n == "NUMBITS":
            return NBITS
        if n == "sorted":
            return sorted(self.int(x, b) for x in t[3:])[self.int(t[2], b)]
        if isinstance(n, str) and n.startswith("sorted"):
            from . import models
            key = ("sorted", n)
            if key not in self.v or b:
                self.v[key] = sorted(self.seq(models.SORTED[int(n[6:])], b))
            i = self.int(t[2], b)
            if not 0 <= i < len(self.v[key]):
                raise Undef("index")
            return self.v[key][i]
        if n == "CAP":
            return NBITS - 1
        if n == "ceil":
            x = self.flt(t[2], b)
            return -((-x) // 1) if isinstance(x, (int, Fraction)) else int(__import__("math").ceil(x))
        if n == "floor":
            x = self.flt(t[2], b)
            return x // 1
        if n == "trunc":
            x = self.flt(t[2], b)
            return int(x)
        if n == "log2":
            import math
            x = self.flt(t[2], b)
            if x <= 0:
                raise Undef("log2")
            if isinstance(x, int) and x & (x - 1) == 0:
                return x.bit_length() - 1
            return math.log2(x)
        raise Undef("app " + str(n))

    def flt(self, p, b):
        tot = Fraction(0)
        for m, c in p.t.items():
            x = c
            for a, e in m:
                y = self.atom(a, b)
                x = x * (y ** e)
            tot = tot + x
        if isinstance(tot, Fraction) and tot.denominator == 1:
            return int(tot)
        return tot

    def seq(self, s, b):
        """the numbers of a sequence"""
        out = []
        for n, var, body in s.segs:
            k = self.int(n, b) if var is not None else 1
            if k > 4000:
                raise Undef("long sequence")
            for i in range(max(k, 0)):
                b2 = dict(b)
                if var is not None:
                    b2[var.atom()] = i
                out.append(self.int(body, b2))
        return out

    def shabit(self, t, b):
        import hashlib
        from . import models
        key = ("sha", t[1])
        if key not in self.v and "sha" in self.gens:
            self.v[key] = self.gens["sha"](self, t[1])
        if key not in self.v:
            bits = self.seq(models.SHA[t[1]], b)
            if len(bits) % 8:
                raise Undef("sha input")
            by = bytes(sum(bits[8 * i + k] << (7 - k) for k in range(8)) for i in range(len(bits) // 8))
            self.v[key] = hashlib.sha256(by).digest()
        i = self.int(t[2], b)
        if not 0 <= i < 256:
            raise Undef("sha bit")
        return (self.v[key][i // 8] >> (7 - i % 8)) & 1

    def rec(self, t, b):
        from . import loops
        i = t[1]
        d = loops.RECDEF.get(int(i[1:])) if i.startswith("R") else None
        if d is None:
            raise Undef("recurrence")
        v0, s, phi, k = d
        n = self.int(t[2], b)
        if n > 400:
            raise Undef("recurrence length")
        x = self.ev(v0, b)
        for q in range(n):
            b2 = dict(b)
            b2[phi.atom()] = x
            b2[k.atom()] = q
            x = self.ev(s, b2)
        return x


def ok_facts(env, ge=(), eq=(), nz=(), conds=()):
    try:
        for p in ge:
            if env.ev(p) < 0:
                return False
        for p in eq:
            if env.ev(p) != 0:
                return False
        for p in nz:
            if env.ev(p) == 0:
                return False
        for p in conds:
            if env.ev(p) != 1:
                return False
    except Undef:
        return False
    return True


def index_tests(ps, frees):
    """tests of a free index against a constant: (test, coefficient, index, its range)"""
    out, seen = [], set()
    ix = {v.atom(): n for v, n in frees}
    for p in ps:
        for a in p.leaves():
            if a in seen or not ix:
                continue
            seen.add(a)
            t = _atoms[a]
            if t[0] in ("ge", "eqz"):
                for m, c in t[1].t.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in ix:
                        out.append((t[1], c, m[0][0], ix[m[0][0]]))
    return out


def reach(env, it):
    """a value of a free index at which a test of it changes its outcome, its range made large enough"""
    q, c, v, n = it
    rest = q - Poly({((v, 1),): c})
    if rest.has(v):
        return None
    try:
        x = Fraction(env.rng.choice([-1, 0, 0, 1]) - env.ev(rest, {})) / c
        if x.denominator != 1 or not 0 <= x <= 600:
            return None
        x = int(x)
        for a, k, path in solvable(n):
            if path is None:
                aim(env, (n - x - 2, a, k, None), {})
                break
        else:
            for a in n.leaves():
                t = _atoms[a]
                if t[0] == "sym" and t[-1] == "N" and not t[2] and t[1] != "NUMBITS" and env.rng.randrange(3):
                    aim(env, (of_atom(a) - x - 2, a, Fraction(1), None), {})
        if env.int(n, {}) <= x:
            return None
    except (Undef, ZeroDivisionError, OverflowError, ValueError):
        return None
    return v, x


def ranges(frees, env, at=None):
    """bind free loop indices: frees is a list of (var, n)"""
    b = {}
    for v, n in frees:
        m = env.int(n, b)
        if m <= 0:
            return None
        if at is not None and v.atom() == at[0]:
            if at[1] >= m:
                return None
            b[at[0]] = at[1]
            continue
        b[v.atom()] = env.rng.choice((0, m - 1)) if env.rng.randrange(4) == 0 else env.rng.randrange(m)
    return b


def targets(ps):
    """tests among the closed forms, with a parameter that can be solved for: the points where
    a test changes its outcome tell two closed forms apart far better than random ones"""
    out, seen = [], set()
    for p in ps:
        for a in p.leaves():
            if a in seen:
                continue
            seen.add(a)
            t = _atoms[a]
            if t[0] not in ("ge", "eqz"):
                continue
            for s, c, path in solvable(t[1]):
                out.append((t[1], s, c, path))
    return out


def solvable(q):
    """(atom, coefficient, enclosing nat argument or None) for parameters linear in q"""
    for m, c in q.t.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        a = m[0][0]
        t = _atoms[a]
        rest = q - Poly({m: c})
        if t[0] in ("sym", "wire") and not rest.has(a) and t[1] != "NUMBITS":
            yield a, c, None
        elif t[0] == "nat" and abs(c) == 1:
            f = t[1]
            for m2, c2 in f.t.items():
                if len(m2) == 1 and m2[0][1] == 1 and _atoms[m2[0][0]][0] in ("sym", "wire"):
                    b = m2[0][0]
                    if not (f - Poly({m2: c2})).has(b) and not rest.has(b):
                        yield b, c, (a, c2)


def aim(env, tg, b):
    """fix one parameter so that a test is at its boundary"""
    q, a, c, path = tg
    t = _atoms[a]
    if T._atom_info[a][1] & b.keys() and not all(isinstance(i, Poly) for i in t[2]):
        return
    key = (t[0], t[1], tuple(env.int(i, b) for i in t[2]))
    if key in env.v or t[1] in env.gens or (t[0], t[1]) in env.gens:
        return
    d = env.rng.choice([-1, 0, 0, 1])
    if path is None:
        rest = q - Poly({((a, 1),): c})
        if sort_of(a) == "F" or not is_int(q):
            x = (env.field(rest, b) - d) * -pow(c.numerator * pow(c.denominator, -1, PRIME), -1, PRIME) % PRIME
        else:
            r = env.ev(rest, b)
            x = Fraction(d - r) / c
            if x.denominator != 1:
                return
            x = int(x)
            if t[-1] == "N" and not 0 <= x <= 2000 or t[-1] == "B" and x not in (0, 1):
                return
    else:
        na, c2 = path
        want = Fraction(d - env.ev(q - Poly({((na, 1),): c}), b)) / c
        if want.denominator != 1:
            return
        f = _atoms[na][1]
        m2 = ((a, 1),)
        r = env.field(f - Poly({m2: c2}), b)
        x = (int(want) - r) * pow(c2.numerator * pow(c2.denominator, -1, PRIME), -1, PRIME) % PRIME
        if t[-1] == "B" and x not in (0, 1):
            return
    env.v[key] = x
    env.memo.clear()


def refute(p, facts=(), gens=None, conds=(), nz=(), frees=(), tries=700, seed=1, want=80, secs=15):
    """a valuation with p != 0, or (None, number of points where it was zero)"""
    import time
    good, t0 = 0, time.time()
    tgs = targets([p] + list(facts) + list(conds) + [n for v, n in frees])
    its = index_tests([p], frees)
    tries, want = max(tries, 700), max(want, 80) if want > 1 else want
    for i in range(tries):
        if time.time() - t0 > secs:
            break
        rng = random.Random((seed << 20) + i)
        env = Env(rng, gens)
        try:
            if tgs and i % 3:
                for k in range(1 + rng.randrange(2)):
                    tg = rng.choice(tgs)
                    try:
                        aim(env, tg, {})
                    except (Undef, ZeroDivisionError, OverflowError, ValueError):
                        pass
            at = reach(env, rng.choice(its)) if its and rng.randrange(4) == 0 else None
            b = ranges(frees, env, at)
            if b is None:
                continue
            if tgs and i % 3 == 2:
                try:
                    aim(env, rng.choice(tgs), b)
                except (Undef, ZeroDivisionError, OverflowError, ValueError):
                    pass
            bad = False
            for q in facts:
                if env.ev(q, b) < 0:
                    bad = True
                    break
            if bad:
                continue
            if any(env.ev(q, b) != 1 for q in conds) or any(env.ev(q, b) == 0 for q in nz):
                continue
            x = env.ev(p, b)
            if x != 0 and (is_int(p) or x % PRIME):
                return (describe(env, b), x), good
        except (Undef, ZeroDivisionError, OverflowError, ValueError):
            continue
        good += 1
        if good >= want:
            break
    return None, good


def describe(env, b):
    d = {}
    for (k, n, idx), v in list(env.v.items()) if all(len(x) == 3 for x in env.v) else [x for x in env.v.items() if len(x[0]) == 3]:
        nm = ("%s" % n) + (("(%s)" % ",".join(map(str, idx))) if idx else "")
        d[nm] = str(v)
    for a, v in b.items():
        d[show(of_atom(a))] = str(v)
    return d
