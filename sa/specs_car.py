"""Specifications of the carried operations on big naturals, at fixed sizes.

Sizes are fixed (limb counts, limb width, word bounds); limb values are not: the honest limbs
are integer symbols, and equal numbers are related by symbolic carries.
"""
from .specs_gad import *
from .specs_gad import OnBigNat, Mux, two, inputs, sel, P3, big, sn, wf, lc_, lv_, Pure, sn_, sw_, sx_, sm_, on_, ow_, ox_, om_, poly, fn_nat, MAXP
from .specs_mp import BN
from . import inst, logic

S = {}


def spec(cls):
    S[cls.__name__] = cls()
    return cls


def F(name, j):
    return "%s_%d" % (name, j)


def isym(name, n, k="N"):
    return [sym(F(name, j), k) for j in range(n)]


def conc(I, name, vals, w, mx, mn=0, value=None):
    """a big natural of concrete size whose honest limbs are the integers `vals`"""
    n = len(vals)
    lcs = VSeq([(ONE, None, wire_of(name, (j,))) for j in range(n)])
    lvs = VSeq([(ONE, None, embed(v)) for v in vals])
    v = total(vals, w) if value is None else value
    some_ = lambda x: some(x) if I.mode == "W" else NONE
    return VStruct(BN, {"limbs": lcs, "limb_values": some_(lvs), "value": some_(v),
                        "params": VStruct("mp::bignat::BigNatParams", {"min_bits": P(mn), "max_word": P(mx), "limb_width": P(w), "n_limbs": P(n)})})


def total(vals, w):
    r = ZERO
    for j, v in enumerate(vals):
        r = r + P(1 << (w * j)) * v
    return r


def bounded(vals, mx):
    out = []
    for v in vals:
        out += [v, P(mx) - v]
    return tuple(out)


def draw(mx):
    def g(env, idx):
        r = env.rng
        if env.bias is not None and r.random() < 0.8:
            return mx if env.bias else 0
        return r.choice([0, 1, mx, max(mx - 1, 0), r.randrange(mx + 1), r.randrange(mx + 1)])
    return g


def carry(env, lo, hi):
    """a carry from a range, at its ends more often"""
    if lo > hi:
        return 0
    if env.bias is not None and env.rng.random() < 0.6:
        return hi if env.bias else lo
    return env.rng.choice([lo, hi, min(max(0, lo), hi), env.rng.randint(lo, hi)])


def weigh(limbs, w, k=1):
    """k times the number the limbs stand for, with integer coefficients"""
    r = {}
    for j, l in enumerate(limbs):
        for m, c in signed(l).items():
            r[m] = r.get(m, 0) + k * (c << (w * j))
    return r


def iadd(*ps):
    r = {}
    for p in ps:
        for m, c in p.items():
            r[m] = r.get(m, 0) + c
    return {m: c for m, c in r.items() if c}


def imul(p, q, k=1):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            z = tuple(sorted(m + n))
            r[z] = r.get(z, 0) + k * c * d
    return r


def signed(p):
    """signed integer coefficients"""
    return {m: c if c <= inst.P_ // 2 else c - inst.P_ for m, c in p.items()}


class Fixed(Std):
    unroll = 400
    expand = 16
    field = 255
    self_ty = None
    contracts = ("fits_in_bits",)
    base = (NUMBITS - 255,)
    honest = ()           # (name, values)

    @property
    def same(self):
        return {nm: (lambda idx, vs=vs: embed(vs[idx[0].as_int()])) for nm, vs in self.honest}


class CarriedEqual(Fixed):
    """two numbers of the same value: limb i of the other takes t_i from limb i+1 of the first"""
    path = "BigNat::<Scalar>::equal_when_carried"
    n, m, w, mx, my = 2, 2, 8, 255, 255
    regroup = False

    def __init__(self, n, m, w, mx, my):
        self.n, self.m, self.w, self.mx, self.my = n, m, w, mx, my
        k = max(n, m)
        a = isym("a", n)
        t = [sym(F("t", j), "Z") for j in range(k - 1)]
        b = []
        self.gens = {F("a", j): draw(mx) for j in range(n)}
        B = 1 << w
        for j in range(k):
            x = a[j] if j < n else ZERO
            if j < k - 1:
                x = x + P(B) * t[j]
            if 0 < j:
                x = x - t[j - 1]
            b.append(x)
        # the other number has no limbs beyond its own
        self.zeros, b = b[m:], b[:m]
        self.a, self.b = a, b
        for j in range(len(t)):
            def g(env, idx, j=j):
                x = int(env.leaf("sym", F("a", j), (), "N")) if j < n else 0
                if j:
                    x -= int(env.leaf("sym", F("t", j - 1), (), "Z"))
                lo, hi = -(x // B), ((my if j < m else 0) - x) // B
                if j == k - 2:
                    y = int(env.leaf("sym", F("a", k - 1), (), "N")) if k - 1 < n else 0
                    lo, hi = max(lo, y - (my if k - 1 < m else 0)), min(hi, y)
                return carry(env, lo, hi)
            self.gens[F("t", j)] = g
        self.pre = self.base + bounded(a, mx) + bounded(b, my)
        self.conds = tuple(eqz(x) for x in self.zeros)
        self.honest = (("self", a), ("other", b))

    def args(self, I):
        return [conc(I, "self", self.a, self.w, self.mx), new_cs(), conc(I, "other", self.b, self.w, self.my)]

    def value(self, I, args):
        return ok(UNIT)

    def ranges(self, ins):
        return {("self", None): (0, self.mx), ("other", None): (0, self.my)}

    def goals(self, D, ins, res, args):
        a, b = args[0]["limbs"], args[2]["limbs"]
        yield "equal as integers", D.integer(iadd(weigh(a, self.w), weigh(b, self.w, -1)))


def mk_spec(name, cls, *a):
    S[name] = cls(*a)


class Regrouped(CarriedEqual):
    path = "BigNat::<Scalar>::equal_when_carried_regroup"


for _a in ((1, 1, 8, 255, 255), (2, 2, 8, 255, 255), (2, 2, 8, 510, 255), (3, 3, 4, 900, 15), (3, 2, 8, 255, 400), (2, 4, 8, 255, 255), (2, 2, 3, 8, 7), (3, 3, 3, 10, 10)):
    mk_spec("carried_%d_%d_w%d_%d_%d" % _a, CarriedEqual, *_a)

for _a in ((2, 2, 64, (1 << 64) - 1, (1 << 64) - 1), (4, 4, 64, 4 << 128, (1 << 64) - 1), (7, 7, 32, 7 << 64, (1 << 32) - 1), (3, 8, 32, 3 << 64, (1 << 33) - 2), (9, 9, 28, 1 << 28, (1 << 28) - 1)):
    mk_spec("regroup_%d_%d_w%d_%x_%x" % _a, Regrouped, *_a)


# ---------------------------------------------------------------- arithmetic
def digits(v, w, n):
    """the limbs of a number"""
    return [mk_mod(mk_div(v, P(1 << (w * j))), P(1 << w)) for j in range(n)]


def carry_chain(base, w, n, pre, gens, mx, tmax):
    """limbs that stand for the number of `base` (n limbs) with symbolic carries between them"""
    t = [sym(F(pre, j), "Z") for j in range(n - 1)]
    out = []
    for j in range(n):
        x = base[j] if j < len(base) else ZERO
        if j < n - 1:
            x = x - P(1 << w) * t[j]
        if j:
            x = x + t[j - 1]
        out.append(x)
    for j in range(n - 1):
        def g(env, idx, j=j):
            x = env.int(P(base[j] if j < len(base) else ZERO)) + (int(env.leaf("sym", F(pre, j - 1), (), "Z")) if j else 0)
            return carry(env, -((mx - x) >> w), x >> w)
        gens[F(pre, j)] = g
    return out


def result_big(I, name, vals, w, mx=None, mn=0):
    """a result: its honest limbs are the integers vals, beside its wires"""
    lv = VSeq([(ONE, None, embed(v)) for v in vals])
    return VStruct(BN, {"limbs": lv, "limb_values": some(lv) if I.mode == "W" else NONE, "value": some(total(vals, w)) if I.mode == "W" else NONE,
                        "params": VStruct("mp::bignat::BigNatParams", {"min_bits": P(mn), "max_word": P((1 << w) - 1 if mx is None else mx),
                                                                       "limb_width": P(w), "n_limbs": P(len(vals))})})


class Arith(Fixed):
    def big(self, I, name, mn=0, mx=None):
        return conc(I, name, dict(self.honest)[name], self.w, (1 << self.w) - 1 if mx is None else mx, mn)

    def ranges(self, ins):
        return {(nm, None): (0, (1 << self.w) - 1) for nm, _ in self.honest}

    def setup(self, w, **names):
        """names: free limbs, n each"""
        self.w = w
        self.mx = (1 << w) - 1
        self.gens = {}
        self.pre = self.base
        self.v = {}
        for nm, n in names.items():
            self.v[nm] = isym(nm, n)
            self.pre += bounded(self.v[nm], self.mx)
            for j in range(n):
                self.gens[F(nm, j)] = draw(self.mx)


class Sub(Arith):
    """self = other + diff"""
    path = "BigNat::<Scalar>::sub"

    def __init__(self, n, m, w):
        self.setup(w, b=m, d=n)
        b, d = self.v["b"], self.v["d"]
        k = max(n, m)
        s = [(b[j] if j < m else ZERO) + (d[j] if j < n else ZERO) for j in range(k)]
        a = carry_chain(s, w, k, "t", self.gens, self.mx, 1)
        self.conds = tuple(eqz(x) for x in a[n:])
        self.pre += bounded(a[:n], self.mx)
        self.honest = (("self", a[:n]), ("other", b))

    def args(self, I):
        return [self.big(I, "self"), new_cs(), self.big(I, "other")]

    def value(self, I, args):
        return ok(result_big(I, "diff", self.v["d"], self.w))

    def goals(self, D, ins, res, args):
        a, b, d = args[0]["limbs"], args[2]["limbs"], res["limbs"]
        for l in d:
            yield "limbs of the difference are in range", D.within(l, 0, self.mx)
        yield "self = other + difference", D.integer(iadd(weigh(a, self.w), weigh(b, self.w, -1), weigh(d, self.w, -1)))


class Mult(Arith):
    path = "BigNat::<Scalar>::mult"

    def __init__(self, n, m, w, mins=(0, 0)):
        self.setup(w, a=n, b=m)
        self.mins = mins
        self.honest = (("self", self.v["a"]), ("other", self.v["b"]))

    def args(self, I):
        return [self.big(I, "self", self.mins[0]), new_cs(), self.big(I, "other", self.mins[1])]

    def value(self, I, args):
        a, b = self.v["a"], self.v["b"]
        p = total(a, self.w) * total(b, self.w)
        mn = self.mins[0] + self.mins[1] - 1 if all(self.mins) else 0
        r = result_big(I, "p", digits(p, self.w, len(a) + len(b)), self.w, mn=mn)
        if I.mode == "W":
            r.f["value"] = some(p)
        return ok(r)

    def goals(self, D, ins, res, args):
        a, b, p = args[0]["limbs"], args[2]["limbs"], res["limbs"]
        for l in p:
            yield "limbs of the product are in range", D.within(l, 0, self.mx)
        yield "as many limbs as both", len(p) == len(a) + len(b)
        yield "product = self * other", D.integer(iadd(imul(weigh(a, self.w), weigh(b, self.w)), weigh(p, self.w, -1)))


def wires_of(limbs):
    return [v for l in limbs for m in l for v in m]


def low(env, name):
    return int(env.leaf("sym", name, (), "N"))


class Divides(Arith):
    """other = self * f"""
    path = "BigNat::<Scalar>::divides"

    def __init__(self, n, m, w):
        tag = "D%d%d%d_" % (n, m, w)
        A_, F_, O_ = tag + "a", tag + "f", tag + "o"
        self.setup(w, **{A_: n, F_: m, O_: m})
        a, f, o = self.v[A_], self.v[F_], self.v[O_]
        A, Fa, O = total(a, w), total(f, w), total(o, w)
        self.pre += (A - 1,)
        self.conds = (eqz(O - A * Fa),)
        self.quotients = {(O, A): Fa, (A * Fa, A): Fa}
        mx = self.mx
        for j in range(n):
            self.gens[F(A_, j)] = lambda env, idx, j=j: env.rng.choice([1, 2, 3, mx // 2, mx]) if not j else env.rng.choice([0, 0, 1])
        for j in range(m):
            self.gens[F(F_, j)] = lambda env, idx, j=j: env.rng.choice([0, 0, 1, 2, env.rng.randrange(mx + 1)])

            def g(env, idx, j=j):
                x = sum(low(env, F(A_, i)) << (w * i) for i in range(n)) * sum(low(env, F(F_, i)) << (w * i) for i in range(m))
                return (x >> (w * j)) if j == m - 1 else (x >> (w * j)) & mx
            self.gens[F(O_, j)] = g
        self.honest = (("self", a), ("other", o))
        self.f = f

    def args(self, I):
        return [self.big(I, "self"), new_cs(), self.big(I, "other")]

    def value(self, I, args):
        return ok(UNIT)

    def chosen(self, ins, res, args):
        return first_aux(ins, len(args[2]["limbs"]), self, self.f)

    def goals(self, D, ins, res, args):
        a, o = args[0]["limbs"], args[2]["limbs"]
        f = [{(v,): 1} for v in first_aux(ins, len(o), self, self.f)]
        for l in f:
            yield "limbs of the factor are in range", D.within(l, 0, self.mx)
        yield "other = self * factor", D.integer(iadd(imul(weigh(a, self.w), weigh(f, self.w)), weigh(o, self.w, -1)))


def first_aux(ins, n, spec=None, vals=()):
    """the wires that hold the numbers `vals` at the honest witness, else those allocated first"""
    al = [o[1] for o in ins.order if o[0] == "alloc"]
    if spec is not None and len(vals) >= n:
        with logic.assuming(*spec.conds, ge=list(spec.pre)):
            out = []
            for x in vals[:n]:
                v = next((v for v in al if v not in out and ins.info[v]["eff"].wit is not None and not logic.simp(P(ins.info[v]["eff"].wit) - x).t), None)
                if v is None:
                    break
                out.append(v)
            else:
                return out
    return al[:n]


def holding(ins, spec, vals):
    """the wires that hold the numbers `vals` at the honest witness"""
    al = [o[1] for o in ins.order if o[0] == "alloc"]
    out = []
    with logic.assuming(*spec.conds, ge=list(spec.pre)):
        for x in vals:
            v = next((v for v in al if v not in out and ins.info[v]["eff"].wit is not None and not logic.simp(P(ins.info[v]["eff"].wit) - x).t), None)
            if v is None:
                raise Unsupported("no wire holds %r" % (x,))
            out.append(v)
    return out


def held(ins, spec, x):
    """all wires that hold x at the honest witness"""
    al = [o[1] for o in ins.order if o[0] == "alloc"]
    with logic.assuming(*spec.conds, ge=list(spec.pre)):
        return [v for v in al if ins.info[v]["eff"].wit is not None and not logic.simp(P(ins.info[v]["eff"].wit) - x).t]


class ProductMod(Arith):
    """self * other = q * modulus + r, 0 <= r < modulus"""
    mn = 0

    def start(self, tag, n, m, k, w, mn):
        """n, m limbs (m = 0: no second factor), a modulus of k limbs and at least mn bits"""
        self.mn = mn
        nq = n + max(m, 1)
        A_, B_, M_, Q_, R_ = [tag + "%d%d%d%d%d_" % (n, m, k, w, mn) + x for x in "abmqr"]
        self.setup(w, **{A_: n, B_: m, M_: k, Q_: nq, R_: k})
        a, b, mod, q, r = [self.v[x] for x in (A_, B_, M_, Q_, R_)]
        M, Q, R = total(mod, w), total(q, w), total(r, w)
        X = total(a, w) * (total(b, w) if m else ONE)
        self.M, self.Q, self.X = M, Q, X
        least = 1 << max(mn - 1, 0)
        most = ((1 << (w * n)) - 1) * ((1 << (w * m)) - 1 if m else 1)
        self.pre += (M - least, M - 1 - R, P(most // least) - Q)
        self.conds = (eqz(X - M * Q - R),)
        self.quotients = {(X, M): Q}
        for j in range(1, k):
            y = total(r[j:], w)
            for x in (R, X - M * Q):
                self.quotients[(x, P(1 << (w * j)))] = y
        mx = self.mx
        for j in range(k):
            self.gens[F(M_, j)] = lambda env, idx, j=j: (least >> (w * j)) & mx if env.rng.random() < 0.5 else env.rng.randrange(mx + 1)

        def num(env, x, c):
            return sum(low(env, F(x, i)) << (w * i) for i in range(c))

        def xm(env):
            return num(env, A_, n) * (num(env, B_, m) if m else 1), num(env, M_, k)

        def gq(env, idx, j):
            x, y = xm(env)
            return (x // y >> (w * j)) & mx if y else 0

        def gr(env, idx, j):
            x, y = xm(env)
            return (x % y >> (w * j)) & mx if y else 0
        for j in range(nq):
            self.gens[F(Q_, j)] = lambda env, idx, j=j: gq(env, idx, j)
        for j in range(k):
            self.gens[F(R_, j)] = lambda env, idx, j=j: gr(env, idx, j)
        self.a, self.b, self.mod, self.q, self.r = a, b, mod, q, r
        self.honest = (("self", a), ("modulus", mod)) + ((("other", b),) if m else ())

    def eq(self, q, args, r):
        w = self.w
        x = weigh(args["self"], w)
        if "other" in args:
            x = imul(x, weigh(args["other"], w))
        return iadd(x, imul(weigh(q, w), weigh(args["modulus"], w), -1), weigh(r, w, -1))

    def bits_q(self, n, m):
        """limbs for the largest quotient"""
        w = self.w
        most = ((1 << (w * n)) - 1) * ((1 << (w * m)) - 1 if m else 1) // (1 << max(self.mn - 1, 0))
        return -(-most.bit_length() // w)


class AssertProductMod(ProductMod):
    path = "BigNat::<Scalar>::assert_product_mod"

    def __init__(self, n, m, k, w):
        self.start("A", n, m, k, w, 0)
        self.honest += (("remainder", self.r),)

    def args(self, I):
        return [self.big(I, "self"), new_cs(), self.big(I, "other"), self.big(I, "modulus"), self.big(I, "remainder")]

    def value(self, I, args):
        return ok(result_big(I, "q", self.q, self.w))

    def chosen(self, ins, res, args):
        return wires_of(res["limbs"])

    def goals(self, D, ins, res, args):
        q = res["limbs"]
        ar = {"self": args[0]["limbs"], "other": args[2]["limbs"], "modulus": args[3]["limbs"]}
        for l in q:
            yield "limbs of the quotient are in range", D.within(l, 0, self.mx)
        yield "self * other = quotient * modulus + remainder", D.integer(self.eq(q, ar, args[4]["limbs"]))


class MultMod(ProductMod):
    path = "BigNat::<Scalar>::mult_mod"

    def __init__(self, n, m, k, w, mn=0):
        self.start("M", n, m, k, w, mn)

    def args(self, I):
        return [self.big(I, "self"), new_cs(), self.big(I, "other"), self.big(I, "modulus", self.mn)]

    def value(self, I, args):
        x = VStruct(BN, {"limbs": ANY, "limb_values": ANY, "value": some(self.Q) if I.mode == "W" else NONE, "params": ANY})
        return ok(VTuple([x, result_big(I, "r", self.r, self.w)]))

    def chosen(self, ins, res, args):
        return wires_of(res[0]["limbs"] + res[1]["limbs"])

    def goals(self, D, ins, res, args):
        q, r = res[0]["limbs"], res[1]["limbs"]
        ar = {"self": args[0]["limbs"], "other": args[2]["limbs"], "modulus": args[3]["limbs"]}
        for l in q + r:
            yield "limbs of quotient and remainder are in range", D.within(l, 0, self.mx)
        yield "self * other = quotient * modulus + remainder", D.integer(self.eq(q, ar, r))
        yield "the remainder is less than the modulus", D.atleast(iadd(weigh(ar["modulus"], self.w), weigh(r, self.w, -1)), 1)


class RedMod(ProductMod):
    path = "BigNat::<Scalar>::red_mod"

    def __init__(self, n, k, w, mn=0):
        self.start("R", n, 0, k, w, mn)

    def args(self, I):
        return [self.big(I, "self"), new_cs(), self.big(I, "modulus", self.mn)]

    def value(self, I, args):
        return ok(result_big(I, "r", self.r, self.w))

    def quotient(self, ins):
        """the wires of the quotient"""
        return first_aux(ins, self.nq, self, self.q)

    @property
    def nq(self):
        w, n = self.w, len(self.a)
        bits = max(w * n - max(self.mn - 1, 0), 0)
        return max(bits - 1, 0) // w + 1

    def chosen(self, ins, res, args):
        return self.quotient(ins) + wires_of(res["limbs"])

    def goals(self, D, ins, res, args):
        r = res["limbs"]
        ar = {"self": args[0]["limbs"], "modulus": args[2]["limbs"]}
        for l in r:
            yield "limbs of the remainder are in range", D.within(l, 0, self.mx)
        yield "self = quotient * modulus + remainder", D.integer(self.eq([{(v,): 1} for v in self.quotient(ins)], ar, r))
        yield "the remainder is less than the modulus", D.atleast(iadd(weigh(ar["modulus"], self.w), weigh(r, self.w, -1)), 1)


for _n, _m, _w in ((1, 1, 8), (2, 2, 8), (3, 2, 8), (2, 3, 8), (2, 2, 64), (4, 4, 32)):
    mk_spec("sub_%d_%d_w%d" % (_n, _m, _w), Sub, _n, _m, _w)
for _a in ((1, 1, 8), (2, 2, 8), (2, 3, 4), (2, 2, 64), (6, 6, 64), (1, 2, 32, (3, 7))):
    mk_spec("mult_%d_%d_w%d" % _a[:3], Mult, *_a)
for _a in ((1, 1, 8), (1, 2, 8), (2, 2, 8), (2, 2, 64), (3, 6, 64)):
    mk_spec("divides_%d_%d_w%d" % _a, Divides, *_a)
for _a in ((1, 1, 1, 8), (2, 2, 2, 8), (2, 1, 2, 32), (2, 2, 1, 64), (6, 6, 1, 64), (3, 3, 4, 64)):
    mk_spec("assert_product_mod_%d_%d_%d_w%d" % _a, AssertProductMod, *_a)
for _a in ((1, 1, 1, 8), (2, 2, 2, 8), (2, 2, 2, 32), (1, 1, 1, 8, 8), (2, 2, 2, 8, 13), (1, 2, 2, 64, 128), (6, 6, 1, 64), (4, 4, 4, 64)):
    mk_spec("mult_mod_%d_%d_%d_w%d" % _a[:4] + ("_min%d" % _a[4] if len(_a) > 4 else ""), MultMod, *_a)
for _a in ((1, 1, 8), (3, 2, 8), (4, 2, 32), (2, 1, 8, 8), (3, 2, 8, 13), (6, 3, 64)):
    mk_spec("red_mod_%d_%d_w%d" % _a[:3] + ("_min%d" % _a[3] if len(_a) > 3 else ""), RedMod, *_a)


# ---------------------------------------------------------------- equality, bits, exposure
class Pair(Fixed):
    """two numbers of n and m limbs, equal limb by limb, without further limbs of value"""
    path = "BigNat::<Scalar>::equal"

    def __init__(self, n, m, w, wo=None):
        self.n, self.m, self.w, self.wo = n, m, w, wo or w
        k = min(n, m)
        mx = (1 << w) - 1
        a = isym("a", k)
        self.gens = {F("a", j): draw(mx) for j in range(k)}
        self.pre = self.base + bounded(a, mx)
        self.a, self.b = a + [ZERO] * (n - k), a + [ZERO] * (m - k)
        self.honest = (("self", self.a), ("other", self.b))
        if self.wo != w:
            self.fails = self.rejects = ONE

    def args(self, I):
        mx = (1 << self.w) - 1
        return [conc(I, "self", self.a, self.w, mx), new_cs(), conc(I, "other", self.b, self.wo, mx)]

    def value(self, I, args):
        return ok(UNIT) if self.rejects is None else ANY

    def goals(self, D, ins, res, args):
        if self.rejects is not None:
            return
        a, b = args[0]["limbs"], args[2]["limbs"]
        k = max(len(a), len(b))
        a, b = [x + [{}] * (k - len(x)) for x in (a, b)]
        for j in range(k):
            yield "limb %d is the same" % j, D.zero(inst.ip_add(a[j], b[j], -1))


for _a in ((1, 1, 8), (3, 3, 8), (6, 6, 8), (2, 4, 8), (4, 2, 8), (2, 7, 8), (7, 2, 8), (2, 2, 8, 9)):
    mk_spec("bn_equal_%s" % "_".join(map(str, _a)), Pair, *_a)


class IsEqual(Fixed):
    path = "BigNat::<Scalar>::is_equal"
    contracts = ("equals",)

    def __init__(self, n, m, w, wo=None):
        self.w, self.wo = w, wo or w
        mx = (1 << w) - 1
        self.a, self.b = isym("a", n), isym("b", m)
        self.gens = dict([(F("a", j), draw(mx)) for j in range(n)])
        for j in range(m):
            self.gens[F("b", j)] = lambda env, idx, j=j: low(env, F("a", j)) if j < n and env.rng.random() < 0.7 else draw(mx)(env, idx)
        self.pre = self.base + bounded(self.a, mx) + bounded(self.b, mx)
        self.honest = (("self", self.a), ("other", self.b))
        if self.wo != w or n != m:
            self.fails = self.rejects = ONE

    def args(self, I):
        mx = (1 << self.w) - 1
        return [conc(I, "self", self.a, self.w, mx), new_cs(), conc(I, "other", self.b, self.wo, mx)]

    def value(self, I, args):
        if self.rejects is not None:
            return ANY
        r = ONE
        for x, y in zip(self.a, self.b):
            r = r * eqz(x - y)
        return ok(VStruct(BOOLEAN, {"lc": r, "value": some(r) if I.mode == "W" else NONE}))

    def goals(self, D, ins, res, args):
        if self.rejects is not None:
            return
        a, b = args[0]["limbs"], args[2]["limbs"]
        yield "the result is determined by the two numbers", D.unique(res["lc"])
        r = {(): 1}
        for x, y in zip(a, b):
            r = inst.ip_mul(r, ins.opaque("eqz", (inst.ip_add(x, y, -1),)))
        yield "the result is the conjunction over all limbs", D.zero(inst.ip_add(res["lc"], r, -1))


for _a in ((1, 1, 8), (3, 3, 8), (6, 6, 8), (2, 3, 8), (3, 1, 8), (2, 2, 8, 9)):
    mk_spec("bn_is_equal_%s" % "_".join(map(str, _a)), IsEqual, *_a)


class One(Arith):
    """one big natural of n limbs"""
    mut = False
    contracts = ()

    def __init__(self, n, w):
        self.n = n
        self.setup(w, a=n)
        self.honest = (("self", self.v["a"]),)
        self.more()

    def more(self):
        pass

    def first(self, I):
        v = self.big(I, "self")
        return VRef(I.new_cell(v, "self")) if self.mut else v

    def args(self, I):
        return [self.first(I), new_cs()]

    def ranges(self, ins):
        return {}

    def value(self, I, args):
        return ok(UNIT)


class BnInputize(One):
    path = "BigNat::<Scalar>::inputize"

    def goals(self, D, ins, res, args):
        pub = inputs(ins)
        yield "one public input per limb", len(pub) == self.n
        for k, (v, l) in enumerate(zip(pub, args[0]["limbs"])):
            yield "public input %d is limb %d" % (k, k), D.zero(inst.ip_add({(v,): 1}, l, -1))


class WellFormed(One):
    path = "BigNat::<Scalar>::assert_well_formed"
    contracts = ("fits_in_bits",)

    def goals(self, D, ins, res, args):
        for k, l in enumerate(args[0]["limbs"]):
            yield "limb %d is below two to the limb width" % k, D.within(l, 0, self.mx)


class BnDecompose(One):
    path = "BigNat::<Scalar>::decompose"

    def bits(self):
        return [mk_bit(x, P(i)) for x in self.v["a"] for i in range(self.w)]

    def value(self, I, args):
        b = VSeq([(ONE, None, x) for x in self.bits()])
        return ok(VStruct("util::bit::Bitvector", {"bits": b, "values": some(b) if I.mode == "W" else NONE, "allocations": ANY}))

    def goals(self, D, ins, res, args):
        yield "as many bits as the limbs have", len(res["bits"]) == self.n * self.w
        for k, l in enumerate(args[0]["limbs"]):
            p = inst.ip_scale(l, -1)
            for i, b in enumerate(res["bits"][k * self.w:(k + 1) * self.w]):
                p = inst.ip_add(p, b, 1 << i)
                yield "bit %d of limb %d is boolean" % (i, k), D.within(b, 0, 1)
            yield "the bits of limb %d are its digits" % k, D.zero(p)


class Self2(One):
    """a gadget that also changes its receiver"""
    mut = True
    least = None

    def result(self, I, args, r):
        return VTuple([I.get(r) if isinstance(r, VRef) else r, I.get(args[0])])

    def after(self, I, mn):
        mx = self.mx
        v = conc(I, "self", self.v["a"], self.w, mx, mn)
        return VTuple([ok(UNIT), v])


class FullBits(Self2):
    path = "BigNat::<Scalar>::enforce_full_bits"

    def more(self):
        self.pre += (self.v["a"][-1] - (1 << (self.w - 1)),)
        self.gens[F("a", self.n - 1)] = lambda env, idx: env.rng.randrange(1 << (self.w - 1), 1 << self.w)

    def value(self, I, args):
        return self.after(I, self.w * self.n)

    def goals(self, D, ins, res, args):
        l = res[1]["limbs"][-1]
        yield "the top limb is in range", D.within(l, 0, self.mx)
        yield "the top bit of the top limb is one", D.atleast(signed(l), 1 << (self.w - 1))


class MinBits(Self2):
    path = "BigNat::<Scalar>::enforce_min_bits"

    def __init__(self, n, w, k):
        self.k = k
        One.__init__(self, n, w)

    def more(self):
        self.pre += (total(self.v["a"], self.w) - (1 << (self.k - 1)),)
        for j in range(self.n):
            self.gens[F("a", j)] = lambda env, idx, j=j: env.rng.choice([0, 1, self.mx, ((1 << (self.k - 1)) >> (self.w * j)) & self.mx, env.rng.randrange(self.mx + 1)])

    def args(self, I):
        return [self.first(I), new_cs(), P(self.k)]

    def value(self, I, args):
        return self.after(I, self.k)

    def goals(self, D, ins, res, args):
        w, k = self.w, self.k
        ls = res[1]["limbs"]
        for j, l in enumerate(ls):
            yield "limb %d is in range" % j, D.within(l, 0, self.mx)
        # were all the bits from k-1 on zero, no assignment would be left
        yield "a number below 2^(min_bits-1) is refused", D.excluded([(l, 0, max(min(self.mx, (1 << max(min(k - 1 - w * j, w), 0)) - 1), 0)) for j, l in enumerate(ls)])


for _n, _w in ((1, 8), (3, 16), (2, 64)):
    for _nm, _c in (("bn_inputize", BnInputize), ("bn_well_formed", WellFormed), ("bn_full_bits", FullBits)):
        mk_spec("%s_%d_w%d" % (_nm, _n, _w), _c, _n, _w)
for _n, _w in ((1, 8), (3, 4)):
    mk_spec("bn_decompose_%d_w%d" % (_n, _w), BnDecompose, _n, _w)
for _n, _w, _k in ((1, 8, 1), (1, 8, 8), (2, 4, 3), (2, 4, 6), (3, 4, 9)):
    mk_spec("bn_min_bits_%d_w%d_%d" % (_n, _w, _k), MinBits, _n, _w, _k)


class FromNum(Arith):
    """the limbs of a number of at most n*w bits (below the field's capacity)"""
    path = "BigNat::<Scalar>::from_num"
    contracts = ("fits_in_bits",)

    def __init__(self, n, w, bits=None):
        self.setup(w, a=n)
        self.n = n
        self.x = total(self.v["a"], w)
        if bits:
            self.pre += (P((1 << bits) - 1) - self.x,)
            for j in range(n):
                top = max(min(w, bits - w * j), 0)
                self.gens[F("a", j)] = draw((1 << top) - 1)
        self.honest = (("n", [self.x]),)
        self.quotients = {(self.x, P(1 << (w * j))): total(self.v["a"][j:], w) for j in range(1, n)}

    def args(self, I):
        num = VStruct("util::num::Num", {"num": wire_of("n", (0,)), "value": some(embed(self.x)) if I.mode == "W" else NONE})
        return [new_cs(), num, P(self.w), P(self.n)]

    def ranges(self, ins):
        return {}

    def value(self, I, args):
        return ok(result_big(I, "r", self.v["a"], self.w))

    def goals(self, D, ins, res, args):
        yield "as many limbs as asked for", len(res["limbs"]) == self.n
        for k, l in enumerate(res["limbs"]):
            yield "limb %d is in range" % k, D.within(l, 0, self.mx)
            yield "limb %d is determined by the number" % k, D.unique(l)
        t = {}
        for k, l in enumerate(res["limbs"]):
            t = inst.ip_add(t, l, 1 << (self.w * k))
        yield "the limbs stand for the number", D.zero(inst.ip_add(t, args[1]["num"], -1))


for _a in ((1, 8), (3, 8), (2, 64), (1, 64), (2, 126)):
    mk_spec("bn_from_num_%d_w%d" % _a, FromNum, *_a)


# ---------------------------------------------------------------- operands of different widths
class Mismatch(Fixed):
    """operand `odd` has another limb width: the operation must fail"""
    rules = ("O8",)
    fails = rejects = ONE
    contracts = ()

    def __init__(self, op, roles, odd, cs=1, static=False):
        self.path = op if "::" in op else "BigNat::<Scalar>::" + op
        self.roles, self.odd, self.cs, self.static = roles, odd, cs, static
        self.gens, self.pre = {}, self.base
        self.v = {}
        for r in roles:
            self.v[r] = isym(r, 2)
            self.pre += bounded(self.v[r], 15)
            for j in range(2):
                self.gens[F(r, j)] = draw(15)
        self.honest = tuple((r, self.v[r]) for r in roles)

    def args(self, I):
        big = [conc(I, r, self.v[r], 9 if r == self.odd else 8, 255) for r in self.roles]
        if self.static:
            return [new_cs(), mk_bit_(I, "s")] + big
        return big[:1] + ([new_cs()] if self.cs else []) + big[1:]


IMPL = "<mp::bignat::BigNat<Scalar> as util::gadget::Gadget>::"
for _op, _roles, _cs in (("add", "self other", 0), ("concat", "self other", 0), ("sub", "self other", 1), ("mult", "self other", 1), ("divides", "self other", 1),
                         ("equal_when_carried", "self other", 1), ("equal_when_carried_regroup", "self other", 1),
                         ("min", "self other", 1), ("mult_mod", "self other modulus", 1), ("red_mod", "self modulus", 1),
                         ("assert_product_mod", "self other modulus remainder", 1)):
    for _odd in _roles.split()[1:]:
        mk_spec("widths_%s_%s" % (_op, _odd), Mismatch, _op, _roles.split(), _odd, _cs)
mk_spec("widths_mux_i1", Mismatch, IMPL + "mux", ["i0", "i1"], "i1", 1, True)


class Min(Arith):
    """the lesser of two numbers that differ by d"""
    path = "BigNat::<Scalar>::min"
    contracts = ("fits_in_bits",)

    def __init__(self, n, w, flip):
        self.setup(w, b=n, d=n)
        b, d = self.v["b"], self.v["d"]
        a = carry_chain([x + y for x, y in zip(b, d)], w, n, "t", self.gens, self.mx, 1)
        self.conds = tuple(eqz(x) for x in a[n:])
        self.pre += bounded(a[:n], self.mx)
        if not flip:
            self.pre += (total(d, w) - 1,)
        self.honest = (("self", b), ("other", a[:n])) if flip else (("self", a[:n]), ("other", b))

    def args(self, I):
        return [self.big(I, "self"), new_cs(), self.big(I, "other")]

    def value(self, I, args):
        r = result_big(I, "m", self.v["b"], self.w)
        r.f["params"].f["max_word"] = r.f["params"].f["min_bits"] = ANY
        return ok(r)

    def goals(self, D, ins, res, args):
        a, b, m = args[0]["limbs"], args[2]["limbs"], res["limbs"]
        yield "as many limbs", len(m) == len(a)
        d = inst.ip_add(b[0], a[0], -1)
        sv = [v for v in range(len(ins.names)) if (v,) not in a[0] and (v,) not in b[0] and (v,) not in m[0]
              and D.zero(inst.ip_add(inst.ip_add(m[0], a[0], -1), inst.ip_mul({(v,): 1}, d), -1))]
        yield "the result is selected from the operands", bool(sv)
        for c in (0, 1):
            E = D.case(zero=[(sv[0], c)])
            x, y = (b, a) if c else (a, b)
            for k in range(len(m)):
                yield "limb %d is that of the operand selected" % k, E.zero(inst.ip_add(m[k], x[k], -1))
            yield "the operand selected is not the greater", E.atleast(iadd(weigh(y, self.w), weigh(x, self.w, -1)), 0)


for _n, _w in ((1, 8), (2, 8)):
    for _f in (0, 1):
        mk_spec("min_%d_w%d_%d" % (_n, _w, _f), Min, _n, _w, _f)
for _i, _a in enumerate(((1, 1, 8, (0, 7)), (1, 1, 8, (7, 0)))):
    mk_spec("mult_min_%d" % _i, Mult, *_a)


# ---------------------------------------------------------------- larger instances, the costly ones for names and shapes only
def large(name, cls, *a):
    s = cls(*a)
    if name not in ("inputize", "well_formed", "well_formed_wide", "full_bits", "equal", "is_equal", "decompose", "decompose_wide"):
        s.rules = ("O5", "O7")
    s.unroll = 300
    S["large_" + name] = s


_M = 40
large("carried", CarriedEqual, _M, _M, 8, 255, 255)
large("regroup", Regrouped, _M, _M, 32, (1 << 32) - 1, (1 << 32) - 1)
large("sub", Sub, _M, _M, 8)
large("mult", Mult, 10, 10, 8)
large("divides", Divides, 3, _M, 8)
large("assert_product_mod", AssertProductMod, 10, 10, 20, 8)
large("mult_mod", MultMod, 6, 6, 12, 8)
large("red_mod", RedMod, _M, 3, 8)
large("equal", Pair, _M, _M, 8)
large("is_equal", IsEqual, _M, _M, 8)
large("inputize", BnInputize, _M, 8)
large("well_formed", WellFormed, 140, 8)
large("well_formed_wide", WellFormed, 1, 200)
large("full_bits", FullBits, 2, 200)
large("decompose", BnDecompose, _M, 4)
large("decompose_wide", BnDecompose, 1, 150)
large("min_bits", MinBits, _M, 4, 30)
large("from_num", FromNum, _M, 4)
large("min", Min, 12, 4, 0)
