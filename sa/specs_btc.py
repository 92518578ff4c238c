"""Specifications of the Bitcoin header validation."""
from .specs_car import *
from .specs_car import F as Fj, Fixed, ProductMod, isym, draw, bounded, Std, low, total, result_big, weigh, iadd, imul, holding, held, wires_of
from . import models as M_
from .models import ANUM, BOOLEAN
from .terms import *
from . import inst
from .inst import ip_add, ip_vars, ip_const, ip_mul, ip_scale

S = {}
U32 = (1 << 32) - 1


inst_signed = lambda p: {m: inst.sgn(c) for m, c in p.items()}


def mk_spec(name, cls, *a):
    s = cls(*a)
    s.name = name
    S[name] = s
    return s


def anum(I, w, v):
    return VStruct(ANUM, {"variable": w, "value": some(v) if I.mode == "W" else NONE})


def vec(xs):
    return VSeq([(ONE, None, x) for x in xs])


def times(name, n):
    """n timestamps: some equal, some neighbours, some extreme"""
    def g(env, idx):
        r = env.rng
        if ("pool", name) not in env.v:
            c = r.randrange(U32)
            env.v[("pool", name)] = [c, c, min(c + 1, U32), max(c - 1, 0), r.randrange(U32 + 1), 0, U32][: r.choice([1, 2, 3, 4, 7])]
        return r.choice(env.v[("pool", name)])
    return {Fj(name, j): g for j in range(n)}, g


def sorted_app(vals, j):
    return mk_app("sorted", P(j), *vals)


def median_holds(m, ts):
    """the number of occurrences of m exceeds the difference between how many are below it and above it"""
    e, d = ZERO, ZERO
    for t in ts:
        q, l = eqz(m - t), ge(t - m - 1)
        e = e + q
        d = d + (ONE - q) * (ONE - 2 * l)
    neg = ge(-d - 1)
    return ge(e - 1 - (d - 2 * neg * d))


class Median(Fixed):
    """computing the median"""
    path = "median::compute_median_timestamp"
    modes = "W"
    contracts = ()
    sizes = ()

    def __init__(self, n):
        self.n = n
        self.t = isym("t", n)
        self.pre = self.base + bounded(self.t, U32)
        self.gens, _ = times("t", n)

    def args(self, I):
        return [VRef(I.new_cell(vec(self.t), "ts"))]

    def value(self, I, args):
        return sorted_app(self.t, self.n // 2)


class MedianIs(Fixed):
    """the indicator of the median"""
    path = "median::verify_median_allocated"
    contracts = ("equals", "less_than", "leq")
    unroll = 30

    def __init__(self, n):
        self.n = n
        self.t, self.m = isym("t", n), sym("m", "N")
        self.pre = self.base + bounded(self.t + [self.m], U32)
        self.gens, g = times("t", n)
        self.gens["m"] = g
        self.honest = (("t", self.t), ("m", [self.m]))

    def args(self, I):
        return [new_cs(), anum(I, wire_of("m", (0,)), self.m), vec([anum(I, wire_of("t", (j,)), x) for j, x in enumerate(self.t)])]

    def value(self, I, args):
        d = median_holds(self.m, self.t)
        return ok(VStruct(BOOLEAN, {"lc": d, "value": some(d)}))

    def goals(self, D, ins, res, args):
        yield "the indicator is determined by the median and the timestamps", D.unique(res["lc"])


class MedianOf(MedianIs):
    """the indicator of the median of given numbers"""
    path = "median::verify_median_timestamp"
    honest = ()

    def __init__(self, n):
        MedianIs.__init__(self, n)
        self.honest = ()

    def args(self, I):
        return [new_cs(), VRef(I.new_cell(vec(self.t), "ts")), self.m]

    def chosen(self, ins, res, args):
        # the wires that hold the given numbers
        return [v for v in ins.info if any(ins.info[v]["eff"].wit is x for x in self.t + [self.m])]


for _n in (1, 2, 3, 5, 11):
    mk_spec("median_%d" % _n, Median, _n)
for _n in (1, 3, 5, 11):
    mk_spec("median_is_%d" % _n, MedianIs, _n)
    mk_spec("median_of_%d" % _n, MedianOf, _n)
mk_spec("large_median_is", MedianIs, 21)
S["large_median_is"].rules = ("O5", "O7")


# ---------------------------------------------------------------- retarget
SPAN = 2016 * 10 * 60


def factors(D, al, span):
    """the wires that the wires al are multiplied by and that equal the span"""
    near = {v for r in D.rows for m in r if len(m) > 1 and set(m) & set(al) for v in m} - set(al)
    return [v for v in sorted(near) if D.zero(ip_add(span, {(v,): 1}, -1))]


class Retarget(ProductMod):
    """the quotient of the previous target times the time span by two weeks"""
    path = "difficulty_update::calculate_difficulty_update"
    contracts = ("equals", "less_than", "fits_in_bits")
    unroll = 400

    def __init__(self):
        self.w = 64
        self.mx = (1 << 64) - 1
        self.a, self.q = isym("Ta", 4), isym("Tq", 4) + [ZERO]
        self.s, self.r = sym("span", "N"), sym("Tr", "N")
        self.A, self.Q = total(self.a, 64), total(self.q, 64)
        X = self.A * self.s
        self.pre = self.base + bounded(self.a, self.mx) + bounded(self.q[:4], self.mx) + (
            self.s - SPAN // 4 - 1, P(4 * SPAN - 1) - self.s, self.r, P(SPAN - 1) - self.r, P((1 << 32) - 1) - self.a[3], P(((1 << 224) - 1) * 4) - self.Q)
        # the carries of the division, limb by limb
        t = [sym(Fj("Tt", j), "Z") for j in range(3)]
        self.conds = tuple(eqz(self.a[j] * self.s - P(SPAN) * self.q[j] - (self.r if not j else -t[j - 1]) - (P(1 << 64) * t[j] if j < 3 else ZERO)) for j in range(4))
        self.quotients = {(X, P(SPAN)): self.Q}
        for j in range(1, 4):
            self.quotients[(self.A, P(1 << (64 * j)))] = total(self.a[j:], 64)
        for j in range(1, 5):
            self.quotients[(self.Q, P(1 << (64 * j)))] = total(self.q[j:], 64)
        self.gens = {Fj("Ta", j): draw(self.mx if j < 3 else (1 << 32) - 1) for j in range(4)}
        self.gens["span"] = lambda env, idx: env.rng.choice([SPAN // 4 + 1, 4 * SPAN - 1, SPAN, env.rng.randrange(SPAN // 4 + 1, 4 * SPAN)])

        def x(env):
            return sum(low(env, Fj("Ta", i)) << (64 * i) for i in range(4)) * low(env, "span")
        for j in range(5):
            self.gens[Fj("Tq", j)] = lambda env, idx, j=j: (x(env) // SPAN >> (64 * j)) & self.mx
        for j in range(3):
            self.gens[Fj("Tt", j)] = lambda env, idx, j=j: sum((low(env, Fj("Ta", i)) * low(env, "span") - SPAN * low(env, Fj("Tq", i)) - (low(env, "Tr") if not i else 0)) << (64 * i) for i in range(j + 1)) >> (64 * (j + 1))
        self.gens["Tr"] = lambda env, idx: x(env) % SPAN
        self.honest = (("prev", [self.A]), ("span", [self.s]))

    def args(self, I):
        return [new_cs(), anum(I, wire_of("prev", (0,)), embed(self.A)), anum(I, wire_of("span", (0,)), self.s)]

    def ranges(self, ins):
        return {}

    def value(self, I, args):
        return ok(result_big(I, "q", self.q, 64))

    def goals(self, D, ins, res, args):
        # the wires of the factors: the limbs of the previous target and the time span
        al = holding(ins, self, self.a)
        (r,) = holding(ins, self, [self.r])
        for k, v in enumerate(al):
            yield "limb %d of the previous target is determined" % k, D.unique({(v,): 1})
        span = args[2]["variable"]
        sp = factors(D, al, span)
        a = weigh([{(v,): 1} for v in al], 64)
        yield "the limbs are those of the previous target", D.zero(ip_add(args[1]["variable"], {m: c % inst.P_ for m, c in a.items()}, -1))
        E = D.given(al + sp + wires_of(res["limbs"]) + [r])
        yield "previous target * span = new target * two weeks + remainder", any(
            E.integer(iadd(imul(a, x), weigh(res["limbs"], 64, -SPAN), {(r,): -1})) for x in [inst_signed(span)] * (not sp) + [{(v,): 1} for v in sp])
        yield "the remainder is less than two weeks", D.within({(r,): 1}, 0, SPAN - 1)
        for k, l in enumerate(res["limbs"]):
            yield "limb %d of the new target is in range" % k, D.within(l, 0, self.mx)
        d = inst.ip_add(args[2]["variable"], inst.ip_const(-SPAN // 4), 1)
        yield "the time span exceeds half a week", D.within(args[2]["variable"], SPAN // 4 + 1, 1 << 33)
        yield "the time span is below eight weeks", D.within(args[2]["variable"], -(1 << 33), 4 * SPAN - 1)


mk_spec("retarget", Retarget)


class DiffVerify(Retarget):
    """the target given is the quotient of the previous one times the time span by two weeks"""
    path = "difficulty_update::verify_difficulty_update"

    def __init__(self):
        Retarget.__init__(self)
        self.honest = ()

    def args(self, I):
        a, q = self.a, self.q
        return [new_cs()] + [x[h] + P(1 << 64) * x[h + 1] for x in (q, a) for h in (2, 0)] + [self.s]

    def value(self, I, args):
        return UNIT

    def given(self, ins):
        """the wires of the numbers the function was given"""
        return holding(ins, self, [x[h] + P(1 << 64) * x[h + 1] for x in (self.q, self.a) for h in (2, 0)] + [self.s])

    def chosen(self, ins, res, args):
        return self.given(ins)

    def goals(self, D, ins, res, args):
        tu, tl, pu, pl, span = [{(v,): 1} for v in self.given(ins)]
        al, ql = holding(ins, self, self.a), holding(ins, self, self.q[:4])
        (r,) = holding(ins, self, [self.r])
        unit = lambda vs: weigh([{(v,): 1} for v in vs], 64)
        for l, u, vs, what in ((tl, tu, ql, "target"), (pl, pu, al, "previous target")):
            for k, v in enumerate(vs):
                yield "limb %d of the %s is determined" % (k, what), D.unique({(v,): 1})
            for x, h in ((l, vs[:2]), (u, vs[2:])):
                yield "the limbs are those of the %s" % what, D.zero(ip_add(x, {m: c % inst.P_ for m, c in unit(h).items()}, -1))
        yield "the time span exceeds half a week", D.within(span, SPAN // 4 + 1, 1 << 33)
        yield "the time span is below eight weeks", D.within(span, -(1 << 33), 4 * SPAN - 1)
        sp = factors(D, al, span)
        E = D.given(al + sp + [r] + [v for x in self.q[:4] for v in held(ins, self, x)])
        yield "previous target * span = target * two weeks + remainder", any(
            E.integer(iadd(imul(unit(al), x), {m: -SPAN * c for m, c in unit(ql).items()}, {(r,): -1})) for x in [inst_signed(span)] * (not sp) + [{(v,): 1} for v in sp])
        yield "the remainder is less than two weeks", D.within({(r,): 1}, 0, SPAN - 1)


mk_spec("diff_verify", DiffVerify)


# ---------------------------------------------------------------- the header step
HEADER = "btc_validation::header_step::BlockHeader"


def header(I, words, other=UNIT):
    """the circuit of a header, given as ten words"""
    a = [x for x in I.prog["adts"] if x["path"].split("<")[0] == HEADER]
    fields = a[0]["variants"][0]["fields"] if a and len(a[0]["variants"]) == 1 else []
    words_of = [f for f, ty in fields if ty.replace(" ", "") in ("[u64;10]", "Vec<u64>", "std::vec::Vec<u64>")]
    if len(words_of) != 1:
        raise Unsupported("the words of a header")
    return VStruct(HEADER, {f: vec(words) if f == words_of[0] else other for f, _ in fields})
MAXT = 0xFFFF << 208
HALF = inst.P_ // 2


def weight(i):
    """the exponent of bit i of a little-endian number, each byte written with its high-order bit first"""
    return 8 * (i // 8) + 7 - i % 8


def packed(bits):
    r = {}
    for i, b in enumerate(bits):
        r = ip_add(r, b, 1 << weight(i))
    return r


def one(v):
    return {(v,): 1}


class Step(Fixed):
    """the header step"""
    path = "<btc_validation::header_step::BlockHeader<F> as nova_snark::traits::circuit::StepCircuit<F>>::synthesize"
    contracts = ("equals", "less_than", "leq", "fits_in_bits", "median", "retarget")
    unroll = 700
    expand = 16
    cost = 60

    def __init__(self, e, *part):
        self.e, self.part = e, part
        if "carry" in part:
            self.rules = ("O1", "O3")
        elif "link" in part or "bounds" in part:
            self.rules = ("O3",)
        elif "fail" in part:
            # the call sites whose failure is considered
            self.rules, self.share = (), (part[1], 6)
        else:
            self.rules = ("O2", "O3", "O5", "O6", "O7")
        N = lambda x: sym(x, "N")
        self.ver, self.mr0, self.mr7, self.nonce = [N("Hd" + x) for x in ("ver", "first", "last", "nonce")]
        self.mr = isym("Hdm", 3)
        self.p = isym("Hdp", 28)
        self.t = isym("Hdt", 4)
        self.m = isym("Hdn", 3)
        self.ts = [N(Fj("Zt", i)) for i in range(11)]
        self.start, self.ctr, self.work = N("Zstart"), N("Zctr"), N("Zwork")
        U64 = (1 << 64) - 1
        by = lambda bs: sum((b.scale(1 << (8 * (len(bs) - 1 - i))) for i, b in enumerate(bs)), ZERO)
        p = self.p + [ZERO] * 4
        self.h = [self.ver.scale(1 << 32) + by(p[:4])] + [by(p[4 + 8 * k:12 + 8 * k]) for k in range(3)] + [
            by(p[28:32]).scale(1 << 32) + self.mr0] + self.mr + [self.mr7.scale(1 << 32) + by(self.t), (by(self.m).scale(256) + e).scale(1 << 32) + self.nonce]
        lit = lambda bs: sum((b.scale(1 << (8 * i)) for i, b in enumerate(bs)), ZERO)
        self.z0, self.now, self.man = lit(self.p), lit(self.t), lit(self.m)
        self.tgt = self.prev = self.man.scale(1 << (8 * (e - 3)))
        byt = self.p + self.t + self.m
        self.med = sorted_app(self.ts, 5)
        self.pre = self.base + bounded(byt, 255) + bounded([self.ver, self.mr0, self.mr7, self.nonce], U32) + bounded(self.mr, U64) + bounded(self.ts + [self.start], U32) + (
            self.ctr, P(2015) - self.ctr, self.work, P(U64) - self.work, self.man - 1, self.tgt - 1, P(MAXT) - self.tgt, self.tgt * (1 << 64) - MAXT - 1, self.now - self.med - 1, self.med, P(U32) - self.med) + tuple(
                x - 1 for x in self.ts)
        g = {}
        for x in byt:
            g[self.nm(x)] = lambda env, idx: env.rng.randrange(256)
        for k in range(3):
            g[Fj("Hdm", k)] = lambda env, idx: env.rng.randrange(1 << 64)
        for x in (self.ver, self.mr0, self.mr7, self.nonce, self.start):
            g[self.nm(x)] = lambda env, idx: env.rng.randrange(1 << 32)
        g["Znow"] = lambda env, idx: env.rng.choice([env.rng.randrange(2, 1 << 32), env.rng.randrange(2, 1 << 31), U32, 1 << 31, 2])
        g["Zold"] = lambda env, idx: sum(1 << i for i in env.rng.sample(range(11), env.rng.randrange(7, 12)))
        for i, x in enumerate(self.ts):
            g[self.nm(x)] = lambda env, idx, i=i: env.rng.randrange(1, low(env, "Znow")) if low(env, "Zold") >> i & 1 else env.rng.randrange(1, 1 << 32)
        for i in range(4):
            g[Fj("Hdt", i)] = lambda env, idx, i=i: low(env, "Znow") >> (8 * i) & 255
        g[Fj("Hdn", 2)] = lambda env, idx: env.rng.choice([env.rng.randrange(1, 256), 1, 255]) if e < 29 else 0
        g["Zctr"] = lambda env, idx: env.rng.choice([1, 2, 480, 2014, 2015, env.rng.randrange(1, 2016)])
        g["Zwork"] = lambda env, idx: env.rng.choice([env.rng.randrange(1 << 50), env.rng.randrange(1 << 63), env.rng.randrange(1 << 32)])
        g["sha"] = self.sha
        self.gens = g
        self.kind()
        self.z = [self.z0] + self.ts + [self.prev, self.start, self.ctr, self.work]
        self.honest = (("z", self.z),)

    def sha(self, env, key):
        """the inner hash is any, the outer one below the target"""
        if M_.SHA[key].len() == P(640):
            return env.rng.randbytes(32)
        t = sum(low(env, self.nm(x)) << (8 * i) for i, x in enumerate(self.m)) << (8 * (self.e - 3))
        return env.rng.choice([t - 1, env.rng.randrange(max(t, 1)), env.rng.randrange(max(t, 1))]).to_bytes(32, "little")

    def kind(self):
        # within an epoch
        self.pre += (self.ctr - 1,)
        self.out = {13: self.start}

    @staticmethod
    def nm(x):
        (a,) = x.leaves()
        return tup(a)[1]

    def args(self, I):
        me = header(I, self.h)
        return [me, VRef(I.new_cell(new_cs(), "cs")), vec([anum(I, wire_of("z", (i,)), embed(x)) for i, x in enumerate(self.z)])]

    def value(self, I, args):
        r = lambda x: VStruct(ANUM, {"variable": embed(x), "value": some(embed(x))})
        out = [ANY] + [r(x) for x in self.ts[1:] + [self.now, self.tgt, self.out[13], (self.ctr + 1) * (ONE - eqz(self.ctr - 2015)), self.work + mk_div(P(MAXT), self.tgt)]]
        return ok(vec(out))

    def ranges(self, ins):
        if "bounds" not in self.part:
            return {}
        # what is true of the first state, and shown of the next
        r = {("z", (i,)): (0, U32) for i in list(range(1, 12)) + [13]}
        r[("z", (14,))] = (0, 2015)
        return r

    # ---- the wires of the header's bits
    def bits(self, ins):
        """the wire of bit k of the header, the high-order bit of each byte first"""
        if getattr(ins, "hbits", None) is None:
            by = {}
            with logic.assuming(*self.conds, ge=list(self.pre)):
                for o in ins.order:
                    w = ins.info[o[1]]["eff"].wit if o[0] == "alloc" else None
                    if w is not None and any(tup(a)[0] == "bit" for a in P(w).leaves()):
                        b = ins.info[o[1]]["b"]
                        by.setdefault(subst(P(w), {v: P(x) for v, x in b.items()}) if b else P(w), o[1])
                out = []
                for k in range(640):
                    v = by.get(mk_bit(self.h[k // 64], P(63 - k % 64)))
                    if v is None:
                        raise Unsupported("no wire holds bit %d of the header" % k)
                    out.append(v)
            ins.hbits = out
        return ins.hbits

    def chosen(self, ins, res, args):
        return self.bits(ins)

    def goals(self, D, ins, res, args):
        hb = self.bits(ins)
        B = [one(v) for v in hb]
        z = [x["variable"] for x in args[2]]
        out = [x["variable"] for x in res]
        diff = lambda a, b: ip_add(a, b, -1)
        (nc,) = ip_vars(z[14])
        ex = [(hb[607 - i], self.e >> i & 1) for i in range(8)]
        s = 256 ** (self.e - 3)
        man = packed(B[576:600])

        if "link" in self.part:
            yield "the header's previous hash is the last block's hash", D.zero(diff(packed(B[32:288]), z[0])) and all(D.zero(b) for b in B[256:288])
            yield "the header's time is the new timestamp", D.zero(diff(packed(B[544:576]), out[11]))
            scale = ip_const(inst.inv(1 << 24))
            for i in range(8):
                b = B[607 - i]
                if i >= 5:
                    yield "the exponent of the target is below 32", D.zero(b)
                else:
                    scale = ip_mul(scale, ip_add(ip_const(1), b, (256 ** (1 << i) - 1) % inst.P_))
            yield "the header's compact target is the new target", D.zero(diff(ip_mul(man, scale), out[12]))
            sha = [(a[0], r) for n, a, r, loc, lab in ins.exts if n == "sha256"]
            double = [r2 for a1, r1 in sha if [inst.ip_key(x) for x in a1] == [inst.ip_key(b) for b in B] for a2, r2 in sha if [inst.ip_key(x) for x in a2] == [inst.ip_key(x) for x in r1]]
            yield "the new hash is the header's double hash", any(D.zero(diff(packed(r), out[0])) and all(D.zero(b) for b in r[224:]) for r in double)

        if "bounds" in self.part:
            # the new state lies within the bounds assumed of the last one
            last = ins.ip(eqz(wire(ins, nc) - 2015))
            N, E = D.case(nonzero=[z[14]]), D.case(zero=[(nc, 0)])
            now = packed(B[544:576])
            sha = [r for n, a, r, loc, lab in ins.exts if n == "sha256"]
            yield "the new hash has at most 224 bits", any(D.zero(diff(packed(r), out[0])) and all(D.zero(b) for b in r[224:]) for r in sha)
            for i in range(1, 11):
                yield "timestamp %d has at most 32 bits" % i, D.within(out[i], 0, U32)
            yield "timestamp 11 has at most 32 bits", D.zero(diff(out[11], now))
            yield "the target is above the hash, by less than 2^226", D.within(diff(out[12], out[0]), 1, (1 << 226) - 1)
            yield "the start of the epoch has at most 32 bits", N.zero(diff(out[13], z[13])) and E.zero(diff(out[13], now)) and D.within(z[13], 0, U32)
            yield "the counter stays below 2016", D.zero(diff(out[14], ip_mul(ip_add(z[14], ip_const(1)), diff(ip_const(1), last)))) and D.within(z[14], 0, 2015)
            W = diff(out[15], z[15])
            yield "the work grows by less than 2^64", any(D.zero(diff(W, one(w))) and D.within(one(w), 0, (1 << 64) - 1)
                                                          for w in sorted({v for r in D.rows if set(out[15]) & set(r) - {()} for m in r for v in m}))

        if "check" in self.part:
            yield "the hash is below the target", D.within(diff(out[0], out[12]), -HALF // 2, -1)
            md = mk_app("sorted", P(5), *[mk_nat(wire_of("z", (i,))) for i in range(1, 12)])
            ms = [v for v in held(ins, self, embed(self.med)) if D.zero(diff(ins.ip(eqz(wire(ins, v) - embed(md))), ip_const(1)))]
            yield "the timestamp is later than the median of the last eleven", any(D.within(diff(one(v), out[11]), -HALF // 2, -1) for v in ms)
            N = D.case(nonzero=[z[14]])
            yield "within an epoch the target stays", N.zero(diff(out[12], z[12]))
            E = D.case(zero=[(nc, 0)] + ex)
            nw = lambda i: mk_nat(wire_of("z", (i,)))
            q = mk_div(nw(12) * mk_nat(wire_of("z", (11,)) - wire_of("z", (13,))), P(SPAN))
            calc = {}
            for i in range(4):
                calc = ip_add(calc, ins.ip(mk_bits(q, P(64 * i), P(64))), 1 << (64 * i))
            yield "the first target of an epoch is the scaled one, in compact form", E.within(diff(calc, out[12]), 0, s - 1)

        if "carry" in self.part:
            yield "there are sixteen outputs", len(out) == 16
            for i in range(1, 11):
                yield "timestamp %d moves up" % (i + 1), D.zero(diff(out[i], z[i + 1]))
            last = ins.ip(eqz(wire(ins, nc) - 2015))
            yield "the counter advances, and starts over after 2015", D.zero(diff(out[14], ip_mul(ip_add(z[14], ip_const(1)), diff(ip_const(1), last))))
            N = D.case(nonzero=[z[14]])
            yield "within an epoch its start stays", N.zero(diff(out[13], z[13]))
            E = D.case(zero=[(nc, 0)])
            yield "an epoch starts with its first block", E.zero(diff(out[13], packed(B[544:576])))
            W = diff(out[15], z[15])
            M = D.case(zero=ex)
            K = ip_const(MAXT // s)
            done = False
            for w in sorted({v for r in D.rows if set(out[15]) & set(r) - {()} for m in r for v in m}):
                if M.zero(diff(W, one(w))):
                    X = diff(K, ip_mul(man, one(w)))
                    rs = [v for v in sorted({u for r in D.rows for m in r if w in m for k in r for u in k}) if M.zero(diff(X, one(v)))]
                    done = done or any(M.within(one(w), 0, (1 << 64) - 1) and M.within(one(v), 0, (1 << 24) - 1) and M.within(diff(one(v), mant), -HALF // 2, -1)
                                       for v in rs for mant in [man] + [one(x) for x in held(ins, self, embed(self.man)) if M.zero(diff(one(x), man))])
            yield "the work added is the maximum target over the target, rounded down", done


class StepEpoch(Step):
    """the first step of an epoch"""

    def kind(self):
        sc = 1 << (8 * (self.e - 3))
        N = lambda x: sym(x, "N")
        self.ctr, self.prev, rnd, rem = ZERO, N("Zprev"), N("Zrnd"), N("Zrem")
        sp, q = self.ts[10] - self.start, self.tgt + rnd
        self.pre += (sp - SPAN // 4 - 1, P(4 * SPAN - 1) - sp, P((1 << 224) - 1) - self.prev, rnd, P(sc - 1) - rnd, rem, P(SPAN - 1) - rem)
        self.conds = (eqz(self.prev * sp - P(SPAN) * q - rem),)
        self.quotients = {(self.prev * sp, P(SPAN)): q}
        self.out = {13: self.now}
        g = self.gens
        g["Zspan"] = lambda env, idx: env.rng.choice([SPAN // 4 + 1, 4 * SPAN - 1, SPAN, env.rng.randrange(SPAN // 4 + 1, 4 * SPAN)])
        g["Zstart"] = lambda env, idx: env.rng.randrange(1, 1 << 30)
        g[Fj("Zt", 10)] = lambda env, idx: low(env, "Zstart") + low(env, "Zspan")
        g["Zprev"] = lambda env, idx: env.rng.randrange(1 << 17, 1 << 23) * sc * SPAN // low(env, "Zspan") + env.rng.randrange(sc)
        x = lambda env: low(env, "Zprev") * (low(env, Fj("Zt", 10)) - low(env, "Zstart"))
        for i in range(3):
            g[Fj("Hdn", i)] = lambda env, idx, i=i: x(env) // SPAN // sc >> (8 * i) & 255
        g["Zrnd"] = lambda env, idx: x(env) // SPAN % sc
        g["Zrem"] = lambda env, idx: x(env) % SPAN


def wire(ins, v):
    k = ins.names[v]
    return mk("wire", k[1], tuple(P(i) for i in k[2]), k[3])


for _e in (21, 24, 27, 29):
    mk_spec("step_check_%d" % _e, Step, _e, "check")
for _e in (24, 29):
    mk_spec("step_carry_%d" % _e, Step, _e, "carry")
mk_spec("step_link", Step, 27, "link")
mk_spec("step_bounds", Step, 27, "bounds")
for _i in range(6):
    mk_spec("step_fail_%d" % _i, Step, 27, "fail", _i)
for _e in (24, 27):
    mk_spec("epoch_check_%d" % _e, StepEpoch, _e, "check")
    mk_spec("epoch_carry_%d" % _e, StepEpoch, _e, "carry")


# ---------------------------------------------------------------- the other functions of the step
class Arity(Fixed):
    """the step maps sixteen numbers to sixteen"""
    path = "<btc_validation::header_step::BlockHeader<F> as nova_snark::traits::circuit::StepCircuit<F>>::arity"

    def args(self, I):
        return [header(I, isym("Hw", 10))]

    def value(self, I, args):
        return P(16)


class InitialState(Fixed):
    """the state after block 123455"""
    path = "BlockHeader::<F>::initial_z_i_scalars"
    HASH = 0x0000000000000b60bc96a44724fd72daf9b92cf8ad00510b5224c6253ac40095
    TIMES = (1305191152, 1305191688, 1305193319, 1305194571, 1305194986, 1305195947, 1305197900, 1305199436, 1305200301, 1305200460, 1305200584)
    TARGET = 0x6a93b3 << (8 * (0x1a - 3))

    def args(self, I):
        return []

    def value(self, I, args):
        return vec([embed(P(x)) for x in (self.HASH,) + self.TIMES + (self.TARGET, 1304975844, 123456 % 2016, 0)])


class NewBlocks(Fixed):
    """one circuit for each header, in order"""
    path = "BlockHeader::<F>::new_blocks"
    modes = "W"
    n = 3

    def args(self, I):
        return [vec([vec(isym("Hw%d_" % i, 10)) for i in range(self.n)])]

    def value(self, I, args):
        return vec([header(I, isym("Hw%d_" % i, 10), ANY) for i in range(self.n)])


mk_spec("step_arity", Arity)
mk_spec("initial_state", InitialState)
mk_spec("new_blocks", NewBlocks)
