"""Specifications of the util gadgets: numbers, bits, bit vectors."""
from .gadget import *
from .gen import *
from .models import NUMBITS, ANUM, ABIT, BOOLEAN
from . import params

S = {}


def spec(cls):
    S[cls.__name__] = cls()
    return cls


def N(n):
    return sym(n, "N")


def build(I, prog, path, over):
    b = lookup(prog, path)
    out = []
    for i, (p, nm) in enumerate(zip(b["params"], params.names(b))):
        x = over.get(i, over.get(nm))
        if x is None:
            x = mk_arg(I, p["ty"], nm)
        elif callable(x) and not isinstance(x, Val):
            x = x(I)
        out.append(x)
    return out


class Std(Spec):
    over = {}

    def args(self, I):
        return build(I, I.prog, self.path, self.over)


def fits(p, n):
    return mk_pow(TWO, n) - 1 - p


n = N("n_bits")
WIDTHS = (1, 2, 3, 4, 5, 8, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 192, 224, 251, 252, 253, 254)


def a_width(env, idx):
    """small widths, and those around the sizes of machine words and of the field"""
    return env.rng.choice(WIDTHS)


def a_fit(env, idx):
    """a number of at most n_bits bits"""
    k = env.leaf("sym", "n_bits", (), "N")
    return env.rng.choice([0, 1, (1 << k) - 1, 1 << (k - 1), env.rng.randrange(1 << k), env.rng.randrange(1 << k)])


def fitting(*names):
    g = {("wire", "$" + x): a_fit for x in names}
    g["sym", "n_bits"] = a_width
    return g


@spec
class fits_in_bits(Std):
    path = "Num::<Scalar>::fits_in_bits"
    over = {0: lambda I: mk_num(I, "self"), 2: n}
    gens = fitting("self")
    pre = (n - 1, NUMBITS - 1 - n, fits(mk_nat(val_of("self")), n))
    sizes = tuple({"n_bits": k} for k in (1, 2, 3, 8, 33, 254))

    def value(self, I, args):
        return ok(UNIT)

    def goals(self, D, ins, res, args):
        k = ins.sizes["n_bits"]
        yield "num < 2^n_bits", D.within(args[0]["num"], 0, (1 << k) - 1)


@spec
class num_decompose(Std):
    path = "Num::<Scalar>::decompose"
    over = {0: lambda I: mk_num(I, "self"), 2: n}
    gens = fitting("self")
    pre = (n - 1, NUMBITS - 1 - n, fits(mk_nat(val_of("self")), n))
    sizes = S['fits_in_bits'].sizes

    def value(self, I, args):
        j = fresh_lv()
        b = VSeq([(n, j, mk_bit(mk_nat(val_of("self")), j))])
        return ok(VStruct("util::bit::Bitvector", {"bits": b, "values": some(b) if I.mode == "W" else NONE, "allocations": ANY}))

    def goals(self, D, ins, res, args):
        k = ins.sizes["n_bits"]
        yield "num < 2^n_bits", D.within(args[0]["num"], 0, (1 << k) - 1)
        yield "as many bits as asked for", len(res["bits"]) == k
        yield "every bit is determined by num", all(D.unique(b) for b in res["bits"])
        yield "every bit is boolean", all(D.within(b, 0, 1) for b in res["bits"])


@spec
class bit_alloc(Std):
    path = "Bit::<Scalar>::alloc"

    def value(self, I, args):
        v = sym("value", "B")
        return ok(VStruct("util::bit::Bit", {"bit": v, "value": some(v)}))

    def goals(self, D, ins, res, args):
        yield "the wire is boolean", D.within(res["bit"], 0, 1)


@spec
class constrain_value(Std):
    path = "Bit::<Scalar>::constrain_value"
    over = {0: lambda I: mk_bit_(I, "self"), 2: sym("value", "B")}
    sizes = ({"value": 0}, {"value": 1})

    def goals(self, D, ins, res, args):
        yield "the bit is the constant", D.zero(inst.ip_add(args[0]["bit"], inst.ip_const(-ins.sizes["value"])))


S['constrain_value'].conds = (eqz(mk('wire', '$self', (), 'B') - sym('value', 'B')),)


@spec
class equals(Std):
    path = "BigNat::<Scalar>::equals"

    def value(self, I, args):
        d = eqz(val_of("a") - val_of("b"))
        return ok(VStruct(BOOLEAN, {"lc": d, "value": some(d)}))

    def goals(self, D, ins, res, args):
        yield "the result is determined by a and b", D.unique(res["lc"])


lo_ = N("n_bits")


def shifted(x, y, n):
    return mk_nat(x - y + embed(mk_pow(TWO, n + 1)))


@spec
class less_than(Std):
    path = "median::less_than"
    contracts = ("equals", "fits_in_bits")
    over = {3: n}
    off = 0
    gens = fitting("a", "b")
    pre = (n - 1, 252 - n)
    sizes = tuple({"n_bits": k} for k in (1, 2, 32, 126, 127, 128, 224, 252))

    def args(self, I):
        return Std.args(self, I)

    def value(self, I, args):
        s = shifted(val_of("a") - self.off, val_of("b"), n)
        d = ge(mk_pow(TWO, n + 1) - 1 - s)
        return ok(VStruct(BOOLEAN, {"lc": d, "value": some(d)}))

    def goals(self, D, ins, res, args):
        k = ins.sizes["n_bits"]
        yield "the result is determined by a and b", D.unique(res["lc"])
        a, b = args[1]["variable"], args[2]["variable"]
        d = inst.ip_add(inst.ip_add(a, b, -1), inst.ip_const((2 << k) - self.off))
        yield "the difference is confined to the comparison range", D.within(d, 0, (4 << k) - 1)


S['less_than'].pre = S['less_than'].pre + (mk_pow(TWO, n + 2) - 1 - shifted(val_of("a"), val_of("b"), n),)


@spec
class leq(type(S['less_than'])):
    path = "median::leq"
    off = 1


S['leq'].pre = (n - 1, 252 - n, mk_pow(TWO, n + 2) - 1 - shifted(val_of("a") - 1, val_of("b"), n))


# ---------------------------------------------------------------- bit vectors
def bv(I, n, bit, val=None, alloc=ANY):
    """a bit vector of n bits whose i-th wire is bit(i)"""
    j, k = fresh_lv(), fresh_lv()
    v = VSeq([(n, k, P(val(k)))]) if I.mode == "W" and val is not False else None
    return VStruct("util::bit::Bitvector", {"bits": VSeq([(n, j, P(bit(j)))]),
                                            "values": NONE if v is None else some(v), "allocations": alloc})


def b_(name, j):
    return wire_of(name, (j,), "B")


def v_(name, j):
    return wire_of("$" + name, (j,), "B")


def piece(c, a, b):
    return simp(c * a + (ONE - c) * b)


blen = N("self.len")
SELF_BV = {"self": lambda I: mk_bitvec(I, "self")}


class BvSpec(Std):
    sizes = ({"self.len": 0, "i": 0, "n": 0, "other.len": 2}, {"self.len": 4, "i": 2, "n": 3, "other.len": 3})
    modes = "WS"

    def both(self, I, n, f):
        """f(get) for wires and for values; get(name, index)"""
        return bv(I, n, lambda j: f(b_, j), lambda j: f(v_, j))


class BvMut(BvSpec):
    """a method that changes its receiver: the result is (what it returns, the receiver after)"""

    def args(self, I):
        self.cell = VRef(I.new_cell(mk_bitvec(I, "self"), "self"))
        a = build(I, I.prog, self.path, {**self.over, 0: self.cell})
        return a

    def result(self, I, args, r):
        return VTuple([r, I.get(args[0])])


@spec
class bv_reversed(BvSpec):
    path = "Bitvector::<Scalar>::reversed"

    def value(self, I, args):
        return self.both(I, blen, lambda g, j: g("self", blen - 1 - j))


@spec
class bv_truncate(BvSpec):
    path = "Bitvector::<Scalar>::truncate"

    def value(self, I, args):
        m = simp(mk_ite_num(ge(N("n") - blen), blen, N("n")))
        return self.both(I, m, lambda g, j: g("self", j))


def mk_ite_num(c, a, b):
    return c * a + (ONE - c) * b


@spec
class bv_get(BvSpec):
    path = "Bitvector::<Scalar>::get"
    over = {0: lambda I: mk_bitvec(I, "self")}

    def value(self, I, args):
        i = N("i")
        x = VStruct("util::bit::Bit", {"bit": b_("self", i), "value": some(v_("self", i)) if I.mode == "W" else NONE})
        return VIte(ge(blen - 1 - i), some(x), NONE)


@spec
class bv_shr(BvSpec):
    path = "Bitvector::<Scalar>::shr"
    pre = (blen - N("i"),)

    def value(self, I, args):
        return self.both(I, blen - N("i"), lambda g, j: g("self", j + N("i")))


@spec
class bv_shl(BvSpec):
    path = "Bitvector::<Scalar>::shl"

    def value(self, I, args):
        i = N("i")
        return self.both(I, blen + i, lambda g, j: ge(j - i) * g("self", j - i))


@spec
class bv_pop(BvMut):
    path = "Bitvector::<Scalar>::pop"

    def value(self, I, args):
        some_ = ge(blen - 1)
        x = VStruct("util::bit::Bit", {"bit": b_("self", blen - 1), "value": some(v_("self", blen - 1)) if I.mode == "W" else NONE})
        return VTuple([VIte(some_, some(x), NONE), VIte(some_, self.both(I, blen - 1, lambda g, j: g("self", j)), self.both(I, blen, lambda g, j: g("self", j)))])


@spec
class bv_push(BvMut):
    path = "Bitvector::<Scalar>::push"
    over = {1: lambda I: mk_bit_(I, "b")}

    def value(self, I, args):
        f = lambda g, j: piece(eqz(j - blen), wire_of(("$" if g is v_ else "") + "b", (), "B"), g("self", j))
        return VTuple([UNIT, self.both(I, blen + 1, f)])


@spec
class bv_insert(BvMut):
    path = "Bitvector::<Scalar>::insert"
    over = {2: lambda I: mk_bit_(I, "b")}
    pre = (blen - N("i"),)

    def value(self, I, args):
        i = N("i")
        f = lambda g, j: piece(eqz(j - i), wire_of(("$" if g is v_ else "") + "b", (), "B"),
                               piece(ge(j - i), g("self", j - 1), g("self", j)))
        return VTuple([UNIT, self.both(I, blen + 1, f)])


@spec
class bv_append(BvMut):
    path = "Bitvector::<Scalar>::append"
    over = {1: lambda I: mk_bitvec(I, "other")}

    def value(self, I, args):
        f = lambda g, j: piece(ge(j - blen), g("other", j - blen), g("self", j))
        return VTuple([UNIT, self.both(I, blen + N("other.len"), f)])


def bit_unknown(name):
    return lambda I: VStruct("util::bit::Bit", {"bit": wire_of(name, (), "B"), "value": NONE})


@spec
class bv_push_unknown(BvMut):
    """pushing a bit without a value leaves no values"""
    path = "Bitvector::<Scalar>::push"
    over = {1: bit_unknown("b")}
    coherent = False

    def value(self, I, args):
        f = lambda j: piece(eqz(j - blen), wire_of("b", (), "B"), b_("self", j))
        return VTuple([UNIT, bv(I, blen + 1, f, False)])


@spec
class bv_insert_unknown(BvMut):
    path = "Bitvector::<Scalar>::insert"
    over = {2: bit_unknown("b")}
    pre = (blen - N("i"),)
    coherent = False

    def value(self, I, args):
        i = N("i")
        f = lambda j: piece(eqz(j - i), wire_of("b", (), "B"), piece(ge(j - i), b_("self", j - 1), b_("self", j)))
        return VTuple([UNIT, bv(I, blen + 1, f, False)])


@spec
class bv_append_unknown(BvMut):
    path = "Bitvector::<Scalar>::append"
    coherent = False

    def args(self, I):
        I.mode, m = "S", I.mode
        try:
            o = mk_bitvec(I, "other")
        finally:
            I.mode = m
        self.over = {1: o}
        return BvMut.args(self, I)

    def value(self, I, args):
        f = lambda j: piece(ge(j - blen), b_("other", j - blen), b_("self", j))
        return VTuple([UNIT, bv(I, blen + N("other.len"), f, False)])


@spec
class bv_into_bits(BvSpec):
    path = "Bitvector::<Scalar>::into_bits"

    def value(self, I, args):
        j = fresh_lv()
        return VSeq([(blen, j, VStruct("util::bit::Bit", {"bit": b_("self", j), "value": some(v_("self", j)) if I.mode == "W" else NONE}))])


@spec
class bv_from_bits(BvSpec):
    path = "Bitvector::<Scalar>::from_bits"
    sizes = ({"bs.len": 1}, {"bs.len": 5})

    def value(self, I, args):
        n = N("bs.len")
        j = fresh_lv()
        al = VSeq([(n, j, VStruct("util::bit::Bit", {"bit": b_("bs", j), "value": some(v_("bs", j)) if I.mode == "W" else NONE}))])
        r = bv(I, n, lambda k: b_("bs", k), lambda k: v_("bs", k), al)
        return r


S['bv_from_bits'].pre = (N("bs.len") - 1,)


@spec
class bit_not(Std):
    path = "Bit::<Scalar>::not"
    over = {0: lambda I: mk_bit_(I, "self")}

    def value(self, I, args):
        f = lambda x: ONE - wire_of(x, (), "B")
        return VStruct("util::bit::Bit", {"bit": f("self"), "value": some(f("$self")) if I.mode == "W" else NONE})


@spec
class bit_from_sapling(Std):
    path = "Bit::<Scalar>::from_sapling"

    def value(self, I, args):
        return VStruct("util::bit::Bit", {"bit": wire_of("b", (), "B"), "value": some(wire_of("$b", (), "B")) if I.mode == "W" else NONE})


def const_bit(c):
    return VStruct("util::bit::Bit", {"bit": P(c), "value": some(P(c))})


@spec
class bit_new_false(Std):
    path = "Bit::<Scalar>::new_false"

    def value(self, I, args):
        return const_bit(0)


@spec
class bit_new_true(Std):
    path = "Bit::<Scalar>::new_true"

    def value(self, I, args):
        return const_bit(1)


@spec
class bit_new_value(Std):
    path = "Bit::<Scalar>::new_value"
    sizes = ({"v": 0}, {"v": 1})

    def value(self, I, args):
        return const_bit(sym("v", "B"))


# ---------------------------------------------------------------- numbers
@spec
class num_is_equal(Std):
    path = "Num::<Scalar>::is_equal"
    over = {0: lambda I: mk_num(I, "self"), 2: lambda I: mk_bitvec(I, "other")}
    sizes = ({"other.len": 0}, {"other.len": 1}, {"other.len": 2}, {"other.len": 9}, {"other.len": 254})

    def value(self, I, args):
        return ok(UNIT)

    def goals(self, D, ins, res, args):
        d = args[0]["num"]
        for i, b in enumerate(args[2]["bits"]):
            d = inst.ip_add(d, b, -pow(2, i, inst.PRIME))
        yield "num is the number that the bits make", D.zero(d)


jj = fresh_lv()
S['num_is_equal'].conds = (eqz(val_of("self") - mk_sum(N("other.len"), jj, wire_of("$other", (jj,), "B") * mk_pow(TWO, jj))),)


@spec
class num_as_allocated(Std):
    path = "Num::<Scalar>::as_sapling_allocated_num"
    over = {0: lambda I: mk_num(I, "self")}

    def value(self, I, args):
        return ok(VStruct(ANUM, {"variable": val_of("self"), "value": some(val_of("self"))}))

    def goals(self, D, ins, res, args):
        yield "the new wire is the number", D.zero(inst.ip_add(res["variable"], args[0]["num"], -1))


@spec
class num_from_allocated(Std):
    path = "<util::num::Num<Scalar> as std::convert::From<bellpepper_core::num::AllocatedNum<Scalar>>>::from"
    over = {0: lambda I: mk_anum(I, "a")}
    sizes = ()

    def value(self, I, args):
        return VStruct("util::num::Num", {"num": wire_of("a"), "value": some(val_of("a")) if I.mode == "W" else NONE})


@spec
class num_alloc(Std):
    path = "Num::<Scalar>::alloc"

    def args(self, I):
        return [new_cs(), VFn(lambda: ok(sym("f", "F")) if I.mode == "W" else err(VOpaque("missing")))]

    def value(self, I, args):
        return ok(VStruct("util::num::Num", {"num": sym("f", "F"), "value": some(sym("f", "F"))}))


@spec
class num_new(Std):
    path = "Num::<Scalar>::new"
    sizes = ()

    def args(self, I):
        return [some(val_of("a")) if I.mode == "W" else NONE, wire_of("a")]

    def value(self, I, args):
        return VStruct("util::num::Num", {"num": wire_of("a"), "value": args[0]})


@spec
class bit_new(Std):
    path = "Bit::<Scalar>::new"
    sizes = ()

    def args(self, I):
        return [wire_of("a", (), "B"), some(wire_of("$a", (), "B")) if I.mode == "W" else NONE]

    def value(self, I, args):
        return VStruct("util::bit::Bit", {"bit": args[0], "value": args[1]})
