"""Specifications of the multiprecision arithmetic: limbs, big naturals, polynomials."""
from .specs_util import *
from .specs_util import mk_ite_num
from . import specs_util as U, models
from .values import VFn

S = {}
BN = "mp::bignat::BigNat"


def spec(cls):
    S[cls.__name__] = cls()
    return cls


def P3(w, i):
    return mk_pow(TWO, w * i)


def big(I, n, w, mx, mn, limb, wire, value, known=None):
    """a BigNat: limb(i) the honest limb, wire(i) its linear combination, value its number"""
    j, k = fresh_lv(), fresh_lv()
    known = I.mode == "W" if known is None else known
    lv = VSeq([(P(n), k, limb(k))])
    return VStruct(BN, {
        "limbs": VSeq([(P(n), j, wire(j))]),
        "limb_values": some(lv) if known else NONE,
        "value": some(value) if known else NONE,
        "params": VStruct("mp::bignat::BigNatParams", {"min_bits": P(mn), "max_word": P(mx), "limb_width": P(w), "n_limbs": P(n)})})


def sn(name):
    """the size parameters of a BigNat argument"""
    return tuple(N(name + "." + k) for k in ("n", "w", "max", "min"))


def wf(*names):
    out = []
    for x in names:
        n, w, mx, mn = sn(x)
        out += [n - 1, w - 1, mx, mn]
    return tuple(out)


def lc_(name, j):
    return wire_of(name, (j,))


def lv_(name, j):
    return val_of(name, (j,))


class Pure(Std):
    """neither wires nor constraints"""
    sizes = ()


sn_, sw_, sx_, sm_ = sn("self")
on_, ow_, ox_, om_ = sn("other")
MAXP = mk_pow(TWO, NUMBITS - 1)


@spec
class nat_to_limbs(Pure):
    path = "mp::bignat::nat_to_limbs"
    over = {0: N("nat")}
    pre = (N("nat"), N("limb_width") - 1, N("n_limbs"), mk_pow(TWO, N("limb_width") * N("n_limbs")) - 1 - N("nat"), NUMBITS - 1 - N("limb_width"))

    def value(self, I, args):
        j = fresh_lv()
        w, n = N("limb_width"), N("n_limbs")
        return ok(VSeq([(n, j, embed(mk_mod(mk_div(N("nat"), P3(w, j)), mk_pow(TWO, w))))]))


@spec
class params_new(Pure):
    path = "BigNatParams::new"

    def value(self, I, args):
        return VStruct("mp::bignat::BigNatParams", {"min_bits": ZERO, "max_word": mk_pow(TWO, N("limb_width")) - 1,
                                                    "limb_width": N("limb_width"), "n_limbs": N("n_limbs")})


@spec
class from_limbs(Pure):
    path = "BigNat::<Scalar>::from_limbs"
    pre = (N("limbs.len") - 1,)

    def value(self, I, args):
        n, w = N("limbs.len"), N("limb_width")
        return big(I, n, w, mk_pow(TWO, w) - 1, 0, lambda j: lv_("limbs", j), lambda j: lc_("limbs", j), nat_sum("limbs", n, w))


@spec
class from_poly(Pure):
    path = "BigNat::<Scalar>::from_poly"

    def value(self, I, args):
        n, w = N("poly.n"), N("limb_width")
        return big(I, n, w, N("max_word"), 0, lambda j: lv_("poly", j), lambda j: lc_("poly", j), nat_sum("poly", n, w))


@spec
class to_poly(Pure):
    path = "mp::bignat::<impl std::convert::From<mp::bignat::BigNat<Scalar>> for mp::poly::Polynomial<Scalar>>::from"
    over = {0: lambda I: mk_bignat(I, "self")}

    def value(self, I, args):
        j, k = fresh_lv(), fresh_lv()
        v = VSeq([(sn_, k, lv_("self", k))])
        return VStruct("mp::poly::Polynomial", {"coefficients": VSeq([(sn_, j, lc_("self", j))]), "values": some(v) if I.mode == "W" else NONE})


@spec
class as_limbs(Pure):
    path = "BigNat::<Scalar>::as_limbs"
    over = {0: lambda I: mk_bignat(I, "self")}

    def value(self, I, args):
        j = fresh_lv()
        return VSeq([(sn_, j, VStruct("util::num::Num", {"num": lc_("self", j), "value": some(lv_("self", j)) if I.mode == "W" else NONE}))])


@spec
class concat(Pure):
    path = "BigNat::<Scalar>::concat"
    over = {0: lambda I: mk_bignat(I, "self")}
    pre = wf("self", "other")
    conds = (eqz(sw_ - ow_),)

    def value(self, I, args):
        f = lambda g: lambda j: simp(ge(on_ - 1 - j) * g("other", j) + (ONE - ge(on_ - 1 - j)) * g("self", j - on_))
        mx = mk_ite_num(ge(sx_ - ox_), sx_, ox_)
        mn = mk_ite_num(ge(sm_ - 1), sm_ + ow_ * on_, om_)
        return ok(big(I, sn_ + on_, sw_, mx, mn, f(lv_), f(lc_),
                      nat_sum("self", sn_, sw_) * mk_pow(TWO, ow_ * on_) + nat_sum("other", on_, ow_)))


@spec
class add(Pure):
    path = "BigNat::<Scalar>::add"
    over = {0: lambda I: mk_bignat(I, "self")}
    pre = wf("self", "other")
    conds = (eqz(sw_ - ow_),)
    coherent = False

    def value(self, I, args):
        n = mk_ite_num(ge(sn_ - on_), sn_, on_)
        f = lambda g: lambda j: simp(ge(sn_ - 1 - j) * g("self", j) + ge(on_ - 1 - j) * g("other", j))
        return ok(big(I, n, sw_, sx_ + ox_, mk_ite_num(ge(sm_ - om_), sm_, om_), f(lv_), f(lc_),
                      nat_sum("self", sn_, sw_) + nat_sum("other", on_, ow_)))


@spec
class shift(Pure):
    path = "BigNat::<Scalar>::shift"
    over = {0: lambda I: mk_bignat(I, "self"), 1: sym("constant", "F")}
    coherent = False
    pre = wf("self") + (MAXP - sx_ - mk_nat(sym("constant", "F")),)

    def value(self, I, args):
        c = sym("constant", "F")
        f = lambda g: lambda j: simp(g("self", j) + eqz(j) * c)
        return big(I, sn_, sw_, sx_ + mk_nat(c), sm_, f(lv_), f(lc_), nat_sum("self", sn_, sw_) + mk_nat(c))


@spec
class scale(Pure):
    path = "BigNat::<Scalar>::scale"
    over = {0: lambda I: mk_bignat(I, "self"), 1: sym("constant", "F")}
    coherent = False
    pre = wf("self") + (MAXP - sx_ * mk_nat(sym("constant", "F")),)

    def value(self, I, args):
        c = sym("constant", "F")
        f = lambda g: lambda j: g("self", j) * c
        return big(I, sn_, sw_, sx_ * mk_nat(c), (ONE - eqz(c)) * sm_, f(lv_), f(lc_), nat_sum("self", sn_, sw_) * mk_nat(c))


@spec
class with_n_limbs(Pure):
    path = "BigNat::<Scalar>::with_n_limbs"
    over = {0: lambda I: mk_bignat(I, "self")}
    pre = wf("self") + (N("n_limbs") - sn_,)

    def value(self, I, args):
        f = lambda g: lambda j: simp(ge(sn_ - 1 - j) * g("self", j))
        return big(I, N("n_limbs"), sw_, sx_, sm_, f(lv_), f(lc_), nat_sum("self", sn_, sw_))


@spec
class one(Pure):
    path = "BigNat::<Scalar>::one"

    def value(self, I, args):
        return big(I, 1, N("limb_width"), 1, 1, lambda j: ONE, lambda j: ONE, ONE, True)


@spec
class n_bits(Pure):
    path = "BigNat::<Scalar>::n_bits"
    over = {0: lambda I: mk_bignat(I, "self")}
    pre = wf("self")

    def value(self, I, args):
        return sw_ * (sn_ - 1) + mk_app("nbits", sx_)


@spec
class group_limbs(Pure):
    path = "BigNat::<Scalar>::group_limbs"
    over = {0: lambda I: mk_bignat(I, "self")}
    pre = wf("self") + (N("limbs_per_group") - 1,)
    coherent = False

    def value(self, I, args):
        k = N("limbs_per_group")
        n = mk_div(sn_ - 1, k) + 1

        def f(g):
            def h(q):
                j = fresh_lv()
                m = sn_ - k * q
                return mk_sum(mk_ite_num(ge(m - k), k, m), j, embed(P3(sw_, j)) * g("self", k * q + j))
            return h
        j = fresh_lv()
        mx = mk_sum(k, j, P3(sw_, j)) * sx_
        return big(I, n, sw_ * k, mx, sm_, f(lv_), f(lc_), nat_sum("self", sn_, sw_))


@spec
class truncate_limbs(Pure):
    path = "BigNat::<Scalar>::truncate_limbs"
    over = {0: lambda I: mk_bignat(I, "self")}
    pre = wf("self") + (N("n_limbs"),)

    def value(self, I, args):
        m = mk_ite_num(ge(N("n_limbs") - sn_), sn_, N("n_limbs"))
        cut = ge(sn_ - 1 - N("n_limbs"))
        mn = (ONE - cut) * sm_
        return big(I, m, sw_, sx_, mn, lambda j: lv_("self", j), lambda j: lc_("self", j), nat_sum("self", m, sw_))


@spec
class recompose(Pure):
    path = "BigNat::<Scalar>::recompose"
    over = {0: lambda I: mk_bitvec(I, "bv")}
    pre = (N("bv.len") - 1, N("limb_width") - 1)
    coherent = False

    def value(self, I, args):
        n, k = N("bv.len"), N("limb_width")

        def f(pre):
            def h(q):
                j = fresh_lv()
                m = n - k * q
                return mk_sum(mk_ite_num(ge(m - k), k, m), j, embed(mk_pow(TWO, j)) * wire_of(pre + "bv", (k * q + j,), "B"))
            return h
        j, i = fresh_lv(), fresh_lv()
        return big(I, mk_div(n - 1, k) + 1, k, mk_sum(k, j, mk_pow(TWO, j)), 0, f("$"), f(""), mk_sum(n, i, mk_pow(TWO, i) * wire_of("$bv", (i,), "B")))


@spec
class width_agreement(Pure):
    path = "BigNat::<Scalar>::enforce_limb_width_agreement"
    over = {0: lambda I: mk_bignat(I, "self")}
    fails = ONE - eqz(sw_ - ow_)
    rejects = fails

    def value(self, I, args):
        return ok(sw_)


# ---------------------------------------------------------------- polynomials
@spec
class evaluate_at(Pure):
    path = "Polynomial::<Scalar>::evaluate_at"
    over = {0: lambda I: mk_poly(I, "self"), 1: sym("x", "F")}
    pre = (N("self.n"),)

    def value(self, I, args):
        if I.mode == "S":
            return NONE
        j = fresh_lv()
        return some(mk_sum(N("self.n"), j, mk_pow(sym("x", "F"), j) * lv_("self", j)))


def poly(I, n, coef, val):
    j, k = fresh_lv(), fresh_lv()
    return VStruct("mp::poly::Polynomial", {"coefficients": VSeq([(n, j, coef(j))]), "values": some(VSeq([(n, k, val(k))])) if I.mode == "W" else NONE})


@spec
class poly_sum(Pure):
    path = "Polynomial::<Scalar>::sum"
    over = {0: lambda I: mk_poly(I, "self")}

    def value(self, I, args):
        n = mk_ite_num(ge(sn_ - on_), sn_, on_)
        f = lambda g: lambda j: simp(ge(sn_ - 1 - j) * g("self", j) + ge(on_ - 1 - j) * g("other", j))
        return poly(I, n, f(lc_), f(lv_))


@spec
class alloc_product(Std):
    path = "Polynomial::<Scalar>::alloc_product"
    over = {0: lambda I: mk_poly(I, "self")}
    pre = (sn_ - 1, on_ - 1)
    sizes = tuple({"self.n": a, "other.n": b} for a, b in ((1, 1), (1, 3), (2, 2), (3, 2), (4, 4), (8, 5), (12, 12)))

    def value(self, I, args):
        def c(k):
            a = fresh_lv()
            return mk_sum(sn_, a, simp(ge(k - a) * ge(on_ - 1 - k + a)) * lv_("self", a) * lv_("other", k - a))
        return ok(poly(I, sn_ + on_ - 1, c, c))

    def goals(self, D, ins, res, args):
        a, b, c = args[0]["coefficients"], args[2]["coefficients"], res["coefficients"]
        yield "as many coefficients as the product has", len(c) == len(a) + len(b) - 1
        for k in range(len(c)):
            p = inst.ip_scale(c[k], -1)
            for i in range(len(a)):
                if 0 <= k - i < len(b):
                    p = inst.ip_add(p, inst.ip_mul(a[i], b[k - i]))
            yield "coefficient %d is the convolution" % k, D.zero(p)


# ---------------------------------------------------------------- allocation
def fn_nat(I, name="f"):
    """the closure that yields the number to allocate"""
    return VFn(lambda: ok(N(name)) if I.mode == "W" else err(VOpaque("missing")))


@spec
class alloc_from_nat(Std):
    path = "BigNat::<Scalar>::alloc_from_nat"
    over = {"f": fn_nat}
    pre = (N("f"), N("limb_width") - 1, N("n_limbs") - 1, mk_pow(TWO, N("limb_width") * N("n_limbs")) - 1 - N("f"), NUMBITS - 1 - N("limb_width"))
    sizes = tuple({"limb_width": w, "n_limbs": n, "f": f} for w, n, f in ((1, 1, 1), (8, 3, 77777), (64, 4, 3 ** 150)))

    def value(self, I, args):
        w, n = N("limb_width"), N("n_limbs")
        g = lambda j: embed(mk_mod(mk_div(N("f"), P3(w, j)), mk_pow(TWO, w)))
        return ok(big(I, n, w, mk_pow(TWO, w) - 1, 0, g, g, N("f")))


@spec
class alloc_from_limbs(Std):
    path = "BigNat::<Scalar>::alloc_from_limbs"
    over = {"f": lambda I: VFn(lambda: ok(mk_limbs("f", N("n_limbs"), False)) if I.mode == "W" else err(VOpaque("missing"))),
            "max_word": lambda I: some(N("max_word"))}
    pre = (N("limb_width") - 1, N("n_limbs") - 1, N("max_word"))
    sizes = tuple({"limb_width": w, "n_limbs": n, "max_word": 99} for w, n in ((1, 1), (8, 3)))

    def value(self, I, args):
        w, n = N("limb_width"), N("n_limbs")
        return ok(big(I, n, w, N("max_word"), 0, lambda j: lv_("f", j), lambda j: lv_("f", j), nat_sum("f", n, w)))


@spec
class alloc_from_limbs_default(type(S['alloc_from_limbs'])):
    over = {"f": S['alloc_from_limbs'].over["f"], "max_word": lambda I: NONE}

    def value(self, I, args):
        w, n = N("limb_width"), N("n_limbs")
        return ok(big(I, n, w, mk_pow(TWO, w) - 1, 0, lambda j: lv_("f", j), lambda j: lv_("f", j), nat_sum("f", n, w)))


@spec
class bn_gadget_alloc(type(S['alloc_from_nat'])):
    """allocation through the gadget interface"""
    path = "<mp::bignat::BigNat<Scalar> as util::gadget::Gadget>::alloc"

    def args(self, I):
        ps = VStruct("mp::bignat::BigNatParams", {"min_bits": N("minb"), "max_word": N("maxw"), "limb_width": N("limb_width"), "n_limbs": N("n_limbs")})
        return [new_cs(), some(N("f")) if I.mode == "W" else NONE, UNIT, ps]


class View(Pure):
    """what a big natural says of itself through the gadget interface"""
    pre = wf("self")

    def __init__(self, name, want):
        self.path = "<mp::bignat::BigNat<Scalar> as util::gadget::Gadget>::" + name
        self.want = want

    def args(self, I):
        return [mk_bignat(I, "self")]

    def value(self, I, args):
        return self.want(I, args[0])

    def result(self, I, args, r):
        return I.get(r)


for _nm, _f in (("value", "value"), ("wire_values", "limb_values"), ("params", "params"), ("wires", "limbs")):
    S["bn_view_" + _nm] = View(_nm, lambda I, a, _f=_f: a.f[_f])


@spec
class limbs_to_nat(Pure):
    path = "mp::bignat::limbs_to_nat"
    pre = (N("limb_width"), N("k"))
    modes = "W"

    def args(self, I):
        return [models.seq_iter(mk_limbs("x", N("k"), False)), N("limb_width")]

    def value(self, I, args):
        return nat_sum("x", N("k"), N("limb_width"))


# ---------------------------------------------------------------- what must be refused
class Refused(Pure):
    """input that must be refused, by an error or a panic"""
    rules = ("O8",)
    refusals = ("err", "panic", "index")
    fails = rejects = ONE
    coherent = False


def over_bound():
    return mk_pow(TWO, N("limb_width") * N("n_limbs")) + N("extra")


@spec
class nat_to_limbs_wide(Refused):
    """a number that does not fit its limbs"""
    path = "mp::bignat::nat_to_limbs"
    over = {0: over_bound()}
    pre = (N("extra"), N("limb_width") - 1, N("n_limbs"), NUMBITS - 1 - N("limb_width"))


@spec
class alloc_from_nat_wide(Refused):
    path = "BigNat::<Scalar>::alloc_from_nat"
    modes = "W"
    over = {"f": lambda I: VFn(lambda: ok(over_bound()) if I.mode == "W" else err(VOpaque("missing")))}
    pre = (N("extra"), N("limb_width") - 1, N("n_limbs") - 1, NUMBITS - 1 - N("limb_width"))


@spec
class alloc_from_limbs_more(Refused):
    """other values than there are limbs"""
    path = "BigNat::<Scalar>::alloc_from_limbs"
    modes = "W"
    over = {"f": lambda I: VFn(lambda: ok(mk_limbs("f", N("n_limbs") + 1 + N("extra"), False))), "max_word": lambda I: some(N("max_word"))}
    pre = (N("extra"), N("limb_width") - 1, N("n_limbs") - 1, N("max_word"))


@spec
class alloc_from_limbs_fewer(Refused):
    path = "BigNat::<Scalar>::alloc_from_limbs"
    modes = "W"
    over = {"f": lambda I: VFn(lambda: ok(mk_limbs("f", N("m"), False))), "max_word": lambda I: some(N("max_word"))}
    pre = (N("m"), N("n_limbs") - 1 - N("m"), N("limb_width") - 1, N("max_word"))


@spec
class with_n_limbs_fewer(Refused):
    path = "BigNat::<Scalar>::with_n_limbs"
    over = {0: lambda I: mk_bignat(I, "self")}
    pre = wf("self") + (N("n_limbs"), sn_ - 1 - N("n_limbs"))


def huge(env, idx):
    return (1 << env.rng.choice([255, 256, 300])) - env.rng.choice([0, 1])


@spec
class shift_wide(Refused):
    """words that may exceed the field"""
    path = "BigNat::<Scalar>::shift"
    over = {0: lambda I: mk_bignat(I, "self"), 1: sym("constant", "F")}
    pre = wf("self") + (sx_ + mk_nat(sym("constant", "F")) - MAXP - 1,)
    gens = {("sym", "self.max"): huge}


@spec
class scale_wide(Refused):
    path = "BigNat::<Scalar>::scale"
    over = {0: lambda I: mk_bignat(I, "self"), 1: sym("constant", "F")}
    pre = wf("self") + (sx_ * mk_nat(sym("constant", "F")) - MAXP - 1,)
    gens = {("sym", "self.max"): huge}


# ---------------------------------------------------------------- comparison of records
class SameRecord(Pure):
    """two big naturals compare as equal exactly when their values and parameters do"""
    path = "<mp::bignat::BigNat<Scalar> as std::cmp::PartialEq>::eq"
    coherent = False
    pre = tuple(N(k) for k in ("n", "w", "max", "min", "a", "b"))
    gens = {("sym", "b"): lambda env, idx: env.rng.choice([env.value("a"), env.rng.randrange(99)]) if hasattr(env, "value") else env.rng.randrange(4)}

    def __init__(self, which=None):
        self.which = which

    def args(self, I):
        def one(name, v, extra):
            return VStruct(BN, {"limbs": mk_limbs(name, N("n")), "limb_values": opt(I, mk_limbs(name, N("n"), False)), "value": opt(I, N(v)),
                                "params": VStruct("mp::bignat::BigNatParams", {f: N(k) + (1 if f == extra else 0) for f, k in (
                                    ("min_bits", "min"), ("max_word", "max"), ("limb_width", "w"), ("n_limbs", "n"))})})
        return [one("x", "a", None), one("y", "a" if self.which else "b", self.which)]

    def value(self, I, args):
        if self.which:
            return ZERO
        return eqz(N("a") - N("b")) if I.mode == "W" else ONE


for _n, _f in (("value", None), ("min_bits", "min_bits"), ("max_word", "max_word"), ("limb_width", "limb_width"), ("n_limbs", "n_limbs")):
    S["bn_same_" + _n] = SameRecord(_f)
