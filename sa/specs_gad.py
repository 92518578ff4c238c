"""Specifications of the generic gadget operations: selection, equality, public exposure."""
from .specs_mp import *
from .specs_mp import P3, big, sn, wf, lc_, lv_, Pure, sn_, sw_, sx_, sm_, on_, ow_, ox_, om_, poly, fn_nat, MAXP
from .specs_util import mk_ite_num
from .values import VIter
from . import models as M

S = {}
BIGNAT = "mp::bignat::BigNat<Scalar>"
IMPL = "<mp::bignat::BigNat<Scalar> as util::gadget::Gadget>::"


def spec(cls):
    S[cls.__name__] = cls()
    return cls


def wires(name, n):
    return mk_limbs(name, n)


def bn(name, **kw):
    return lambda I: mk_bignat(I, name, **kw)


def inputs(ins):
    return [o[1] for o in ins.order if o[0] == "alloc" and ins.info[o[1]]["inp"]]


class OnBigNat(Std):
    """a provided method of the trait, at the big natural"""
    self_ty = BIGNAT


@spec
class gadget_inputize(OnBigNat):
    path = "util::gadget::Gadget::inputize"
    over = {0: bn("self")}
    pre = wf("self")
    sizes = tuple({"self.n": k, "self.w": 8} for k in (1, 2, 4, 40))

    def value(self, I, args):
        return ok(UNIT)

    def goals(self, D, ins, res, args):
        pub = inputs(ins)
        yield "one public input per wire", len(pub) == len(args[0]["limbs"])
        for v, l in zip(pub, args[0]["limbs"]):
            yield "public input %d is wire %d" % (pub.index(v), pub.index(v)), D.zero(inst.ip_add({(v,): 1}, l, -1))


@spec
class gadget_as_nums(OnBigNat):
    path = "util::gadget::Gadget::as_nums"
    over = {0: bn("self")}
    pre = wf("self")
    sizes = gadget_inputize.sizes

    def value(self, I, args):
        j = fresh_lv()
        return ok(VSeq([(sn_, j, VStruct(ANUM, {"variable": lv_("self", j), "value": some(lv_("self", j))}))]))

    def goals(self, D, ins, res, args):
        yield "one number per wire", len(res) == len(args[0]["limbs"])
        for k, (v, l) in enumerate(zip(res, args[0]["limbs"])):
            yield "number %d is wire %d" % (k, k), D.zero(inst.ip_add(v["variable"], l, -1))


@spec
class gadget_assert_equal(OnBigNat):
    path = "util::gadget::Gadget::assert_equal"
    over = {"i0": bn("self"), "i1": bn("other")}
    same = {"other": "self"}
    pre = wf("self", "other")
    sizes = tuple({"self.n": k, "other.n": k, "self.w": 8, "other.w": 8} for k in (1, 2, 4, 40))
    fails = ONE - eqz(sn_ - on_)
    rejects = fails
    conds = ()

    def value(self, I, args):
        return ok(UNIT)

    def goals(self, D, ins, res, args):
        for k, (a, b) in enumerate(zip(args[1]["limbs"], args[2]["limbs"])):
            yield "wire %d is the same on both sides" % k, D.zero(inst.ip_add(a, b, -1))


def sel(s, a, b):
    return s * b + (ONE - s) * a


class Mux(OnBigNat):
    over = {"i0": bn("self"), "i1": bn("other")}
    modes = "WS"
    sbit = wire_of("$s", (), "B")

    def goals(self, D, ins, res, args):
        n = max(len(args[2]["limbs"]), len(args[3]["limbs"]))
        s = args[1]["bit"]
        a, b = [x["limbs"] + [{}] * (n - len(x["limbs"])) for x in (args[2], args[3])]
        yield "as many limbs as the wider input", len(res["limbs"]) == n
        for k in range(n):
            p = inst.ip_add(inst.ip_add(res["limbs"][k], a[k], -1), inst.ip_mul(s, inst.ip_add(b[k], a[k], -1)), -1)
            yield "limb %d is the selected one" % k, D.zero(p)

    def value(self, I, args):
        s = self.sbit
        n = mk_ite_num(ge(sn_ - on_), sn_, on_)
        v = sel(s, nat_sum("self", sn_, sw_), nat_sum("other", on_, ow_))
        g = lambda j: embed(mk_mod(mk_div(v, P3(sw_, j)), mk_pow(TWO, sw_)))
        r = big(I, n, sw_, 0, 0, g, g, v)
        r.f["params"].f["max_word"] = mk_pow(TWO, sw_) - 1
        r.f["params"].f["min_bits"] = ZERO
        return ok(r)



def two(n, m, w):
    return {"self.n": n, "other.n": m, "self.w": w, "other.w": w}


class MuxCases:
    cases = tuple(two(n, m, w) for n, m, w in ((1, 1, 8), (2, 2, 64), (3, 3, 5)))


@spec
class bignat_mux(Mux):
    path = IMPL + "mux"
    cases = tuple(two(n, m, w) for n, m, w in ((1, 1, 8), (2, 2, 64), (3, 1, 5), (2, 4, 16)))
    fit = ("self", "other")


@spec
class large_mux(Mux):
    path = IMPL + "mux"
    rules = ("O3", "O5", "O7")
    cases = (two(20, 20, 8),)
    fit = ("self", "other")


@spec
class gadget_mux(Mux):
    path = "util::gadget::Gadget::mux"
    cases = MuxCases.cases
    fit = ("self", "other")


@spec
class gadget_switch(OnBigNat):
    path = "util::gadget::Gadget::switch"
    over = {"i0": bn("self"), "i1": bn("other")}
    cases = tuple(two(n, m, w) for n, m, w in ((1, 1, 8), (2, 2, 64)))
    fit = ("self", "other")

    def value(self, I, args):
        s = wire_of("$s", (), "B")
        n = mk_ite_num(ge(sn_ - on_), sn_, on_)

        def one(s):
            v = sel(s, nat_sum("self", sn_, sw_), nat_sum("other", on_, ow_))
            g = lambda j: embed(mk_mod(mk_div(v, P3(sw_, j)), mk_pow(TWO, sw_)))
            r = big(I, n, sw_, 0, 0, g, g, v)
            r.f["params"].f["max_word"] = mk_pow(TWO, sw_) - 1
            r.f["params"].f["min_bits"] = ZERO
            return r
        return ok(VTuple([one(s), one(ONE - s)]))

    def goals(self, D, ins, res, args):
        s, a, b = args[1]["bit"], args[2]["limbs"], args[3]["limbs"]
        for k in range(len(a)):
            d = inst.ip_mul(s, inst.ip_add(b[k], a[k], -1))
            yield "limb %d of the first output" % k, D.zero(inst.ip_add(inst.ip_add(res[0]["limbs"][k], a[k], -1), d, -1))
            yield "limb %d of the second output" % k, D.zero(inst.ip_add(inst.ip_add(res[1]["limbs"][k], b[k], -1), d))


class Tree(OnBigNat):
    """the first select bit is the most significant of the index"""
    path = "util::gadget::Gadget::mux_tree"
    k, n, w = 1, 2, 8
    unroll = 40
    expand = 8

    def args(self, I):
        bits = VSeq([(ONE, None, mk_bit_(I, "s%d" % i)) for i in range(self.k)])
        cell = I.new_cell(bits, "bits")
        it = M.seq_iter(bits) if self.k else VIter([])
        xs = VSeq([(ONE, None, mk_bignat(I, "x%d" % i, n=1, w=self.w)) for i in range(self.n)])
        return [new_cs(), it, xs]

    @property
    def pre(self):
        return tuple(mk_pow(TWO, P(self.w)) - 1 - mk_nat(val_of("x%d" % i, (0,))) for i in range(self.n))

    @property
    def gens(self):
        return {"$x%d" % i: limb_gen(self.w) for i in range(self.n)}

    def pick(self, bits, xs, op):
        if not bits:
            return xs[0]
        h = len(xs) // 2
        return op(bits[0], self.pick(bits[1:], xs[:h], op), self.pick(bits[1:], xs[h:], op))

    def value(self, I, args):
        if self.n != 1 << self.k:
            return ANY
        v = self.pick([wire_of("$s%d" % i, (), "B") for i in range(self.k)], [mk_nat(val_of("x%d" % i, (0,))) for i in range(self.n)], sel)
        g = lambda j: embed(v) if self.k or I.mode == "W" else lc_("x0", j)
        r = big(I, 1, self.w, 0, 0, g, g, v)
        r.f["params"].f["max_word"] = P(2 ** self.w - 1) if self.k else ANY
        r.f["params"].f["min_bits"] = ZERO if self.k else ANY
        return ok(r)

    def goals(self, D, ins, res, args):
        bits = [ins.ip(wire_of("s%d" % i, (), "B")) for i in range(self.k)]
        want = self.pick(bits, [a["limbs"][0] for a in args[2]], lambda s, a, b: inst.ip_add(a, inst.ip_mul(s, inst.ip_add(b, a, -1))))
        yield "the selected input", D.zero(inst.ip_add(res["limbs"][0], want, -1))


for _k in (0, 1, 2, 3):
    S["mux_tree_%d" % _k] = type("mux_tree_%d" % _k, (Tree,), {"k": _k, "n": 1 << _k})()
S["large_mux_tree"] = type("large_mux_tree", (Tree,), {"k": 5, "n": 32, "rules": ("O5", "O7")})()


class BadTree(Tree):
    """the number of inputs must be two to the number of select bits"""
    fails = rejects = ONE

    def goals(self, D, ins, res, args):
        return ()


for _k, _n in ((0, 2), (1, 3), (2, 2), (1, 1), (2, 6), (1, 4)):
    S["mux_tree_%d_of_%d" % (_k, _n)] = type("bad_tree", (BadTree,), {"k": _k, "n": _n})()
