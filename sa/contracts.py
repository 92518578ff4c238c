"""Functional summaries of verified gadgets, used in place of their bodies in their callers.

Every contract names the specification that establishes it; a check that uses a contract
also discharges that specification.
"""
from .gadget import *
from .gen import *
from .models import BOOLEAN

C = {}
DEPS = {}


def contract(name, path, *deps):
    def f(fn):
        def make(prog):
            b = lookup(prog, path)
            return {b["path"]: fn} if b is not None else {}
        C[name] = make
        DEPS[name] = deps if name == "median" else (name,) + deps
        return fn
    return f


def optmap(I, vs, f):
    """Some(f(values)) when every option is Some"""
    from . import models
    if not vs:
        return some(f())
    return models.on_variant(I, vs[0], ("Some",), lambda x: optmap(I, vs[1:], lambda *r: f(x, *r)), lambda v: NONE)


def ns_of(I, a):
    return I.get(a)


@contract("equals", "BigNat::<Scalar>::equals")
def c_equals(I, args, callee, e, fr):
    cs, a, b = [I.get(x) for x in args[:3]]
    from . import models
    for x in (a, b):
        models.need(I, x.f["value"], (e or {}).get("sp"))
    val = optmap(I, [a.f["value"], b.f["value"]], lambda x, y: eqz(x - y))
    I.emit(Ext("use", cs, (), (e or {}).get("sp")))
    return ok(VStruct(BOOLEAN, {"lc": eqz(a.f["variable"] - b.f["variable"]), "value": val}))


@contract("fits_in_bits", "Num::<Scalar>::fits_in_bits")
def c_fits(I, args, callee, e, fr):
    s, cs, n = I.get(args[0]), I.get(args[1]), I.num(args[2])
    n = simp(n + eqz(n))       # a range of no bits admits what a range of one bit does
    I.emit(Ext("range", cs, (s.f["num"], n), (e or {}).get("sp")))
    return ok(UNIT)


def cmp_contract(off):
    def f(I, args, callee, e, fr):
        cs, a, b = [I.get(x) for x in args[:3]]
        n = I.num(args[3])
        from . import models
        for x in (a, b):
            models.need(I, x.f["value"], (e or {}).get("sp"))

        def s(x, y):
            return mk_nat(x - y - off + embed(mk_pow(TWO, n + 1)))
        f = lambda x, y: simp(ge(mk_pow(TWO, n + 1) - 1 - s(x, y)))
        lc = f(a.f["variable"], b.f["variable"])
        I.emit(Ext("range", cs, (a.f["variable"] - b.f["variable"] - off + embed(mk_pow(TWO, n + 1)), n + 2), (e or {}).get("sp")))
        return ok(VStruct(BOOLEAN, {"lc": lc, "value": optmap(I, [a.f["value"], b.f["value"]], f)}))
    return f


contract("less_than", "median::less_than", "equals", "fits_in_bits")(cmp_contract(0))
contract("leq", "median::leq", "equals", "fits_in_bits")(cmp_contract(1))


@contract("median", "median::verify_median_allocated", "median_is_11", "equals", "fits_in_bits", "less_than", "leq")
def c_median(I, args, callee, e, fr):
    """one exactly when the number is the middle one of the others once sorted, or lies between the two middle ones"""
    from . import models
    cs, m, ts = [I.get(x) for x in args[:3]]
    n = ts.len().as_int()
    if not n or n > 32:
        raise Unsupported("median of an unknown number of timestamps", I.where)
    ts = [I.get(seq_get(ts, P(i))) for i in range(n)]
    for x in [m] + ts:
        models.need(I, x.f["value"], (e or {}).get("sp"))
    srt = lambda k, r: mk_app("sorted", P(k), *[mk_nat(y) for y in r])
    if n % 2:
        mid = lambda x, *r: eqz(x - embed(srt(n // 2, r)))
    else:
        mid = lambda x, *r: simp(ge(mk_nat(x) - srt(n // 2 - 1, r)) * ge(srt(n // 2, r) - mk_nat(x)))
    I.emit(Ext("use", cs, (), (e or {}).get("sp")))
    return ok(VStruct(BOOLEAN, {"lc": mid(m.f["variable"], *[x.f["variable"] for x in ts]), "value": optmap(I, [x.f["value"] for x in [m] + ts], mid)}))


SPAN = 2016 * 10 * 60


@contract("retarget", "difficulty_update::calculate_difficulty_update", "retarget", "equals", "fits_in_bits", "less_than", "leq")
def c_retarget(I, args, callee, e, fr):
    """the limbs of the previous target times the span over two weeks, rounded down"""
    from . import models
    cs, a, s = [I.get(x) for x in args[:3]]
    for x in (a, s):
        models.need(I, x.f["value"], (e or {}).get("sp"))
    sp = (e or {}).get("sp")
    I.emit(Ext("range", cs, (a.f["variable"], P(224)), sp))
    x = mk_nat(s.f["variable"])
    I.emit(Ext("need", cs, (simp(ge(x - SPAN // 4 - 1) * ge(P(4 * SPAN - 1) - x)),), sp))
    q = lambda a, s: mk_div(mk_nat(a) * mk_nat(s), P(SPAN))
    limbs = lambda a, s: VSeq([(ONE, None, embed(mk_bits(q(a, s), P(64 * i), P(64)))) for i in range(4)] + [(ONE, None, ZERO)])
    return ok(VStruct("mp::bignat::BigNat", {
        "limbs": limbs(a.f["variable"], s.f["variable"]),
        "limb_values": optmap(I, [a.f["value"], s.f["value"]], limbs), "value": optmap(I, [a.f["value"], s.f["value"]], q),
        "params": VStruct("mp::bignat::BigNatParams", {"min_bits": ZERO, "max_word": P((1 << 64) - 1), "limb_width": P(64), "n_limbs": P(5)})}))
