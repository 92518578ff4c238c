"""Symbolic arguments, by type, and the contracts that every analysis shares."""
import re
from .values import *
from .interp import *
from . import logic
from .logic import simp
from .terms import *
from . import models as M
from .models import NUMBITS, ANUM, ABIT, BOOLEAN


def val_of(name, idx=()):
    """the honest value of input wire name(idx)"""
    return mk("wire", "$" + name, tuple(P(i) for i in idx), "F")


def wire_of(name, idx=(), sort="F"):
    return mk("wire", name, tuple(P(i) for i in idx), sort)


def opt(I, v):
    return some(v) if I.mode == "W" else NONE


def mk_num(I, name):
    return VStruct("util::num::Num", {"num": wire_of(name), "value": opt(I, val_of(name))})


def mk_anum(I, name):
    return VStruct(ANUM, {"variable": wire_of(name), "value": opt(I, val_of(name))})


def mk_bool(I, name):
    return VStruct(BOOLEAN, {"lc": wire_of(name, (), "B"), "value": opt(I, wire_of("$" + name, (), "B"))})


def mk_bit_(I, name):
    return VStruct("util::bit::Bit", {"bit": wire_of(name, (), "B"), "value": opt(I, wire_of("$" + name, (), "B"))})


def mk_bitvec(I, name, n=None):
    n = sym(name + ".len", "N") if n is None else n
    j, k, l = fresh_lv(), fresh_lv(), fresh_lv()
    bits = VSeq([(n, j, wire_of(name, (j,), "B"))])
    vals = VSeq([(n, k, wire_of("$" + name, (k,), "B"))])
    al = VSeq([(n, l, VStruct("util::bit::Bit", {"bit": wire_of(name, (l,), "B"), "value": opt(I, wire_of("$" + name, (l,), "B"))}))])
    return VStruct("util::bit::Bitvector", {"bits": bits, "values": opt(I, vals), "allocations": al})


def mk_limbs(name, n, var=True):
    j = fresh_lv()
    return VSeq([(n, j, wire_of(name, (j,)) if var else val_of(name, (j,)))])


def limb_gen(k):
    """how to draw a number of k bits"""
    def g(env, idx):
        return env.rng.choice([0, 1, (1 << k) - 1, env.rng.randrange(1 << k), env.rng.randrange(1 << k)])
    return g


def nat_sum(name, n, w):
    j = fresh_lv()
    return mk_sum(n, j, mk_nat(val_of(name, (j,))) * mk_pow(TWO, w * j))


def mk_bignat(I, name, n=None, w=None, maxw=None, minb=None, value=None):
    n = sym(name + ".n", "N") if n is None else P(n)
    w = sym(name + ".w", "N") if w is None else P(w)
    maxw = sym(name + ".max", "N") if maxw is None else P(maxw)
    minb = sym(name + ".min", "N") if minb is None else P(minb)
    v = nat_sum(name, n, w) if value is None else value
    return VStruct("mp::bignat::BigNat", {
        "limbs": mk_limbs(name, n), "limb_values": opt(I, mk_limbs(name, n, False)), "value": opt(I, v),
        "params": VStruct("mp::bignat::BigNatParams", {"min_bits": minb, "max_word": maxw, "limb_width": w, "n_limbs": n})})


def mk_poly(I, name, n=None):
    n = sym(name + ".n", "N") if n is None else P(n)
    return VStruct("mp::poly::Polynomial", {"coefficients": mk_limbs(name, n), "values": opt(I, mk_limbs(name, n, False))})


def new_cs():
    return VCS((("cs", ()),))


def mk_arg(I, ty, name):
    t = re.sub(r"^&('[a-z_]+ )?", "", ty.strip())
    mut = t.startswith("mut ")
    if mut:
        t = t[4:]
    v = mk_plain(I, t, name)
    if mut:
        return VRef(I.new_cell(v, name))
    return v


def mk_plain(I, t, name):
    t = t.strip()
    if t.startswith("&"):
        return mk_arg(I, t, name)
    if t == "CS" or t.endswith("::CS"):
        return new_cs()
    if t.startswith("util::num::Num<"):
        return mk_num(I, name)
    if t.startswith("bellpepper_core::num::AllocatedNum<"):
        return mk_anum(I, name)
    if t.startswith("bellpepper_core::boolean::Boolean"):
        return mk_bool(I, name)
    if t.startswith("util::bit::Bit<"):
        return mk_bit_(I, name)
    if t.startswith("util::bit::Bitvector<"):
        return mk_bitvec(I, name)
    if t.startswith("mp::bignat::BigNat<") or t == "Self":
        return mk_bignat(I, name)
    if t.startswith("mp::bignat::BigNatParams"):
        return VStruct(t, {k: sym(name + "." + k, "N") for k in ("min_bits", "max_word", "limb_width", "n_limbs")})
    if t.startswith("mp::poly::Polynomial<"):
        return mk_poly(I, name)
    if t in INT_W or t == "num_bigint::BigInt":
        return sym(name, "N")
    if t == "bool":
        return sym(name, "B")
    if t in ("Scalar", "F"):
        return sym(name, "F")
    if t in ("str",):
        return VStr("{%s}" % name)
    m = re.match(r"std::option::Option<(.*)>$", t)
    if m:
        return some(mk_plain(I, m.group(1), name)) if I.mode == "W" else NONE
    m = re.match(r"std::vec::Vec<(.*)>$", t) or re.match(r"\[(.*)\]$", t)
    if m:
        n = sym(name + ".len", "N")
        j = fresh_lv()
        return VSeq([(n, j, elem(I, m.group(1), name, j))])
    raise Unsupported("argument type %s" % t)


def elem(I, t, name, j):
    v = mk_plain(I, t, name)
    # index every leaf by j
    mp = {}
    for p in vpolys(v):
        for a in p.atoms():
            tt = tup(a)
            if tt[0] == "wire":
                mp[a] = mk("wire", tt[1], tt[2] + (j,), tt[3])
            elif tt[0] == "sym":
                mp[a] = mk("sym", tt[1], tt[2] + (j,), tt[3])
    return vsubst(v, mp)


# ------------------------------------------------------------------ shared contracts
def c_f_to_nat(I, args, callee, e, fr):
    return mk_nat(I.num(args[0]))


def c_nat_to_f(I, args, callee, e, fr):
    n = I.num(args[0])
    return mk_ite(simp(ge(n)), some(embed(n)), NONE)


def c_usize_to_f(I, args, callee, e, fr):
    return embed(I.num(args[0]))


def c_lazy_new(I, args, callee, e, fr):
    return VLazy(args[0])


def c_lazy_borrow(I, args, callee, e, fr):
    l = I.get(args[0])
    if not isinstance(l, VLazy):
        raise Unsupported("borrow of %s" % type(l).__name__, I.where)
    return I.call_value(l.f, [])


BASE_CONTRACTS = {
    "util::convert::f_to_nat": c_f_to_nat, "util::convert::nat_to_f": c_nat_to_f, "util::convert::usize_to_f": c_usize_to_f,
    "util::lazy::LazyCell::<T, F>::new": c_lazy_new, "util::lazy::LazyCell::<T, F>::borrow": c_lazy_borrow,
}


def interp(prog, mode="W", contracts=(), base=True):
    I = Interp(prog, mode)
    if base:
        for k, f in BASE_CONTRACTS.items():
            if k in prog["by_path"]:
                I.contracts[k] = f
    for k, f in dict(contracts).items():
        I.contracts[k] = f
    return I


def find(prog, suffix):
    r = [b for b in prog["bodies"] if b["kind"] != "Closure" and (b["path"] == suffix or b["path"].endswith("::" + suffix))]
    return r[0] if len(r) == 1 else None
