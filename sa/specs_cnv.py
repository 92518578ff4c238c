"""Specifications of the conversions between integers and field elements, and of the lazy cell."""
from .gadget import *
from .gen import *
from . import gen
from .models import NUMBITS
from .specs_util import Std, build, N
from .evalr import PRIME

S = {}


def spec(cls):
    S[cls.__name__] = cls()
    return cls


class Raw(Std):
    """analysed without assuming the conversions and the cell themselves"""
    base_contracts = False
    wide = True
    modes = "W"
    rules = ("O1", "O6", "O8")


@spec
class f_to_nat(Raw):
    path = "util::convert::f_to_nat"
    over = {0: lambda I: sym("f", "F")}

    def value(self, I, args):
        return mk_nat(sym("f", "F"))


n = N("n")


@spec
class nat_to_f(Raw):
    path = "util::convert::nat_to_f"
    over = {0: lambda I: n}
    pre = (n, mk_pow(TWO, NUMBITS - 1) - 1 - n)

    def value(self, I, args):
        return some(embed(n))


@spec
class nat_to_f_negative(Raw):
    path = "util::convert::nat_to_f"
    over = {0: lambda I: n}
    pre = (-1 - n,)

    def value(self, I, args):
        return NONE


class Fixed(Raw):
    path = "util::convert::nat_to_f"
    field = 255
    k = 0

    def args(self, I):
        return [P(self.k)]

    def value(self, I, args):
        return some(P(self.k)) if 0 <= self.k < PRIME else NONE


for _nm, _k in (("zero", 0), ("one", 1), ("max", PRIME - 1), ("p", PRIME), ("p1", PRIME + 1), ("2p", 2 * PRIME), ("wide", 1 << 256), ("m1", -1), ("mp", -PRIME)):
    S["nat_to_f_" + _nm] = type("nat_to_f_" + _nm, (Fixed,), {"k": _k})()


@spec
class usize_to_f(Raw):
    path = "util::convert::usize_to_f"
    gens = {("sym", "n"): lambda env, idx: low64(env)}
    over = {0: lambda I: n}
    pre = (n, mk_pow(TWO, 64) - 1 - n)

    def value(self, I, args):
        return embed(n)


@spec
class f_to_usize(Raw):
    path = "util::convert::f_to_usize"
    over = {0: lambda I: sym("f", "F")}
    pre = (mk_pow(TWO, 64) - 1 - mk_nat(sym("f", "F")),)
    gens = {("sym", "f"): lambda env, idx: low64(env)}

    def value(self, I, args):
        return mk_nat(sym("f", "F"))


def low64(env):
    r = env.rng
    return r.choice([0, 1, 2, (1 << 64) - 1, 1 << 63, (1 << 32) + 5, r.getrandbits(64), r.getrandbits(33)])


CELL = "util::lazy::LazyCell::<T, F>::"


class Lazy(Raw):
    """the function given runs when the value is first asked for, and only then; copies of a cell share the value"""
    path = CELL + "borrow"

    def make(self, I):
        self.calls = 0

        def f(*a):
            self.calls += 1
            return sym("computed", "N")
        return self.fn(I, CELL + "new", VFn(f))

    def fn(self, I, path, *args):
        b = lookup(I.prog, path)
        if b is None:
            raise Unsupported("no function", path)
        return I.call_body(b, list(args), b.get("impl_self"))

    def args(self, I):
        self.c = self.cell(I)
        self.before = self.calls
        return [self.c]

    cell = make

    def value(self, I, args):
        return VTuple([sym("computed", "N"), ZERO, ONE])

    def result(self, I, args, r):
        return VTuple([I.get(r), P(self.before), P(self.calls)])


@spec
class lazy_new(Lazy):
    path = CELL + "new"

    def args(self, I):
        self.calls = 0

        def f(*a):
            self.calls += 1
            return sym("computed", "N")
        return [VFn(f)]

    def value(self, I, args):
        return VTuple([ZERO, sym("computed", "N"), ONE, sym("computed", "N"), ONE])

    def result(self, I, args, r):
        n = self.calls
        a = I.get(self.fn(I, CELL + "borrow", r))
        m = self.calls
        b = I.get(self.fn(I, CELL + "borrow", r))
        return VTuple([P(n), a, P(m), b, P(self.calls)])


S["lazy_borrow_first"] = type("lazy_borrow_first", (Lazy,), {})()


@spec
class lazy_borrow_again(Lazy):
    def cell(self, I):
        c = self.make(I)
        self.fn(I, self.path, c)
        return c

    def value(self, I, args):
        return VTuple([sym("computed", "N"), ONE, ONE])


@spec
class lazy_shared(Lazy):
    """a copy made before the value is forced sees the same value, computed once"""
    def cell(self, I):
        c = self.make(I)
        self.copy = self.fn(I, "<util::lazy::LazyCell<T, F> as std::clone::Clone>::clone", c)
        return c

    def value(self, I, args):
        return VTuple([sym("computed", "N"), sym("computed", "N"), ONE])

    def result(self, I, args, r):
        a = I.get(r)
        return VTuple([a, I.get(self.fn(I, self.path, self.copy)), P(self.calls)])


@spec
class lazy_from(Lazy):
    path = "<util::lazy::LazyCell<T, F> as std::convert::From<T>>::from"

    def args(self, I):
        return [sym("held", "N")]

    def value(self, I, args):
        return VTuple([sym("held", "N"), sym("held", "N")])

    def result(self, I, args, r):
        return VTuple([I.get(self.fn(I, CELL + "borrow", r)), I.get(self.fn(I, CELL + "borrow", r))])
