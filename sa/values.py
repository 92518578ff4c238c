"""Abstract values.  Numbers are polynomials (terms.Poly); everything else is a tree over them."""
from .terms import *
from . import terms as T
from . import logic


class Unsupported(Exception):
    def __init__(self, msg, where=None):
        Exception.__init__(self, "%s%s" % (msg, " at " + where if where else ""))
        self.msg, self.where = msg, where


class Val:
    __slots__ = ()

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.key() == o.key())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self).__name__, self.key()))


class VTuple(Val):
    __slots__ = ("es",)

    def __init__(self, es):
        self.es = tuple(es)

    def key(self):
        return self.es

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.es)) + ")"


UNIT = VTuple(())


class VStruct(Val):
    __slots__ = ("path", "f")

    def __init__(self, path, f):
        self.path, self.f = path, dict(f)

    def key(self):
        return (self.path, tuple(sorted(self.f.items(), key=lambda x: x[0])))

    def __repr__(self):
        return self.path.split("::")[-1] + "{" + ", ".join("%s: %r" % x for x in self.f.items()) + "}"

    def with_(self, **kw):
        d = dict(self.f)
        d.update(kw)
        return VStruct(self.path, d)


class VEnum(Val):
    __slots__ = ("adt", "variant", "fs")

    def __init__(self, adt, variant, fs=()):
        self.adt, self.variant, self.fs = adt, variant, tuple(fs)

    def key(self):
        return (self.adt, self.variant, self.fs)

    def __repr__(self):
        return self.variant + ("(" + ", ".join(map(repr, self.fs)) + ")" if self.fs else "")


OPT, RES = "std::option::Option", "std::result::Result"


def some(v):
    return VEnum(OPT, "Some", (v,))


NONE = VEnum(OPT, "None")


def ok(v):
    return VEnum(RES, "Ok", (v,))


def err(v):
    return VEnum(RES, "Err", (v,))


class VIte(Val):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def key(self):
        return (self.c, self.a, self.b)

    def __repr__(self):
        return "if %r {%r} else {%r}" % (self.c, self.a, self.b)


class VSeq(Val):
    """segments (n, var, body): n copies of body with var = 0 .. n-1"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = norm_segs(segs)

    def key(self):
        out = []
        for n, v, b in self.segs:
            out.append((n, vsubst(b, {v.atom(): sym("#", "N")}) if v is not None else b))
        return tuple(out)

    def __repr__(self):
        return "[" + "; ".join("%r for %r<%r" % (b, v, n) for n, v, b in self.segs) + "]"

    def len(self):
        r = ZERO
        for n, v, b in self.segs:
            r = r + n
        return r


class VUpd(Val):
    """a sequence with one element replaced"""
    __slots__ = ("base", "i", "v")

    def __init__(self, base, i, v):
        self.base, self.i, self.v = base, i, v

    def key(self):
        return (self.base, self.i, self.v)

    def len(self):
        return self.base.len()

    def __repr__(self):
        return "%r[%r := %r]" % (self.base, self.i, self.v)


class VIter(Val):
    """pieces (n, fn): fn(k) yields element k; n None = endless"""
    __slots__ = ("pieces", "base", "off")

    def __init__(self, pieces):
        self.pieces = list(pieces)
        self.base = None
        self.off = ZERO

    def key(self):
        if self.base is not None:
            return (self.base, self.off)
        return id(self)


class VClosure(Val):
    __slots__ = ("body", "frame")

    def __init__(self, body, frame):
        self.body, self.frame = body, frame

    def key(self):
        return (self.body["id"], id(self.frame))


class VFn(Val):
    __slots__ = ("callee",)

    def __init__(self, callee):
        self.callee = callee

    def key(self):
        return repr(sorted(self.callee.items(), key=str))


class VRef(Val):
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def key(self):
        return (self.cell, self.path)

    def __repr__(self):
        return "&mut %s%r" % (self.cell, self.path)


class VCell(Val):
    """a shared cell (RefCell)"""
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell

    def key(self):
        return self.cell


class VLazy(Val):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def key(self):
        return self.f


class VCS(Val):
    __slots__ = ("ns",)

    def __init__(self, ns):
        self.ns = tuple(ns)

    def key(self):
        return self.ns

    def __repr__(self):
        return "cs@" + "/".join(x[0] for x in self.ns)


class VStr(Val):
    """a label: template and the values in its holes"""
    __slots__ = ("t", "args")

    def __init__(self, t, args=()):
        self.t, self.args = t, tuple(args)

    def key(self):
        return (self.t, self.args)

    def __repr__(self):
        return "str(%r%r)" % (self.t, self.args)


class VRepr(Val):
    """bytes of a field element, little endian"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def key(self):
        return self.p


class VOpaque(Val):
    """an uninterpreted value (errors, markers); equality by name and arguments"""
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)

    def key(self):
        return (self.name, self.args)

    def __repr__(self):
        return "%s%r" % (self.name, self.args if self.args else "")


class VOrdering(Val):
    """the result of a comparison, by the sign of d"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def key(self):
        return self.d


# ------------------------------------------------------------------ substitution
def vsubst(v, mp, memo=None):
    if not mp:
        return v
    if memo is None:
        memo = {}
    return _vs(v, mp, memo)


def _vs(v, mp, memo):
    if isinstance(v, Poly):
        return subst(v, mp, memo)
    if isinstance(v, VTuple):
        return VTuple([_vs(x, mp, memo) for x in v.es]) if v.es else v
    if isinstance(v, VStruct):
        return VStruct(v.path, {k: _vs(x, mp, memo) for k, x in v.f.items()})
    if isinstance(v, VEnum):
        return VEnum(v.adt, v.variant, [_vs(x, mp, memo) for x in v.fs]) if v.fs else v
    if isinstance(v, VIte):
        c = subst(v.c, mp, memo)
        if c is ONE:
            return _vs(v.a, mp, memo)
        if c is ZERO:
            return _vs(v.b, mp, memo)
        return mk_ite(c, _vs(v.a, mp, memo), _vs(v.b, mp, memo))
    if isinstance(v, VSeq):
        out = []
        for n, x, b in v.segs:
            if x is not None and x.atom() in mp:
                m2 = {a: p for a, p in mp.items() if a != x.atom()}
                out.append((subst(n, mp), x, vsubst(b, m2)))
            else:
                out.append((subst(n, mp, memo), x, _vs(b, mp, memo)))
        return VSeq(out)
    if isinstance(v, VUpd):
        return seq_set(_vs(v.base, mp, memo), subst(v.i, mp, memo), _vs(v.v, mp, memo))
    if isinstance(v, VStr):
        return VStr(v.t, [_vs(x, mp, memo) for x in v.args]) if v.args else v
    if isinstance(v, VOpaque):
        return VOpaque(v.name, [_vs(x, mp, memo) for x in v.args]) if v.args else v
    if isinstance(v, VRepr):
        return VRepr(subst(v.p, mp, memo))
    if isinstance(v, VOrdering):
        return VOrdering(subst(v.d, mp, memo))
    if isinstance(v, VCS):
        return VCS([(t, tuple(_vs(a, mp, memo) for a in args)) for t, args in v.ns])
    if isinstance(v, VRef):
        return VRef(v.cell, [(s[0],) + tuple(_vs(y, mp, memo) if isinstance(y, Poly) else y for y in s[1:]) for s in v.path])
    if isinstance(v, tuple):
        return tuple(_vs(x, mp, memo) for x in v)
    return v


def vpolys(v, out=None):
    """all polynomials in a value"""
    if out is None:
        out = []
    if isinstance(v, Poly):
        out.append(v)
    elif isinstance(v, VTuple):
        for x in v.es:
            vpolys(x, out)
    elif isinstance(v, VStruct):
        for x in v.f.values():
            vpolys(x, out)
    elif isinstance(v, VEnum):
        for x in v.fs:
            vpolys(x, out)
    elif isinstance(v, VIte):
        out.append(v.c)
        vpolys(v.a, out)
        vpolys(v.b, out)
    elif isinstance(v, VSeq):
        for n, x, b in v.segs:
            out.append(n)
            vpolys(b, out)
    elif isinstance(v, VUpd):
        vpolys(v.base, out)
        out.append(v.i)
        vpolys(v.v, out)
    elif isinstance(v, (VStr, VOpaque)):
        for x in v.args:
            vpolys(x, out)
    elif isinstance(v, VRepr):
        out.append(v.p)
    elif isinstance(v, VOrdering):
        out.append(v.d)
    elif isinstance(v, VCS):
        for t, args in v.ns:
            for a in args:
                vpolys(a, out)
    elif isinstance(v, VRef):
        for s in v.path:
            for y in s:
                if isinstance(y, Poly):
                    out.append(y)
    elif isinstance(v, tuple):
        for x in v:
            vpolys(x, out)
    return out


def vhas(v, aid):
    return any(p.has(aid) for p in vpolys(v))


def vsimp(v):
    """simplify every polynomial under the current facts"""
    if isinstance(v, Poly):
        return logic.simp(v)
    if isinstance(v, VTuple):
        return VTuple([vsimp(x) for x in v.es]) if v.es else v
    if isinstance(v, VStruct):
        return VStruct(v.path, {k: vsimp(x) for k, x in v.f.items()})
    if isinstance(v, VEnum):
        return VEnum(v.adt, v.variant, [vsimp(x) for x in v.fs]) if v.fs else v
    if isinstance(v, VIte):
        c = logic.simp(v.c)
        if c is ONE:
            return vsimp(v.a)
        if c is ZERO:
            return vsimp(v.b)
        with logic.assuming(c):
            a = vsimp(v.a)
        with logic.assuming(ONE - c):
            b = vsimp(v.b)
        return mk_ite(c, a, b)
    if isinstance(v, VSeq):
        out = []
        for n, x, b in v.segs:
            n = logic.simp(n)
            if x is None:
                out.append((n, x, vsimp(b)))
                continue
            with logic.assuming(ge=[x, n - 1 - x]):
                out.append((n, x, vsimp(b)))
        return VSeq(out)
    if isinstance(v, VUpd):
        return seq_set(vsimp(v.base), logic.simp(v.i), vsimp(v.v))
    if isinstance(v, VStr):
        return VStr(v.t, [vsimp(x) for x in v.args]) if v.args else v
    if isinstance(v, VOrdering):
        return VOrdering(logic.simp(v.d))
    return v


# ------------------------------------------------------------------ merging
def same_shape(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return True
    if isinstance(a, VTuple) and isinstance(b, VTuple):
        return len(a.es) == len(b.es)
    if isinstance(a, VStruct) and isinstance(b, VStruct):
        return a.path == b.path and set(a.f) == set(b.f)
    if isinstance(a, VEnum) and isinstance(b, VEnum):
        return a.adt == b.adt and a.variant == b.variant and len(a.fs) == len(b.fs)
    return False


def mk_ite(c, a, b):
    """c ? a : b"""
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b or a == b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if same_shape(a, b):
        if isinstance(a, VTuple):
            return VTuple([mk_ite(c, x, y) for x, y in zip(a.es, b.es)])
        if isinstance(a, VStruct):
            return VStruct(a.path, {k: mk_ite(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, VEnum):
            return VEnum(a.adt, a.variant, [mk_ite(c, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, (VSeq, VUpd)) and isinstance(b, (VSeq, VUpd)):
        la, lb = a.len(), b.len()
        if la is lb:
            if la.as_int() is not None and la.as_int() <= 64:
                return VSeq([(ONE, None, mk_ite(c, seq_get(a, P(i)), seq_get(b, P(i)))) for i in range(la.as_int())])
            k = fresh_lv()
            with logic.assuming(ge=[k, la - 1 - k]):
                return VSeq([(la, k, mk_ite(c, seq_get(a, k), seq_get(b, k)))])
    if isinstance(a, VIte) and a.c is c:
        a = a.a
    if isinstance(b, VIte) and b.c is c:
        b = b.b
    # ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if isinstance(b, VIte):
        if b.a == a:
            return mk_ite(b_or(c, b.c), a, b.b)
        if b.b == a:
            return mk_ite(b_or(c, ONE - b.c), a, b.a)
        # group the alternatives by shape
        if same_shape(b.a, a):
            d = b_or(c, b.c)
            return VIte(d, mk_ite(c, a, b.a), b.b)
        if same_shape(b.b, a):
            d = b_or(c, ONE - b.c)
            return VIte(d, mk_ite(c, a, b.b), b.a)
    if isinstance(a, VIte):
        if a.a == b:
            return mk_ite(c * (ONE - a.c), a.b, b)
        if a.b == b:
            return mk_ite(c * a.c, a.a, b)
        if same_shape(a.a, b):
            d = c * (ONE - a.c)
            return VIte(d, a.b, mk_ite(c, a.a, b))
        if same_shape(a.b, b):
            d = c * a.c
            return VIte(d, a.a, mk_ite(c, a.b, b))
    return VIte(c, a, b)


def dist(v, f):
    """apply f to the alternatives of v and merge"""
    if isinstance(v, VIte):
        c = logic.simp(v.c)
        if c is ONE:
            return dist(v.a, f)
        if c is ZERO:
            return dist(v.b, f)
        with logic.assuming(c):
            a = dist(v.a, f)
        with logic.assuming(ONE - c):
            b = dist(v.b, f)
        return mk_ite(c, a, b)
    return f(v)


# ------------------------------------------------------------------ sequences
def norm_segs(segs):
    out = []
    for n, v, b in segs:
        n = P(n)
        c = n.as_int()
        if c is not None and c <= 0:
            continue
        if v is not None and (c == 1):
            b = vsubst(b, {v.atom(): ZERO})
            v = None
        if v is not None and not vhas(b, v.atom()):
            v = None
        out.append((n, v, b))
    return tuple(out)


def seq1(vs):
    return VSeq([(ONE, None, v) for v in vs])


def seq_get(s, k):
    """element k (assumed in range)"""
    k = P(k)
    if isinstance(s, VIte):
        return dist(s, lambda x: seq_get(x, k))
    if isinstance(s, VUpd):
        e = logic.simp(eqz(s.i - k))
        if e is ONE:
            return s.v
        rest = seq_get(s.base, k)
        if e is ZERO:
            return rest
        return mk_ite(e, s.v, rest)
    if not isinstance(s, VSeq):
        raise Unsupported("index into %s" % type(s).__name__)
    segs = s.segs
    return _sget(segs, k)


def _inst(n, v, b, k):
    if v is None:
        return b
    return vsubst(b, {v.atom(): k})


def _sget(segs, k):
    if not segs:
        return VOpaque("out of range")
    n, v, b = segs[0]
    if len(segs) == 1:
        return _inst(n, v, b, k)
    if logic.nonneg(n - 1 - k):
        return _inst(n, v, b, k)
    if logic.nonneg(k - n):
        return _sget(segs[1:], k - n)
    c = logic.simp(ge(n - 1 - k))
    if c is ONE:
        return _inst(n, v, b, k)
    if c is ZERO:
        return _sget(segs[1:], k - n)
    with logic.assuming(ONE - c):
        if logic.contradictory():
            return _inst(n, v, b, k)
        r = _sget(segs[1:], k - n)
    return mk_ite(c, _inst(n, v, b, k), r)


def seq_slice(s, lo, hi):
    """elements lo .. hi-1 (assumed in range)"""
    lo, hi = P(lo), P(hi)
    if isinstance(s, VIte):
        return dist(s, lambda x: seq_slice(x, lo, hi))
    if isinstance(s, VUpd):
        n = hi - lo
        k = fresh_lv()
        with logic.assuming(ge=[k, n - 1 - k]):
            return VSeq([(n, k, seq_get(s, lo + k))])
    if not isinstance(s, VSeq):
        raise Unsupported("slice of %s" % type(s).__name__)
    out = []
    off = ZERO
    want = hi - lo
    total = s.len()
    if lo is ZERO and (hi is total or logic.simp(hi - total) is ZERO):
        return s
    for n, v, b in s.segs:
        # part of this segment in [lo, hi)
        a = lo - off
        z = hi - off
        start = _clamp(a, n)
        end = _clamp(z, n)
        cnt = end - start
        if logic.nonneg(-cnt):
            off = off + n
            continue
        if v is None:
            out.append((cnt, None, b))
        else:
            j = fresh_lv()
            out.append((cnt, j, vsubst(b, {v.atom(): start + j})))
        off = off + n
    return VSeq(out)


def _clamp(a, n):
    """min(max(a, 0), n)"""
    a = logic.simp(a)
    if logic.nonneg(-a):
        return ZERO
    if logic.nonneg(a - n):
        return n
    r = a
    if not logic.nonneg(a):
        r = ite(ge(a), a, ZERO)
    if not logic.nonneg(n - a):
        r = ite(ge(a - n), n, r)
    return r


def seq_concat(*ss):
    out = []
    for s in ss:
        if isinstance(s, VSeq):
            out += list(s.segs)
        elif isinstance(s, VUpd):
            n = s.len()
            k = fresh_lv()
            with logic.assuming(ge=[k, n - 1 - k]):
                out.append((n, k, seq_get(s, k)))
        else:
            raise Unsupported("concatenation of %s" % type(s).__name__)
    return VSeq(out)


def seq_map(s, f):
    """f(element, index) without effects"""
    if isinstance(s, VIte):
        return dist(s, lambda x: seq_map(x, f))
    out = []
    off = ZERO
    for n, v, b in seq_concat(s).segs:
        k = fresh_lv()
        if n is ONE:
            out.append((n, None, f(_inst(n, v, b, ZERO), off)))
        else:
            with logic.assuming(ge=[k, n - 1 - k]):
                out.append((n, k, f(_inst(n, v, b, k), off + k)))
        off = off + n
    return VSeq(out)


def seq_set(s, i, v):
    i = P(i)
    if isinstance(s, VUpd) and logic.simp(s.i - i) is ZERO:
        return VUpd(s.base, i, v)
    if isinstance(s, VSeq):
        ic = i.as_int()
        if ic is not None:
            off = ZERO
            pre = []
            for j, (n, x, b) in enumerate(s.segs):
                loc = i - off
                if logic.nonneg(loc) and logic.nonneg(n - 1 - loc):
                    mid = []
                    if not (loc is ZERO):
                        mid.append((loc, x, b))
                    mid.append((ONE, None, v))
                    rest = n - loc - 1
                    if logic.simp(rest) is not ZERO:
                        y = fresh_lv()
                        mid.append((rest, y, _inst(n, x, b, loc + 1 + y)))
                    return VSeq(pre + mid + list(s.segs[j + 1:]))
                pre.append((n, x, b))
                off = off + n
        return VUpd(s, i, v)
    if isinstance(s, VUpd):
        return VUpd(s, i, v)
    if isinstance(s, VIte):
        return mk_ite(s.c, seq_set(s.a, i, v), seq_set(s.b, i, v))
    raise Unsupported("assignment to an element of %s" % type(s).__name__)


def seq_rev(s):
    out = []
    for n, v, b in reversed(seq_concat(s).segs):
        if v is None:
            out.append((n, v, b))
        else:
            j = fresh_lv()
            out.append((n, j, vsubst(b, {v.atom(): n - 1 - j})))
    return VSeq(out)


def seq_len(s):
    if isinstance(s, VIte):
        return dist(s, seq_len)
    if isinstance(s, (VSeq, VUpd)):
        return s.len()
    raise Unsupported("length of %s" % type(s).__name__)


def seq_eq(a, b):
    """pointwise equality of two sequences as a proof obligation (bool)"""
    if not logic.prove_eq(a.len(), b.len()):
        return False
    k = fresh_lv()
    with logic.assuming(ge=[k, a.len() - 1 - k]):
        return veq(seq_get(a, k), seq_get(b, k))


def veq(a, b):
    """provably equal in the current context"""
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return logic.prove_eq(a, b)
    if isinstance(a, VIte) or isinstance(b, VIte):
        if isinstance(a, VIte):
            x, other, flip = a, b, False
        else:
            x, other, flip = b, a, True
        with logic.assuming(x.c):
            r1 = logic.contradictory() or veq(vsimp(x.a), vsimp(other))
        with logic.assuming(ONE - x.c):
            r2 = logic.contradictory() or veq(vsimp(x.b), vsimp(other))
        return r1 and r2
    if isinstance(a, (VSeq, VUpd)) and isinstance(b, (VSeq, VUpd)):
        return seq_eq(a, b)
    if same_shape(a, b):
        if isinstance(a, VTuple):
            return all(veq(x, y) for x, y in zip(a.es, b.es))
        if isinstance(a, VStruct):
            return all(veq(a.f[k], b.f[k]) for k in a.f)
        if isinstance(a, VEnum):
            return all(veq(x, y) for x, y in zip(a.fs, b.fs))
    if type(a) is type(b) and a == b:
        return True
    if isinstance(a, VStr) and isinstance(b, VStr):
        return a.t == b.t and len(a.args) == len(b.args) and all(veq(x, y) for x, y in zip(a.args, b.args))
    return False
