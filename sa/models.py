"""Models of the functions outside the crate (std, num-bigint, ff, bellpepper)."""
from .values import *
from . import logic
from .logic import assuming, simp, nonneg, add_cond, add_ge
from .terms import *
from .evalr import PRIME
from . import terms as T
from . import interp as IN
from .interp import Alloc, Enforce, Ext, Loop, Guard, Diverge, short, generics_off

NUMBITS = sym("NUMBITS", "N")
CONSTS = {
    "Field::ONE": ONE, "Field::ZERO": ZERO, "PrimeField::NUM_BITS": NUMBITS, "PrimeField::CAPACITY": NUMBITS - 1,
}
MODELS = {}
ANUM = "bellpepper_core::num::AllocatedNum"
ABIT = "bellpepper_core::boolean::AllocatedBit"
BOOLEAN = "bellpepper_core::boolean::Boolean"
BNUM = "bellpepper_core::num::Num"


def model(*keys):
    def deco(f):
        for k in keys:
            MODELS[k] = f
        return f
    return deco


# ------------------------------------------------------------------ iterators
def iter_at(base, off):
    n = seq_len(base)
    it = VIter([(simp(n - off), lambda k: seq_get(base, off + k))])
    it.base, it.off = base, off
    return it


def seq_iter(s):
    if isinstance(s, VIte):
        n = simp(seq_len(s))
        it = VIter([(n, lambda k: seq_get(s, k))])
        it.base, it.off = s, ZERO
        return it
    if isinstance(s, VUpd):
        n = s.len()
        it = VIter([(n, lambda k: seq_get(s, k))])
    elif isinstance(s, VSeq):
        ps = []
        for n, v, b in s.segs:
            ps.append((n, (lambda k, n=n, v=v, b=b: b if v is None else vsubst(b, {v.atom(): P(k)}))))
        it = VIter(ps)
    else:
        raise Unsupported("iteration over %s" % type(s).__name__)
    it.base, it.off = s, ZERO
    return it


def to_iter(I, v):
    mutref = v if isinstance(v, VRef) else None
    v = I.get(v)
    if isinstance(v, VIter):
        return v
    if isinstance(v, VStruct) and "Range" in v.path:
        nm = v.path.split("::")[-1]
        a = v.f["start"]
        if nm == "RangeFrom":
            return VIter([(None, lambda k: a + k)])
        b = v.f["end"]
        n = simp(b - a if nm == "Range" else b - a + 1)
        if not nonneg(n):
            n = simp(ite(ge(n), n, ZERO))
        return VIter([(n, lambda k: a + k)])
    if isinstance(v, VRepr):
        # the bytes of a field element
        j = fresh_lv()
        v = VSeq([(mk_div(NUMBITS + 7, P(8)), j, mk_bits(mk_nat(v.p), j.scale(8), P(8)))])
    if isinstance(v, (VSeq, VUpd, VIte)):
        if mutref is not None:
            n = seq_len(v)
            r = mutref
            # a mutable iteration yields references to the elements
            cur = I.read(r.cell, r.path)
            while isinstance(cur, VRef):
                r = cur
                cur = I.read(r.cell, r.path)
            return VIter([(n, lambda k: VRef(r.cell, r.path + (("i", P(k)),)))])
        return seq_iter(v)
    if isinstance(v, VEnum) and v.adt == OPT:
        return VIter([(ONE, lambda k: v.fs[0])]) if v.variant == "Some" else VIter([])
    raise Unsupported("iteration over %s" % type(v).__name__, I.where)


def total(it):
    n = ZERO
    for m, f in it.pieces:
        if m is None:
            return None
        n = n + m
    return n


def flat_get(it):
    """element function over the whole iterator"""
    ps = it.pieces
    if len(ps) == 1:
        return ps[0][1]
    if getattr(it, "base", None) is not None:
        return lambda k: seq_get(it.base, it.off + k)

    def f(k, i=0, off=ZERO):
        n, fn = ps[i]
        if i == len(ps) - 1 or n is None:
            return fn(k - off)
        c = simp(ge(n - 1 - (k - off)))
        if c is ONE:
            return fn(k - off)
        if c is ZERO:
            return f(k, i + 1, off + n)
        return mk_ite(c, fn(k - off), f(k, i + 1, off + n))
    return f


def zip_pieces(a, b):
    A, B = list(a.pieces), list(b.pieces)
    out = []
    oa = ob = ZERO
    while A and B:
        (na, fa), (nb, fb) = A[0], B[0]
        ra = None if na is None else simp(na - oa)
        rb = None if nb is None else simp(nb - ob)
        if ra is None and rb is None:
            out.append((None, lambda k, fa=fa, fb=fb, oa=oa, ob=ob: VTuple([fa(oa + k), fb(ob + k)])))
            break
        if ra is not None and (rb is None or ra is rb or nonneg(rb - ra)):
            n = ra
        elif rb is not None and (ra is None or nonneg(ra - rb)):
            n = rb
        else:
            # undetermined which is shorter
            ta, tb = total(a), total(b)
            fa, fb = flat_get(a), flat_get(b)
            n = p_min(ta, tb)
            return [(simp(n), lambda k: VTuple([fa(k), fb(k)]))]
        out.append((n, lambda k, fa=fa, fb=fb, oa=oa, ob=ob: VTuple([fa(oa + k), fb(ob + k)])))
        if ra is not None and n is ra:
            A.pop(0)
            oa = ZERO
        else:
            oa = oa + n
        if rb is not None and (n is rb or simp(rb - n) is ZERO):
            B.pop(0)
            ob = ZERO
        else:
            ob = ob + n
    return out


def run_pieces(I, it, body, e):
    outs = []
    for n, fn in it.pieces:
        if n is None:
            raise Unsupported("endless iterator", I.where)
        outs.append(I.run_loop(n, lambda k, fn=fn: body(fn(k)), None, (e or {}).get("sp")))
    return seq_concat(*outs) if outs else VSeq([])


def it_model(name, *more):
    def deco(f):
        def g(I, args, callee, e, fr):
            return f(I, to_iter(I, args[0]), args[1:], e)
        for nm in (name,) + more:
            MODELS["Iterator::" + nm] = g
            MODELS["DoubleEndedIterator::" + nm] = g
        return f
    return deco


@it_model("map")
def it_map(I, it, a, e):
    f = a[0]
    return VIter([(n, lambda k, fn=fn: I.call_value(f, [fn(k)])) for n, fn in it.pieces])


@it_model("cloned", "copied", "by_ref")
def it_id(I, it, a, e):
    return it


@it_model("enumerate")
def it_enum(I, it, a, e):
    out = []
    off = ZERO
    for n, fn in it.pieces:
        out.append((n, lambda k, fn=fn, off=off: VTuple([off + k, fn(k)])))
        if n is not None:
            off = off + n
    return VIter(out)


@it_model("zip")
def it_zip(I, it, a, e):
    return VIter(zip_pieces(it, to_iter(I, a[0])))


@it_model("chain")
def it_chain(I, it, a, e):
    return VIter(it.pieces + to_iter(I, a[0]).pieces)


@it_model("rev")
def it_rev(I, it, a, e):
    out = []
    for n, fn in reversed(it.pieces):
        if n is None:
            raise Unsupported("rev of an endless iterator")
        out.append((n, lambda k, fn=fn, n=n: fn(n - 1 - k)))
    return VIter(out)


@it_model("take")
def it_take(I, it, a, e):
    m = I.get(a[0])
    out = []
    for n, fn in it.pieces:
        if n is None or nonneg(n - m):
            out.append((m, fn))
            m = ZERO
            break
        if nonneg(m - n):
            out.append((n, fn))
            m = m - n
            continue
        if len(it.pieces) == 1:
            return VIter([(simp(p_min(n, m)), fn)])
        raise Unsupported("take", I.where)
    return VIter(out)


@it_model("skip")
def it_skip(I, it, a, e):
    m = I.get(a[0])
    ps = list(it.pieces)
    while ps:
        n, fn = ps[0]
        if m is ZERO:
            break
        if n is not None and nonneg(m - n):
            ps.pop(0)
            m = simp(m - n)
            continue
        if n is None or nonneg(n - m):
            mm = m
            ps[0] = (None if n is None else simp(n - mm), lambda k, fn=fn, mm=mm: fn(mm + k))
            break
        if len(ps) == 1:
            mm = m
            return VIter([(simp(ite(ge(n - mm), n - mm, ZERO)), lambda k: fn(mm + k))])
        raise Unsupported("skip", I.where)
    return VIter(ps)


@it_model("step_by")
def it_step(I, it, a, e):
    m = I.get(a[0])
    if len(it.pieces) != 1 or it.pieces[0][0] is None:
        raise Unsupported("step_by", I.where)
    n, fn = it.pieces[0]
    return VIter([(simp(mk_div(n + m - 1, m)), lambda k: fn(k * m))])


def fold_pieces(I, it, init, f, e):
    c = I.new_cell(init, "acc")

    def body(x):
        I.store[c] = I.call_value(f, [I.store[c], x])
        return UNIT
    run_pieces(I, it, body, e)
    return I.store[c]


@it_model("fold")
def it_fold(I, it, a, e):
    return fold_pieces(I, it, a[0], a[1], e)


@it_model("rfold")
def it_rfold(I, it, a, e):
    return fold_pieces(I, it_rev(I, it, [], e), a[0], a[1], e)


def item(I, x, sp):
    """the payload of a Result; a failure taken for granted (rule O9) ends the iteration only"""
    x = I.get(x)
    if I.inject is not None and isinstance(x, VEnum) and x.variant == "Err":
        raise Diverge("abort", "stop", x, sp)
    return I.try_(x, sp)


def until_failure(I, f):
    try:
        return f()
    except Diverge as d:
        if d.kind != "abort" or d.label != "stop":
            raise
        I.emit(Ext("failed", VCS(()), (), d.loc))
        return d.value


@it_model("try_fold")
def it_try_fold(I, it, a, e):
    c = I.new_cell(a[0], "acc")

    def body(x):
        r = I.call_value(a[1], [I.store[c], x])
        if I.adt_of(I.get(r)) != RES:
            raise Unsupported("try_fold", I.where)
        I.store[c] = item(I, r, e.get("sp"))
        return UNIT
    return until_failure(I, lambda: (run_pieces(I, it, body, e), ok(I.store[c]))[1])


@it_model("for_each")
def it_for_each(I, it, a, e):
    run_pieces(I, it, lambda x: (I.call_value(a[0], [x]), UNIT)[1], e)
    return UNIT


@it_model("try_for_each")
def it_try_for_each(I, it, a, e):
    return until_failure(I, lambda: (run_pieces(I, it, lambda x: (item(I, I.call_value(a[0], [x]), e.get("sp")), UNIT)[1], e), ok(UNIT))[1])


@it_model("sum")
def it_sum(I, it, a, e):
    return fold_pieces(I, it, ZERO, VFn(lambda x, y: I.num(x) + I.num(y)), e)


@it_model("product")
def it_product(I, it, a, e):
    return fold_pieces(I, it, ONE, VFn(lambda x, y: I.num(x) * I.num(y)), e)


@it_model("count")
def it_count(I, it, a, e):
    run_pieces(I, it, lambda x: UNIT, e)
    return total(it)


def iter_seq(I, it, e):
    """the elements of an iterator as a sequence"""
    return run_pieces(I, it, lambda x: x, e)


@it_model("collect")
def it_collect(I, it, a, e):
    ty = generics_off2(e.get("ty", ""))
    return collect(I, it, ty, e)


def generics_off2(t):
    return t


def collect(I, it, ty, e):
    t = ty.replace(" ", "")
    if t.startswith("std::result::Result<"):
        unit = t[len("std::result::Result<"):].startswith("(),")
        return until_failure(I, lambda: (lambda s: ok(UNIT if unit else s))(run_pieces(I, it, lambda x: item(I, x, e.get("sp")), e)))
    if t.startswith("std::option::Option<"):
        some_c = I.new_cell(ONE, "all_some")
        s = run_pieces(I, it, lambda x: x, e)
        return opt_of_seq(I, s)
    return iter_seq(I, it, e)


def opt_of_seq(I, s):
    """Some(all payloads) if every element is Some"""
    cond = ONE
    out = []
    for n, v, b in s.segs:
        k = fresh_lv()
        bb = b if v is None else vsubst(b, {v.atom(): k})
        with assuming(ge=[k, n - 1 - k]):
            c = simp(I.is_variant(bb, ("Some",)))
            if c is ZERO:
                cond = cond * eqz(n)
                continue
            with assuming(c):
                pay = vsimp(I.payload(bb, ("Some",)))
        if c is not ONE:
            if not c.has(k.atom()):
                cond = cond * (c if nonneg(n - 1) else b_or(c, eqz(n)))
            else:
                from .loops import any_of
                cond = cond * (ONE - any_of(n, k, ONE - c))
        out.append((n, k, pay))
    return mk_ite(simp(cond), some(VSeq(out)), NONE)


@it_model("last")
def it_last(I, it, a, e):
    s = iter_seq(I, it, e)
    return seq_last(I, s)


@it_model("nth")
def it_nth(I, it, a, e):
    s = iter_seq(I, it, e)
    return seq_opt_get(s, I.get(a[0]))


@it_model("all")
def it_all(I, it, a, e):
    s = run_pieces(I, it, lambda x: I.call_value(a[0], [x]), e)
    return ONE - any_seq(s, lambda x: ONE - x)


@it_model("any")
def it_any(I, it, a, e):
    s = run_pieces(I, it, lambda x: I.call_value(a[0], [x]), e)
    return any_seq(s, lambda x: x)


def any_seq(s, f):
    from .loops import any_of
    r = ZERO
    for n, v, b in s.segs:
        if v is None:
            c = f(b) * (ONE if nonneg(n - 1) else ge(n - 1))
        else:
            c = any_of(n, v, f(b))
        r = b_or(r, c)
    return simp(r)


def nested(I, it, f, e):
    """the elements of the iterators f(x), one after another"""
    out = []
    for n, fn in it.pieces:
        c = None if n is None else simp(n).as_int()
        if c is not None and c <= 64:
            for q in range(c):
                out += to_iter(I, f(fn(P(q)))).pieces
            continue
        k = fresh_lv()
        conds = [k] if n is None else [k, n - 1 - k]
        with assuming(ge=conds):
            m = total(to_iter(I, f(fn(k))))
        m = None if m is None else simp(m)
        if m is None or m.has(k.atom()) or not nonneg(m - 1):
            raise Unsupported("iterators of different lengths, one after another", I.where)

        def at(k, fn=fn, m=m):
            return flat_get(to_iter(I, f(fn(simp(mk_div(k, m))))))(simp(mk_mod(k, m)))
        out.append((None if n is None else simp(n * m), at))
    return VIter(out)


@it_model("flat_map")
def it_flat_map(I, it, a, e):
    return nested(I, it, lambda x: I.call_value(a[0], [x]), e)


@it_model("flatten")
def it_flatten(I, it, a, e):
    return nested(I, it, lambda x: x, e)


@it_model("inspect")
def it_inspect(I, it, a, e):
    f = a[0]
    return VIter([(n, lambda k, fn=fn: (lambda x: (I.call_value(f, [x]), x)[1])(fn(k))) for n, fn in it.pieces])


def extreme(pick):
    def f(I, it, a, e):
        s = iter_seq(I, it, e)
        n = simp(seq_len(s))
        if n is ZERO:
            return NONE
        if not nonneg(n - 1):
            raise Unsupported("extreme of a possibly empty iterator", I.where)
        c = I.new_cell(I.num(seq_get(s, ZERO)), "acc")

        def body(x):
            I.store[c] = simp(pick(I.num(I.store[c]), I.num(x)))
            return UNIT
        run_pieces(I, it_skip(I, seq_iter(s), [ONE], e), body, e)
        return some(I.store[c])
    return f


it_model("max")(extreme(p_max))
it_model("min")(extreme(p_min))


@it_model("unzip")
def it_unzip(I, it, a, e):
    s = iter_seq(I, it, e)
    return VTuple([seq_map(s, lambda x, i, j=j: I.get(x).es[j]) for j in (0, 1)])


def elems(I, it, e):
    """the elements of a short iterator of a known length"""
    n = total(it)
    n = None if n is None else simp(n).as_int()
    if n is None or n > 64:
        raise Unsupported("search in an iterator of unknown length", I.where)
    f = flat_get(it) if len(it.pieces) > 1 or not it.pieces else it.pieces[0][1]
    return n, f


def search(I, it, pred, found):
    n, f = elems(I, it, None)

    def go(q):
        if q == n:
            return NONE
        x = f(P(q))
        return I.branch(simp(pred(x)), lambda: found(q, x), lambda: go(q + 1))
    return go(0)


@it_model("find")
def it_find(I, it, a, e):
    return search(I, it, lambda x: I.num(I.call_value(a[0], [x])), lambda q, x: some(x))


@it_model("position")
def it_position(I, it, a, e):
    return search(I, it, lambda x: I.num(I.call_value(a[0], [x])), lambda q, x: some(P(q)))


@it_model("find_map")
def it_find_map(I, it, a, e):
    n, f = elems(I, it, e)

    def go(q):
        if q == n:
            return NONE
        return on_variant(I, I.call_value(a[0], [f(P(q))]), ("Some",), some, lambda v: go(q + 1))
    return go(0)


@it_model("filter")
def it_filter(I, it, a, e):
    out = []
    n, f = elems(I, it, e)
    for q in range(n):
        x = f(P(q))
        c = simp(I.num(I.call_value(a[0], [x])))
        if c is ONE:
            out.append((ONE, lambda k, x=x: x))
        elif c is not ZERO:
            raise Unsupported("filter", I.where)
    return VIter(out)


@it_model("eq")
def it_eq(I, it, a, e):
    x, y = iter_seq(I, it, e), iter_seq(I, to_iter(I, a[0]), e)
    return I.eq_value(x, y)


@model("Iterator::next")
def it_next(I, args, callee, e, fr):
    r = args[0]
    it = I.get(r)
    if isinstance(it, VStruct) and "Range" in it.path:
        a, b = it.f["start"], it.f["end"]
        has = simp(ge(b - 1 - a))

        def yes():
            I.put(r, it.with_(start=a + 1))
            return some(a)
        return I.branch(has, yes, lambda: NONE)
    if not isinstance(it, VIter) or it.base is None:
        if isinstance(it, VIter):
            s = iter_seq(I, it, e or {})
            it = iter_at(s, ZERO)
        else:
            raise Unsupported("next on %s" % type(it).__name__, I.where)
    base, off = it.base, it.off
    n = seq_len(base)
    has = simp(ge(n - 1 - off))

    def yes():
        v = seq_get(base, off)
        if isinstance(r, VRef):
            I.put(r, iter_at(base, off + 1))
        return some(v)
    return I.branch(has, yes, lambda: NONE)


@model("iter::repeat")
def iter_repeat(I, args, callee, e, fr):
    return VIter([(None, lambda k: args[0])])


@model("iter::repeat_with")
def iter_repeat_with(I, args, callee, e, fr):
    return VIter([(None, lambda k: I.call_value(args[0], []))])


@model("iter::repeat_n")
def iter_repeat_n(I, args, callee, e, fr):
    return VIter([(I.get(args[1]), lambda k: args[0])])


@model("iter::once")
def iter_once(I, args, callee, e, fr):
    return VIter([(ONE, lambda k: args[0])])


@model("iter::empty")
def iter_empty(I, args, callee, e, fr):
    return VIter([])


@model("iter::successors")
def iter_successors(I, args, callee, e, fr):
    raise Unsupported("iter::successors", I.where)


@model("IntoIterator::into_iter")
def into_iter(I, args, callee, e, fr):
    return to_iter(I, args[0])


@model("slice::iter", "Vec::iter")
def slice_iter(I, args, callee, e, fr):
    return to_iter(I, I.get(args[0]))


@model("slice::iter_mut", "Vec::iter_mut")
def slice_iter_mut(I, args, callee, e, fr):
    return to_iter(I, args[0])


# ------------------------------------------------------------------ sequences
def seq_last(I, s):
    n = seq_len(s)
    c = simp(ge(n - 1))
    if c is ZERO:
        return NONE
    if c is ONE:
        return some(seq_get(s, n - 1))
    with assuming(c):
        v = seq_get(s, n - 1)
    return mk_ite(c, some(v), NONE)


def seq_opt_get(s, i):
    n = seq_len(s)
    c = simp(ge(n - 1 - i) * ge(i))
    if c is ZERO:
        return NONE
    if c is ONE:
        return some(seq_get(s, i))
    with assuming(c):
        v = seq_get(s, i)
    return mk_ite(c, some(v), NONE)


@model("slice::get")
def slice_get(I, args, callee, e, fr):
    s, i = I.get(args[0]), I.get(args[1])
    r = I.as_range(i, s)
    if r is not None:
        lo, hi = r
        c = simp(ge(hi - lo) * ge(seq_len(s) - hi))
        return I.branch(c, lambda: some(seq_slice(s, lo, hi)), lambda: NONE)
    return seq_opt_get(s, i)


@model("slice::last")
def slice_last(I, args, callee, e, fr):
    return seq_last(I, I.get(args[0]))


@model("slice::first")
def slice_first(I, args, callee, e, fr):
    return seq_opt_get(I.get(args[0]), ZERO)


@model("slice::len", "Vec::len", "str::len", "String::len")
def slice_len(I, args, callee, e, fr):
    v = I.get(args[0])
    return simp(seq_len(v))


@model("slice::is_empty", "Vec::is_empty")
def slice_is_empty(I, args, callee, e, fr):
    return simp(eqz(seq_len(I.get(args[0]))))


@model("slice::reverse")
def slice_reverse(I, args, callee, e, fr):
    I.put(args[0], dist(I.get(args[0]), seq_rev))
    return UNIT


@model("slice::to_vec", "slice::into_vec")
def slice_to_vec(I, args, callee, e, fr):
    return I.get(args[0])


@model("slice::swap")
def slice_swap(I, args, callee, e, fr):
    s = I.get(args[0])
    i, j = I.get(args[1]), I.get(args[2])
    a, b = I.index(s, i), I.index(s, j)
    I.put(args[0], seq_set(seq_set(s, i, b), j, a))
    return UNIT


@model("slice::split_at")
def slice_split_at(I, args, callee, e, fr):
    s, m = I.get(args[0]), I.get(args[1])
    I.abort_if("index", ONE - ge(seq_len(s) - m))
    return VTuple([seq_slice(s, ZERO, m), seq_slice(s, m, seq_len(s))])


@model("slice::concat", "slice::Concat")
def slice_concat(I, args, callee, e, fr):
    s = I.get(args[0])
    if all(n is ONE for n, v, b in s.segs):
        return seq_concat(*[b for n, v, b in s.segs])
    raise Unsupported("concat", I.where)


@model("slice::contains")
def slice_contains(I, args, callee, e, fr):
    x = I.get(args[1])
    return any_seq(seq_concat(I.get(args[0])), lambda y: I.eq_value(y, x))


def chunks(I, args, exact):
    s, m = I.get(args[0]), I.get(args[1])
    n = seq_len(s)
    cnt = simp(mk_div(n, m)) if exact else simp(mk_div(n + m - 1, m))
    ci = cnt.as_int()
    if ci is not None and ci <= 64:
        return VIter([(ONE, lambda k, q=q: seq_slice(s, m.scale(q), m.scale(q + 1) if q < ci - 1 or exact else n)) for q in range(ci)])
    if exact or simp(m * cnt - n) is ZERO:
        return VIter([(cnt, lambda k: seq_slice(s, m * k, m * k + m))])
    return VIter([(cnt, lambda k: seq_slice(s, m * k, p_min(m * k + m, n)))])


@model("slice::chunks")
def slice_chunks(I, args, callee, e, fr):
    return chunks(I, args, False)


@model("slice::chunks_exact")
def slice_chunks_exact(I, args, callee, e, fr):
    return chunks(I, args, True)


@model("slice::windows")
def slice_windows(I, args, callee, e, fr):
    s, m = I.get(args[0]), I.get(args[1])
    return VIter([(simp(seq_len(s) - m + 1), lambda k: seq_slice(s, k, k + m))])


SORTED = {}


@model("slice::sort", "slice::sort_unstable")
def slice_sort(I, args, callee, e, fr):
    s = I.get(args[0])
    n = seq_len(s)
    k = n.as_int()
    if k is not None and k <= 32:
        xs = [I.num(seq_get(s, P(i))) for i in range(k)]
        I.put(args[0], VSeq([(ONE, None, mk_app("sorted", P(i), *xs)) for i in range(k)]))
        return UNIT
    d = SORTED.setdefault(s, len(SORTED))
    SORTED[d] = s
    j = fresh_lv()
    I.put(args[0], VSeq([(n, j, mk("app", "sorted%d" % d, j))]))
    return UNIT


@model("slice::copy_from_slice", "slice::clone_from_slice")
def slice_copy_from(I, args, callee, e, fr):
    I.put(args[0], I.get(args[1]))
    return UNIT


@model("slice::fill")
def slice_fill(I, args, callee, e, fr):
    I.put(args[0], VSeq([(seq_len(I.get(args[0])), None, args[1])]))
    return UNIT


@model("array::map")
def array_map(I, args, callee, e, fr):
    return iter_seq(I, it_map(I, to_iter(I, I.get(args[0])), [args[1]], e), e or {})


@model("array::from_fn")
def array_from_fn(I, args, callee, e, fr):
    import re as _re
    m = _re.search(r"; *(\d+)(?:_usize|usize)?\]$", (e or {}).get("ty", ""))
    if not m:
        raise Unsupported("array::from_fn", I.where)
    return I.run_loop(P(int(m.group(1))), lambda k: I.call_value(args[0], [k]), None, (e or {}).get("sp"))


@model("slice::split_first", "slice::split_last")
def slice_split_end(I, args, callee, e, fr):
    s = I.get(args[0])
    n = seq_len(s)
    if callee["path"].endswith("first"):
        return I.branch(simp(ge(n - 1)), lambda: some(VTuple([seq_get(s, ZERO), seq_slice(s, ONE, n)])), lambda: NONE)
    return I.branch(simp(ge(n - 1)), lambda: some(VTuple([seq_get(s, n - 1), seq_slice(s, ZERO, n - 1)])), lambda: NONE)


def place(I, r):
    """the place a chain of references ends at"""
    if not isinstance(r, VRef):
        raise Unsupported("a place through %s" % type(r).__name__, I.where)
    cur = I.read(r.cell, r.path)
    while isinstance(cur, VRef):
        r = cur
        cur = I.read(r.cell, r.path)
    return r, cur


@model("slice::first_mut", "slice::last_mut", "slice::get_mut")
def slice_end_mut(I, args, callee, e, fr):
    r, s = place(I, args[0])
    n = seq_len(s)
    nm = callee["path"].split("::")[-1]
    if nm == "get_mut":
        i = I.get(args[1])
        if I.as_range(i, s) is not None:
            raise Unsupported("get_mut of a range", I.where)
    else:
        i = ZERO if nm == "first_mut" else simp(n - 1)
    return I.branch(simp(ge(n - 1 - i) * ge(i)), lambda: some(VRef(r.cell, r.path + (("i", i),))), lambda: NONE)


@model("slice::split_at_mut")
def slice_split_at_mut(I, args, callee, e, fr):
    r, s = place(I, args[0])
    n, m = seq_len(s), I.get(args[1])
    I.abort_if("index", ONE - ge(n - m))
    return VTuple([VRef(r.cell, r.path + (("r", ZERO, m),)), VRef(r.cell, r.path + (("r", m, n),))])


@model("slice::chunks_mut", "slice::chunks_exact_mut")
def slice_chunks_mut(I, args, callee, e, fr):
    r, s = place(I, args[0])
    n, m = seq_len(s), I.get(args[1])
    exact = "exact" in callee["path"] or simp(eqz(mk_mod(n, m))) is ONE
    cnt = simp(mk_div(n, m)) if exact else simp(mk_div(n + m - 1, m))
    return VIter([(cnt, lambda k: VRef(r.cell, r.path + (("r", m * k, m * k + m if exact else simp(p_min(m * k + m, n))),)))])


@model("slice::rotate_left", "slice::rotate_right")
def slice_rotate(I, args, callee, e, fr):
    s, m = I.get(args[0]), I.get(args[1])
    n = seq_len(s)
    I.abort_if("index", ONE - ge(n - m))
    if callee["path"].endswith("right"):
        m = simp(n - m)
    I.put(args[0], seq_concat(seq_slice(s, m, n), seq_slice(s, ZERO, m)))
    return UNIT


@model("slice::starts_with", "slice::ends_with")
def slice_starts(I, args, callee, e, fr):
    s, t = I.get(args[0]), I.get(args[1])
    n, m = seq_len(s), seq_len(t)
    part = (lambda: I.eq_value(seq_slice(s, ZERO, m), t)) if "starts" in callee["path"] else (lambda: I.eq_value(seq_slice(s, n - m, n), t))
    return I.branch(simp(ge(n - m)), part, lambda: ZERO)


@model("Vec::new", "Vec::with_capacity", "Vec::from_raw")
def vec_new(I, args, callee, e, fr):
    return VSeq([])


@model("Vec::push")
def vec_push(I, args, callee, e, fr):
    I.put(args[0], dist(I.get(args[0]), lambda s: seq_concat(s, seq1([args[1]]))))
    return UNIT


@model("Vec::pop")
def vec_pop(I, args, callee, e, fr):
    s = I.get(args[0])
    n = seq_len(s)

    def yes():
        v = seq_get(s, n - 1)
        I.put(args[0], seq_slice(s, ZERO, n - 1))
        return some(v)
    return I.branch(simp(ge(n - 1)), yes, lambda: NONE)


@model("Vec::insert")
def vec_insert(I, args, callee, e, fr):
    s, i = I.get(args[0]), I.get(args[1])
    n = seq_len(s)
    I.abort_if("index", ONE - ge(n - i))
    I.put(args[0], seq_concat(seq_slice(s, ZERO, i), seq1([args[2]]), seq_slice(s, i, n)))
    return UNIT


@model("Vec::remove")
def vec_remove(I, args, callee, e, fr):
    s, i = I.get(args[0]), I.get(args[1])
    n = seq_len(s)
    I.abort_if("index", ONE - ge(n - 1 - i))
    v = seq_get(s, i)
    I.put(args[0], seq_concat(seq_slice(s, ZERO, i), seq_slice(s, i + 1, n)))
    return v


@model("Vec::append")
def vec_append(I, args, callee, e, fr):
    a, b = I.get(args[0]), I.get(args[1])
    I.put(args[0], seq_concat(a, b))
    I.put(args[1], VSeq([]))
    return UNIT


@model("Extend::extend", "Vec::extend_from_slice")
def vec_extend(I, args, callee, e, fr):
    it = to_iter(I, args[1] if not isinstance(args[1], VRef) else I.get(args[1]))
    if getattr(it, "base", None) is not None and it.off is ZERO and isinstance(it.base, VSeq) and len(it.pieces) == len(it.base.segs):
        s = it.base
    else:
        s = iter_seq(I, it, e or {})
    I.put(args[0], dist(I.get(args[0]), lambda x: seq_concat(x, s)))
    return UNIT


@model("Vec::truncate")
def vec_truncate(I, args, callee, e, fr):
    s, m = I.get(args[0]), I.get(args[1])

    def one(s):
        n = seq_len(s)
        if nonneg(m - n):
            return s
        if nonneg(n - m):
            return seq_slice(s, ZERO, m)
        return mk_ite(ge(m - n), s, seq_slice(s, ZERO, m))
    I.put(args[0], dist(s, one))
    return UNIT


@model("Vec::resize")
def vec_resize(I, args, callee, e, fr):
    s, m = I.get(args[0]), I.get(args[1])
    n = seq_len(s)

    def up():
        I.put(args[0], seq_concat(s, VSeq([(simp(m - n), None, args[2])])))
        return UNIT

    def down():
        I.put(args[0], seq_slice(s, ZERO, m))
        return UNIT
    return I.branch(simp(ge(m - n)), up, down)


@model("Vec::clear")
def vec_clear(I, args, callee, e, fr):
    I.put(args[0], VSeq([]))
    return UNIT


@model("Vec::reserve", "Vec::shrink_to_fit")
def vec_noop(I, args, callee, e, fr):
    return UNIT


@model("Vec::drain")
def vec_drain(I, args, callee, e, fr):
    s = I.get(args[0])
    lo, hi = I.as_range(I.get(args[1]), s)
    n = seq_len(s)
    I.abort_if("index", ONE - ge(hi - lo) * ge(n - hi))
    mid = seq_slice(s, lo, hi)
    I.put(args[0], seq_concat(seq_slice(s, ZERO, lo), seq_slice(s, hi, n)))
    return seq_iter(mid)


@model("Vec::splice")
def vec_splice(I, args, callee, e, fr):
    s = I.get(args[0])
    lo, hi = I.as_range(I.get(args[1]), s)
    n = seq_len(s)
    I.abort_if("index", ONE - ge(hi - lo) * ge(n - hi))
    new = iter_seq(I, to_iter(I, args[2]), e or {})
    I.put(args[0], seq_concat(seq_slice(s, ZERO, lo), new, seq_slice(s, hi, n)))
    return seq_iter(seq_slice(s, lo, hi))


@model("Vec::split_off")
def vec_split_off(I, args, callee, e, fr):
    s, m = I.get(args[0]), I.get(args[1])
    n = seq_len(s)
    I.abort_if("index", ONE - ge(n - m))
    I.put(args[0], seq_slice(s, ZERO, m))
    return seq_slice(s, m, n)


@model("vec::from_elem")
def vec_from_elem(I, args, callee, e, fr):
    n = I.get(args[1])
    return VSeq([(n, None, args[0])])


@model("intrinsics::write_box_via_move")
def box_write(I, args, callee, e, fr):
    return args[1]


@model("Box::new_uninit")
def box_uninit(I, args, callee, e, fr):
    return VOpaque("box")


@model("boxed::box_assume_init_into_vec_unsafe")
def box_vec(I, args, callee, e, fr):
    return args[0]


# ------------------------------------------------------------------ identity-like
def ident(I, args, callee, e, fr):
    return I.get(args[0])


for k in ("Clone::clone", "ToOwned::to_owned", "Borrow::borrow", "Deref::deref", "AsRef::as_ref", "Rc::new", "Box::new", "Rc::clone",
          "hint::must_use", "fmt::format", "Option::as_ref", "Option::cloned", "Option::copied", "Option::as_deref", "Result::as_ref",
          "Vec::as_slice", "slice::as_ref", "Into::into", "Choice::unwrap_u8", "Num::from", "Cow::into_owned", "convert::identity",
          "Vec::into_boxed_slice", "Arguments::from_str", "Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex",
          "String::as_str", "str::to_string", "ToString::to_string", "hint::black_box", "num::abs", "TryInto::try_into_", "RefCell::into_inner",
          "Option::into_iter_"):
    MODELS[k] = ident


@model("DerefMut::deref_mut", "BorrowMut::borrow_mut", "AsMut::as_mut", "Vec::as_mut_slice")
def ref_id(I, args, callee, e, fr):
    return args[0]


@model("Index::index")
def index_index(I, args, callee, e, fr):
    return I.index(I.get(args[0]), I.get(args[1]), (e or {}).get("sp"))


@model("IndexMut::index_mut")
def index_mut(I, args, callee, e, fr):
    r, i = args[0], I.get(args[1])
    v = I.get(r)
    cur = I.read(r.cell, r.path)
    while isinstance(cur, VRef):
        r = cur
        cur = I.read(r.cell, r.path)
    rg = I.as_range(i, v)
    if rg is not None:
        lo, hi = rg
        I.abort_if("index", ONE - ge(hi - lo) * ge(seq_len(v) - hi))
        return VRef(r.cell, r.path + (("r", lo, hi),))
    I.bounds(v, i, (e or {}).get("sp"))
    return VRef(r.cell, r.path + (("i", i),))


@model("mem::replace")
def mem_replace(I, args, callee, e, fr):
    old = I.get(args[0])
    I.put(args[0], args[1])
    return old


@model("mem::take")
def mem_take(I, args, callee, e, fr):
    old = I.get(args[0])
    new = VSeq([]) if isinstance(old, (VSeq, VUpd)) else NONE if isinstance(old, (VEnum, VIte)) and I.adt_of(old) == OPT else ZERO
    I.put(args[0], new)
    return old


@model("mem::swap")
def mem_swap(I, args, callee, e, fr):
    a, b = I.get(args[0]), I.get(args[1])
    I.put(args[0], b)
    I.put(args[1], a)
    return UNIT


@model("mem::drop")
def mem_drop(I, args, callee, e, fr):
    return UNIT


@model("Default::default")
def default(I, args, callee, e, fr):
    ty = (e or {}).get("ty", "")
    if ty.startswith("std::vec::Vec"):
        return VSeq([])
    if ty.startswith("std::option"):
        return NONE
    if "PhantomData" in ty:
        return VOpaque("PhantomData")
    return ZERO


@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def call_once(I, args, callee, e, fr):
    t = I.get(args[1])
    return I.call_value(args[0], list(t.es))


# ------------------------------------------------------------------ formatting, errors, panics
@model("Arguments::new")
def args_new(I, args, callee, e, fr):
    t = args[0]
    a = I.get(args[1])
    xs = []
    for n, v, b in (a.segs if isinstance(a, VSeq) else ()):
        xs.append(I.get(b))
    return VStr(fmt_text(t.t) if isinstance(t, VStr) else repr(t), xs)


def fmt_text(t):
    """the text of a compiled format template (length-prefixed pieces, 0xC0 | options = a hole)"""
    if not (t.startswith("[") and t.endswith("]")):
        return t
    try:
        b = [int(x) for x in t[1:-1].split(",") if x.strip()]
    except ValueError:
        return t
    out, i = "", 0
    while i < len(b) and b[i] != 0:
        c = b[i]
        i += 1
        if c >= 0xC0:
            n = (4 if c & 1 else 0) + (2 if c & 2 else 0) + (2 if c & 4 else 0)
            i += n
            if c & 8:
                out += "{%d}" % (b[i] + 256 * b[i + 1])
                i += 2
            else:
                out += "{}"
        else:
            if c == 0x80:
                c = b[i] + 256 * b[i + 1]
                i += 2
            out += bytes(b[i:i + c]).decode("utf8", "replace").replace("{", "{{")
            i += c
    return out


@model("io::_eprint", "io::_print")
def eprint(I, args, callee, e, fr):
    return UNIT


@model("error::new", "Error::new", "Error::other")
def io_err(I, args, callee, e, fr):
    return VOpaque("io::Error")


def panics(I, args, callee, e, fr):
    raise Diverge("abort", "panic", None, (e or {}).get("sp") or I.where, callee["path"].split("::")[-1])


for k in ("panicking::panic", "panicking::panic_fmt", "panicking::unreachable_default_msg", "panicking::panic_nounwind", "panicking::unreachable_display",
          "panicking::assert_failed", "panicking::panic_display", "panicking::panic_explicit", "panicking::begin_panic", "process::abort"):
    MODELS[k] = panics


# ------------------------------------------------------------------ Option / Result
def on_variant(I, v, names, yes, no):
    v = I.get(v)
    c = simp(I.is_variant(v, names))
    return I.branch(c, lambda: yes(vs_payload(I, v, names)), lambda: no(v))


def vs_payload(I, v, names):
    return vsimp_shallow(I.payload(v, names))


def vsimp_shallow(v):
    from .interp import vnarrow
    return vnarrow(v)


@model("Option::map")
def opt_map(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: some(I.call_value(args[1], [x])), lambda v: NONE)


@model("Option::and_then")
def opt_and_then(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: I.call_value(args[1], [x]), lambda v: NONE)


@model("Option::map_or")
def opt_map_or(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: I.call_value(args[2], [x]), lambda v: args[1])


@model("Option::map_or_else")
def opt_map_or_else(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: I.call_value(args[2], [x]), lambda v: I.call_value(args[1], []))


@model("Option::filter")
def opt_filter(I, args, callee, e, fr):
    def yes(x):
        c = I.num(I.call_value(args[1], [x]))
        return I.branch(c, lambda: some(x), lambda: NONE)
    return on_variant(I, args[0], ("Some",), yes, lambda v: NONE)


@model("Option::zip")
def opt_zip(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: on_variant(I, args[1], ("Some",), lambda y: some(VTuple([x, y])), lambda v: NONE), lambda v: NONE)


@model("Option::or")
def opt_or(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: some(x), lambda v: I.get(args[1]))


@model("Option::or_else")
def opt_or_else(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: some(x), lambda v: I.call_value(args[1], []))


@model("Option::is_none")
def opt_is_none(I, args, callee, e, fr):
    return simp(I.is_variant(args[0], ("None",)))


@model("Option::is_some")
def opt_is_some(I, args, callee, e, fr):
    return simp(I.is_variant(args[0], ("Some",)))


@model("Result::is_ok")
def res_is_ok(I, args, callee, e, fr):
    return simp(I.is_variant(args[0], ("Ok",)))


@model("Result::is_err")
def res_is_err(I, args, callee, e, fr):
    return simp(I.is_variant(args[0], ("Err",)))


@model("Option::ok_or")
def opt_ok_or(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), ok, lambda v: err(args[1]))


@model("Option::ok_or_else")
def opt_ok_or_else(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), ok, lambda v: err(I.call_value(args[1], [])))


@model("Option::take")
def opt_take(I, args, callee, e, fr):
    v = I.get(args[0])
    I.put(args[0], NONE)
    return v


@model("Option::replace")
def opt_replace(I, args, callee, e, fr):
    v = I.get(args[0])
    I.put(args[0], some(args[1]))
    return v


@model("Option::as_mut", "Result::as_mut")
def opt_as_mut(I, args, callee, e, fr):
    r = args[0]
    v = I.get(r)
    cur = I.read(r.cell, r.path)
    while isinstance(cur, VRef):
        r = cur
        cur = I.read(r.cell, r.path)
    return on_variant(I, v, ("Some",), lambda x: some(VRef(r.cell, r.path + (("v", "Some", 0),))), lambda v: NONE)


def unwrap(I, v, e, names=("Some", "Ok")):
    v = I.get(v)
    if isinstance(v, VEnum) and v.variant in names:
        return v.fs[0]
    c = simp(I.is_variant(v, names))
    sp = (e or {}).get("sp")
    if c is ZERO:
        raise Diverge("abort", "panic", None, sp or I.where, "unwrap")
    I.abort_if("panic", ONE - c, sp, "unwrap")
    return vsimp_shallow(I.payload(v, names))


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "CtOption::unwrap", "CtOption::expect", "Option::unwrap_unchecked")
def opt_unwrap(I, args, callee, e, fr):
    return unwrap(I, args[0], e)


@model("Option::unwrap_or_else", "CtOption::unwrap_or_else")
def opt_unwrap_or_else(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: x, lambda v: I.call_value(args[1], []))


@model("Option::unwrap_or", "Result::unwrap_or", "CtOption::unwrap_or")
def opt_unwrap_or(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some", "Ok"), lambda x: x, lambda v: args[1])


@model("Option::unwrap_or_default")
def opt_unwrap_or_default(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: x, lambda v: default(I, [], callee, e, fr))


@model("Option::get_or_insert_with")
def opt_goi(I, args, callee, e, fr):
    v = I.get(args[0])
    on_variant(I, v, ("Some",), lambda x: UNIT, lambda v: (I.put(args[0], some(I.call_value(args[1], []))), UNIT)[1])
    r = args[0]
    return VRef(r.cell, r.path + (("v", "Some", 0),))


@model("Option::is_some_and", "Option::is_none_or", "Result::is_ok_and")
def opt_is_and(I, args, callee, e, fr):
    yes = ("Ok",) if "Result" in callee["path"] else ("Some",)
    return on_variant(I, args[0], yes, lambda x: I.call_value(args[1], [x]), lambda v: ONE if callee["path"].endswith("none_or") else ZERO)


@model("Option::xor")
def opt_xor(I, args, callee, e, fr):
    b = args[1]
    none = lambda v: on_variant(I, b, ("Some",), some, lambda w: NONE)
    return on_variant(I, args[0], ("Some",), lambda x: on_variant(I, b, ("Some",), lambda y: NONE, lambda w: some(x)), none)


@model("Option::flatten")
def opt_flatten(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: x, lambda v: NONE)


@model("Option::inspect")
def opt_inspect(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: (I.call_value(args[1], [x]), some(x))[1], lambda v: NONE)


@model("Option::get_or_insert")
def opt_get_or_insert(I, args, callee, e, fr):
    r, v = place(I, args[0])
    I.put(r, on_variant(I, v, ("Some",), some, lambda w: some(args[1])))
    return VRef(r.cell, r.path + (("v", "Some", 0),))


@model("Option::insert")
def opt_insert(I, args, callee, e, fr):
    r, v = place(I, args[0])
    I.put(r, some(args[1]))
    return VRef(r.cell, r.path + (("v", "Some", 0),))


@model("Result::and")
def res_and(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), lambda x: args[1], lambda v: v)


@model("Option::and")
def opt_and(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: args[1], lambda v: NONE)


@model("Result::unwrap_or_default")
def res_unwrap_or_default(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), lambda x: x, lambda v: default(I, [], callee, e, fr))


@model("Result::map")
def res_map(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), lambda x: ok(I.call_value(args[1], [x])), lambda v: v)


@model("Result::and_then")
def res_and_then(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), lambda x: I.call_value(args[1], [x]), lambda v: v)


@model("Result::map_err")
def res_map_err(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), ok, lambda v: err(VOpaque("mapped error")))


@model("Result::ok", "CtOption::into")
def res_ok(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok", "Some"), some, lambda v: NONE)


@model("Result::unwrap_or_else")
def res_unwrap_or_else(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), lambda x: x, lambda v: I.call_value(args[1], [VOpaque("error")]))


@model("Result::or_else")
def res_or_else(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), ok, lambda v: I.call_value(args[1], [VOpaque("error")]))


@model("Result::or")
def res_or(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), ok, lambda v: I.get(args[1]))


@model("Result::err")
def res_err(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), lambda x: NONE, lambda v: some(VOpaque("error")))


@model("Result::map_or")
def res_map_or(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), lambda x: I.call_value(args[2], [x]), lambda v: I.get(args[1]))


@model("Result::map_or_else")
def res_map_or_else(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Ok",), lambda x: I.call_value(args[2], [x]), lambda v: I.call_value(args[1], [VOpaque("error")]))


@model("CtOption::is_none")
def ct_is_none(I, args, callee, e, fr):
    return simp(ONE - I.is_variant(args[0], ("Some",)))


@model("CtOption::map")
def ct_map(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: some(I.call_value(args[1], [x])), lambda v: NONE)


@model("CtOption::and_then")
def ct_and_then(I, args, callee, e, fr):
    return on_variant(I, args[0], ("Some",), lambda x: I.call_value(args[1], [x]), lambda v: NONE)


@model("CtOption::is_some")
def ct_is_some(I, args, callee, e, fr):
    return simp(I.is_variant(args[0], ("Some",)))


@model("bool::then")
def bool_then(I, args, callee, e, fr):
    return I.branch(I.num(args[0]), lambda: some(I.call_value(args[1], [])), lambda: NONE)


@model("bool::then_some")
def bool_then_some(I, args, callee, e, fr):
    return I.branch(I.num(args[0]), lambda: some(args[1]), lambda: NONE)


# ------------------------------------------------------------------ arithmetic
def kind(callee, e=None):
    """'int' for BigInt, machine type name, or 'field'"""
    st = (callee.get("resolved") or "") + " " + (callee.get("self_ty") or "")
    if "BigInt" in st or "num_bigint" in st or "BigUint" in st:
        return "big"
    return None


def arith(op):
    def f(I, args, callee, e, fr):
        a, b = I.get(args[0]), I.get(args[1])
        return do_arith(I, op, a, b, callee, e)
    return f


def lc_term(I, b):
    if isinstance(b, VTuple):
        c, v = I.get(b.es[0]), I.get(b.es[1])
        return I.num(c) * I.num(v)
    return I.num(b)


def do_arith(I, op, a, b, callee, e):
    if isinstance(a, VIte) or isinstance(b, VIte):
        raise Unsupported("arithmetic on alternatives", I.where)
    if op in ("add", "sub"):
        b = lc_term(I, b)
        a = lc_term(I, a)
        return a + b if op == "add" else a - b
    a, b = I.num(a), I.num(b)
    if op == "mul":
        return a * b
    big = kind(callee)
    ty = (e or {}).get("ty", "")
    mach = ty if ty in IN.INT_W else None
    if op in ("div", "rem"):
        if not big and not mach:
            return a * mk_inv(b)
        I.abort_if("division by zero", eqz(b))
        if not (nonneg(a) and nonneg(b)):
            if big:
                return mk_app("t" + op, a, b)
        return mk_div(a, b) if op == "div" else I.modulo(a, b)
    if op == "shl":
        if mach:
            return I.binop("Shl", a, b, mach, I.where)
        return a * mk_pow(TWO, b)
    if op == "shr":
        if mach:
            return I.binop("Shr", a, b, mach, I.where)
        return mk_div(a, mk_pow(TWO, b))
    if op.startswith("bit") and (callee.get("self_ty") or "").lstrip("&") == "bool":
        return I.binop({"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}[op], a, b, "bool", I.where)
    if op == "bitand":
        return I.bitand(a, b)
    if op == "bitor":
        return I.bitor(a, b)
    if op == "bitxor":
        return I.bitxor(a, b)
    raise Unsupported(op, I.where)


def arith_assign(op):
    def f(I, args, callee, e, fr):
        a, b = I.get(args[0]), I.get(args[1])
        I.put(args[0], do_arith(I, op, a, b, callee, None))
        return UNIT
    return f


for nm, tr in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem"), ("shl", "Shl"), ("shr", "Shr"),
               ("bitand", "BitAnd"), ("bitor", "BitOr"), ("bitxor", "BitXor")):
    MODELS["%s::%s" % (tr, nm)] = arith(nm)
    MODELS["%sAssign::%s_assign" % (tr, nm)] = arith_assign(nm)


@model("Neg::neg")
def neg(I, args, callee, e, fr):
    return -I.num(args[0])


@model("Not::not")
def not_(I, args, callee, e, fr):
    return ONE - I.num(args[0])


@model("PartialEq::eq")
def peq(I, args, callee, e, fr):
    return I.eq_value(args[0], args[1])


@model("PartialEq::ne")
def pne(I, args, callee, e, fr):
    return ONE - I.eq_value(args[0], args[1])


def cmpop(f):
    def g(I, args, callee, e, fr):
        return simp(f(I.num(args[0]), I.num(args[1])))
    return g


MODELS["PartialOrd::lt"] = cmpop(lt)
MODELS["PartialOrd::le"] = cmpop(le)
MODELS["PartialOrd::gt"] = cmpop(gt)
MODELS["PartialOrd::ge"] = cmpop(lambda a, b: ge(a - b))


@model("Ord::cmp", "PartialOrd::partial_cmp")
def ord_cmp(I, args, callee, e, fr):
    r = VOrdering(I.num(args[0]) - I.num(args[1]))
    return some(r) if callee["name"] == "partial_cmp" else r


@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def ordering_is(I, args, callee, e, fr):
    d = I.get(args[0]).d
    nm = callee["path"].split("::")[-1]
    return simp({"is_lt": lt(d, 0), "is_le": le(d, 0), "is_gt": gt(d, 0), "is_ge": ge(d), "is_eq": eqz(d), "is_ne": ONE - eqz(d)}[nm])


@model("cmp::max", "Ord::max")
def cmp_max(I, args, callee, e, fr):
    return simp(p_max(I.num(args[0]), I.num(args[1])))


@model("cmp::min", "Ord::min")
def cmp_min(I, args, callee, e, fr):
    return simp(p_min(I.num(args[0]), I.num(args[1])))


@model("num::saturating_sub")
def sat_sub(I, args, callee, e, fr):
    a, b = I.num(args[0]), I.num(args[1])
    if nonneg(a - b):
        return a - b
    if nonneg(b - a):
        return ZERO
    return simp(ite(ge(a - b), a - b, ZERO))


@model("num::pow", "Pow::pow", "Field::pow_vartime_")
def num_pow(I, args, callee, e, fr):
    return mk_pow(I.num(args[0]), I.num(args[1]))


@model("num::div_ceil")
def div_ceil(I, args, callee, e, fr):
    a, b = I.num(args[0]), I.num(args[1])
    I.abort_if("division by zero", eqz(b))
    return mk_div(a + b - 1, b)


@model("num::checked_sub")
def checked_sub(I, args, callee, e, fr):
    a, b = I.num(args[0]), I.num(args[1])
    return mk_ite(simp(ge(a - b)), some(a - b), NONE)


@model("num::checked_add")
def checked_add(I, args, callee, e, fr):
    return fits(I, I.num(args[0]) + I.num(args[1]), e)


def fits(I, r, e):
    """r if it fits the machine type inside Option<_>"""
    import re as _re
    m = _re.search(r"<([ui](?:8|16|32|64|128|size))>", (e or {}).get("ty", "").replace(" ", ""))
    w = IN.INT_W.get(m.group(1)) if m else None
    if w is None or m.group(1) == "usize":
        return some(r)
    return mk_ite(simp(ge(P(2 ** w - 1) - r) * ge(r)), some(r), NONE)


@model("num::checked_mul")
def checked_mul(I, args, callee, e, fr):
    return fits(I, I.num(args[0]) * I.num(args[1]), e)


@model("num::checked_div", "num::checked_rem")
def checked_div(I, args, callee, e, fr):
    a, b = I.num(args[0]), I.num(args[1])
    f = mk_div if callee["path"].endswith("div") else I.modulo
    return I.branch(simp(eqz(b)), lambda: NONE, lambda: some(f(a, b)))


@model("num::checked_pow")
def checked_pow(I, args, callee, e, fr):
    return fits(I, mk_pow(I.num(args[0]), I.num(args[1])), e)


@model("num::wrapping_add", "num::wrapping_sub", "num::wrapping_mul")
def wrapping(I, args, callee, e, fr):
    a, b = I.num(args[0]), I.num(args[1])
    ty = (e or {}).get("ty", "")
    if not ty.startswith("u") or ty not in IN.INT_W:
        raise Unsupported("wrapping arithmetic", I.where)
    nm = callee["path"].split("::")[-1]
    r = a + b if nm == "wrapping_add" else a - b if nm == "wrapping_sub" else a * b
    m = P(2 ** IN.INT_W[ty])
    if nonneg(r) and nonneg(m - 1 - r):
        return r
    if nm == "wrapping_sub":
        return simp(ite(ge(r), r, r + m))
    return I.modulo(r, m)


@model("num::saturating_add", "num::saturating_mul")
def sat_add(I, args, callee, e, fr):
    a, b = I.num(args[0]), I.num(args[1])
    ty = (e or {}).get("ty", "")
    if not ty.startswith("u") or ty not in IN.INT_W:
        raise Unsupported("saturating arithmetic", I.where)
    r = a + b if callee["path"].endswith("add") else a * b
    m = P(2 ** IN.INT_W[ty] - 1)
    if nonneg(m - r):
        return r
    return simp(p_min(r, m))


@model("num::count_ones")
def count_ones(I, args, callee, e, fr):
    raise Unsupported("count_ones", I.where)


@model("Integer::is_even", "Integer::is_odd")
def parity(I, args, callee, e, fr):
    b = mk_mod(I.num(args[0]), TWO)
    return simp(b if callee["path"].endswith("odd") else ONE - b)


@model("BigInt::magnitude", "BigInt::to_biguint_")
def big_mag(I, args, callee, e, fr):
    v = I.num(args[0])
    return v if nonneg(v) else simp(ite(ge(v), v, -v))


@model("Field::cube")
def f_cube(I, args, callee, e, fr):
    x = I.num(args[0])
    return x * x * x


@model("num::abs_diff")
def abs_diff(I, args, callee, e, fr):
    d = I.num(args[0]) - I.num(args[1])
    return simp(ite(ge(d), d, -d))


@model("num::is_power_of_two")
def is_pow2(I, args, callee, e, fr):
    return mk_app("ispow2", I.num(args[0]))


@model("num::swap_bytes", "num::from_be", "num::to_be")
def swap_bytes(I, args, callee, e, fr):
    v = I.num(args[0])
    ty = (e or {}).get("ty", "u64")
    w = IN.INT_W[ty] // 8
    r = ZERO
    for i in range(w):
        r = r + mk_bits(v, P(8 * i), P(8)).scale(1 << (8 * (w - 1 - i)))
    return r


@model("num::to_be_bytes", "num::to_le_bytes", "num::to_ne_bytes")
def to_bytes(I, args, callee, e, fr):
    v = I.num(args[0])
    st = callee["path"]
    import re as _re
    m = _re.search(r"impl (u\d+)", st)
    w = IN.INT_W[m.group(1)] // 8 if m else 8
    bs = [mk_bits(v, P(8 * i), P(8)) for i in range(w)]
    if "to_be" in st:
        bs = bs[::-1]
    return seq1(bs)


@model("num::from_be_bytes", "num::from_le_bytes")
def from_bytes(I, args, callee, e, fr):
    s = I.get(args[0])
    n = seq_len(s).as_int()
    r = ZERO
    for i in range(n):
        j = i if "from_le" in callee["path"] else n - 1 - i
        r = r + I.num(seq_get(s, P(i))).scale(1 << (8 * j))
    return r


# ------------------------------------------------------------------ BigInt, floats
@model("BigInt::bits", "BigUint::bits")
def big_bits(I, args, callee, e, fr):
    return mk_app("nbits", I.num(args[0]))


@model("BigInt::set_bit")
def big_set_bit(I, args, callee, e, fr):
    x, i, b = I.num(args[0]), I.num(args[1]), I.num(args[2])
    pw = mk_pow(TWO, i)
    bit = mk_bit(x, i)
    on = x + pw - pw * bit
    off = x - pw * bit
    I.put(args[0], ite(b, on, off))
    return UNIT


@model("BigInt::bit")
def big_bit(I, args, callee, e, fr):
    return mk_bit(I.num(args[0]), I.num(args[1]))


@model("BigInt::from_bytes_le")
def from_bytes_le(I, args, callee, e, fr):
    sg, b = I.get(args[0]), I.get(args[1])
    if isinstance(b, VRepr):
        p = mk_nat(b.p)
        v = sg.variant if isinstance(sg, VEnum) else "Plus"
        return p if v == "Plus" else -p if v == "Minus" else ZERO
    raise Unsupported("from_bytes_le", I.where)


@model("BigInt::from_bytes_be")
def from_bytes_be(I, args, callee, e, fr):
    raise Unsupported("from_bytes_be", I.where)


def digits(w):
    def f(I, args, callee, e, fr):
        v = I.num(args[0])
        n = mk_div(mk_app("nbits", v) + (w - 1), P(w))
        j = fresh_lv()
        s = VSeq([(n, j, mk_bits(v, j.scale(w), P(w)))])
        return VTuple([VOpaque("sign"), s])
    return f


MODELS["BigInt::to_u32_digits"] = digits(32)
MODELS["BigInt::to_u64_digits"] = digits(64)


@model("BigInt::is_zero", "Zero::is_zero", "Field::is_zero", "Field::is_zero_vartime")
def is_zero(I, args, callee, e, fr):
    return simp(eqz(I.num(args[0])))


@model("One::one")
def one_one(I, args, callee, e, fr):
    return ONE


@model("Zero::zero")
def zero_zero(I, args, callee, e, fr):
    return ZERO


@model("BigInt::pow")
def big_pow(I, args, callee, e, fr):
    return mk_pow(I.num(args[0]), I.num(args[1]))


@model("Integer::is_multiple_of", "Integer::divides")
def is_multiple(I, args, callee, e, fr):
    a, b = I.num(args[0]), I.num(args[1])
    return simp(eqz(mk_mod(a, b)))


@model("Integer::div_rem")
def div_rem(I, args, callee, e, fr):
    a, b = I.num(args[0]), I.num(args[1])
    I.abort_if("division by zero", eqz(b))
    return VTuple([mk_div(a, b), I.modulo(a, b)])


@model("Integer::div_floor")
def div_floor(I, args, callee, e, fr):
    a, b = I.num(args[0]), I.num(args[1])
    I.abort_if("division by zero", eqz(b))
    return mk_div(a, b)


@model("Integer::mod_floor")
def mod_floor(I, args, callee, e, fr):
    a, b = I.num(args[0]), I.num(args[1])
    I.abort_if("division by zero", eqz(b))
    return I.modulo(a, b)


@model("ToPrimitive::to_f64")
def to_f64(I, args, callee, e, fr):
    v = I.num(args[0])
    k = v.as_int()
    return some(v if k is None else P(int(float(k))))


def flt(v):
    """the number of a constant"""
    if v.as_int() is not None:
        return v.as_int()
    if not v.t:
        return 0
    return v.t[()] if set(v.t) == {()} else None


def to_prim(w):
    def f(I, args, callee, e, fr):
        v = I.num(args[0])
        c = simp(ge(v) * ge(P(2 ** w - 1) - v))
        return mk_ite(c, some(v), NONE)
    return f


for nm, w in (("usize", 64), ("u64", 64), ("u32", 32), ("u128", 128), ("u8", 8)):
    MODELS["ToPrimitive::to_" + nm] = to_prim(w)


@model("f64::log2")
def f_log2(I, args, callee, e, fr):
    x = I.num(args[0])
    k = flt(x)
    if k is not None and k > 0:
        import math
        from fractions import Fraction
        return P(Fraction(math.log2(k)))
    return mk_app("log2", x)


@model("f64::ceil")
def f_ceil(I, args, callee, e, fr):
    x = I.num(args[0])
    k = flt(x)
    if k is not None:
        import math
        return P(math.ceil(k))
    return mk_app("ceil", x)


@model("f64::floor")
def f_floor(I, args, callee, e, fr):
    x = I.num(args[0])
    k = flt(x)
    if k is not None:
        import math
        return P(math.floor(k))
    return mk_app("floor", x)


# ------------------------------------------------------------------ field
@model("Field::double")
def f_double(I, args, callee, e, fr):
    return I.num(args[0]).scale(2)


@model("Field::square")
def f_square(I, args, callee, e, fr):
    x = I.num(args[0])
    return x * x


@model("Field::invert")
def f_invert(I, args, callee, e, fr):
    x = I.num(args[0])
    z = simp(eqz(x))
    if z is ONE:
        return NONE
    return mk_ite(z, NONE, some(mk_inv(x)))


@model("Field::pow", "Field::pow_vartime")
def f_pow(I, args, callee, e, fr):
    s = I.get(args[1])
    if isinstance(s, (VSeq,)):
        r = ZERO
        n = seq_len(s).as_int()
        if n is None:
            raise Unsupported("pow", I.where)
        for i in range(n):
            r = r + I.num(seq_get(s, P(i))).scale(1 << (64 * i))
        return mk_pow(I.num(args[0]), r)
    raise Unsupported("pow", I.where)


@model("PrimeField::from_u128")
def f_from_u128(I, args, callee, e, fr):
    return embed(I.num(args[0]))


@model("PrimeField::from_str_vartime")
def f_from_str(I, args, callee, e, fr):
    s = I.get(args[0])
    if isinstance(s, VStr) and not s.args and s.t.isdigit():
        return some(P(int(s.t)))
    if isinstance(s, VStr) and len(s.args) == 1 and isinstance(s.args[0], Poly):
        n = s.args[0]
        k = n.as_int()
        if k is not None:
            return some(P(k % PRIME)) if k >= 0 else NONE
        c = simp(ge(n))
        return mk_ite(c, some(embed(n)), NONE)
    raise Unsupported("from_str_vartime", I.where)


@model("PrimeField::to_repr")
def f_to_repr(I, args, callee, e, fr):
    return VRepr(I.num(args[0]))


@model("PrimeField::is_odd")
def f_is_odd(I, args, callee, e, fr):
    return mk_bit(mk_nat(I.num(args[0])), ZERO)


@model("From::from", "TryFrom::try_from")
def from_from(I, args, callee, e, fr):
    v = I.get(args[0])
    st = callee.get("self_ty") or ""
    rs = callee.get("resolved") or ""
    if isinstance(v, VStruct) and v.path == ABIT:
        return VStruct(BOOLEAN, {"lc": v.f["variable"], "value": v.f["value"]})
    if isinstance(v, VStruct) and v.path == ANUM and ("bellpepper_core::num::Num" in st or "bellpepper_core::num::Num" in rs):
        return VStruct(BNUM, {"lc": v.f["variable"], "value": v.f["value"]})
    if callee["name"] == "try_from":
        raise Unsupported("try_from", I.where)
    if isinstance(v, Poly) and ("Scalar" in st or st == "F" or "Scalar" in rs):
        return embed(v)
    return v


# ------------------------------------------------------------------ constraint system
def label(I, f):
    s = I.get(I.call_value(f, []))
    if isinstance(s, VStr):
        return (s.t, s.args)
    return ("?", (s,))


@model("ConstraintSystem::namespace")
def cs_namespace(I, args, callee, e, fr):
    cs = I.get(args[0])
    if not isinstance(cs, VCS):
        raise Unsupported("namespace of %s" % type(cs).__name__, I.where)
    return VCS(cs.ns + (label(I, args[1]),))


@model("ConstraintSystem::one")
def cs_one(I, args, callee, e, fr):
    return ONE


@model("LinearCombination::zero", "Num::zero")
def lc_zero(I, args, callee, e, fr):
    if "bellpepper_core::num::Num" in callee["path"]:
        return VStruct(BNUM, {"lc": ZERO, "value": some(ZERO)})
    return ZERO


@model("LinearCombination::from_variable", "LinearCombination::from_coeff")
def lc_var(I, args, callee, e, fr):
    return I.num(args[-1])


def wid_for(I, ns):
    key = "/".join(t for t, a in ns)
    n = I.wcount.get(key, 0)
    I.wcount[key] = n + 1
    return key if n == 0 else "%s~%d" % (key, n)


def do_alloc(I, cs, lab, f, inp, e, sort="F", wit=None):
    """returns (wire, witness or None)"""
    ns = cs.ns + (lab,)
    wid = wid_for(I, ns)
    idx = tuple(I.loopvars)
    w = None
    if wit is not None:
        w = wit
    elif I.mode == "W" and f is not None:
        r = I.call_value(f, [])
        w = I.num(I.try_(r, (e or {}).get("sp")))
    if w is not None:
        I.honest[(wid, len(idx))] = True
    eff = Alloc(wid, idx, sort, w, VCS(ns), (e or {}).get("sp") or I.where, inp)
    I.emit(eff)
    return eff.wire(), w


@model("ConstraintSystem::alloc")
def cs_alloc(I, args, callee, e, fr):
    w, _ = do_alloc(I, I.get(args[0]), label(I, args[1]), args[2], False, e)
    return ok(w)


@model("ConstraintSystem::alloc_input")
def cs_alloc_input(I, args, callee, e, fr):
    w, _ = do_alloc(I, I.get(args[0]), label(I, args[1]), args[2], True, e)
    return ok(w)


@model("ConstraintSystem::enforce")
def cs_enforce(I, args, callee, e, fr):
    cs = I.get(args[0])
    lab = label(I, args[1])
    a = I.num(I.call_value(args[2], [ZERO]))
    b = I.num(I.call_value(args[3], [ZERO]))
    c = I.num(I.call_value(args[4], [ZERO]))
    I.emit(Enforce(VCS(cs.ns + (lab,)), a, b, c, (e or {}).get("sp") or I.where))
    return UNIT


# ------------------------------------------------------------------ bellpepper gadgets
@model("AllocatedNum::alloc")
def an_alloc(I, args, callee, e, fr):
    cs = I.get(args[0])
    w, v = do_alloc(I, cs, ("num", ()), args[1], False, e)
    return ok(VStruct(ANUM, {"variable": w, "value": some(v) if v is not None else NONE}))


@model("AllocatedNum::alloc_infallible", "AllocatedNum::alloc_maybe_infallible")
def an_alloc_inf(I, args, callee, e, fr):
    cs = I.get(args[0])
    w, v = do_alloc(I, cs, ("num", ()), VFn(lambda: ok(I.call_value(args[1], []))), False, e)
    return VStruct(ANUM, {"variable": w, "value": some(v) if v is not None else NONE})


@model("AllocatedNum::get_variable", "AllocatedBit::get_variable")
def an_var(I, args, callee, e, fr):
    return I.step(I.get(args[0]), ("f", "variable"))


@model("AllocatedNum::get_value", "AllocatedBit::get_value", "Boolean::get_value")
def an_val(I, args, callee, e, fr):
    return I.step(I.get(args[0]), ("f", "value"))


@model("AllocatedNum::inputize")
def an_inputize(I, args, callee, e, fr):
    a, cs = I.get(args[0]), I.get(args[1])
    w, v = do_alloc(I, cs, ("input variable", ()), VFn(lambda: on_variant(I, a.f["value"], ("Some",), ok, lambda v: err(VOpaque("AssignmentMissing")))), True, e)
    I.emit(Enforce(VCS(cs.ns + (("enforce input is correct", ()),)), w, ONE, a.f["variable"], (e or {}).get("sp")))
    return ok(UNIT)


def opt2(I, a, b, f):
    """Some(f(x, y)) when both are Some"""
    return on_variant(I, a, ("Some",), lambda x: on_variant(I, b, ("Some",), lambda y: some(f(x, y)), lambda v: NONE), lambda v: NONE)


def need(I, v, loc):
    """values needed by an allocation closure (absent ones abort the synthesis)"""
    if I.mode == "W":
        c = simp(I.is_variant(v, ("Some",)))
        I.abort_if("err", ONE - c, loc, "AssignmentMissing")


@model("AllocatedNum::add", "AllocatedNum::mul")
def an_add(I, args, callee, e, fr):
    a, cs, b = I.get(args[0]), I.get(args[1]), I.get(args[2])
    f = (lambda x, y: x + y) if callee["path"].endswith("add") else (lambda x, y: x * y)
    need(I, a.f["value"], (e or {}).get("sp"))
    need(I, b.f["value"], (e or {}).get("sp"))
    val = opt2(I, a.f["value"], b.f["value"], f)
    res = VStruct(ANUM, {"variable": f(a.f["variable"], b.f["variable"]), "value": val})
    I.emit(Ext("AllocatedNum::" + callee["path"].split("::")[-1], cs, (), (e or {}).get("sp")))
    return ok(res)


@model("AllocatedNum::square")
def an_square(I, args, callee, e, fr):
    return an_add(I, [args[0], args[1], args[0]], {"path": "mul"}, e, fr)


@model("AllocatedNum::conditionally_reverse")
def an_cond_rev(I, args, callee, e, fr):
    cs, a, b, c = [I.get(x) for x in args[:4]]
    cl = c.f["lc"]
    need(I, a.f["value"], (e or {}).get("sp"))
    need(I, b.f["value"], (e or {}).get("sp"))
    need(I, c.f["value"], (e or {}).get("sp"))

    def mkn(x, y):
        var = cl * y.f["variable"] + (ONE - cl) * x.f["variable"]
        val = opt2(I, opt2(I, x.f["value"], y.f["value"], lambda p, q: VTuple([p, q])), c.f["value"],
                   lambda t, s: s * t.es[1] + (ONE - s) * t.es[0])
        return VStruct(ANUM, {"variable": var, "value": val})
    I.emit(Ext("AllocatedNum::conditionally_reverse", cs, (), (e or {}).get("sp")))
    return ok(VTuple([mkn(a, b), mkn(b, a)]))


@model("AllocatedBit::alloc")
def ab_alloc(I, args, callee, e, fr):
    cs = I.get(args[0])
    v = I.get(args[1])
    f = VFn(lambda: on_variant(I, v, ("Some",), ok, lambda x: err(VOpaque("AssignmentMissing"))))
    w, wit = do_alloc(I, cs, ("boolean", ()), f, False, e)
    I.emit(Enforce(VCS(cs.ns + (("boolean constraint", ()),)), ONE - w, w, ZERO, (e or {}).get("sp")))
    return ok(VStruct(ABIT, {"variable": w, "value": v}))


@model("AllocatedBit::get_value_")
def ab_val(I, args, callee, e, fr):
    return I.get(args[0]).f["value"]


@model("Boolean::constant")
def bl_const(I, args, callee, e, fr):
    c = I.num(args[0])
    return VStruct(BOOLEAN, {"lc": c, "value": some(c)})


@model("Boolean::lc")
def bl_lc(I, args, callee, e, fr):
    b = I.get(args[0])
    return I.step(b, ("f", "lc")) * I.num(args[2])


@model("Boolean::not")
def bl_not(I, args, callee, e, fr):
    b = I.get(args[0])
    return VStruct(BOOLEAN, {"lc": ONE - b.f["lc"], "value": on_variant(I, b.f["value"], ("Some",), lambda x: some(ONE - x), lambda v: NONE)})


def bl_bin(name, f):
    def g(I, args, callee, e, fr):
        cs, a, b = [I.get(x) for x in args[:3]]
        I.emit(Ext("Boolean::" + name, cs, (), (e or {}).get("sp")))
        if I.mode == "W":
            for x in (a, b):
                if not (x.f["lc"].as_int() is not None):
                    need(I, x.f["value"], (e or {}).get("sp"))
        return ok(VStruct(BOOLEAN, {"lc": f(a.f["lc"], b.f["lc"]), "value": opt2(I, a.f["value"], b.f["value"], f)}))
    MODELS["Boolean::" + name] = g


bl_bin("and", lambda a, b: a * b)
bl_bin("or", lambda a, b: a + b - a * b)
bl_bin("xor", lambda a, b: a + b - 2 * a * b)


def ab_bin(name, f):
    def g(I, args, callee, e, fr):
        cs, a, b = [I.get(x) for x in args[:3]]
        I.emit(Ext("AllocatedBit::" + name, cs, (), (e or {}).get("sp")))
        if I.mode == "W":
            for x in (a, b):
                need(I, x.f["value"], (e or {}).get("sp"))
        return ok(VStruct(ABIT, {"variable": f(a.f["variable"], b.f["variable"]), "value": opt2(I, a.f["value"], b.f["value"], f)}))
    MODELS["AllocatedBit::" + name] = g


ab_bin("and", lambda a, b: a * b)
ab_bin("xor", lambda a, b: a + b - 2 * a * b)
ab_bin("and_not", lambda a, b: a - a * b)
ab_bin("nor", lambda a, b: ONE - a - b + a * b)


@model("Boolean::enforce_equal")
def bl_enforce_equal(I, args, callee, e, fr):
    cs, a, b = [I.get(x) for x in args[:3]]
    I.emit(Enforce(VCS(cs.ns + (("enforce equal", ()),)), a.f["lc"] - b.f["lc"], ONE, ZERO, (e or {}).get("sp") or I.where))
    return ok(UNIT)


@model("Num::add_bool_with_coeff")
def bn_add_bool(I, args, callee, e, fr):
    n, one, bit, co = [I.get(x) for x in args]
    return VStruct(BNUM, {"lc": n.f["lc"] + co * bit.f["lc"], "value": opt2(I, n.f["value"], bit.f["value"], lambda x, y: x + co * y)})


@model("Num::lc")
def bn_lc(I, args, callee, e, fr):
    return I.get(args[0]).f["lc"] * I.num(args[1])


@model("Num::get_value")
def bn_val(I, args, callee, e, fr):
    return I.get(args[0]).f["value"]


@model("boolean::u64_into_boolean_vec_le")
def u64_bits(I, args, callee, e, fr):
    cs, v = I.get(args[0]), I.get(args[1])
    wid = wid_for(I, cs.ns + (("bit {}", ()),))
    j = fresh_lv()
    idx = tuple(I.loopvars) + (j,)
    hasv = simp(I.is_variant(v, ("Some",)))
    wit = None
    val = NONE
    if hasv is ONE:
        x = I.num(I.payload(v, ("Some",)))
        val = some(mk_bit(x, j))
        wit = mk_bit(x, j)
    elif hasv is not ZERO:
        raise Unsupported("u64_into_boolean_vec_le", I.where)
    a = Alloc(wid, idx, "B", wit if I.mode == "W" else None, VCS(cs.ns + (("bit {}", (j,)),)), (e or {}).get("sp"))
    en = Enforce(VCS(cs.ns + (("bit {}", (j,)), ("boolean constraint", ()))), ONE - a.wire(), a.wire(), ZERO, (e or {}).get("sp"))
    I.emit(Loop(j, P(64), [a, en]))
    return ok(VSeq([(P(64), j, VStruct(BOOLEAN, {"lc": a.wire(), "value": val}))]))


SHA = {}


@model("sha256::sha256")
def sha256(I, args, callee, e, fr):
    cs, s = I.get(args[0]), I.get(args[1])
    lcs = seq_map(s, lambda b, i: I.step(b, ("f", "lc")))
    wid = wid_for(I, cs.ns + (("sha256", ()),))
    j = fresh_lv()
    idx = tuple(I.loopvars) + (j,)
    vals = seq_map(s, lambda b, i: I.step(b, ("f", "value")))
    o = opt_of_seq(I, vals)
    val, wit = NONE, None
    if isinstance(o, VEnum) and o.variant == "Some":
        key = SHA.setdefault(o.fs[0], len(SHA))
        SHA[key] = o.fs[0]
        wit = mk("shabit", key, j)
        val = some(wit)
    elif I.mode == "W":
        raise Unsupported("sha256 without values", I.where)
    a = Alloc(wid, idx, "B", wit if I.mode == "W" else None, VCS(cs.ns + (("bit {}", (j,)),)), (e or {}).get("sp"))
    I.emit(Loop(j, P(256), [a]))
    out = VSeq([(P(256), j, VStruct(BOOLEAN, {"lc": a.wire(), "value": val}))])
    I.emit(Ext("sha256", cs, (lcs,), (e or {}).get("sp"), VSeq([(P(256), j, a.wire())])))
    return ok(out)


# ------------------------------------------------------------------ cells
@model("RefCell::new", "Cell::new")
def rc_new(I, args, callee, e, fr):
    return VCell(I.new_cell(args[0], "cell"))


@model("RefCell::borrow_mut", "RefCell::borrow")
def rc_borrow(I, args, callee, e, fr):
    c = I.get(args[0])
    if isinstance(c, VCell):
        return VRef(c.cell, ()) if callee["path"].endswith("borrow_mut") else I.get(VRef(c.cell, ()))
    raise Unsupported("borrow of %s" % type(c).__name__, I.where)


@model("Ref::map")
def ref_map(I, args, callee, e, fr):
    return I.call_value(args[1], [args[0]])


@model("RangeInclusive::new")
def range_incl(I, args, callee, e, fr):
    return VStruct("std::ops::RangeInclusive", {"start": I.get(args[0]), "end": I.get(args[1])})


@model("RangeInclusive::contains", "Range::contains")
def range_contains(I, args, callee, e, fr):
    r = I.get(args[0])
    x = I.num(args[1])
    hi = r.f["end"] if "Inclusive" in r.path else r.f["end"] - 1
    return simp(ge(x - r.f["start"]) * ge(hi - x))


@model("WriteBytesExt::write_u8", "Write::write_all", "Write::flush")
def write_u8(I, args, callee, e, fr):
    return ok(UNIT)
