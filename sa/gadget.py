"""The obligations of one gadget: its summary against its specification.

  O1  the value it returns for honest wires is the specified function of the inputs
  O2  the honest witness satisfies every constraint it emits (completeness)
  O3  what its constraints determine: outputs are functions of the inputs, predicates hold
      (soundness), on unfolded instances of the closed forms
  O4  every returned linear combination, read at the honest witness, is the value beside it
  O5  the constraint system is the same with and without a witness
  O6  it neither panics nor fails on the inputs it is specified for
  O7  no two of its wires or constraints share a name
"""
import re, sys, time
from .values import *
from .interp import *
from . import logic, gen, inst, evalr
from .logic import simp, assuming
from .terms import *
from .terms import _atoms
from . import terms as T
from .inst import Inst, Det, ValueDep
from .ob import never, Report, Ctx, eq, compare, prove_or_refute, feasible, show_point, clip, ANY

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- honest witness
class Honest:
    def __init__(self, effs, same=None):
        self.al = {}
        self.same = same or {}
        self.collect(effs, [])
        self.memo = {}
        self.busy = set()

    def collect(self, effs, ctx):
        for e in effs:
            if isinstance(e, Loop):
                self.collect(e.effs, ctx + [(e.var, e.n)])
            elif isinstance(e, Guard):
                self.collect(e.effs, ctx)
            elif isinstance(e, Alloc):
                self.al.setdefault(e.wid, []).append((list(e.idx), [v for v, n in ctx], e.wit))
            elif isinstance(e, Ext) and e.res is not None and e.name.startswith("witness:"):
                pass

    def wire(self, t):
        name, idx, sort = t[1], t[2], t[3]
        pats = self.al.get(name)
        if pats is None:
            if name.startswith("$"):
                return mk(*t)
            s = self.same.get(name, name)
            return s(idx) if callable(s) else mk("wire", "$" + s, idx, sort)
        out = None
        for pi, pv, wit in reversed(pats):
            if wit is None:
                raise Unsupported("no witness for %s" % name)
            mp, cond = {}, ONE
            for a, b in zip(pi, idx):
                var = [v for v in pv if a.has(v.atom())]
                if not var:
                    cond = cond * eqz(b - a)
                    continue
                v = var[0]
                d = a - v
                if d.has(v.atom()):
                    raise Unsupported("index of %s" % name)
                mp[v.atom()] = b - d
                if d is not ZERO and d != ZERO:
                    cond = cond * ge(b - d)
            w = subst(wit, mp)
            if out is None:
                out = w
            else:
                c = simp(cond)
                out = w if c is ONE else out if c is ZERO else simp(c * w + (ONE - c) * out)
        if name in self.busy:
            raise Unsupported("the witness of %s depends on itself" % name)
        self.busy.add(name)
        try:
            return self.poly(out)
        finally:
            self.busy.discard(name)

    def poly(self, p):
        p = P(p)
        if not self.touches(p):
            return p
        r = ZERO
        for m, c in p.t.items():
            x = P(c)
            for a, e in m:
                y = self.atom(a)
                for _ in range(abs(e)):
                    x = x * (y if e > 0 else mk_inv(y))
            r = r + x
        return r

    def touches(self, p):
        return any(_atoms[l][0] == "wire" and not _atoms[l][1].startswith("$") for l in p.leaves())

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        if not any(_atoms[l][0] == "wire" and not _atoms[l][1].startswith("$") for l in T._atom_info[a][1] | {a}):
            return of_atom(a)
        t = tup(a)
        if t[0] == "wire":
            idx = tuple(self.poly(i) for i in t[2])
            r = self.wire(("wire", t[1], idx, t[3]))
        elif t[0] == "sum":
            v, body = open_sum(t)
            n = self.poly(t[1])
            with assuming(ge=[v, n - 1 - v]):
                b = simp(self.poly(simp(body)))
            r = mk_sum(n, v, b)
        else:
            args = [self.poly(x) if isinstance(x, Poly) else x for x in t[1:]]
            r = rebuild(t, args)
        self.memo[a] = r
        return r

    def val(self, v):
        """a value with every wire replaced by its honest value"""
        if isinstance(v, Poly):
            return self.poly(v)
        mp = {}
        if isinstance(v, VSeq):
            segs = []
            for n, var, b in v.segs:
                segs.append((self.poly(n), var, self.val(b)))
            return VSeq(segs)
        if isinstance(v, VUpd):
            return VUpd(self.val(v.base), self.poly(v.i), self.val(v.v))
        if isinstance(v, VStruct):
            return VStruct(v.path, {k: self.val(x) for k, x in v.f.items()})
        if isinstance(v, VEnum):
            return VEnum(v.adt, v.variant, [self.val(x) for x in v.fs])
        if isinstance(v, VTuple):
            return VTuple([self.val(x) for x in v.es])
        if isinstance(v, VIte):
            return VIte(self.poly(v.c), self.val(v.a), self.val(v.b))
        return v


# ---------------------------------------------------------------- specification of a gadget
class Spec:
    """what a gadget is specified to do"""
    path = None            # suffix of the function's path
    pre = ()               # polynomials that are >= 0
    nz = ()
    conds = ()
    gens = {}              # how to draw parameters in random interpretation
    sizes = ({},)          # instances for O3, O5, O7
    contracts = ()         # names of contracts its analysis may use
    rejects = None         # condition under which it must return an error
    fails = None           # condition under which it returns an error (else never)
    refusals = ("err",)    # how it may refuse
    coherent = True
    modes = "WS"
    rules = None           # the rules it is checked by (else all)
    note = ""
    cases = ()             # fixed parameters to analyse it at (else it is analysed for all of them)
    unroll = 0
    case = None
    same = {}              # inputs whose honest wires are those of another
    expand = 0
    quotients = {}         # (number, divisor) -> quotient, by the naming of the inputs
    base_contracts = True  # whether the conversions and the lazy cell are taken at their contracts
    wide = False           # whether sizes may exceed 32 bits
    field = None           # the number of bits of the modulus, when it is fixed

    def args(self, I):
        raise NotImplementedError

    def value(self, I, args):
        """expected result, or ANY"""
        return ANY

    def result(self, I, args, r):
        """what is compared with `value`"""
        return I.get(r) if isinstance(r, VRef) else r

    def ranges(self, ins):
        """integer ranges of input wires: {(name, idx): (lo, hi)}"""
        return {}

    def chosen(self, ins, res, args):
        """wires that stand for themselves: the goals are to hold for every choice of them"""
        return ()

    def goals(self, D, ins, res, args):
        """yield (name, holds)"""
        return ()


def case_map(case):
    mp = {}
    for k, v in case.items():
        for so in "NBZF":
            mp[sym(k, so).atom()] = P(v)
    return mp


class Cased(Spec):
    """a specification at fixed parameters"""

    def __init__(self, base, case):
        self.__dict__.update({k: getattr(base, k) for k in dir(base) if not k.startswith("__") and not callable(getattr(base, k))})
        self.base, self.case = base, case
        self.mp = case_map(case)
        f = lambda p: subst(P(p), self.mp)
        self.pre = tuple(x for x in map(f, base.pre) if x.as_int() is None or x.as_int() < 0)
        self.nz, self.conds = tuple(map(f, base.nz)), tuple(x for x in map(f, base.conds) if x is not ONE)
        self.rejects = None if base.rejects is None else f(base.rejects)
        self.fails = None if base.fails is None else f(base.fails)
        self.sizes = tuple(dict(sz, **case) for sz in base.sizes)
        self.unroll = base.unroll or 80
        self.expand = base.expand or 8
        self.gens = dict(base.gens)
        for k, v in case.items():
            self.gens[("sym", k)] = v
        for name in getattr(base, "fit", ()):
            # the limbs of a well-formed big natural fit their width
            n, w = case[name + ".n"], case[name + ".w"]
            self.pre += tuple(mk_pow(TWO, P(w)) - 1 - mk_nat(gen.val_of(name, (j,))) for j in range(n))
            self.gens["$" + name] = gen.limb_gen(w)

    def args(self, I):
        out = []
        for a in self.base.args(I):
            if isinstance(a, VRef):
                I.store[a.cell] = vsubst(I.store[a.cell], self.mp)
            elif isinstance(a, VFn):
                a = VFn(lambda *r, f=a.callee: vsubst(f(*r), self.mp))
            else:
                a = vsubst(a, self.mp)
            out.append(a)
        return out

    def value(self, I, args):
        v = self.base.value(I, args)
        return v if v is ANY else vsubst(v, self.mp)

    def result(self, I, args, r):
        return self.base.result(I, args, r)

    def ranges(self, ins):
        return self.base.ranges(ins)

    def goals(self, D, ins, res, args):
        return self.base.goals(D, ins, res, args)

    def chosen(self, ins, res, args):
        return self.base.chosen(ins, res, args)


def erase(path):
    """a path without generic arguments"""
    q = None
    while q != path:
        q, path = path, re.sub(r"(::|(?<=\w))<[^<>]*>", "", path)
    return path


def lookup(prog, path):
    """the function of that path, whatever its generic parameters are called"""
    fns = [b for b in prog["bodies"] if b["kind"] != "Closure"]
    for f in (lambda x: x, erase):
        w = f(path)
        r = [b for b in fns if f(b["path"]) == w] or [b for b in fns if f(b["path"]).endswith("::" + w)]
        if r:
            return r[0]
    return None


class Gadget:
    """a gadget analysed in both modes"""

    def __init__(self, prog, spec, contracts):
        self.spec, self.prog = spec, prog
        self.body = lookup(prog, spec.path)
        self.cons = {}
        for c in spec.contracts:
            self.cons.update(contracts[c](prog))
        self.run = {}
        self.sites = self.inject = None
        self.covered = ()

    def analyse(self, mode):
        if mode in self.run:
            return self.run[mode]
        sp = self.spec
        I = gen.interp(self.prog, mode, {k: v for k, v in self.cons.items() if k != self.body["path"]}, sp.base_contracts)
        I.unroll = sp.unroll
        I.numbits = sp.field
        I.wide = sp.wide
        I.sites, I.inject, I.covered = self.sites, self.inject, self.covered
        try:
            args = sp.args(I)
            with assuming(*sp.conds, ge=list(sp.pre), nz=list(sp.nz)):
                r = I.call_body(self.body, list(args), getattr(sp, "self_ty", None) or self.body.get("impl_self"))
                r = sp.result(I, args, r)
            out = (I, args, r, None)
        except Unsupported as u:
            out = (I, None, None, "%s%s" % (u, ""))
        except Diverge as d:
            if d.kind == "abort":
                I.effs.append(Abort(d.label, ONE, d.loc, d.detail))
                out = (I, args, err(VOpaque("error")), None)
            else:
                out = (I, None, None, "%s outside a function" % d.kind)
        except RecursionError:
            out = (I, None, None, "recursion")
        self.run[mode] = out
        return out


def where_of(g, loc):
    return "%s @ %s" % (g.body["path"], loc) if loc else g.body["path"]


def okpart(r):
    """(condition of Ok, payload) of a result"""
    if isinstance(r, VEnum) and r.variant in ("Ok",):
        return r.fs[0]
    if isinstance(r, VIte):
        for x in (r.a, r.b):
            y = okpart(x)
            if y is not None and not (isinstance(x, VEnum) and x.variant == "Err"):
                return y
        return None
    if isinstance(r, VEnum) and r.variant == "Err":
        return None
    return r


def check(rep, prog, spec, contracts, only=None):
    """all the obligations of one gadget"""
    if spec.cases and spec.case is None:
        for c in spec.cases:
            n = len(rep.items)
            check(rep, prog, Cased(spec, c), contracts, only)
            for i in rep.items[n:]:
                i["msg"] = "%s, for %s" % (i["msg"], szs(c))
        return None
    T.EXPAND = spec.expand
    T.QUOTIENTS.clear()
    T.QUOTIENTS.update(spec.quotients)
    g = Gadget(prog, spec, contracts)
    nm = spec.path
    if g.body is None:
        rep.violated("anchor", nm, "the public function %s no longer exists" % nm)
        return None
    rep.functions.add(g.body["path"])
    cx = Ctx(ge=spec.pre, nz=spec.nz, conds=spec.conds, gens=spec.gens)
    if only is not None and "O9" in only:
        from . import fail
        fail.check(rep, g, spec, cx, contracts)
        return g
    if spec.rules is not None and not spec.rules:
        return g
    runs = {}
    for m in spec.modes:
        I, args, r, e = g.analyse(m)
        rep.functions |= I.visited
        rep.calls |= I.calls
        if e is not None:
            rep.undecided("analyse-" + m, nm, "not analysable: " + e)
        else:
            runs[m] = (I, args, r)
    want = lambda o: (only is None or o in only) and (spec.rules is None or o in spec.rules)
    if "W" in runs:
        I, args, r = runs["W"]
        H = Honest(I.effs, spec.same)
        try:
            obligations_w(rep, g, spec, cx, I, args, r, H, want)
        except Unsupported as u:
            rep.undecided("O1-4", nm, "not decidable: %s" % u)
    if "S" in runs:
        I, args, r = runs["S"]
        if want("O6"):
            aborts(rep, g, spec, cx, I, "S")
        if want("O8") and spec.rejects is not None:
            rejects(rep, g, spec, cx, I, r, "bad input without a witness")
        if want("O1") and not any(isinstance(e, (Alloc, Enforce, Ext)) for e, _, _ in walk(I.effs)):
            try:
                exp = spec.value(I, args)
                if exp is not ANY:
                    eq(rep, "O1", g.body["path"], cx, r, exp, what="result without a witness")
            except Unsupported as u:
                rep.undecided("O1", nm, "result without a witness: %s" % u)
    if want("O3") or want("O5") or want("O7"):
        instances(rep, g, spec, cx, runs, want)
    return g


def walk(effs, frees=(), conds=()):
    for e in effs:
        if isinstance(e, Loop):
            yield from walk(e.effs, list(frees) + [(e.var, e.n)], conds)
        elif isinstance(e, Guard):
            yield from walk(e.effs, frees, list(conds) + [e.cond])
        else:
            yield e, list(frees), list(conds)


def aborts(rep, g, spec, cx, I, mode):
    n = 0
    for e, fr, co in walk(I.effs):
        if not isinstance(e, Abort):
            continue
        n += 1
        c = e.cond
        if spec.fails is not None and e.kind == "err":
            co = co + [ONE - P(spec.fails)]
        wh = "%s: %s at %s" % (g.body["path"], e.kind, (e.loc or "").split(":")[0])
        rng = []
        for v, k in fr:
            rng += [v, k - 1 - v]
        with cx.enter():
            if never(co + [c], rng):
                rep.proved("O6-" + mode, wh)
                continue
        try:
            H = getattr(g, "H", None)
            if H is None and "W" in g.run and g.run["W"][3] is None:
                H = g.H = Honest(g.run["W"][0].effs, spec.same)
            c2 = H.poly(c) if H is not None else c
            co2 = [H.poly(x) for x in co] if H is not None else co
        except Unsupported:
            c2, co2 = c, co
        with cx.enter():
            if never(co2 + [c2], rng):
                rep.proved("O6-" + mode, wh)
                continue
        r, good = evalr.refute(ONE, cx.ge, cx.gens, co2 + [c2], cx.nz, fr, 300, want=1)
        if r is not None:
            pt = ", ".join("%s=%s" % kv for kv in sorted(r[0].items())[:10])
            rep.violated("O6-" + mode, wh, "%s (%s) is reachable, e.g. at {%s}" % (e.kind, e.detail, pt), e.loc)
        else:
            rep.undecided("O6-" + mode, wh, "abort if %s: neither excluded nor reached" % clip(c), e.loc)
    return n


def obligations_w(rep, g, spec, cx, I, args, r, H, want):
    nm = g.body["path"]
    if want("O6"):
        aborts(rep, g, spec, cx, I, "W")
    if want("O8") and spec.rejects is not None:
        rejects(rep, g, spec, cx, I, r)
    if want("O1"):
        exp = spec.value(I, args)
        if exp is not ANY:
            with cx.enter():
                act, exp = H.val(r), H.val(exp)
            eq(rep, "O1", nm, cx, act, exp, what="result")
    if want("O2"):
        for e, fr, co in walk(I.effs):
            if spec.fails is not None:
                co = co + [ONE - P(spec.fails)]
            if isinstance(e, Enforce):
                rng = []
                for v, k in fr:
                    rng += [v, k - 1 - v]
                try:
                    with cx.enter():
                        with assuming(*co, ge=rng):
                            p = simp(H.poly(e.poly()))
                            co2 = [H.poly(c) for c in co]
                except Unsupported as u:
                    rep.undecided("O2", where_of(g, None), "constraint %s: %s" % (lab(e), u), e.loc)
                    continue
                st, x = prove_or_refute(cx, p, fr, co2)
                if st == "proved":
                    rep.proved("O2", where_of(g, None), lab(e))
                elif st == "violated":
                    rep.violated("O2", where_of(g, None), "the honest witness fails constraint `%s`: %s" % (lab(e), show_point(x)), e.loc)
                else:
                    rep.undecided("O2", where_of(g, None), "constraint `%s`: %s = 0 not proved (%s points agree)" % (lab(e), clip(p), x), e.loc)
            elif isinstance(e, Ext) and e.name in ("range", "zero", "need"):
                ext_need(rep, g, cx, e, fr, co, H)
    if want("O4") and spec.coherent:
        pay = okpart(r)
        if pay is not None:
            try:
                pairs = list(coh(pay, ""))
            except Unsupported as u:
                rep.undecided("O4", nm, "result: %s" % u)
                pairs = []
            for what, lc, val in pairs:
                try:
                    with cx.enter():
                        a = H.val(lc)
                    eq(rep, "O4", nm, cx, a, val, what="the wires of result%s against their value" % what)
                except Unsupported as u:
                    rep.undecided("O4", nm, "result%s: %s" % (what, u))


def rejects(rep, g, spec, cx, I, r, what="bad input"):
    """an error is certain on the inputs that must be refused"""
    nm = g.body["path"]
    left = ONE
    with cx.enter():
        with assuming(spec.rejects):
            for e in I.effs:
                c = None
                if isinstance(e, Abort) and e.kind in spec.refusals:
                    c = e.cond
                if c is not None:
                    left = simp(left * (ONE - simp(c)))
            if "err" in spec.refusals and isinstance(r, (VEnum, VIte)) and I.adt_of(r) == RES and not any(isinstance(e, Abort) and e.cond is ONE for e in I.effs):
                left = simp(left * (ONE - simp(I.is_variant(r, ("Err",)))))
            if logic.absurd() or left is ZERO or logic.prove_zero(left):
                rep.proved("O8", nm, what + " is refused")
                return
    r, good = evalr.refute(left, cx.ge, cx.gens, list(cx.conds) + [spec.rejects], cx.nz, [], 300, want=40)
    if r is not None:
        rep.violated("O8", nm, what + " that must be refused is accepted: " + show_point(r))
    else:
        rep.undecided("O8", nm, what + ": refusal not proved")


def lab(e):
    return e.ns.ns[-1][0] if isinstance(e.ns, VCS) and e.ns.ns else "?"


def ext_need(rep, g, cx, e, fr, co, H):
    """a fact that a contract imposes must hold at the honest witness"""
    rng = []
    for v, k in fr:
        rng += [v, k - 1 - v]
    try:
        with cx.enter():
            with assuming(*co, ge=rng):
                if e.name == "range":
                    x = mk_nat(H.poly(e.args[0]))
                    n = e.args[1]
                    cond = simp(ge(mk_pow(TWO, n) - 1 - x) * ge(x))
                elif e.name == "zero":
                    cond = simp(eqz(H.poly(e.args[0])))
                else:
                    cond = simp(H.poly(e.args[0]))
    except Unsupported as u:
        rep.undecided("O2", where_of(g, None), "requirement: %s" % u, e.loc)
        return
    st, x = prove_or_refute(cx, ONE - cond, fr, co)
    if st == "proved":
        rep.proved("O2", where_of(g, None), "requirement of a component")
    elif st == "violated":
        rep.violated("O2", where_of(g, None), "the honest witness fails what a component imposes (%s): %s" % (e.name, show_point(x)), e.loc)
    else:
        rep.undecided("O2", where_of(g, None), "requirement %s: not proved (%s points agree)" % (clip(cond), x), e.loc)


def coh(v, what):
    """pairs (linear combinations, value beside them) of a returned value"""
    if isinstance(v, VTuple):
        for i, x in enumerate(v.es):
            yield from coh(x, "%s.%d" % (what, i))
        return
    if isinstance(v, VSeq) or isinstance(v, VUpd):
        j = fresh_lv()
        body = None
        if isinstance(v, VSeq) and len(v.segs) == 1:
            n, var, b = v.segs[0]
            if isinstance(b, VStruct):
                if var is not None:
                    for w, lc, val in coh(b, what + "[]"):
                        yield w, VSeq([(n, var, lc)]), VSeq([(n, var, val)])
                else:
                    yield from coh(b, what + "[]")
        return
    if not isinstance(v, VStruct):
        return
    p = v.path.split("::")[-1]
    f = v.f

    def pay(o):
        return o.fs[0] if isinstance(o, VEnum) and o.variant == "Some" else None
    if p == "Num" and "num" in f:
        if pay(f["value"]) is not None:
            yield what, f["num"], pay(f["value"])
    elif p == "AllocatedNum":
        if pay(f["value"]) is not None:
            yield what, f["variable"], pay(f["value"])
    elif p == "Boolean":
        if pay(f["value"]) is not None:
            yield what, f["lc"], pay(f["value"])
    elif p == "Bit":
        if pay(f["value"]) is not None:
            yield what, f["bit"], pay(f["value"])
    elif p == "BigNat":
        lv, val = pay(f["limb_values"]), pay(f["value"])
        if not isinstance(f["limbs"], (VSeq, VUpd)):
            raise Unsupported("limbs of a %s" % type(f["limbs"]).__name__)
        if lv is not None:
            yield what + ".limbs", f["limbs"], lv
        w = f["params"].f["limb_width"]
        yield what + ".n_limbs", f["limbs"].len(), f["params"].f["n_limbs"]
        if lv is not None and val is not None:
            j = fresh_lv()
            n = lv.len()
            with assuming(ge=[j, n - 1 - j]):
                x = seq_get(lv, j)
            yield what + ".value", mk_sum(n, j, mk_nat(x) * mk_pow(TWO, w * j)), val
    elif p == "Bitvector":
        vs = pay(f["values"])
        if vs is not None:
            yield what + ".bits", f["bits"], vs
    elif p == "Polynomial":
        vs = pay(f["values"])
        if vs is not None:
            yield what + ".coefficients", f["coefficients"], vs


def shape(ins):
    out = []
    for o in ins.order:
        if o[0] == "alloc":
            out.append(("alloc", ins.names[o[1]], o[2]))
        elif o[0] == "enforce":
            a, b, c, loc, lb = ins.cons[o[1]]
            nk = lambda p: tuple(sorted((tuple(repr(ins.names[v]) for v in m), x) for m, x in p.items()))
            out.append(("enforce", nk(a), nk(b), nk(c)))
    return out


def instances(rep, g, spec, cx, runs, want):
    nm = g.body["path"]
    for sz in spec.sizes:
        ii = {}
        for m in runs:
            I, args, r = runs[m]
            ins = Inst(dict(sz))
            try:
                ins.run(I.effs)
                ii[m] = ins
            except ValueDep as v:
                rep.undecided("O5", nm, "mode %s at %s: the shape is not a function of the sizes (%s)" % (m, szs(sz), v))
        if "W" in ii and "S" in ii and want("O5"):
            a, b = shape(ii["W"]), shape(ii["S"])
            if a == b:
                rep.proved("O5", nm, "same shape at %s (%d wires and constraints)" % (szs(sz), len(a)))
            else:
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                x = (a + [None])[k] if k <= len(a) else None
                rep.violated("O5", nm, "the constraint system depends on the witness: at %s, event %d is %s with and %s without a witness" % (
                    szs(sz), k, clip(a[k] if k < len(a) else None, 90), clip(b[k] if k < len(b) else None, 90)))
        if "W" in runs and "W" not in ii and want("O5"):
            depends(rep, g, spec, cx, runs["W"], ii.get("S"), sz)
        m = "W" if "W" in ii else "S" if "S" in ii else None
        if m is None:
            continue
        ins = ii[m]
        I, args, r = runs[m]
        if want("O7"):
            names(rep, g, ins, sz)
        if want("O3"):
            soundness(rep, g, spec, ins, args, r, sz)
    if want("O7"):
        m = "S" if "S" in runs else "W"
        for sz in scaled(spec):
            I = runs[m][0] if m in runs else None
            if I is None:
                break
            try:
                ins = inst.Labels(sz)
                ins.run(I.effs)
            except (ValueDep, RecursionError):
                continue
            names(rep, g, ins, sz)


def scaled(spec):
    """the sizes of the last instance, one of them increased"""
    if not spec.sizes or spec.case is not None:
        return
    base = dict(spec.sizes[-1])
    for k, v in base.items():
        if isinstance(v, bool) or not isinstance(v, int) or k.startswith("NUM"):
            continue
        for x in (140, 70, 33):
            sz = dict(base, **{k: x})
            env = inst.SizeEnv(sz)
            good = x > v
            for q in spec.pre:
                try:
                    good = good and env.ev(P(q), {}) >= 0
                except (ValueDep, evalr.Undef, ZeroDivisionError, OverflowError):
                    pass
            if good:
                yield sz
                break


def guards(effs, frees=()):
    for e in effs:
        if isinstance(e, Loop):
            yield e.n, list(frees)
            yield from guards(e.effs, list(frees) + [(e.var, e.n)])
        elif isinstance(e, Guard):
            yield e.cond, list(frees)
            yield from guards(e.effs, frees)


def depends(rep, g, spec, cx, run, base, sz, tries=240):
    """two witnesses with different constraint systems"""
    import random
    I, args, r = run
    nm = g.body["path"]
    gens = dict(cx.gens)
    for k, v in sz.items():
        gens[("sym", k)] = (lambda env, idx, v=v: v[idx[0]]) if isinstance(v, (list, tuple)) else v
    gs = list(guards(I.effs))
    fine = simp(I.is_variant(r, ("Ok",))) if isinstance(r, VIte) and I.adt_of(r) == "std::result::Result" else ONE
    seen = {}
    if base is not None:
        seen[tuple(inst.Sample.events(base))] = "without a witness"
    for i in range(tries):
        env = evalr.Env(random.Random((7 << 20) + i), gens)
        try:
            for c, fr in random.Random(i).sample(gs, min(len(gs), i % 3)):
                b = evalr.ranges(fr, env)
                if b is not None:
                    for tg in evalr.targets([c])[:4]:
                        evalr.aim(env, tg, b)
            if any(env.ev(q, {}) < 0 for q in cx.ge) or any(env.ev(q, {}) != 1 for q in cx.conds) or any(env.ev(q, {}) == 0 for q in cx.nz):
                continue
            ins = inst.Sample(dict(sz), env).run(I.effs)
            if ins.aborts or env.ev(fine, {}) != 1:
                continue
        except (evalr.Undef, ValueDep, ZeroDivisionError, OverflowError, ValueError, KeyError, IndexError):
            continue
        ev = tuple(ins.events())
        seen.setdefault(ev, show_point((evalr.describe(env, {}), 0))[13:])
        if len(seen) > 1:
            (a, x), (b, y) = list(seen.items())[:2]
            k = next((j for j, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
            rep.violated("O5", nm, "the constraint system depends on the witness: at %s, event %d is %s %s and %s %s" % (
                szs(sz), k, clip(a[k] if k < len(a) else None, 90), x if x.startswith("without") else "at " + clip(x, 160), clip(b[k] if k < len(b) else None, 90), "at " + clip(y, 160)))
            return


def szs(sz):
    return "{%s}" % ", ".join("%s=%s" % (k, v if not isinstance(v, int) or v < 10 ** 8 else hex(v)) for k, v in sz.items())


def names(rep, g, ins, sz):
    seen = {}
    for o in ins.order:
        if o[0] == "alloc":
            l = ins.info[o[1]]["label"]
            loc = ins.info[o[1]]["eff"].loc
        elif o[0] == "enforce":
            l, loc = ins.cons[o[1]][4], ins.cons[o[1]][3]
        else:
            l, loc = ins.exts[o[1]][4], ins.exts[o[1]][3]
            if ins.exts[o[1]][0] in ("zero", "need"):
                continue
        if l in seen:
            rep.violated("O7", g.body["path"], "two parts of the constraint system are named `%s` at %s" % (l, szs(sz)), loc)
            return
        seen[l] = loc
    rep.proved("O7", g.body["path"], "%d distinct names at %s" % (len(seen), szs(sz)))


def inputs_of(ins, r):
    al = set(ins.info)
    return [v for v, k in enumerate(ins.names) if k[0] in ("wire", "sym") and v not in al]


def soundness(rep, g, spec, ins, args, r, sz):
    nm = g.body["path"]
    try:
        pay = okpart(r)
        res = ins.val(pay, {}) if pay is not None else None
        ar = [ins.val(a, {}) if isinstance(a, (VStruct, VSeq, VUpd, VTuple, Poly, VEnum)) else None for a in args]
        known = inputs_of(ins, r)
        rng = {}
        for (name, idx), x in spec.ranges(ins).items():
            for v in known:
                k = ins.names[v]
                if k[1] == name and (idx is None or k[2] == idx):
                    rng[v] = x
        for v in known:
            if ins.names[v][-1] == "B":
                rng[v] = (0, 1)
        D = Det(ins, known + list(spec.chosen(ins, res, ar)), rng)
        D.propagate()
        got = list(spec.goals(D, ins, res, ar))
    except (ValueDep, evalr.Undef) as u:
        rep.undecided("O3", nm, "at %s: %s" % (szs(sz), u))
        return
    except Unsupported as u:
        rep.undecided("O3", nm, "at %s: %s" % (szs(sz), u))
        return
    for name, holds in got:
        if holds:
            rep.proved("O3", nm, "%s at %s" % (name, szs(sz)))
        else:
            fr = [ins.vname(v) for v in D.free_wires()][:4]
            rep.violated("O3", nm, "%s does not follow from the constraints at %s%s" % (name, szs(sz), "; undetermined wires: " + ", ".join(fr) if fr else ""),
                         key="O3|%s|%s" % (nm, name))
