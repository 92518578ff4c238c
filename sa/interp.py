"""Abstract interpreter for the typed syntax tree (THIR) of the crate.

One pass over the syntax tree per function: branches are joined where they meet, loops are
summarised by solving the recurrences of the variables they write, calls are analysed in
place or replaced by a contract that is verified on its own.  Nothing is executed.
"""
import re
from .values import *
from . import logic
from .logic import assuming, simp, nonneg, add_cond, add_ge
from .terms import *
from . import terms as T


class Diverge(Exception):
    def __init__(self, kind, label=None, value=None, loc=None, detail=None):
        Exception.__init__(self, kind)
        self.kind, self.label, self.value, self.loc, self.detail = kind, label, value, loc, detail


class NeedPeel(Exception):
    pass


# ------------------------------------------------------------------ effects
class Eff:
    pass


class Alloc(Eff):
    def __init__(self, wid, idx, sort, wit, ns, loc, inp=False):
        self.wid, self.idx, self.sort, self.wit, self.ns, self.loc, self.inp = wid, idx, sort, wit, ns, loc, inp

    def wire(self):
        return mk("wire", self.wid, tuple(self.idx), self.sort)

    def map(self, f, fe):
        return Alloc(self.wid, tuple(f(x) for x in self.idx), self.sort, None if self.wit is None else f(self.wit), f(self.ns), self.loc, self.inp)

    def key(self):
        return ("alloc", self.wid, self.idx, self.sort, self.wit, self.ns, self.inp)

    def __repr__(self):
        return "alloc%s %s%r := %r" % ("_input" if self.inp else "", self.wid, self.idx, self.wit)


class Enforce(Eff):
    def __init__(self, ns, a, b, c, loc):
        self.ns, self.a, self.b, self.c, self.loc = ns, a, b, c, loc

    def map(self, f, fe):
        return Enforce(f(self.ns), f(self.a), f(self.b), f(self.c), self.loc)

    def poly(self):
        return self.a * self.b - self.c

    def key(self):
        return ("enf", self.ns, self.a, self.b, self.c)

    def __repr__(self):
        return "enforce (%r) * (%r) == %r" % (self.a, self.b, self.c)


class Abort(Eff):
    def __init__(self, kind, cond, loc, detail=None):
        self.kind, self.cond, self.loc, self.detail = kind, cond, loc, detail

    def map(self, f, fe):
        return Abort(self.kind, f(self.cond), self.loc, self.detail)

    def key(self):
        return ("abort", self.kind, self.cond)

    def __repr__(self):
        return "abort(%s) if %r  [%s %s]" % (self.kind, self.cond, self.loc, self.detail or "")


class Guard(Eff):
    def __init__(self, cond, effs):
        self.cond, self.effs = cond, effs

    def map(self, f, fe):
        return Guard(f(self.cond), [fe(x) for x in self.effs])

    def key(self):
        return ("guard", self.cond, tuple(x.key() for x in self.effs))

    def __repr__(self):
        return "if %r %r" % (self.cond, self.effs)


class Loop(Eff):
    def __init__(self, var, n, effs, loc=None):
        self.var, self.n, self.effs, self.loc = var, n, effs, loc

    def key(self):
        mp = {self.var.atom(): sym("#loop%d" % _depth(self.effs), "N")}
        return ("loop", self.n, tuple(eff_subst(x, mp).key() for x in self.effs))

    def __repr__(self):
        return "for %r < %r %r" % (self.var, self.n, self.effs)


class Ext(Eff):
    """an external gadget, or a contract, applied to arguments"""

    def __init__(self, name, ns, args, loc, res=None):
        self.name, self.ns, self.args, self.loc, self.res = name, ns, args, loc, res

    def map(self, f, fe):
        return Ext(self.name, f(self.ns), tuple(f(x) if not isinstance(x, (str, type(None))) else x for x in self.args), self.loc,
                   None if self.res is None else f(self.res))

    def key(self):
        return ("ext", self.name, self.ns, self.args)

    def __repr__(self):
        return "%s%r" % (self.name, self.args)


def _depth(effs):
    d = 0
    for e in effs:
        if isinstance(e, Loop):
            d = max(d, 1 + _depth(e.effs))
        elif isinstance(e, Guard):
            d = max(d, _depth(e.effs))
    return d


def eff_map(e, f):
    """apply f to every value of the effect"""
    if isinstance(e, Loop):
        return Loop(e.var, f(e.n), [eff_map(x, f) for x in e.effs], e.loc)
    return e.map(f, lambda x: eff_map(x, f))


def eff_subst(e, mp):
    memo = {}
    if isinstance(e, Loop):
        if e.var.atom() in mp or any(p.has(e.var.atom()) for p in mp.values()):
            v = fresh_lv()
            e = Loop(v, e.n, [eff_subst(x, {e.var.atom(): v}) for x in e.effs], e.loc)
        return Loop(e.var, subst(e.n, mp), [eff_subst(x, mp) for x in e.effs], e.loc)
    return e.map(lambda v: vsubst(v, mp, memo), lambda x: eff_subst(x, mp))


def effs_polys(effs):
    out = []
    for e in effs:
        if isinstance(e, Loop):
            out.append(e.n)
            out += effs_polys(e.effs)
        elif isinstance(e, Guard):
            out.append(e.cond)
            out += effs_polys(e.effs)
        else:
            acc = []
            e.map(lambda v: (vpolys(v, acc), v)[1], lambda x: x)
            out += acc
    return out


# ------------------------------------------------------------------ frames
class Frame:
    __slots__ = ("vars", "body", "self_ty", "parent", "names")

    def __init__(self, body, self_ty, parent=None):
        self.vars, self.body, self.self_ty, self.parent = {}, body, self_ty, parent

    def find(self, v):
        f = self
        while f is not None:
            if v in f.vars:
                return f.vars[v]
            f = f.parent
        return None


INT_W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i32": 31, "i64": 63, "i128": 127, "isize": 63, "i8": 7, "i16": 15}


def generics_off(p):
    while True:
        q = re.sub(r"<[^<>]*>", "", p)
        if q == p:
            break
        p = q
    return p


def short(p):
    segs = [s for s in generics_off(p).replace("[", "").replace("]", "").split("::") if s.strip()]
    return "::".join(segs[-2:])


RECS = {}


class Interp:
    unroll = 0         # loops of a known number of iterations up to this are unrolled

    def __init__(self, prog, mode="W"):
        self.prog = prog
        self.by_path = prog["by_path"]
        self.by_id = prog["by_id"]
        self.mode = mode
        self.store = {}
        self.names = {}
        self.effs = []
        self.pend = []
        self.loopvars = []
        self.wcount = {}
        self.ncell = 0
        self.contracts = {}
        self.depth = 0
        # rule O9: the fallible call sites met, the one to fail, the functions whose own sites are met elsewhere
        self.sites = self.inject = None
        self.covered, self.quiet = (), 0
        self.calls = set()
        self.used_contracts = set()
        self.where = None
        self.visited = set()
        self.honest = {}
        from . import models
        self.models = models.MODELS

    # ---------------------------------------------------------------- cells and places
    def new_cell(self, v, name="_"):
        self.ncell += 1
        c = self.ncell
        self.store[c] = v
        self.names[c] = name
        return c

    def read(self, cell, path=()):
        v = self.store[cell]
        for s in path:
            v = self.step(v, s)
        return v

    def step(self, v, s):
        if isinstance(v, VRef):
            v = self.read(v.cell, v.path)
        if isinstance(v, VIte):
            c = simp(v.c)
            if c is ONE:
                return self.step(v.a, s)
            if c is ZERO:
                return self.step(v.b, s)
            ra = self.step_or_none(v.a, s)
            rb = self.step_or_none(v.b, s)
            if ra is None:
                if rb is None:
                    raise Unsupported("projection %r of %r" % (s, v), self.where)
                return rb
            if rb is None:
                return ra
            return mk_ite(c, ra, rb)
        if s[0] == "f":
            if isinstance(v, VStruct):
                if s[1] not in v.f:
                    raise Unsupported("field %s of %s" % (s[1], v.path), self.where)
                return v.f[s[1]]
            if isinstance(v, VTuple):
                return v.es[int(s[1])]
            if isinstance(v, VEnum):
                return v.fs[int(s[1])]
        if s[0] == "v":
            if isinstance(v, VEnum) and v.variant == s[1]:
                return v.fs[s[2]]
        if s[0] == "i":
            return seq_get(v, s[1])
        if s[0] == "r":
            return seq_slice(v, s[1], s[2])
        raise Unsupported("projection %r of %s" % (s, type(v).__name__), self.where)

    def step_or_none(self, v, s):
        if s[0] == "v" and isinstance(v, VEnum) and v.variant != s[1]:
            return None
        return self.step(v, s)

    def write(self, cell, path, val):
        v = self.store[cell]
        self.store[cell] = self.upd(v, tuple(path), val)

    def upd(self, v, path, val):
        if not path:
            return val
        if isinstance(v, VRef):
            self.write(v.cell, v.path + path, val)
            return v
        s, rest = path[0], path[1:]
        if isinstance(v, VIte):
            a = self.upd(v.a, path, val) if not (s[0] == "v" and isinstance(v.a, VEnum) and v.a.variant != s[1]) else v.a
            b = self.upd(v.b, path, val) if not (s[0] == "v" and isinstance(v.b, VEnum) and v.b.variant != s[1]) else v.b
            return mk_ite(v.c, a, b)
        if s[0] == "f" and isinstance(v, VStruct):
            d = dict(v.f)
            d[s[1]] = self.upd(d[s[1]], rest, val)
            return VStruct(v.path, d)
        if s[0] == "f" and isinstance(v, VTuple):
            es = list(v.es)
            es[int(s[1])] = self.upd(es[int(s[1])], rest, val)
            return VTuple(es)
        if s[0] == "v" and isinstance(v, VEnum):
            fs = list(v.fs)
            fs[s[2]] = self.upd(fs[s[2]], rest, val)
            return VEnum(v.adt, v.variant, fs)
        if s[0] == "i":
            new = val if not rest else self.upd(seq_get(v, s[1]), rest, val)
            return seq_set(v, s[1], new)
        if s[0] == "r":
            lo, hi = s[1], s[2]
            mid = seq_slice(v, lo, hi)
            mid = self.upd(mid, rest, val)
            return seq_concat(seq_slice(v, ZERO, lo), mid, seq_slice(v, hi, v.len()))
        raise Unsupported("assignment through %r of %s" % (s, type(v).__name__), self.where)

    def get(self, v):
        """the value behind a reference"""
        n = 0
        while isinstance(v, VRef) and n < 20:
            v = self.read(v.cell, v.path)
            n += 1
        if isinstance(v, VIte) and (isinstance(v.a, VRef) or isinstance(v.b, VRef)):
            return mk_ite(v.c, self.get(v.a), self.get(v.b))
        return v

    def put(self, ref, v):
        if isinstance(ref, VRef):
            # through a chain of references
            cur = self.read(ref.cell, ref.path)
            if isinstance(cur, VRef):
                return self.put(cur, v)
            self.write(ref.cell, ref.path, v)
        else:
            raise Unsupported("write through %s" % type(ref).__name__, self.where)

    # ---------------------------------------------------------------- effects
    def emit(self, eff):
        for p in reversed(self.pend):
            eff = Guard(ONE - p["cond"], [eff])
        if isinstance(eff, Guard) and self.effs and isinstance(self.effs[-1], Guard) and self.effs[-1].cond is eff.cond:
            self.effs[-1] = Guard(eff.cond, self.effs[-1].effs + eff.effs)
            return
        self.effs.append(eff)

    def abort_if(self, kind, cond, loc=None, detail=None):
        cond = simp(cond)
        if cond is ZERO:
            return
        if cond is ONE:
            raise Diverge("abort", label=kind, loc=loc or self.where, detail=detail)
        self.emit(Abort(kind, cond, loc or self.where, detail))
        add_cond(ONE - cond)

    # ---------------------------------------------------------------- branching
    def run_branch(self, c, f, store, wc):
        self.store = dict(store)
        self.effs = []
        self.pend = []
        self.wcount = dict(wc)
        with assuming(c):
            if logic.contradictory():
                return ("dead", None, store, [], [], wc)
            try:
                v = f()
                st = "ok"
            except Diverge as d:
                v = d
                st = d.kind
        return (st, v, self.store, self.effs, self.pend, self.wcount)

    def branch(self, c, fa, fb):
        c = simp(c)
        if c is ONE:
            return fa()
        if c is ZERO:
            return fb()
        store, effs, pend, wc = self.store, self.effs, self.pend, self.wcount
        A = self.run_branch(c, fa, store, wc)
        B = self.run_branch(ONE - c, fb, store, wc)
        self.store, self.effs, self.pend = store, effs, pend
        self.wcount = {k: max(A[5].get(k, 0), B[5].get(k, 0)) for k in set(A[5]) | set(B[5])}
        for (st, v, s2, ef, pe, _), cc in ((A, c), (B, ONE - c)):
            if ef:
                self.emit(Guard(cc, ef))
        newp = []
        for (st, v, s2, ef, pe, _), cc in ((A, c), (B, ONE - c)):
            for p in pe:
                q = dict(p)
                q["cond"] = p["cond"] * cc
                newp.append(q)
        for p in newp:
            self.pend = self.pend + [p]
            add_cond(ONE - p["cond"])
        sa, sb = A[0], B[0]
        if sa == "dead" and sb == "dead":
            raise Diverge("abort", label="dead")
        if sa == "dead":
            return self.finish(B)
        if sb == "dead":
            return self.finish(A)
        if sa == "ok" and sb == "ok":
            self.store = self.merge_store(c, A[2], B[2])
            return mk_ite(c, A[1], B[1])
        if sa != "ok" and sb != "ok":
            da, db = A[1], B[1]
            if sa == "abort" and sb == "abort":
                self.store = store
                raise da
            if sa == "abort":
                self.emit(Abort(da.label, c, da.loc, da.detail))
                add_cond(ONE - c)
                self.store = B[2]
                raise db
            if sb == "abort":
                self.emit(Abort(db.label, ONE - c, db.loc, db.detail))
                add_cond(c)
                self.store = A[2]
                raise da
            if sa == sb and da.label == db.label:
                self.store = self.merge_store(c, A[2], B[2])
                v = None
                if da.value is not None and db.value is not None:
                    v = mk_ite(c, da.value, db.value)
                raise Diverge(sa, da.label, v, da.loc)
            self.pend = self.pend + [{"cond": c, "kind": sa, "label": da.label, "value": da.value, "store": A[2]}]
            add_cond(ONE - c)
            self.store = B[2]
            raise db
        # exactly one diverges
        if sa != "ok":
            D, O, cc = A, B, c
        else:
            D, O, cc = B, A, ONE - c
        d = D[1]
        if d.kind == "abort":
            self.emit(Abort(d.label, cc, d.loc, d.detail))
        else:
            self.pend = self.pend + [{"cond": cc, "kind": d.kind, "label": d.label, "value": d.value, "store": D[2]}]
        add_cond(ONE - cc)
        self.store = O[2]
        return O[1]

    def finish(self, R):
        self.store = R[2]
        if R[0] != "ok":
            raise R[1]
        return R[1]

    def merge_store(self, c, a, b):
        if a is b:
            return a
        out = dict(b)
        for k, v in a.items():
            if k in b:
                w = b[k]
                if v is not w:
                    out[k] = mk_ite(c, v, w)
            else:
                out[k] = v
        return out

    # ---------------------------------------------------------------- functions
    def call_body(self, body, args, self_ty=None, parent=None):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("call depth", body["path"])
        self.visited.add(body["path"])
        quiet = self.sites is not None and self.depth > 1 and body["path"] in self.covered
        self.quiet += quiet
        fr = Frame(body, self_ty, parent)
        saved, self.pend = self.pend, []
        effs, self.effs = self.effs, []
        res = None
        try:
            try:
                ps = body["params"]
                if len(ps) > len(args):
                    ps = ps[len(ps) - len(args):]
                for p, a in zip(ps, args):
                    if p.get("pat") is not None:
                        self.bind(p["pat"], a, None, fr)
                v = self.eval(body["body"], fr)
            except Diverge as d:
                if d.kind == "return":
                    v = d.value
                elif d.kind == "abort" and self.pend:
                    v = None
                    rest = ONE
                    for p in self.pend:
                        rest = rest * (ONE - p["cond"])
                    self.effs.append(Abort(d.label, rest, d.loc, d.detail))
                else:
                    raise
            for p in reversed(self.pend):
                if p["kind"] != "return":
                    raise Unsupported("%s out of a function" % p["kind"], body["path"])
                if v is None:
                    v = p["value"]
                    self.store = p["store"]
                else:
                    v = mk_ite(p["cond"], p["value"], v)
                    self.store = self.merge_store(p["cond"], p["store"], self.store)
            res = v
        finally:
            self.depth -= 1
            self.quiet -= quiet
            inner = self.effs
            self.effs, self.pend = effs, saved
            for e in inner:
                self.emit(e)
        return res

    def call_value(self, f, args):
        """call a closure or function value"""
        f = self.get(f)
        if isinstance(f, VIte):
            return self.branch(f.c, lambda: self.call_value(f.a, args), lambda: self.call_value(f.b, args))
        if isinstance(f, VClosure):
            return self.call_body(f.body, args, f.frame.self_ty if f.frame else None, f.frame)
        if isinstance(f, VFn):
            if callable(f.callee):
                return f.callee(*args)
            return self.call(f.callee, args, None, Frame(None, None))
        raise Unsupported("call of %s" % type(f).__name__, self.where)

    def fallible(self, callee, e):
        """a call of this crate or of bellpepper that can return a SynthesisError"""
        ty = e.get("ty") or ""
        return ty.startswith("std::result::Result<") and "SynthesisError" in ty and callee.get("name") not in ("call", "call_mut", "call_once") and (
            callee.get("crate") in ("validate_btc_header", "bellpepper", "bellpepper_core"))

    def resolve(self, callee, fr):
        """('body', body, self_ty) | ('model', fn) | None"""
        path = callee["path"]
        res = callee.get("resolved")
        st = callee.get("self_ty")
        fself = fr.self_ty if fr is not None else None
        if st is not None and fself and st != fself and re.search(r"\bSelf\b", st):
            st2 = re.sub(r"\bSelf\b", fself, st)
        else:
            st2 = st
        if res in self.by_path and self.by_path[res].get("kind") != "closure" and callee.get("name") not in ("call", "call_mut", "call_once"):
            b = self.by_path[res]
            return ("body", b, self.impl_self(b, st2))
        if path in self.by_path and not callee.get("trait"):
            b = self.by_path[path]
            return ("body", b, self.impl_self(b, fself))
        tr = callee.get("trait")
        if res and callee.get("resolved_crate") not in (None, "validate_btc_header") and st2 == st:
            return None
        if tr and st2:
            b = self.find_impl(tr, st2, callee["name"])
            if b is not None:
                return ("body", b, st2)
            if path in self.by_path:
                return ("body", self.by_path[path], st2)
        return None

    def impl_self(self, b, default):
        return b.get("impl_self") or default

    def find_impl(self, tr, st, name):
        for im in self.prog["impls"]:
            if im.get("trait") == tr and norm_ty(im["self"]) == norm_ty(st):
                for nm, p in im["items"]:
                    if nm == name and p in self.by_path:
                        return self.by_path[p]
        return None

    def call(self, callee, args, e, fr):
        sp = (e or {}).get("sp")
        if sp:
            self.where = sp
        if self.sites is not None and not self.quiet and sp and self.fallible(callee, e):
            self.sites[(sp, callee["path"])] = True
            if self.inject == (sp, callee["path"]):
                self.emit(Ext("failed", VCS(()), (), sp))
                return err(VOpaque("failure"))
        r = self.resolve(callee, fr)
        if r is not None:
            _, body, st = r
            p = body["path"]
            self.calls.add(p)
            c = self.contracts.get(p)
            if c is not None:
                out = c(self, args, callee, e, fr)
                if out is not NotImplemented:
                    self.used_contracts.add(p)
                    return out
            return self.call_body(body, args, st)
        tr = callee.get("trait")
        keys = []
        if callee.get("resolved"):
            keys.append(short(callee["resolved"]))
        if tr:
            keys.append(tr.split("::")[-1].split("<")[0] + "::" + callee["name"])
        keys.append(short(callee["path"]))
        for k in keys:
            m = self.models.get(k)
            if m is not None:
                return m(self, args, callee, e, fr)
        raise Unsupported("no model for %s" % " | ".join([callee["path"]] + keys), sp)

    # ---------------------------------------------------------------- patterns
    def bind(self, pat, v, place, fr):
        """bind without testing (irrefutable, or already tested)"""
        k = pat["k"]
        if k == "Wild":
            return
        if k == "Binding":
            ty = pat.get("ty", "")
            if pat.get("byref") and place is not None and ty.startswith("&mut"):
                val = VRef(*place)
            else:
                val = v
            fr.vars[pat["var"]] = self.new_cell(val, pat["name"])
            if pat.get("sub"):
                self.bind(pat["sub"], v, place, fr)
            return
        if k == "Deref":
            if isinstance(v, VRef):
                return self.bind(pat["sub"], self.get(v), (v.cell, v.path), fr)
            return self.bind(pat["sub"], v, place, fr)
        if k in ("Leaf", "Variant"):
            if isinstance(v, VRef):
                place = (v.cell, v.path)
                v = self.get(v)
            for nm, sp in pat["subs"]:
                if sp["k"] == "Wild":
                    continue
                if k == "Variant":
                    s = ("v", pat["variant"], int(nm) if nm.isdigit() else nm)
                else:
                    s = ("f", nm)
                sv = self.step(v, s)
                self.bind(sp, sv, (place[0], tuple(place[1]) + (s,)) if place is not None else None, fr)
            return
        if k in ("Const", "Range"):
            return
        if k == "Slice":
            if isinstance(v, VRef):
                place = (v.cell, v.path)
                v = self.get(v)
            n = seq_len(v)
            a, b = len(pat["prefix"]), len(pat["suffix"])
            at = lambda i: (place[0], tuple(place[1]) + (("i", P(i)),)) if place is not None else None
            for i, sp in enumerate(pat["prefix"]):
                if sp["k"] != "Wild":
                    self.bind(sp, seq_get(v, P(i)), at(i), fr)
            for i, sp in enumerate(pat["suffix"]):
                if sp["k"] != "Wild":
                    j = n - (b - i)
                    self.bind(sp, seq_get(v, j), at(j), fr)
            if pat.get("slice") and pat["slice"]["k"] != "Wild":
                self.bind(pat["slice"], seq_slice(v, P(a), n - b), None, fr)
            return
        if k == "Or":
            for sp in pat["pats"]:
                c = simp(self.test(sp, v))
                if c is ONE:
                    return self.bind(sp, v, place, fr)
                if c is not ZERO:
                    break
            if not any(self.binds(sp) for sp in pat["pats"]):
                return
        raise Unsupported("pattern %s" % k, self.where)

    def binds(self, pat):
        if pat["k"] == "Binding":
            return True
        subs = [x for _, x in pat.get("subs", [])] + pat.get("pats", []) + pat.get("prefix", []) + pat.get("suffix", [])
        return any(self.binds(x) for x in subs + [pat[f] for f in ("sub", "slice") if isinstance(pat.get(f), dict)])

    def alternatives(self, pat):
        """the patterns without alternatives that together match what pat matches, when it binds something"""
        k = pat["k"]
        if not self.binds(pat):
            return [pat]
        if k == "Or":
            return [y for x in pat["pats"] for y in self.alternatives(x)]
        out = [pat]
        for f in ("sub", "slice"):
            if isinstance(pat.get(f), dict):
                out = [dict(o, **{f: y}) for o in out for y in self.alternatives(pat[f])]
        for f in ("prefix", "suffix"):
            for i, x in enumerate(pat.get(f, [])):
                alt = self.alternatives(x)
                if alt != [x]:
                    out = [dict(o, **{f: o[f][:i] + [y] + o[f][i + 1:]}) for o in out for y in alt]
        for i, (nm, x) in enumerate(pat.get("subs", [])):
            alt = self.alternatives(x)
            if alt != [x]:
                out = [dict(o, subs=o["subs"][:i] + [[nm, y]] + o["subs"][i + 1:]) for o in out for y in alt]
        return out

    def test(self, pat, v):
        """0/1 polynomial: does v match"""
        v = self.get(v)
        k = pat["k"]
        if k == "Wild":
            return ONE
        if k == "Binding":
            return self.test(pat["sub"], v) if pat.get("sub") else ONE
        if k == "Deref":
            return self.test(pat["sub"], v)
        if isinstance(v, VIte):
            c = simp(v.c)
            if c is ONE:
                return self.test(pat, v.a)
            if c is ZERO:
                return self.test(pat, v.b)
            return ite(c, self.test(pat, v.a), self.test(pat, v.b))
        if k == "Variant":
            if isinstance(v, VOrdering):
                d = v.d
                r = {"Less": lt(d, 0), "Equal": eqz(d), "Greater": gt(d, 0)}[pat["variant"]]
                return simp(r)
            if not isinstance(v, VEnum):
                raise Unsupported("match of %s against %s" % (type(v).__name__, pat["variant"]), self.where)
            if v.variant != pat["variant"]:
                return ZERO
            r = ONE
            for nm, sp in pat["subs"]:
                r = r * self.test(sp, v.fs[int(nm) if nm.isdigit() else nm])
            return r
        if k == "Leaf":
            r = ONE
            for nm, sp in pat["subs"]:
                if sp["k"] in ("Wild",):
                    continue
                r = r * self.test(sp, self.step(v, ("f", nm)))
            return r
        if k == "Const":
            val = pat.get("value")
            if isinstance(v, Poly):
                c = parse_const(val)
                if c is not None:
                    return eqz(v - c)
            raise Unsupported("constant pattern %r" % (val,), self.where)
        if k == "Or":
            r = ZERO
            for sp in pat.get("pats", pat.get("subs", [])):
                r = b_or(r, self.test(sp, v))
            return r
        if k == "Range" and isinstance(v, Poly):
            m = re.fullmatch(r"(?:(-?\d+)(?:_?[iu](?:8|16|32|64|128|size))?)?\.\.(=?)(?:(-?\d+)(?:_?[iu](?:8|16|32|64|128|size))?)?", pat["value"])
            if m:
                r = ge(v - int(m.group(1))) if m.group(1) else ONE
                if m.group(3):
                    r = r * ge(P(int(m.group(3))) - v - (0 if m.group(2) else 1))
                return r
        if k == "Slice":
            n = seq_len(v)
            a, b = len(pat["prefix"]), len(pat["suffix"])
            r = ge(n - a - b) if pat.get("slice") else eqz(n - a - b)
            if simp(r) is ZERO:
                return ZERO
            for i, sp in enumerate(pat["prefix"]):
                if sp["k"] not in ("Wild", "Binding"):
                    r = r * self.test(sp, seq_get(v, P(i)))
            for i, sp in enumerate(pat["suffix"]):
                if sp["k"] not in ("Wild", "Binding"):
                    r = r * self.test(sp, seq_get(v, n - (b - i)))
            return r
        raise Unsupported("pattern %s" % k, self.where)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression %s" % e["k"], e.get("sp"))
        if e.get("sp"):
            self.where = e["sp"]
        return m(e, fr)

    def is_place(self, e):
        return e["k"] in ("Var", "Field", "Deref", "Index")

    def place(self, e, fr):
        """(cell, path) of a place expression"""
        k = e["k"]
        if k == "Var":
            c = fr.find(e["var"])
            if c is None:
                raise Unsupported("unknown variable %s" % e["var"], e.get("sp"))
            return (c, ())
        if k == "Field":
            c, p = self.place(e["e"], fr)
            v = self.read(c, p)
            if isinstance(v, VRef):
                c, p = v.cell, v.path
            return (c, p + (("f", e["name"]),))
        if k == "Deref":
            if self.is_place(e["e"]):
                c, p = self.place(e["e"], fr)
                v = self.read(c, p)
                if isinstance(v, VRef):
                    return (v.cell, v.path)
                return (c, p)
            v = self.eval(e["e"], fr)
            if isinstance(v, VRef):
                return (v.cell, v.path)
            return (self.new_cell(v), ())
        if k == "Index":
            c, p = self.place(e["l"], fr)
            i = self.get(self.eval(e["i"], fr))
            v = self.get(self.read(c, p))
            w = self.read(c, p)
            if isinstance(w, VRef):
                c, p = w.cell, w.path
            self.bounds(v, i, e.get("sp"))
            return (c, p + (("i", i),))
        if k in ("Use", "Coerce", "Never"):
            return self.place(e["e"], fr)
        v = self.eval(e, fr)
        if isinstance(v, VRef) and e.get("ty", "").startswith("&mut") is False:
            pass
        return (self.new_cell(v), ())

    def bounds(self, v, i, loc):
        if not isinstance(i, Poly):
            raise Unsupported("index %s" % type(i).__name__, loc)
        n = seq_len(v) if not isinstance(v, VRepr) else None
        if n is None:
            return
        if not nonneg(n - 1 - i):
            self.abort_if("index", ONE - ge(n - 1 - i), loc)

    def e_Var(self, e, fr):
        c, p = self.place(e, fr)
        return self.read(c, p)

    def e_Field(self, e, fr):
        v = self.eval(e["e"], fr)
        return self.step(self.get(v), ("f", e["name"]))

    def e_Deref(self, e, fr):
        return self.get(self.eval(e["e"], fr))

    def e_Index(self, e, fr):
        v = self.get(self.eval(e["l"], fr))
        i = self.get(self.eval(e["i"], fr))
        return self.index(v, i, e.get("sp"))

    def index(self, v, i, loc=None):
        if isinstance(v, VRepr):
            return mk_bits(mk_nat(v.p), i.scale(8) if isinstance(i, Poly) else i, P(8))
        if isinstance(v, VIte):
            return self.branch(v.c, lambda: self.index(v.a, i, loc), lambda: self.index(v.b, i, loc))
        r = self.as_range(i, v)
        if r is not None:
            lo, hi = r
            self.abort_if("index", ONE - ge(hi - lo) * ge(seq_len(v) - hi), loc)
            return seq_slice(v, lo, hi)
        self.bounds(v, i, loc)
        return seq_get(v, i)

    def as_range(self, i, seq=None):
        if isinstance(i, VStruct) and "Range" in i.path:
            nm = i.path.split("::")[-1]
            if nm == "Range":
                return i.f["start"], i.f["end"]
            if nm == "RangeInclusive":
                return i.f["start"], i.f["end"] + 1
            if nm == "RangeToInclusive":
                return ZERO, i.f["end"] + 1
            if nm == "RangeFrom":
                return i.f["start"], seq_len(seq)
            if nm == "RangeTo":
                return ZERO, i.f["end"]
            if nm == "RangeFull":
                return ZERO, seq_len(seq)
        return None

    def e_Lit(self, e, fr):
        lk = e["lk"]
        if lk == "int":
            v = int(e["v"])
            return P(-v if e.get("neg") else v)
        if lk == "bool":
            return ONE if e["v"] in ("true", True) else ZERO
        if lk == "float":
            from fractions import Fraction
            return P(Fraction(re.sub(r"_?f(32|64)$", "", str(e["v"]).replace("_", ""))))
        if lk in ("str", "bytestr", "bytes", "char", "byte", "byte_str", "cstr"):
            if lk == "byte":
                try:
                    return P(int(e["v"]))
                except Exception:
                    pass
            return VStr(str(e["v"]))
        return VStr(str(e.get("v")))

    def e_Const(self, e, fr):
        p = e["path"]
        nm = p.split("::")[-1]
        if p in self.by_path:
            return self.call_body(self.by_path[p], [], fr.self_ty)
        st = (e.get("args") or [""])[0]
        from .models import CONSTS
        key = short(p)
        if key in CONSTS:
            c = CONSTS[key]
            f = getattr(self, "numbits", None)
            return c if f is None else subst(c, {sym("NUMBITS", "N").atom(): P(f)})
        if nm in ("MAX", "BITS"):
            w = INT_W.get(short(p).split("::")[0])
            if w:
                return P(2 ** w - 1) if nm == "MAX" else P(w)
        raise Unsupported("constant %s" % p, e.get("sp"))

    def e_Borrow(self, e, fr):
        if e.get("mut"):
            if self.is_place(e["e"]):
                c, p = self.place(e["e"], fr)
                v = self.read(c, p)
                if isinstance(v, VRef) and e["e"]["k"] == "Deref":
                    return v
                return VRef(c, p)
            v = self.eval(e["e"], fr)
            if isinstance(v, VRef):
                return v
            if isinstance(v, VCS):
                return v
            return VRef(self.new_cell(v), ())
        v = self.eval(e["e"], fr)
        return v

    e_RawBorrow = e_Borrow

    def e_Use(self, e, fr):
        return self.eval(e["e"], fr)

    e_Coerce = e_Use
    e_Never = e_Use
    e_PlaceTypeAscription = e_Use
    e_ValueTypeAscription = e_Use

    def e_Tuple(self, e, fr):
        return VTuple([self.eval(x, fr) for x in e["es"]])

    def e_Array(self, e, fr):
        return seq1([self.eval(x, fr) for x in e["es"]])

    def e_Repeat(self, e, fr):
        v = self.eval(e["e"], fr)
        try:
            n = P(int(str(e["count"]).split("_")[0]))
        except ValueError:
            n = sym("const_" + str(e["count"]), "N")
        return VSeq([(n, None, v)])

    def e_Adt(self, e, fr):
        fs = {nm: self.eval(x, fr) for nm, x in e["fields"]}
        if e.get("base"):
            b = self.get(self.eval(e["base"], fr))
            d = dict(b.f)
            d.update(fs)
            fs = d
        adt = e["adt"]
        if adt == "bellpepper_core::boolean::Boolean" and e.get("variant") == "Constant":
            c = self.get(fs["0"])
            return VStruct(adt, {"lc": c, "value": some(c)})
        if e.get("is_enum"):
            names = sorted(fs, key=lambda x: int(x) if x.isdigit() else 0)
            return VEnum(adt, e["variant"], [fs[n] for n in names])
        return VStruct(adt, fs)

    def e_Closure(self, e, fr):
        return VClosure(self.by_id[e["def"]], fr)

    def e_Fn(self, e, fr):
        return VFn(e["callee"])

    def e_Block(self, e, fr):
        return self.block(e["block"], fr)

    def block(self, b, fr):
        lab = b.get("label")
        for s in b["stmts"]:
            if s["k"] == "Expr":
                self.eval(s["e"], fr)
            elif s["k"] == "Let":
                self.let(s, fr)
        if b.get("expr") is not None:
            return self.eval(b["expr"], fr)
        return UNIT

    def let(self, s, fr):
        pat = s["pat"]
        if s.get("init") is None:
            for x in pat_vars(pat):
                fr.vars[x["var"]] = self.new_cell(VOpaque("uninit"), x["name"])
            return
        init = s["init"]
        place = None
        if self.is_place(init) and any(x.get("byref") for x in pat_vars(pat)):
            place = self.place(init, fr)
            v = self.read(*place)
        else:
            v = self.eval(init, fr)
        if s.get("els") is not None:
            c = simp(self.test(pat, v))

            def diverge():
                self.block(s["els"], fr) if "stmts" in s["els"] else self.eval(s["els"], fr)
                raise Unsupported("let-else that does not diverge", self.where)
            self.branch(c, lambda: UNIT, diverge)
        self.bind(pat, v, place, fr)

    def e_If(self, e, fr):
        c = self.cond(e["cond"], fr)
        return self.branch(c, lambda: self.eval(e["then"], fr),
                           lambda: self.eval(e["els"], fr) if e.get("els") is not None else UNIT)

    def cond(self, e, fr):
        """a condition; let-chains bind as they go"""
        k = e["k"]
        if k == "LetE":
            place = None
            x = e["e"]
            if self.is_place(x):
                place = self.place(x, fr)
                v = self.read(*place)
            else:
                v = self.eval(x, fr)
            c = simp(self.test(e["pat"], v))
            if c is not ZERO:
                try:
                    self.bind(e["pat"], v, place, fr)
                except Unsupported:
                    raise
            return c
        if k == "Use":
            return self.cond(e["e"], fr)
        if k == "Logical":
            a = self.cond(e["l"], fr)
            a = simp(a)
            if e["op"] == "And":
                if a is ZERO:
                    return ZERO
                return a * self.boolean(self.branch(a, lambda: self.cond(e["r"], fr), lambda: ZERO))
            if a is ONE:
                return ONE
            return self.boolean(self.branch(a, lambda: ONE, lambda: self.cond(e["r"], fr)))
        return self.boolean(self.eval(e, fr))

    def boolean(self, v):
        v = self.get(v)
        if not isinstance(v, Poly):
            raise Unsupported("condition %s" % type(v).__name__, self.where)
        return v

    e_LetE = cond

    def e_Logical(self, e, fr):
        return self.cond(e, fr)

    def num(self, v):
        v = self.get(v)
        if not isinstance(v, Poly):
            raise Unsupported("number expected, got %s" % type(v).__name__, self.where)
        return v

    def e_Unary(self, e, fr):
        v = self.num(self.eval(e["e"], fr))
        if e["op"] == "Not":
            if e["ty"] == "bool":
                return ONE - v
            w = INT_W.get(e["ty"])
            if w:
                return P(2 ** w - 1) - v
        if e["op"] == "Neg":
            return -v
        raise Unsupported("unary %s" % e["op"], e.get("sp"))

    def e_Binary(self, e, fr):
        a = self.get(self.eval(e["l"], fr))
        b = self.get(self.eval(e["r"], fr))
        return self.binop(e["op"], a, b, e["ty"], e.get("sp"), e["l"].get("ty"))

    def wrap(self, r, ty, loc, checked):
        """r reduced to the width of ty; checked: overflow aborts"""
        w = INT_W.get(ty)
        if w is None:
            return r
        if r.as_int() is not None and 0 <= r.as_int() < 2 ** w:
            return r
        signed = ty.startswith("i")
        if not signed and not nonneg(r):
            if checked:
                self.abort_if("overflow", ONE - ge(r), loc, "subtraction below zero")
            else:
                return mk_mod(r, P(2 ** w))
        if ty in ("usize", "isize"):
            return r
        e = log2p(r)
        if e is not None:
            if nonneg(P(w - 1) - e):
                return r
            if checked is False:
                c = ge(P(w - 1) - e)
                return simp(c) * r
        if nonneg(P(2 ** w - 1) - r):
            return r
        if checked:
            self.abort_if("overflow", ONE - ge(P(2 ** w - 1) - r), loc)
            return r
        return mk_mod(r, P(2 ** w))

    def binop(self, op, a, b, ty, loc, lty=None):
        op = op.replace("Assign", "")
        if op in ("Eq", "Ne"):
            r = self.eq_value(a, b)
            return r if op == "Eq" else ONE - r
        a, b = self.num(a), self.num(b)
        if op in ("Lt", "Le", "Gt", "Ge"):
            r = {"Lt": lt, "Le": le, "Gt": gt, "Ge": lambda x, y: ge(x - y)}[op](a, b)
            return simp(r)
        if ty == "bool":
            if op == "BitAnd":
                return a * b
            if op == "BitOr":
                return b_or(a, b)
            if op == "BitXor":
                return a + b - 2 * a * b
        isint = ty in INT_W
        if op == "Add":
            return self.wrap(a + b, ty, loc, True)
        if op == "Sub":
            return self.wrap(a - b, ty, loc, True)
        if op == "Mul":
            return self.wrap(a * b, ty, loc, True)
        if op == "Div":
            if not isint:
                return a * mk_inv(b)
            self.abort_if("division by zero", eqz(b), loc)
            return mk_div(a, b)
        if op == "Rem":
            self.abort_if("division by zero", eqz(b), loc)
            return self.modulo(a, b)
        if op == "Shl":
            w = INT_W.get(ty)
            if w and not nonneg(P(w - 1) - b):
                self.abort_if("overflow", ONE - ge(P(w - 1) - b), loc, "shift amount")
            return self.wrap(a * mk_pow(TWO, b), ty, loc, False)
        if op == "Shr":
            w = INT_W.get(ty)
            if w and not nonneg(P(w - 1) - b):
                self.abort_if("overflow", ONE - ge(P(w - 1) - b), loc, "shift amount")
            return mk_div(a, mk_pow(TWO, b))
        if op == "BitAnd":
            return self.bitand(a, b)
        if op == "BitOr":
            return self.bitor(a, b)
        if op == "BitXor":
            return self.bitxor(a, b)
        raise Unsupported("operator %s" % op, loc)

    def modulo(self, a, b):
        if nonneg(a) and nonneg(b - 1 - a):
            return a
        return mk_mod(a, b)

    def bitand(self, a, b):
        x, y = a.as_int(), b.as_int()
        if x is not None and y is not None:
            return P(x & y)
        if a is b:
            return a
        for x, y in ((a, b), (b, a)):
            e = log2p(y + 1)
            if e is not None:
                if nonneg(x) and nonneg(y - x):
                    return x
                if e is ONE or e.as_int() == 1:
                    return mk_bit(x, ZERO)
                return mk_mod(x, mk_pow(TWO, e))
            e = log2p(y)
            if e is not None:
                return y * mk_bit(x, e)
            m = y.as_int()
            if m is not None and m >= 0 and nonneg(x):
                # one field for each run of ones of the mask
                rs, i = [], 0
                while m >> i:
                    i += (m >> i & -(m >> i)).bit_length() - 1
                    k = ((m >> i) + 1 & -((m >> i) + 1)).bit_length() - 1
                    rs.append((i, k))
                    i += k
                if len(rs) <= 4:
                    r = ZERO
                    for i, k in rs:
                        q = mk_div(x, P(1 << i))
                        q = mk_bit(q, ZERO) if k == 1 else q if nonneg(P((1 << k) - 1) - q) else mk_mod(q, P(1 << k))
                        r = r + q.scale(1 << i)
                    return simp(r)
        if self.disjoint(a, b):
            return ZERO
        return mk_app("bitand", a, b)

    def disjoint(self, a, b):
        """one is a multiple of a power of two above the other"""
        from .terms import content
        for x, y in ((a, b), (b, a)):
            if x is ZERO:
                return True
            cx = content(x)
            if cx.denominator == 1:
                n = int(cx)
                p2 = n & -n
                if p2 > 1 and nonneg(P(p2 - 1) - y) and nonneg(y):
                    return True
        return False

    def bitor(self, a, b):
        x, y = a.as_int(), b.as_int()
        if x is not None and y is not None:
            return P(x | y)
        if a is b:
            return a
        if self.disjoint(a, b):
            return a + b
        for x, y in ((a, b), (b, a)):
            e = log2p(y)
            if e is not None:
                return x + y * (ONE - mk_bit(x, e))
            if y.as_int() is not None and y.as_int() >= 0 and nonneg(x):
                return a + b - self.bitand(a, b)
        return mk_app("bitor", a, b)

    def bitxor(self, a, b):
        x, y = a.as_int(), b.as_int()
        if x is not None and y is not None:
            return P(x ^ y)
        if a is b:
            return ZERO
        if self.disjoint(a, b):
            return a + b
        for x, y in ((a, b), (b, a)):
            if y.as_int() is not None and y.as_int() >= 0 and nonneg(x):
                return a + b - 2 * self.bitand(a, b)
        return mk_app("bitxor", a, b)

    def eq_value(self, a, b):
        a, b = self.get(a), self.get(b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return simp(eqz(a - b))
        if isinstance(a, VIte):
            return ite(a.c, self.eq_value(a.a, b), self.eq_value(a.b, b))
        if isinstance(b, VIte):
            return ite(b.c, self.eq_value(a, b.a), self.eq_value(a, b.b))
        if isinstance(a, VEnum) and isinstance(b, VEnum):
            if a.variant != b.variant:
                return ZERO
            r = ONE
            for x, y in zip(a.fs, b.fs):
                r = r * self.eq_value(x, y)
            return r
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            r = ONE
            for x, y in zip(a.es, b.es):
                r = r * self.eq_value(x, y)
            return r
        if isinstance(a, VStruct) and isinstance(b, VStruct) and a.path == b.path:
            r = ONE
            for k in a.f:
                r = r * self.eq_value(a.f[k], b.f[k])
            return r
        if isinstance(a, (VSeq, VUpd)) and isinstance(b, (VSeq, VUpd)):
            n = a.len()
            r = eqz(n - b.len())
            k = fresh_lv()
            with assuming(ge=[k, n - 1 - k]):
                c = ONE - self.eq_value(seq_get(a, k), seq_get(b, k))
            if c is ZERO:
                return r
            return r * (ONE - mk_any(n, k, c))
        if isinstance(a, VOrdering) or isinstance(b, VOrdering):
            if isinstance(b, VOrdering):
                a, b = b, a
            if isinstance(b, VEnum):
                return {"Less": lt(a.d, 0), "Equal": eqz(a.d), "Greater": gt(a.d, 0)}[b.variant]
        if a == b:
            return ONE
        raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__), self.where)

    def cast(self, v, ty, loc=None, src=None):
        v = self.get(v)
        if not isinstance(v, Poly):
            return v
        if ty in INT_W:
            if src in ("f64", "f32"):
                k = v.t.get((), 0) if not set(v.t) - {()} else None
                if k is not None:
                    return P(max(0, min(int(k), (1 << INT_W[ty]) - 1))) if isinstance(INT_W[ty], int) else mk_app("trunc", v)
                return mk_app("trunc", v)
            if getattr(self, "wide", False):
                ws, w = (64 if x in ("usize", "isize") else INT_W.get(x) for x in (src, ty))
                if src == "bool" or (ws is not None and ws <= w):
                    return v
                return mk_mod(v, mk_pow(TWO, P(w)))
            if ty in ("usize", "isize"):
                return v
            if src in ("usize", "isize") and ty in ("u32", "u64", "u128", "i64", "i128"):
                # sizes are taken to be below 2^32
                return v
            if src == "bool":
                return v
            w, ws = INT_W[ty], INT_W.get(src)
            if ws is not None and ws <= w:
                return v
            return self.wrap(v, ty, loc, False)
        return v

    def e_Cast(self, e, fr):
        return self.cast(self.eval(e["e"], fr), e["ty"], e.get("sp"), e["e"].get("ty"))

    def e_Assign(self, e, fr):
        v = self.eval(e["r"], fr)
        c, p = self.place(e["l"], fr)
        cur = self.read(c, p) if not p else None
        if isinstance(cur, VRef) and e["l"]["k"] == "Deref":
            c, p = cur.cell, cur.path
        self.write(c, p, v)
        return UNIT

    def e_AssignOp(self, e, fr):
        r = self.get(self.eval(e["r"], fr))
        c, p = self.place(e["l"], fr)
        l = self.get(self.read(c, p))
        v = self.binop(e["op"], l, r, e["l"].get("ty"), e.get("sp"))
        self.put(VRef(c, p), v)
        return UNIT

    def e_Return(self, e, fr):
        v = self.eval(e["e"], fr) if e.get("e") is not None else UNIT
        if isinstance(v, VEnum) and v.adt == RES and v.variant == "Err":
            raise Diverge("abort", "err", v, e.get("sp"), detail=repr(v.fs[0])[:60])
        raise Diverge("return", None, v, e.get("sp"))

    def e_Break(self, e, fr):
        v = self.eval(e["e"], fr) if e.get("e") is not None else None
        raise Diverge("break", e.get("label"), v, e.get("sp"))

    def e_Continue(self, e, fr):
        raise Diverge("continue", e.get("label"), None, e.get("sp"))

    def e_Match(self, e, fr):
        src = e.get("src", "")
        if src.startswith("ForLoop"):
            return self.for_loop(e, fr)
        if src.startswith("TryDesugar"):
            x = e["e"]
            if x["k"] == "Call" and x["args"]:
                v = self.eval(x["args"][0], fr)
                return self.try_(v, e.get("sp"))
        sc = e["e"]
        place = None
        if self.is_place(sc):
            place = self.place(sc, fr)
            v = self.read(*place)
        else:
            v = self.eval(sc, fr)
        return self.arms(e["arms"], v, place, fr)

    def arms(self, arms, v, place, fr):
        if not arms:
            raise Diverge("abort", "dead")
        a = arms[0]
        alt = self.alternatives(a["pat"])
        if len(alt) > 1:
            arms = [dict(a, pat=x) for x in alt] + arms[1:]
            a = arms[0]
        c = simp(self.test(a["pat"], v))
        if c is ZERO:
            return self.arms(arms[1:], v, place, fr)
        if len(arms) == 1 and a.get("guard") is None and c is not ONE:
            with assuming(c):     # matches are exhaustive
                self.bind(a["pat"], vnarrow(v), place, fr)
                return self.eval(a["body"], fr)

        def yes():
            if a.get("guard") is not None:
                self.bind(a["pat"], vnarrow(v), place, fr)
                g = self.cond(a["guard"], fr)
                return self.branch(g, lambda: self.eval(a["body"], fr), lambda: self.arms(arms[1:], v, place, fr))
            self.bind(a["pat"], vnarrow(v), place, fr)
            return self.eval(a["body"], fr)
        return self.branch(c, yes, lambda: self.arms(arms[1:], v, place, fr))

    def try_(self, v, loc):
        v = self.get(v)
        if isinstance(v, VIte):
            isok = simp(self.is_variant(v, ("Ok", "Some", "Continue")))
            kind = self.adt_of(v)
            if kind == OPT:
                if isok is not ONE:
                    self.branch(isok, lambda: UNIT, lambda: self._ret(NONE, loc))
            else:
                self.abort_if("err", ONE - isok, loc)
            return self.payload(v, ("Ok", "Some"))
        if isinstance(v, VEnum):
            if v.variant in ("Ok", "Some"):
                return v.fs[0]
            if v.variant == "Err":
                raise Diverge("abort", "err", v, loc, detail=repr(v.fs[0])[:60])
            if v.variant == "None":
                raise Diverge("return", None, NONE, loc)
        raise Unsupported("? on %s" % type(v).__name__, loc)

    def _ret(self, v, loc):
        raise Diverge("return", None, v, loc)

    def adt_of(self, v):
        while isinstance(v, VIte):
            v = v.a
        return v.adt if isinstance(v, VEnum) else None

    def is_variant(self, v, names):
        v = self.get(v)
        if isinstance(v, VIte):
            return ite(v.c, self.is_variant(v.a, names), self.is_variant(v.b, names))
        if isinstance(v, VEnum):
            return ONE if v.variant in names else ZERO
        raise Unsupported("variant of %s" % type(v).__name__, self.where)

    def payload(self, v, names):
        """field 0 of the alternatives in names"""
        v = self.get(v)
        if isinstance(v, VIte):
            ia, ib = self.is_variant(v.a, names), self.is_variant(v.b, names)
            if ia is ZERO:
                return self.payload(v.b, names)
            if ib is ZERO:
                return self.payload(v.a, names)
            return mk_ite(v.c, self.payload(v.a, names), self.payload(v.b, names))
        return v.fs[0]

    def e_Label(self, e, fr):
        x = e["e"]
        if x["k"] == "Loop":
            return self.while_loop(e.get("label"), x, fr)
        try:
            return self.eval(x, fr)
        except Diverge as d:
            if d.kind == "break" and d.label == e.get("label") and not self.pend:
                return d.value if d.value is not None else UNIT
            raise

    def e_Loop(self, e, fr):
        return self.while_loop(None, e, fr)

    def e_Call(self, e, fr):
        callee = e.get("callee")
        if callee is None:
            f = self.eval(e["fun"], fr)
            args = [self.eval(a, fr) for a in e["args"]]
            self.where = e.get("sp")
            return self.call_value(f, args)
        args = [self.eval(a, fr) for a in e["args"]]
        if e.get("sp"):
            self.where = e["sp"]
        return self.call(callee, args, e, fr)

    # ---------------------------------------------------------------- loops
    def for_loop(self, e, fr):
        x = e["e"]
        it = self.eval(x, fr)
        inner = e["arms"][0]["body"]
        label = None
        while inner["k"] != "Loop":
            if inner["k"] == "Label":
                label = inner["label"]
                inner = inner["e"]
            elif inner["k"] in ("Use", "Never"):
                inner = inner["e"]
            elif inner["k"] == "Block" and inner["block"].get("expr"):
                inner = inner["block"]["expr"]
            else:
                raise Unsupported("for loop shape", e.get("sp"))
        b = inner["body"]
        m = None
        for s in b["block"]["stmts"]:
            if s["k"] == "Expr":
                m = s["e"]
        if m is None:
            m = b["block"]["expr"]
        while m["k"] in ("Use", "Never"):
            m = m["e"]
        arm = [a for a in m["arms"] if a["pat"].get("variant") == "Some"][0]
        (_, pat), = arm["pat"]["subs"]
        from .models import to_iter
        it = to_iter(self, it)
        for n, fn in it.pieces:
            if n is None:
                raise Unsupported("endless for loop", e.get("sp"))

            def body(k, fn=fn):
                v = fn(k)
                f2 = Frame(fr.body, fr.self_ty, fr)
                self.bind(pat, v, None, f2)
                self.eval(arm["body"], f2)
                return UNIT
            self.run_loop(n, body, label, e.get("sp"))
        return UNIT

    def while_loop(self, label, e, fr):
        """loop { ... break ... }: closed form of the trip count, or a bounded constant one"""
        body = e["body"]

        def it(k):
            f2 = Frame(fr.body, fr.self_ty, fr)
            self.eval(body, f2)
            return UNIT
        # constant trip counts first
        snap = (dict(self.store), list(self.effs), list(self.pend), dict(self.wcount))
        try:
            for i in range(65):
                pend0 = self.pend
                try:
                    self.loopvars.append(P(i))
                    try:
                        it(P(i))
                    finally:
                        self.loopvars.pop()
                except Diverge as d:
                    if d.kind == "break" and d.label == label and self.pend is pend0:
                        return d.value if d.value is not None else UNIT
                    if d.kind == "continue" and d.label == label and self.pend is pend0:
                        continue
                    raise
                if len(self.pend) != len(pend0):
                    raise Unsupported("conditional exit from a loop", e.get("sp"))
            raise Unsupported("loop bound", e.get("sp"))
        except Unsupported:
            self.store, self.effs, self.pend, self.wcount = snap[0], snap[1], snap[2], snap[3]
        n = sym("trip", "N")
        from . import loops
        return loops.while_summary(self, label, it, e.get("sp"))

    def run_loop(self, n, body, label, loc):
        from . import loops
        return loops.run(self, n, body, label, loc)


def vnarrow(v):
    """drop alternatives that the facts exclude"""
    if isinstance(v, VIte):
        c = simp(v.c)
        if c is ONE:
            return vnarrow(v.a)
        if c is ZERO:
            return vnarrow(v.b)
    return v


def pat_vars(p):
    out = []
    if p["k"] == "Binding":
        out.append(p)
        if p.get("sub"):
            out += pat_vars(p["sub"])
    elif p["k"] == "Deref":
        out += pat_vars(p["sub"])
    elif p["k"] in ("Leaf", "Variant"):
        for _, s in p["subs"]:
            out += pat_vars(s)
    return out


def parse_const(val):
    s = str(val)
    if s in ("true", "false"):
        return ONE if s == "true" else ZERO
    m = re.search(r"-?\d+", s)
    if m:
        return P(int(m.group(0)))
    return None


def norm_ty(t):
    return re.sub(r"\s+", "", re.sub(r"'[a-z_]+\s*", "", t or ""))
