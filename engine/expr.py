"""Symbolic value expressions over a flattened graph: where a value comes from.

Expressions are nested tuples:
  ('arg', i)                     argument i (1-based) of the root
  ('f', e, name)                 field / tuple component     ('*', e) deref     ('&', e) address of
  ('v', e, variant)              enum downcast               ('[]', e, idx)     element
  ('k', value)                   constant                    ('fn', name)       function item
  ('call', path, args, site)     opaque call                 ('bin', op, a, b)  ('un', op, a)
  ('cast', kind, e, ty)          value casts (pointer casts are transparent)
  ('agg', name, variant, ((field, e), ...))   ('discr', e)
  ('phi', (e...))                several definitions         ('loc', local)     unknown / cyclic
The definitions are flow-insensitive per local (MIR temporaries have one definition).
"""

NEVER = ("never",)
EXCL = {"Some": ("None",), "None": ("Some",), "Ok": ("Err",), "Err": ("Ok",), "Continue": ("Break",), "Break": ("Continue",)}
PTR_CASTS = ("PtrToPtr", "PointerCoercion", "Transmute", "FnPtrToPtr", "Subtype")


class Exprs:
    def __init__(self, flat):
        self.fl = flat
        self.F = flat.F
        self.memo = {}
        self.busy, self.hit, self.work = set(), set(), 0

    # -- operands and places
    def op(self, o):
        if o[0] == "k":
            return self.const(o[1])
        return self.place(o[1])

    def const(self, c):
        if "fn" in c:
            return ("fn", self.F.insts[c["fn"]]["p"])
        for k in ("i", "f", "str", "static"):
            if k in c:
                if k == "i" and self.F.types[c["t"]]["k"] == "bool":
                    return ("k", bool(c[k]))
                return ("k", c[k] if k != "static" else "static " + c[k])
        if c.get("eu"):
            ty, d = self.F.types[c["t"]], 0
            if ty["k"] == "ref":
                ty, d = self.F.types[ty["a"][0]], 1
            v = ("agg", ty.get("p", "?"), c["ev"], ())
            return ("&", v) if d else v
        if "def" in c:
            return ("k", "const " + (c.get("gdef") or c["def"]))
        return ("k", c.get("s", "?"))

    def local(self, l):
        if l in self.memo:
            return self.memo[l]
        if l in self.busy:
            self.hit.add(l)
            return ("loc", l)
        outer, self.hit = self.hit, set()
        self.busy.add(l)
        r = self.value(l)
        self.busy.discard(l)
        self.hit.discard(l)
        # a value that refers to a local whose own evaluation is under way is only good for that evaluation
        self.work += 1
        if not self.hit or self.work > 20000:
            self.memo[l] = r
        outer |= self.hit
        self.hit = outer
        return r

    def value(self, l):
        fl = self.fl
        ds = fl.defs().get(l, [])
        if 1 <= l <= fl.nargs and not [d for d in ds if d[0] == ()]:
            return ("arg", l)
        whole = [d for d in ds if d[0] == ()]
        part = [d for d in ds if d[0] != () and not any(e[0] == "*" for e in d[0])]
        if not whole and not part:
            return ("loc", l)
        vals = []
        for d in whole:
            v = self.rv(d)
            if v not in vals:
                vals.append(v)
        if part and not whole:
            # built field by field
            fs = {}
            for d in part:
                if len(d[0]) == 1 and d[0][0][0] == "f":
                    fs.setdefault(d[0][0][1], []).append(self.rv(d))
            return ("agg", "", None, tuple(sorted((k, self.mkphi(v)) for k, v in fs.items())))
        if 1 <= l <= fl.nargs:
            vals.insert(0, ("arg", l))
        vals = [v for v in vals if v != ("loc", l)] or [("loc", l)]
        return self.mkphi(vals)

    @staticmethod
    def mkphi(vals):
        out = []
        for v in vals:
            for x in (v[1] if v[0] == "phi" else (v,)):
                if x not in out and x != NEVER:
                    out.append(x)
        if len(out) == 1:
            return out[0]
        if not out:
            return NEVER
        return ("phi", tuple(out))

    def rv(self, d):
        kind, pay = d[1], d[2]
        if kind == "call":
            return self.call(pay, d[3])
        return self.rvalue(pay)

    def call(self, t, site):
        x = self.F.insts[t[1]]
        if x["k"] == "fnptr":
            return ("call", "fnptr", tuple(self.op(a) for a in t[2]), site)
        p = x.get("p") or ("drop " + self.F.ts(x["t"]) if x["k"] == "drop" else "?")
        if x["k"] == "ctor":
            return ("agg", p, p.split("::")[-1], tuple((str(i), self.op(a)) for i, a in enumerate(t[2])))
        args = tuple(self.op(a) for a in t[2])
        return simp_call(p, args, site, t[6])

    def rvalue(self, r):
        k = r[0]
        if k == "use":
            return self.op(r[1])
        if k == "expr":
            return r[1]
        if k == "repeat":
            return ("repeat", self.op(r[1]), r[2])
        if k in ("ref", "refmut", "rawptr"):
            return mk_addr(self.place(r[1]))
        if k == "cast":
            e = self.op(r[2])
            if r[1].split("(")[0] in PTR_CASTS:
                return e
            return ("cast", r[1], e, self.F.ts(r[3]))
        if k == "bin":
            return ("bin", r[1], self.op(r[2]), self.op(r[3]))
        if k == "un":
            return ("un", r[1], self.op(r[2]))
        if k == "discr":
            return ("discr", self.place(r[1]))
        if k == "agg":
            kk = r[1]
            ops = tuple(self.op(o) for o in r[2])
            if kk[0] == "adt":
                return ("agg", kk[1], kk[2], tuple(zip(kk[3], ops)))
            if kk[0] == "closure":
                return ("agg", "closure:" + kk[2], None, tuple((str(i), o) for i, o in enumerate(ops)))
            return ("agg", kk[0], None, tuple((str(i), o) for i, o in enumerate(ops)))
        return ("rv", str(r[0]))

    def place(self, p):
        e = self.local(p[0])
        if not p[1]:
            return e
        for el in p[1]:
            e = self.proj(e, el)
        return e

    def proj(self, e, el):
        k = el[0]
        if k == "*":
            return mk_deref(e)
        if k == "f":
            return mk_field(e, el[1])
        if k == "v":
            return mk_var(e, el[1])
        if k == "i":
            return ("[]", e, self.local(el[1]))
        if k == "c":
            return ("[]", e, ("k", -el[1] if el[2] else el[1]))
        if k == "ss":
            return ("call", "subslice", (e,), None)
        return ("proj", e, str(k))


def distribute(f):
    def g(e, *a):
        if e[0] == "phi":
            return Exprs.mkphi([g(x, *a) for x in e[1]])
        return f(e, *a)
    return g


@distribute
def mk_addr(e):
    if e == NEVER:
        return e
    return e[1] if e[0] == "*" else ("&", e)


@distribute
def mk_deref(e):
    if e == NEVER:
        return e
    if e[0] == "&":
        return e[1]
    return ("*", e)


@distribute
def mk_field(e, n):
    if e == NEVER:
        return e
    if e[0] == "agg":
        for k, v in e[3]:
            if k == n:
                return v
    # checked arithmetic: (a op b, overflowed).0
    if e[0] == "bin" and e[1].endswith("WithOverflow"):
        if n == "0":
            return ("bin", e[1][:-len("WithOverflow")], e[2], e[3])
        return ("overflow", e)
    if e[0] == "v" and e[1][0] == "agg" and e[1][2] == e[2]:
        return mk_field(e[1], n)
    if e[0] == "v" and e[1][0] == "branch" and n == "0":
        # payload of `?`: the value on Continue, the residual itself on Break
        src = e[1][1]
        cs = src[1] if src[0] == "phi" else (src,)
        if all(c[0] == "agg" and c[2] in ("Some", "None", "Ok", "Err", "Continue", "Break") for c in cs):
            good = [c for c in cs if (c[2] in ("Some", "Ok", "Continue")) == (e[2] == "Continue")]
            if good:
                return Exprs.mkphi([mk_field(c, "0") for c in good] if e[2] == "Continue" else good)
        if e[2] == "Continue" and len(e[1]) > 2:
            return mk_field(mk_var(src, e[1][2]), "0")
    return ("f", e, n)


@distribute
def mk_var(e, v):
    if e[0] == "agg" and e[2] == v:
        return e
    if e == NEVER or (e[0] == "agg" and e[2] is not None and e[2] != v and e[2] in EXCL.get(v, ())):
        return NEVER  # a value known to be another variant
    return ("v", e, v)


PASS_DEREF = {
    "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
}


def simp_call(p, args, site, decl):
    last = p.split("::")[-1]
    d = decl or p
    if d in ("core::ops::function::FnOnce::call_once",) and len(args) == 2 and args[0][0] == "fn":
        pass
    # identity-like calls
    if d == "core::convert::Into::into" or d == "core::convert::From::from" or d == "core::iter::traits::collect::IntoIterator::into_iter":
        return ("call", d, args, site)
    if d == "core::ops::try_trait::Try::branch":
        if "option::Option<" in p or "result::Result<" in p:
            return ("branch", args[0], "Some" if "option::Option<" in p else "Ok")
        return ("branch", args[0])
    if d == "core::ops::try_trait::FromResidual::from_residual" and args and args[0][0] in ("agg", "phi"):
        cs = args[0][1] if args[0][0] == "phi" else (args[0],)
        if all(c[0] == "agg" and c[2] in ("None", "Err", "Break") for c in cs):
            return args[0]
    if d == "core::ops::try_trait::FromResidual::from_residual" and p.startswith("<core::option::Option<"):
        return ("agg", "core::option::Option", "None", ())
    if d == "core::ops::try_trait::Try::from_output" and "ControlFlow" in p:
        return ("agg", "core::ops::control_flow::ControlFlow", "Continue", (("0", args[0]),))
    if last == "break_value" and "ControlFlow" in p:
        cs = args[0][1] if args[0][0] == "phi" else (args[0],)
        if all(c[0] == "agg" and c[2] in ("Continue", "Break") for c in cs):
            return Exprs.mkphi([("agg", "core::option::Option", "Some", (("0", mk_field(c, "0")),)) if c[2] == "Break"
                                else ("agg", "core::option::Option", "None", ()) for c in cs])
    if p.startswith("core::option::Option::") or p.startswith("core::result::Result::"):
        ok = "Some" if "option::Option" in p else "Ok"
        if last in ("unwrap", "expect", "unwrap_unchecked"):
            return mk_field(mk_var(args[0], ok), "0")
    return ("call", p, args, site)


def walk(e):
    """All sub-expressions."""
    st = [e]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        yield x
        k = x[0]
        if k in ("f", "*", "&", "v", "discr", "branch", "overflow", "proj", "repeat"):
            st.append(x[1])
        elif k == "[]":
            st.extend((x[1], x[2]))
        elif k == "call":
            st.extend(x[2])
        elif k == "bin":
            st.extend((x[2], x[3]))
        elif k == "un":
            st.append(x[2])
        elif k == "cast":
            st.append(x[2])
        elif k == "agg":
            st.extend(v for _, v in x[3])
        elif k == "phi":
            st.extend(x[1])


def show(e, d=6):
    if d == 0:
        return "…"
    k = e[0]
    if k == "arg":
        return f"a{e[1]}"
    if k == "f":
        return f"{show(e[1], d)}.{e[2]}"
    if k == "*":
        return f"*{show(e[1], d)}"
    if k == "&":
        return f"&{show(e[1], d)}"
    if k == "v":
        return f"({show(e[1], d)} as {e[2]})"
    if k == "[]":
        return f"{show(e[1], d)}[{show(e[2], d-1)}]"
    if k == "k":
        return repr(e[1]) if not isinstance(e[1], str) else e[1]
    if k == "call":
        return e[1].split("::")[-1] + "(" + ", ".join(show(x, d - 1) for x in e[2]) + ")"
    if k == "bin":
        return f"({show(e[2], d-1)} {e[1]} {show(e[3], d-1)})"
    if k == "un":
        return f"{e[1]}({show(e[2], d-1)})"
    if k == "cast":
        return f"{show(e[2], d-1)} as {e[3]}"
    if k == "agg":
        return f"{e[1].split('::')[-1]}{'::' + e[2] if e[2] else ''}{{" + ", ".join(f"{n}: {show(v, d-1)}" for n, v in e[3]) + "}"
    if k == "phi":
        return "φ(" + " | ".join(show(x, d - 1) for x in e[1]) + ")"
    if k in ("discr", "branch", "overflow"):
        return f"{k}({show(e[1], d-1)})"
    return str(e)
