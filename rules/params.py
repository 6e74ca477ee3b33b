"""P12: the tables of parameters of a node say what it reacts to."""
from wrap import *
from send import getf, fields_of

PV = "knaster_core::parameters::types::ParameterValue"
PH = "knaster_core::parameters::ParameterHint"
PT = "knaster_core::parameters::types::ParameterType"
KINDS = {"Float", "Integer", "Bool", "Trigger"}
NEVER = ("never",)


def nodes(F):
    """(type, {method: path}) of every node that is not a wrapper."""
    ws = {w.path for w in wrappers(F)}
    for i in F.impls:
        if i.get("trait") == UG[:-2] and i.get("adt") and i["adt"] not in ws and "::tests::" not in i["adt"] and "test_utils" not in i["adt"]:
            yield i["adt"], {x[0]: x[1] for x in i["items"]}


def table(ctx, f, pol):
    """The elements of a table, or None."""
    fl, E = flatten(ctx, f, pol)
    out = []

    def at(facts, eff, v, var):
        while v[0] == "call" and v[1] in ("into", "from", "from_array", "from_core_array") and len(v[2]) == 1:
            v = v[2][0]
        out.append([x for _, x in v[3]] if v[0] == "agg" and v[1] == "array" else None)
    ordered(ctx, fl, E, lambda t: None, at, purge=False)
    return out[0] if out and all(x is not None and x == out[0] for x in out) else None


def kind_of(v):
    if v[0] == "agg" and v[1] == PH and v[2] in KINDS:
        return v[2]
    if v[0] == "call":
        return {"new_float": "Float", "new_integer": "Integer", "from_pinteger_enum": "Integer"}.get(v[1])
    return None


def names_of(F, adt):
    """What a description can name: the fields and the methods of a type."""
    fields = {f["name"] for v in F.adts[adt]["variants"] for f in v["fields"]}
    methods = {f["name"]: f["path"] for f in F.fns if "inst" in f and f["path"].startswith(adt + "::<") and len(f.get("inputs") or ()) >= 1 and "&mut" in str(f["inputs"][0])}
    return fields, methods


def payloads(e):
    """The kinds of value an expression reads."""
    return {x[2] for x in walk(e) if x[0] == "v" and x[1] == A4 and x[2] in KINDS}


def reaction(ctx, F, adt, f):
    """index (None: any other) -> list of (facts, effects, names, kinds) of its paths; 'methods' as calls and inlined."""
    fields, methods = names_of(F, adt)
    byp = {p: n for n, p in methods.items()}
    out = {}
    for deep in (False, True):
        fl, E = flatten(ctx, f, lambda h, x: ITER(h, x) and "ArLog" not in x.get("p", "") and (deep or x.get("p") not in byp))

        def want(t):
            if deep:
                return None
            p = F.insts[t[1]].get("p")
            return p if p in byp else None

        def at(facts, eff, v, var, deep=deep):
            i = {q[2][1] for q in facts if q[0] == "Eq" and q[1] == A3 and q[2][0] == "k"} | {q[1][1] for q in facts if q[0] == "Eq" and q[2] == A3 and q[1][0] == "k"}
            i = i.pop() if len(i) == 1 else None if not i else "?"
            ns, ks, dead, vals = set(), set(), False, []
            for x in eff:
                es = [x[2]] if x[0] == "write" else list(x[2])
                if x[0] == "write":
                    p, under = x[1], False
                    while p[0] in ("f", "[]", "*", "&", "v"):
                        if p[0] == "f" and p[1] == A1:
                            ns.add(p[2])
                        p = p[1]
                    if p == A1:
                        vals.append(x[2])
                else:
                    ns.add(byp[x[1]])
                for e in es:
                    ks |= payloads(e)
                    dead = dead or any(y == NEVER for y in walk(e))
            out.setdefault(i, []).append((facts, ns, ks, dead, vals, deep))
        ordered(ctx, fl, E, want, at, purge=False)
    return out, fields, methods


def p12_tables(ctx):
    """Descriptions, hints and reactions of every node agree, index by index."""
    F = ctx.facts()
    n = par = 0
    hints = lambda h, x: ITER(h, x) and not (x.get("p") or "").startswith("numeric_array")
    for adt, items in sorted(nodes(F)):
        fs = [F.fn.get(items.get(m)) for m in ("param_descriptions", "param_hints", "param_apply")]
        if fs[2] is None or "inst" not in fs[2]:
            raise Missing(f"how {adt} reacts to parameters")
        name = adt.split("::")[-1]
        n += 1
        bad = []
        d, h = (table(ctx, f, hints) if f is not None and "inst" in f else None for f in fs[:2])
        if d is None or h is None:
            # no table of constants: no parameters of its own, nothing to agree
            out, fields, methods = reaction(ctx, F, adt, fs[2])
            if any(r[1] for rs in out.values() for r in rs):
                bad.append(("table", "the names and kinds of its parameters cannot be read"))
            d, h = [], []
        else:
            d = [x[1] if x[0] == "k" else None for x in d]
            h = [kind_of(x) for x in h]
            out, fields, methods = reaction(ctx, F, adt, fs[2])
        par += len(d)
        if len(set(d)) != len(d) or None in d:
            bad.append(("names", "two parameters have the same name"))
        if len(h) != len(d) or None in h:
            bad.append(("hints", "the kinds of its parameters cannot be read"))
        if not bad:
            bad += agree(name, d, h, out, fields, methods)
        if bad:
            for k, msg in bad:
                ctx.viol("tables", f"{name}: {k}", f"{fs[2]['path']}: {msg}", where=loc(F, fs[2]["inst"], None))
        else:
            ctx.ok("tables", name, ", ".join(f"{a}: {b}" for a, b in zip(d, h)) or "no parameters")
    ctx.floor("tables", n, 24)
    ctx.floor("tables", par, 36)


def agree(name, d, h, out, fields, methods):
    bad = []
    if "?" in out:
        return [("index", "which parameter is meant cannot be read")]
    for i, rs in out.items():
        touch = any(r[1] for r in rs)
        if i is None or i >= len(d):
            if touch:
                bad.append(("extra", f"it reacts to a parameter it does not have{'' if i is None else f' ({i})'}"))
    for i, (nm, kd) in enumerate(zip(d, h)):
        rs = [r for r in out.get(i, ()) if not r[3]]
        touch = [r for r in rs if r[1]]
        if not touch:
            bad.append(("none", f"nothing happens when the parameter '{nm}' is set"))
            continue
        ks = set().union(*(r[2] for r in touch)) | {q[2] for r in touch for q in r[0] if q[0] == "is" and q[1] == A4 and q[2] in KINDS}
        if kd == "Trigger" and ks - {"Trigger"} or kd != "Trigger" and ks != {kd}:
            bad.append(("kind", f"the parameter '{nm}' is said to be a {kd} but is set by a {'/'.join(sorted(ks)) or 'Trigger'}"))
        if kd == "Trigger" and all(any(q[0] == "isnot" and q[1] == A4 and q[2] == "Trigger" for q in r[0]) for r in touch):
            bad.append(("kind", f"the parameter '{nm}' does not react to a trigger"))
        ns = set().union(*(r[1] for r in rs))
        if nm in methods or nm in fields:
            if nm not in ns:
                bad.append(("name", f"the parameter called '{nm}' sets {', '.join(sorted(ns))}"))
            # a method named by another parameter
        calls = set().union(*(r[1] for r in rs if not r[5])) & set(methods)
        for c in calls:
            if c != nm and c in d:
                bad.append(("name", f"the parameter called '{nm}' does what '{c}' says"))
        vs = {y[2] for r in rs for v in r[4] for y in walk(v) if y[0] == "agg" and y[2]}
        if kd == "Trigger" and "stop" in nm and not any("top" in v for v in vs) and nm not in methods or kd == "Trigger" and "restart" in nm and any(
                "Stop" in v for v in vs) and nm not in methods:
            bad.append(("name", f"the parameter called '{nm}' does something else"))
    return bad


def p12_kinds(ctx):
    """A value is read as what it is; the kind of a hint or value is its own."""
    F = ctx.facts()
    n = 0

    def values(f, rule, ok, msg):
        fl, E = flatten(ctx, f, lambda h, x: ITER(h, x))
        seen = set()

        def at(facts, eff, v, var):
            k = {q[2] for q in facts if q[0] == "is" and q[1] == A1}
            nk = {q[2] for q in facts if q[0] == "isnot" and q[1] == A1}
            if eff or not ok(k.pop() if len(k) == 1 else None, nk, v, seen):
                return "value", msg
        vs = ordered(ctx, fl, E, lambda t: None, at, purge=False)
        if not vs and not seen:
            vs = [(("value", msg), [])]
        report(ctx, rule, f["path"].split("::", 2)[-1], f, fl, vs, None, "as it is")

    for m, K in (("float", "Float"), ("f", "Float"), ("integer", "Integer"), ("bool", "Bool")):
        f = getf(F, PV + "::" + m)

        def ok(k, nk, v, seen, K=K):
            if v[0] == "agg" and v[2] == "None":
                return K in nk or k not in (None, K)
            x = some(v)
            while x is not None and x[0] == "call" and x[1] in ("new", "from", "into") and len(x[2]) == 1:
                x = x[2][0]
            seen.add(1)
            return x == fld(("v", A1, K), "0") and k in (None, K)
        values(f, "kinds", ok, f"a value is taken for a {K.lower()} it is not")
        n += 1
    for t, also in ((PV, {"Smoothing": "Float"}), (PH, {})):
        f = getf(F, t + "::ty")

        def ok(k, nk, v, seen, also=also):
            r = v[2] if v[0] == "agg" else str(v[1]).split("::")[-1] if v[0] == "k" else None
            ks = {k} if k else set(KINDS) - nk
            seen.add(1)
            return all(also.get(x, x) == r for x in ks)
        values(f, "kinds", ok, "the kind is not that of the value")
        n += 1
    for m, K in (("float_hint", "Float"), ("integer_hint", "Integer")):
        f = getf(F, PH + "::" + m)

        def ok(k, nk, v, seen, K=K):
            if v[0] == "agg" and v[2] == "None":
                return K in nk or k not in (None, K)
            seen.add(1)
            return some(v) == fld(("v", A1, K), "0") and k in (None, K)
        values(f, "kinds", ok, "a hint is taken for another kind")
        n += 1
    ctx.floor("kinds", n, 8)


def const(e):
    if e[0] == "k" and isinstance(e[1], int):
        return e[1]
    if e[0] == "bin" and e[1] == "Add":
        a, b = const(e[2]), const(e[3])
        return None if a is None or b is None else a + b
    if e[0] == "cast":
        return const(e[2])
    return None


def p12_integers(ctx):
    """Types that are sent as integers come out as they went in; their range and descriptions are those of their values."""
    F = ctx.facts()
    n = 0
    hint = getf(F, "knaster_core::parameters::PIntegerHint::descriptions")
    fl, E = flatten(ctx, hint, lambda h, x: False)
    bodies = [fl] + [flatten(ctx, {"path": s[2][1][2], "inst": s[2][1][1]}, lambda h, x: False)[0] for b in fl.reachable() for s in fl.blocks[b].s
                     if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure"]
    ranges = set()
    for b2 in bodies:
        X = Exprs(b2)
        for b in b2.reachable():
            for s in b2.blocks[b].s:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("ops::range::Range"):
                    ranges.add("exclusive")
            t = b2.blocks[b].t
            if t[0] == "call" and "RangeInclusive" in (F.insts[t[1]].get("p") or "") and last(F, t[1]) == "new":
                ranges.add("inclusive")
    if len(ranges) != 1:
        raise Missing("the values of an integer parameter that are described")
    incl = ranges == {"inclusive"}
    for i in F.impls:
        adt = i.get("adt")
        if not (i.get("trait") or "").endswith("::PIntegerConvertible") or not adt or F.adts[adt]["kind"] != "Enum":
            continue
        items = {x[0]: x[1] for x in i["items"]}
        vs = {v["d"]: v["name"] for v in F.adts[adt]["variants"]}
        name = adt.split("::")[-1]
        N = len(vs)

        def run(path, at, text, pol=lambda h, x: ITER(h, x)):
            f = F.fn.get(path)
            if f is None:
                raise Missing(path)
            l, X = flatten(ctx, f, pol)
            seen = set()
            r = ordered(ctx, l, X, lambda t: None, lambda *a: at(seen, *a), purge=False)
            report(ctx, "integers", f"{name}.{path.split('::')[-1]}{text}", f, l, r, None, "agrees with its values")
            return seen

        def eqs(facts, e):
            return {const(y) for q in facts if q[0] == "Eq" for x, y in ((q[1], q[2]), (q[2], q[1])) if x == e}

        def desc(seen, facts, eff, v, var):
            k = eqs(facts, fld(A1, "0"))
            s = some(v)
            if s is None:
                return
            if len(k) != 1 or s != ("k", vs.get(next(iter(k)))):
                return "description", "a value is described as another"
            seen.update(k)
        got = run(items["pinteger_descriptions"], desc, "")
        if got != set(vs):
            ctx.viol("integers", f"{name}: descriptions", f"{items['pinteger_descriptions']}: not every value is described", where=loc(F, F.fn[items['pinteger_descriptions']]["inst"], None))

        def rng(seen, facts, eff, v, var):
            e = [x[3][0][1] if x[0] == "agg" and x[3] else x for x in (y for _, y in v[3])] if v[0] == "agg" else []
            if [const(x) for x in e] != [0, N - 1 if incl else N] or sorted(vs) != list(range(N)):
                return "range", "the range is not that of its values"
        run(items["pinteger_range"], rng, "")
        # out
        into = [f for f in F.fns if f["name"] == "from" and "inst" in f and f["path"].endswith(f"<impl core::convert::From<{adt}> for knaster_core::parameters::PInteger>::from")]
        back = [f for f in F.fns if f["path"] == f"<{adt} as core::convert::From<knaster_core::parameters::PInteger>>::from"]
        if len(into) != 1 or len(back) != 1:
            raise Missing(f"the conversions of {adt}")

        def out(seen, facts, eff, v, var):
            x = v[3][0][1] if v[0] == "agg" and v[3] else v
            while x[0] == "cast":
                x = x[2]
            k = {q[2] for q in facts if q[0] == "is" and q[1] == A1}
            if x in (("discr", A1), A1) or const(x) is not None and k == {vs.get(const(x))}:
                return
            return "number", "a value is sent as the number of another"
        run(into[0]["path"], out, " (sent)")
        prim = f"<{adt} as num_traits::cast::FromPrimitive>::from_u64"
        deflt = [""]

        def src(seen, facts, eff, v, var):
            if v[0] == "call" and v[1] in ("unwrap_or", "unwrap_or_default", "unwrap_or_else") and v[2][0][0] == "call" and v[2][0][1] in (
                    "from_usize", "from_u64", "from_i64") and uncast(v[2][0][2][0]) == fld(A1, "0"):
                seen.add("prim")
                return
            k = eqs(facts, fld(A1, "0"))
            nm = v[2] if v[0] == "agg" and v[1] == adt else None
            if nm is None or k and vs.get(next(iter(k))) != nm:
                return "value", "a number is taken for another value"
            seen.update(k or {"other"})
        got = run(back[0]["path"], src, " (received)")
        if "prim" in got:
            def pr(seen, facts, eff, v, var):
                k = eqs(facts, A1)
                s = some(v)
                if s is None:
                    return
                nm = s[2] if s[0] == "agg" else None
                if len(k) != 1 or vs.get(next(iter(k))) != nm:
                    return "value", "a number is taken for another value"
                seen.update(k)
            got = run(prim, pr, "")
        if not set(vs) <= got | set():
            ctx.viol("integers", f"{name}: received", f"{back[0]['path']}: not every value can be received", where=loc(F, back[0]["inst"], None))
        n += 1
    ctx.floor("integers", n, 3)
