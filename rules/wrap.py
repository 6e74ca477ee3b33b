"""P11: a wrapper passes everything on to the wrapped node, and adds its own effect only.

Wrappers are found by type: a `UGen` implementation on a type with a field of a type parameter that is itself a `UGen`."""
from arith import *
from changes import ordered, uncast
from effects import summarise

UG = "knaster_core::ugen::UGen::"
METHODS = ["init", "process", "process_block", "param_descriptions", "param_hints", "param_apply", "set_ar_param_buffer",
           "set_delay_within_block_for_param"]
MAY_DEFAULT = {"process_block", "param_types", "param"}
A3, A4, A5 = ("arg", 3), ("arg", 4), ("arg", 5)


class Wrapper:
    __slots__ = ("name", "path", "field", "T", "items", "types", "adds_param", "adds_input", "inner", "own")


def wrappers(F, strict=True):
    out = []
    for i in F.impls:
        if i.get("trait") != UG[:-2] or not i.get("adt"):
            continue
        a = F.adts.get(i["adt"])
        if a is None or len(a["variants"]) != 1:
            continue
        ps = [b.split(":")[0] for b in i["bounds"] if b.split(": ")[-1].split("<")[0].endswith("::UGen") and " as " not in b]
        fs = [f["name"] for f in a["variants"][0]["fields"] if F.ts(f["ty"]) in ps]
        if not fs:
            continue
        if len(fs) > 1:
            raise Missing(f"the wrapped node of {i['adt']}")
        w = Wrapper()
        w.path, w.name, w.field = i["adt"], i["adt"].split("::")[-1], fs[0]
        w.T = [F.ts(f["ty"]) for f in a["variants"][0]["fields"] if f["name"] == fs[0]][0]
        w.own = [f["name"] for f in a["variants"][0]["fields"] if f["name"] != fs[0]]
        w.items = {x[0]: x[1] for x in i["items"]}
        w.types = {x[0]: x[3] for x in i["items"] if x[3]}
        t = lambda n: f"<{w.T} as knaster_core::ugen::UGen>::{n}"
        for n in ("Sample", "Inputs", "Outputs", "Parameters"):
            if strict and w.types.get(n) not in (t(n), f"<{t(n)} as core::ops::arith::Add<typenum::bit::B1>>::Output"):
                raise Missing(f"{w.name}: its {n} are not those of the wrapped node")
        w.adds_param = w.types["Parameters"] != t("Parameters")
        w.adds_input = w.types["Inputs"] != t("Inputs")
        w.inner = fld(A1, w.field)
        out.append(w)
    return out


def size(w, n):
    return ("k", f"const <<{w.T} as knaster_core::ugen::UGen>::{n} as typenum::marker_traits::Unsigned>::USIZE")


def method(F, w, m):
    p = w.items.get(m)
    f = F.fn.get(p) if p else None
    return f if f is not None and "inst" in f else None


def inner_call(F):
    """Name of the method of the wrapped node a call terminator calls."""
    def want(t):
        p = F.insts[t[1]].get("p") or ""
        return p[len(UG):] if p.startswith(UG) else None
    return want


QUIET = lambda f, x: ITER(f, x) and not (x.get("ws", False) and any(
    k in x.get("p", "") for k in ("::next", "ArLogSender", "Parameterable", "::partial", "from_block")))


def known(fs, idx, P):
    """'own' when idx is the wrapper's own parameter on this path, 'inner' when it is one of the wrapped node, None otherwise."""
    for f in fs:
        if f in (("Eq", idx, P), ("Eq", P, idx), ("Le", P, idx)):
            return "own"
        if f in (("Ne", idx, P), ("Ne", P, idx), ("Lt", idx, P)):
            return "inner"
    return None


# ---- wrappers that handle something of the wrapped node's parameters themselves
def at_index(name):
    """The entry of an own table for the parameter at hand."""
    return ("call", "index", (fld(A1, name), A3)), ("call", "index_mut", (fld(A1, name), A3)), ("[]", fld(A1, name), A3)


def is_entry(e, name):
    return e in at_index(name)


def writes(eff):
    return [(x[1], x[2]) for x in eff if x[0] == "write"]


def some(e):
    return e[3][0][1] if e[0] == "agg" and e[2] == "Some" and len(e[3]) == 1 else None


def own_write(eff, name, pred):
    return any(is_entry(p, name) and pred(v) for p, v in writes(eff))


def fact_on(facts, name, pred):
    return any(any(is_entry(x, name) for q in f[1:] if isinstance(q, tuple) for x in walk(q)) and pred(f) for f in facts)


def null_of(f):
    """True when the fact says the buffer is null, False when it says it is not."""
    if f[0] in ("true", "false") and f[1][0] == "call" and f[1][1] == "is_null" and f[1][2] == (A4,):
        return f[0] == "true"
    return None


def store_buffer(w, facts, eff, calls):
    """set_ar_param_buffer of the wrapper that reads the buffers: the buffer is stored, null as none."""
    v = next((v for p, v in writes(eff) if is_entry(p, w.own[0])), None)
    if v is None:
        return "the buffer is not stored"
    if calls:
        return "the buffer is also passed on"
    if v[0] == "call" and v[1] == "then_some":
        return None if v[2] == (("un", "Not", ("call", "is_null", (A4,))), A4) else "the buffer stored is not the one given"
    nl = [null_of(f) for f in facts if null_of(f) is not None]
    if some(v) == A4:
        return "a null buffer is stored as a buffer" if True in nl or not nl else None
    if v[0] == "agg" and v[2] == "None":
        return "the buffer is not stored" if False in nl or not nl else None
    return "the buffer stored is not the one given"


def gate_buffer(w, facts, eff, calls):
    """param_apply of the same: changes reach the node unless a buffer sets the parameter."""
    if calls:
        return None
    for f in facts:
        if f[0] == "is" and is_entry(f[1], w.own[0]) and f[2] == "Some":
            return None
    return "a change of a parameter without audio rate connection is dropped"


def store_delay(w, facts, eff, calls):
    if calls:
        return "the delay is also passed on"
    return None if any(own_write(eff, n, lambda v: v == A4) for n in w.own) else "the delay is not stored for its parameter"


def queue(w, facts, eff, calls):
    """param_apply of the sample accurate wrapper."""
    delay = [n for n in w.own if fact_on(facts, n, lambda f: f[0] in ("Eq", "Ne", "Lt", "Le") and ("k", 0) in f[1:])]
    if not delay:
        return "whether the change is delayed is not looked up for its parameter"
    zero_ = any(f[0] in ("Eq", "Le") and (is_entry(f[1], delay[0]) and f[2] == ("k", 0) or is_entry(f[2], delay[0]) and f[1] == ("k", 0) and f[0] == "Eq") for f in facts)
    q = [(p, some(v)) for p, v in writes(eff) if some(v) is not None and some(v)[0] == "agg"]
    if zero_:
        return None if calls and not q else "a change without delay does not reach the node"
    if calls:
        return "a delayed change is applied immediately"
    if q:
        p, v = q[0]
        xs = [x for _, x in v[3]]
        if len(q) != 1 or [x for x in xs if is_entry(x, delay[0])] == [] or A3 not in xs or A4 not in xs:
            return "what is kept is not the delay, the parameter and the value of the change"
        if payload(p) is not None and payload(p)[0] == "call" and payload(p)[1] == "get_mut":
            p = payload(p)
        at = p[2] if p[0] == "[]" else p[2][1] if p[0] == "call" and p[1].startswith(("index", "get_mut")) else None
        if at is None or at[0] != "f" or (at, ("bin", "Add", at, ("k", 1))) not in writes(eff):
            return "a change overwrites the one kept before"
        return None
    # no room: the count has reached the room
    if any(f[0] == "Le" and f[1][0] == "k" and f[2][0] == "f" and f[2][1] == A1 for f in facts):
        return None
    if any(f[0] == "is" and f[2] == "None" and f[1][0] == "call" and f[1][1] == "get_mut" and f[1][2][1][0] == "f" and f[1][2][1][1] == A1 for f in facts):
        return None
    return "a delayed change is dropped while there is room"


def smooth(w, facts, eff, calls):
    """param_apply of the smoothing wrapper."""
    P = size(w, "Parameters")
    if known(facts, A3, P) == "own":
        return None if not calls else "an unknown parameter is passed on"
    kinds = {f[2] for f in facts if f[0] == "is" and f[1] == A4}
    if kinds & {"Integer", "Trigger", "Bool"}:
        return None if calls else "a value that cannot be smoothed does not reach the node"
    if not calls and kinds == {"Smoothing"}:
        s, r = [("f", ("v", A4, "Smoothing"), k) for k in "01"]
        if not any(any(own_write(eff, n, lambda v: v == s) for n in w.own) for _ in "x"):
            return "the kind of smoothing is not stored for its parameter"
        return None
    if kinds == {"Float"}:
        val = ("f", ("v", A4, "Float"), "0")
        states = {(f[1], f[2]) for f in facts if f[0] == "is" and any(is_entry(f[1], n) for n in w.own)}
        if any(v == "AudioRate" for _, v in states):
            return None
        if calls:
            return None if any(v == "None" for _, v in states) else "a smoothed change is applied immediately"
        tgt = [p for p, v in writes(eff) if v == val and any(is_entry(x, n) for x in walk(p) for n in w.own)]
        if not tgt:
            return "a change does not become the target of the smoothing of its parameter"
        t = tgt[0]
        base = t[1]
        ws = {p[2]: v for p, v in writes(eff) if p[0] == "f" and p[1] == base}
        if not any(v == ("k", False) for v in ws.values()) or not any(v == ("k", 0) for v in ws.values()):
            return "the smoothing towards the new value does not start"
        return None
    return None if calls else "a change is dropped"


SPECIAL = {("WrArParams", "set_ar_param_buffer"): store_buffer, ("WrArParams", "param_apply"): gate_buffer,
           ("WrPreciseTiming", "set_delay_within_block_for_param"): store_delay, ("WrPreciseTiming", "param_apply"): queue,
           ("WrSmoothParams", "param_apply"): smooth}


def p11_delegate(ctx):
    F, g = anchors(ctx)
    n = 0
    ws = wrappers(F)
    want = inner_call(F)
    for w in ws:
        for m in METHODS:
            if method(F, w, m) is None and not (m == "process_block"):
                ctx.viol("pass-on", f"{w.name}.{m}: missing", f"{w.path} does not implement {m}: what is sent to the wrapper does not reach the node")
        for m, nargs in (("init", 3), ("param_apply", 4), ("set_ar_param_buffer", 4), ("set_delay_within_block_for_param", 4)):
            f = method(F, w, m)
            if f is None:
                continue
            n += 1
            fl, E = flatten(ctx, f, QUIET)
            P = size(w, "Parameters")
            args = tuple(("arg", k) for k in range(2, nargs + 1))

            def at(facts, eff, v, var, w=w, m=m, args=args, P=P):
                if any(x == ("never",) for q in eff for x in walk(q[2] if isinstance(q[2], tuple) and q[0] == "write" else ("k", 0))):
                    return None  # a value of another kind: the unwrap panics
                cs = [x for x in eff if x[0] == "call"]
                mine = [x for x in cs if x[1] == m and x[2][:1] == (w.inner,)]
                for x in cs:
                    if x[1] != m or x[2][0] != w.inner:
                        return "other", f"the node's {x[1]} is called for {m}"
                if len(mine) > 1:
                    return "twice", f"{m} reaches the node more than once"
                if mine and mine[0][2][1:] != args:
                    return "arguments", f"the node's {m} is not given the arguments of the wrapper's"
                sp = SPECIAL.get((w.name, m))
                if sp is not None:
                    r = sp(w, facts, eff, mine)
                    return ("special", r) if r else None
                if m == "init" or not w.adds_param:
                    return None if mine else ("dropped", f"{m} does not reach the node on some path")
                k = known(facts, A3, P)
                if k == "own":
                    if mine:
                        return "own", f"the wrapper's own parameter is passed on to the node, which does not have it"
                    if m == "param_apply" and not any(p[0] == "f" and p[1] == A1 and p[2] != w.field and any(x == A4 for x in walk(x2)) for p, x2 in writes(eff)):
                        return "own value", f"the wrapper's own parameter is not set to the value given"
                    return None
                if not mine:
                    return "dropped", f"{m} for a parameter of the node does not reach it"
                if k != "inner":
                    return "own", f"the wrapper's own parameter is passed on to the node, which does not have it"
                return None

            vs = ordered(ctx, fl, E, want, at, purge=False)
            seen = set()
            for (k, msg), path in vs:
                if (k, msg) not in seen:
                    seen.add((k, msg))
                    ctx.viol("pass-on", f"{w.name}.{m}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
            if not vs:
                ctx.ok("pass-on", f["path"], f"{m} reaches the wrapped node with its arguments")
    ctx.floor("wrappers", len(ws), 13)
    ctx.floor("pass-on", n, 52)


# ------------------------------------------------------------------------------------------------ loops in loops
class Nest(Monitor):
    """Things are done once per element of nested loops, and the loops run to their ends.

    do: block or id(stmt) -> (loop or None, token, tokens needed before); loops: loop -> (outer loop or None, tokens its elements need).
    The token of a loop that ran to its end is ('loop', l)."""

    INIT = ((None, frozenset()),)
    fine = frozenset()

    def __init__(self, w, S, do, loops, end, before=None, due=None):
        """due: fact -> (loop, token) that this element then needs."""
        super().__init__(w)
        self.S, self.do, self.loops, self.end, self.before, self.due = S, do, loops, end, before or {}, due
        self.facts = FactMon(w)

    def put(self, st, loop, tok, need):
        if st[-1][0] != loop:
            self.w.viol(("place", "something is done at the wrong place of the loops"))
            return None
        have = st[-1][1]
        if tok in have:
            self.w.viol(("twice", "something is done twice"))
            return None
        if not need <= have:
            self.w.viol(("order", "something is done before what it depends on"))
            return None
        return st[:-1] + ((loop, have | {tok}),)

    def stmt(self, st, b, s):
        return self.put(st, *self.do[id(s)]) if id(s) in self.do else st

    def term(self, st, b, t, env):
        if b in self.do:
            st = self.put(st, *self.do[b])
            if st is None:
                return None
        if t[0] == "ret":
            if len(st) > 1:
                self.w.viol(("partial", "not all elements are handled"))
            elif not self.end <= st[0][1]:
                self.w.viol(("missing", "something is not done on some path"))
            return None
        return st

    def edge(self, st, b, o, v, other, vals):
        oc = self.S.outcome(self.w, b, o, v, other)
        if not oc or oc[0].b not in self.loops:
            if self.due:
                for f in self.facts.edge((frozenset(), None), b, o, v, other, vals)[0]:
                    d = self.due(f)
                    if d and d[0] == st[-1][0]:
                        st = st[:-1] + ((d[0], st[-1][1] | {("due", d[1])}),)
            return st
        l = oc[0].b
        outer, need = self.loops[l]
        if st[-1][0] == l:
            need = need | {t[1] for t in st[-1][1] if isinstance(t, tuple) and t[0] == "due"}
            if not need <= st[-1][1]:
                self.w.viol(("skipped", "something is not done for one of the elements"))
                return None
            st = st[:-1]
        if st[-1][0] != outer:
            self.w.viol(("place", "the loops are not nested as they should be"))
            return None
        if not self.before.get(l, frozenset()) <= st[-1][1]:
            self.w.viol(("order", "elements are handled before what they depend on"))
            return None
        if oc[1] == "Some":
            return st + ((l, frozenset()),)
        if set(oc[0].odd) - OKODD - {"iter_mut", "channels", "process", "channel_as_slice_mut", "param_descriptions", "param_hints", "default"} - self.fine:
            return st
        return self.put(st, outer, ("loop", l), frozenset())


def report(ctx, rule, key, f, fl, vs, w, text):
    F = ctx.facts()
    if w is not None:
        ctx.states += w.nstates
    seen = set()
    for (k, msg), path in vs:
        if (k, msg) not in seen:
            seen.add((k, msg))
            ctx.viol(rule, f"{key}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok(rule, f["path"], text)


EFFECT = {"WrMul": ("Mul", "mul", 0), "WrAdd": ("Add", "add", 0), "WrSub": ("Sub", "sub", 0), "WrVSub": ("Sub", "sub", 1),
          "WrDiv": ("Div", "div", 0), "WrVDiv": ("Div", "div", 1), "WrPowf": ("Pow", "powf", 0), "WrPowi": ("Pow", "powi", 0),
          "WrClosure": ("closure", "call_mut", 0), "WrDone": None, "WrArParams": None, "WrPreciseTiming": None, "WrSmoothParams": None,
          "WrArParamToInput": None}


class Samples:
    """What the loops of a process function run over: the channels of the output, the samples of a channel, the samples of the frame."""

    def __init__(self, F, S, E, fl, w, frame):
        self.S, self.E, self.frame = S, E, frame
        self.site = {canon(E.place(s.call[3])): b for b, s in S.at.items() if s.call is not None}
        self.idx = {canon(s.idx): b for b, s in S.at.items() if s.idx is not None}
        self.w = w

    def over(self, b):
        s = self.S.at[b]
        if s.call is None or s.idx is not None:
            if s.idx is not None and s.call is not None:
                r = segs(strip_it(canon(s.it)))
                return ("count", r[0][1]) if r and r[0][0] == "range" else None
            return ("count", canon(s.end)) if s.start == ("k", 0) else None
        return ("elems", strip_it(canon(s.it)))

    def chan(self, e):
        """Loop over the channels of the output that e is the slice of."""
        e = strip_it(e)
        d = payload(e) if e[0] == "f" else None
        if d is not None and nextcall(e) in self.site:
            b = self.site[nextcall(e)]
            o = self.over(b)
            if o and o[0] == "elems" and o[1] in (A5, ("call", "iter_mut", (A5,))):
                return b
        if e[0] == "call" and e[1] in ("channel_as_slice_mut", "channel_as_slice") and e[2][0] == A5:
            b = self.idx.get(uncast(e[2][1]))
            o = self.over(b) if b is not None else None
            if o and o[0] == "count" and o[1] in (("call", "channels", (A5,)), size(self.w, "Outputs")):
                return b
        return None

    def sample(self, e):
        """(loop over samples, outer loop) when e is one sample of the output."""
        n = nextcall(e)
        e0 = e
        if n in self.site and payload(e) is not None:
            b = self.site[n]
            o = self.over(b)
            if o and o[0] == "elems":
                if self.frame is not None and o[1] == self.frame:
                    return b, None
                c = self.chan(o[1])
                if c is not None:
                    return b, c
                if self.frame is None and o[1][0] == "call" and o[1][1] == "flatten" and strip_it(o[1][2][0]) in (A5, ("call", "iter_mut", (A5,))):
                    return b, None
        x = None
        if e[0] == "[]":
            x = (e[1], e[2])
        elif e[0] == "call" and e[1] in ("index", "index_mut") and len(e[2]) == 2:
            x = e[2]
        if x:
            b = self.idx.get(uncast(x[1]))
            o = self.over(b) if b is not None else None
            base = strip_it(x[0])
            if o and o[0] == "count":
                if self.frame is not None and base == self.frame and o[1] in (size(self.w, "Outputs"), ("call", "len", (self.frame,)), ("call", "len", (base,))):
                    return b, None
                c = self.chan(base)
                if c is not None and o[1][0] == "call" and o[1][1] == "len" and self.chan(o[1][2][0]) == c:
                    return b, c
                if c is not None and o[1] == ("f", ("f", ("arg", 2), "block"), "frames_to_process"):
                    return b, c
        return None


def p11_effect(ctx):
    """The output of the wrapped node, changed by the wrapper's one effect on every sample of every channel."""
    F, g = anchors(ctx)
    n = 0
    for w in wrappers(F):
        if w.name not in EFFECT:
            raise Missing(f"the effect of {w.name} is not known to the check")
        eff = EFFECT[w.name]
        for m in ("process", "process_block"):
            f = method(F, w, m)
            if f is None or w.name in ("WrPreciseTiming", "WrSmoothParams") and m == "process_block" or w.name == "WrArParamToInput":
                continue
            n += 1
            fl, E = flatten(ctx, f, QUIET)
            S = Sites(g, fl, E, any_end=True)
            bad, do, loops, end, before = [], {}, {}, {"inner"}, {}
            ret = canon(E.local(fl.retlocal)) if m == "process" else None
            frame = None
            for b in fl.reachable():
                t = fl.blocks[b].t
                p = (F.insts[t[1]].get("p") or "") if t[0] == "call" else ""
                if p in (UG + "process", UG + "process_block"):
                    a = [canon(E.op(x)) for x in t[2]]
                    if p[len(UG):] != m or a[0] != w.inner:
                        bad.append(("inner", f"the node's {p[len(UG):]} is called in {m}"))
                    elif a[1:] != [("arg", k) for k in range(2, len(a) + 1)]:
                        bad.append(("arguments", "the node is not given the context, flags, input and output of the wrapper"))
                    elif m == "process" and canon(E.place(t[3])) != ret:
                        bad.append(("result", "what is returned is not the output of the node"))
                    do[b] = (None, "inner", frozenset())
                    frame = canon(E.place(t[3]))
            sm = Samples(F, S, E, fl, w, frame if m == "process" else None)
            if eff is not None:
                cls, meth, first = eff
                own = fld(A1, w.own[0])

                def found(at, out, args):
                    x = sm.sample(out)
                    if x is None:
                        bad.append(("output", "something else than the samples of the output is changed"))
                        return
                    args = [y[3][0][1] if y[0] == "agg" and y[1] == "tuple" and len(y[3]) == 1 else y for y in args]
                    if cls == "closure":
                        args = args[::-1]
                    if [sm.sample(args[first]) if len(args) == 2 else None, args[1 - first] if len(args) == 2 else None] != [x, own]:
                        bad.append(("operands", "the sample and the value are not combined as they should be"))
                        return
                    i, o = x
                    do[at] = (i, "op", frozenset())
                    loops[i] = (o, frozenset({"op"}))
                    if o is not None:
                        loops[o] = (None, frozenset({("loop", i)}))
                    top = o if o is not None else i
                    before[top] = frozenset({"inner"})
                    end.add(("loop", top))

                def operation(v):
                    if v[0] == "call" and v[1] == meth:
                        return v[2]
                    if v[0] == "bin" and v[1] == cls:
                        return v[2:]
                    return None

                for b in fl.reachable():
                    blk = fl.blocks[b]
                    for s in blk.s:
                        if s[0] == "=" and any(x[0] in ("*", "i", "c") for x in s[1][1]):
                            d = canon(E.place(s[1]))
                            if d[0] == "f" and d[1] in (("arg", 1), ("arg", 2), ("arg", 3)):
                                continue
                            a = operation(canon(E.rvalue(s[2])))
                            if a is None:
                                bad.append(("operator", f"a sample is not computed by {meth}"))
                            else:
                                found(id(s), d, a)
                    t = blk.t
                    if t[0] == "call":
                        nm = last(F, t[1])
                        a = [canon(E.op(x)) for x in t[2]]
                        if nm.endswith("_assign") and a:
                            if nm != meth + "_assign":
                                bad.append(("operator", f"a sample is not computed by {meth}"))
                            else:
                                found(b, a[0], a)
                        elif any(x[0] in ("*", "i", "c") for x in t[3][1]):
                            if nm != meth:
                                bad.append(("operator", f"a sample is not computed by {meth}"))
                            else:
                                found(b, canon(E.place(t[3])), a)
                if len(end) != 2 and not bad:
                    bad.append(("effect", "the samples of the output are not changed"))
            if "inner" not in {x[1] for x in do.values()}:
                bad.append(("inner", f"the node's {m} is not called"))
            wk = Walker(fl, E)
            vs = [(x, []) for x in bad] or wk.run(Nest(wk, S, do, loops, frozenset(end), before), Nest.INIT)
            report(ctx, "effect", f"{w.name}.{m}", f, fl, vs, wk if not bad else None,
                   "output of the node" + (f", then {eff[1]} once per sample" if eff else ""))
    ctx.floor("effect", n, 22)


NOPROC = lambda f, x: QUIET(f, x) and not x.get("p", "").endswith(("::process", "::next_value"))
FRAMES = ("f", ("f", A2, "block"), "frames_to_process")


class Where:
    """Positions and elements of the loops of a function."""

    def __init__(self, F, S, E):
        self.S, self.E = S, E
        self.site = {canon(E.place(s.call[3])): b for b, s in S.at.items() if s.call is not None}
        self.idx = {canon(s.idx): b for b, s in S.at.items() if s.idx is not None}

    def end(self, b):
        s = self.S.at[b]
        if s.call is None:
            return canon(s.end) if s.start == ("k", 0) else None
        r = segs(strip_it(canon(s.it)))
        return r[0][1] if r and r[0][0] == "range" else None

    def pos(self, e):
        """The counting loop from 0 whose position e is."""
        b = self.idx.get(uncast(e))
        return b if b is not None and self.end(b) is not None else None

    def elem(self, e):
        """(loop, container, what is left of e) when e is (part of) an element of a container, or its position ('index')."""
        x, left = e, []
        while x[0] == "f" and payload(x) is None:
            x, left = x[1], [x[2]] + left
        c = payload(x)
        if c in self.site and self.site[c] in self.S.pops:
            return self.site[c], strip_it(c[2][0]), left
        n = nextcall(e)
        if n not in self.site:
            return None
        d = decode(e)
        return (self.site[n], d[0], d[1]) if d else None


def slot(W, e):
    """(container, loop, index or None) of an indexed place, or of the element a loop over a container is at."""
    d = at_(e)
    if d is not None:
        return d[0], W.pos(d[1]), uncast(d[1])
    x = W.elem(e)
    if x is not None and x[2] == [] and x[1] != ("index",):
        return x[1], x[0], None
    return None


def same_pos(W, i, e):
    """e is the position of the loop i."""
    x = W.elem(uncast(e))
    return W.pos(e) == i or x is not None and x[0] == i and x[1] == ("index",) and x[2] == []


def at_(e):
    """(container, index) of an indexed place."""
    if e[0] == "[]":
        return strip_it(e[1]), e[2]
    if e[0] == "call" and e[1] in ("index", "index_mut") and len(e[2]) == 2:
        return strip_it(e[2][0]), e[2][1]
    return None


def usize(t, n):
    return ("k", f"const <<{t} as knaster_core::ugen::UGen>::{n} as typenum::marker_traits::Unsigned>::USIZE")


def p11_frames(ctx):
    """Frame by frame processing: for each frame, all inputs are read, the frame is processed, all outputs are written."""
    F, g = anchors(ctx)
    n = 0
    targets = [(F.fn[UG + "process_block"], "UGen", usize("Self", "Inputs"), usize("Self", "Outputs"))]
    for w in wrappers(F):
        if w.name == "WrArParamToInput" and method(F, w, "process_block"):
            targets.append((method(F, w, "process_block"), w.name,
                            ("k", f"const <{w.types['Inputs']} as typenum::marker_traits::Unsigned>::USIZE"), size(w, "Outputs")))
    for f, name, NI, NO in targets:
        n += 1
        fl, E = flatten(ctx, f, NOPROC)
        S = Sites(g, fl, E, any_end=True)
        W = Where(F, S, E)
        bad, do, loops, before, end = [], {}, {}, {}, set()
        procs = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "process"]
        if len(procs) != 1:
            bad.append(("process", "the node is not called once per frame"))
        else:
            pb = procs[0]
            a = [canon(E.op(x)) for x in fl.blocks[pb].t[2]]
            out = canon(E.place(fl.blocks[pb].t[3]))
            if a[:3] != [A1, A2, A3]:
                bad.append(("arguments", "the node is not given the context and flags"))
            frames = set()
            for b in fl.reachable():
                for s in fl.blocks[b].s:
                    if s[0] == "=" and any(x[0] in ("*", "i", "c") for x in s[1][1]):
                        d, v = slot(W, canon(E.place(s[1]))), canon(E.rvalue(s[2]))
                        if d is None or d[0] != a[3] or not (v[0] == "call" and v[1] == "read"):
                            bad.append(("input", "something else than the input is written to the frame"))
                            continue
                        i, fr = d[1], W.pos(v[2][2])
                        if v[2][0] != A4 or i is None or not (uncast(v[2][1]) == d[2] and W.end(i) == NI or d[2] is None and same_pos(W, i, v[2][1])) or fr is None:
                            bad.append(("input", "a frame is not put together from the inputs of the same index, at the same time"))
                            continue
                        frames.add(fr)
                        do[id(s)] = (i, "read", frozenset())
                        loops[i] = (fr, frozenset({"read"}))
                        do[pb] = (fr, "process", frozenset({("loop", i)}))
                t = fl.blocks[b].t
                if t[0] == "call" and last(F, t[1]) == "write":
                    x = [canon(E.op(y)) for y in t[2]]
                    v = slot(W, x[1])
                    o, fr = v and v[1], W.pos(x[3])
                    if x[0] != A5 or v is None or v[0] != out or o is None or not (
                            v[2] == uncast(x[2]) and W.end(o) == NO or v[2] is None and same_pos(W, o, x[2])) or fr is None:
                        bad.append(("output", "the outputs of a frame are not written to the outputs of the same index, at the same time"))
                        continue
                    frames.add(fr)
                    do[b] = (o, "write", frozenset())
                    loops[o] = (fr, frozenset({"write"}))
                    before[o] = frozenset({"process"})
            if len(frames) != 1 or len(loops) != 2:
                bad.append(("frames", "not all of the inputs and outputs are handled per frame"))
            else:
                fr = frames.pop()
                if W.end(fr) != FRAMES:
                    bad.append(("length", "not all frames of the block are processed"))
                loops[fr] = (None, frozenset({"process"} | {("loop", l) for l in loops}))
                end.add(("loop", fr))
        wk = Walker(fl, E)
        vs = [(x, []) for x in bad] or wk.run(Nest(wk, S, do, loops, frozenset(end), before), Nest.INIT)
        report(ctx, "frames", name, f, fl, vs, None if bad else wk, "each frame: read all inputs, process, write all outputs")
    ctx.floor("frames", n, 2)


def reads_of(fl, E, fr):
    """(block, position) of the statements that read the place fr."""
    out = set()

    def ops(x):
        if isinstance(x, tuple):
            if len(x) >= 2 and isinstance(x[0], int) and isinstance(x[1], tuple) and x[1] and all(isinstance(y, tuple) for y in x[1]):
                yield x
            for y in x:
                yield from ops(y)
        elif isinstance(x, list):
            for y in x:
                yield from ops(y)
    for b in fl.reachable():
        for i, s in enumerate(fl.blocks[b].s):
            if s[0] == "=" and any(canon(E.place(p)) == fr for p in ops(s[2])):
                out.add((b, i))
        t = fl.blocks[b].t
        if any(canon(E.place(p)) == fr for x in t[1:3] for p in ops(x if isinstance(x, (tuple, list)) else ())):
            out.add((b, len(fl.blocks[b].s)))
    return out


def later(fl, b, s, loads):
    """One of the reads can happen after the statement."""
    i = next(k for k, x in enumerate(fl.blocks[b].s) if x is s)
    if any(c == b and k > i for c, k in loads):
        return True
    seen, st = set(), list(fl.succ(b))
    while st:
        c = st.pop()
        if c in seen:
            continue
        seen.add(c)
        if any(x == c and (c != b or k != i) for x, k in loads):
            return True
        st += fl.succ(c)
    return False


def p11_before(ctx):
    """What the parameter wrappers do before the node processes a frame."""
    F, g = anchors(ctx)
    n = 0
    for w in wrappers(F):
        if w.name not in ("WrArParams", "WrPreciseTiming", "WrSmoothParams", "WrArParamToInput"):
            continue
        f = method(F, w, "process")
        n += 1
        fl, E = flatten(ctx, f, NOPROC)
        S = Sites(g, fl, E, any_end=True)
        W = Where(F, S, E)
        bad, do, loops, before, end = [], {}, {}, {}, {"process"}
        dues = {}
        P = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and (F.insts[fl.blocks[b].t[1]].get("p") or "").startswith(UG)]
        procs = [b for b in P if last(F, fl.blocks[b].t[1]) == "process"]
        if len(procs) != 1 or canon(E.place(fl.blocks[procs[0]].t[3])) != canon(E.local(fl.retlocal)):
            bad.append(("process", "the frame is not processed by the node once, giving the result"))
        else:
            pa = [canon(E.op(x)) for x in fl.blocks[procs[0]].t[2]]
            if pa[:3] != [w.inner, A2, A3] or w.name != "WrArParamToInput" and pa[3] != A4:
                bad.append(("arguments", "the node is not given the context, flags and input of the wrapper"))
        for b in P:
            t = fl.blocks[b].t
            if last(F, t[1]) != "param_apply":
                continue
            a = [canon(E.op(x)) for x in t[2]]
            val = a[3][3][0][1] if a[3][0] == "agg" and a[3][2] == "Float" else a[3]
            if a[0] != w.inner or a[1] != A2:
                bad.append(("parameter", "a parameter is not set on the node"))
                continue
            if w.name == "WrArParamToInput":
                x = val[2][0] if val[0] == "call" and val[1] == "to_f64" else uncast(val)
                while x[0] == "cast" or x[0] == "call" and x[1] == "to_f64":
                    x = x[2] if x[0] == "cast" else x[2][0]
                v = at_(x)
                if v != (A4, size(w, "Inputs")) or not (a[2][0] == "k" and "ParamIndex" in str(a[2][1])):
                    bad.append(("parameter", "the parameter is not set to the added input"))
                do[b] = (None, "set", frozenset())
                end.add("set")
                continue
            ent = None   # (loop, container, entry expression)
            for x in walk(val if w.name != "WrPreciseTiming" else a[3]):
                p = x[2][0] if x[0] == "call" and x[1] in ("take", "next_value") and x[2] else payload(x)
                el = W.elem(p) if p is not None else None
                if el and el[2] == [] and el[1][0] == "f" and el[1][1] == A1:
                    ent = (el[0], el[1], p, x)
                    break
                z = at_(p) if p is not None else None
                if z and z[0][0] == "f" and z[0][1] == A1 and W.pos(z[1]) is not None:
                    ent = (W.pos(z[1]), z[0], p, x)
                    break
            if ent is None:
                bad.append(("value", "a parameter is set to something else than what the wrapper keeps for it"))
                continue
            l = ent[0]
            if w.name == "WrPreciseTiming":
                tup = {y for y in (a[2][1] if a[2][0] == "f" else None, a[3][1] if a[3][0] == "f" else None)}
                if len(tup) != 1 or (a[2][2], a[3][2]) != ("1", "2"):
                    bad.append(("value", "parameter and value are not those of one kept change"))
            else:
                ix = W.elem(a[2])
                if not (ix and ix[0] == l and ix[1] == ("index",) or W.pos(a[2]) == l):
                    bad.append(("index", "the parameter set is not the one the value is kept for"))
                elif w.name == "WrArParams":
                    v = val
                    while v[0] == "cast" or v[0] == "call" and v[1] in ("to_f64", "new"):
                        v = v[2] if v[0] == "cast" else v[2][0]
                    if not (v[0] == "call" and v[1] == "add" and payload(v[2][0]) == ent[2] and v[2][1][0] == "f" and v[2][1][1] == A1):
                        bad.append(("value", "the value is not read from the parameter's buffer at the current frame"))
                    else:
                        dues["frame"] = v[2][1]
                elif w.name == "WrSmoothParams" and not (payload(val) is not None and payload(val)[0] == "call" and payload(val)[1] == "next_value"):
                    bad.append(("value", "the value is not the next one of the smoothing"))
            do[b] = (l, "set", frozenset())
            loops[l] = (None, frozenset())
            end.add(("loop", l))
            dues[l] = {ent[2], ent[3], ("call", "take", (ent[2],))}
        if w.name == "WrArParamToInput":
            for b in fl.reachable():
                for s in fl.blocks[b].s:
                    if s[0] == "=" and any(x[0] in ("*", "i", "c") for x in s[1][1]):
                        d, v = at_(canon(E.place(s[1]))), at_(canon(E.rvalue(s[2])))
                        i = W.pos(d[1]) if d else None
                        if not d or not v or d[0] != pa[3] or v[0] != A4 or i is None or uncast(v[1]) != uncast(d[1]) or W.end(i) != size(w, "Inputs"):
                            bad.append(("input", "the node is not given the inputs before the added one"))
                            continue
                        do[id(s)] = (i, "copy", frozenset())
                        loops[i] = (None, frozenset({"copy"}))
                        end.add(("loop", i))
        elif not loops:
            bad.append(("parameter", "the parameters are not set before the node processes the frame"))
        if w.name == "WrArParams" and not bad:
            fr = dues.get("frame")
            adv = []
            loads = reads_of(fl, E, fr)
            for b in fl.reachable():
                for s in fl.blocks[b].s:
                    if s[0] == "=" and s[1][1] and canon(E.place(s[1])) == fr:
                        v = canon(E.rvalue(s[2]))
                        inc, bs = ("bin", "Add", fr, ("k", 1)), ("f", A2, "block_size")
                        if not later(fl, b, s, loads):
                            # the position was read before: moving it on changes nothing for this frame
                            need = set()
                        else:
                            need = {x for x in end if x != "process"}
                        if v == inc:
                            do[id(s)] = (None, "add", frozenset(need))
                        elif v in (("bin", "Rem", inc, bs), ("bin", "Rem", fr, bs)):
                            do[id(s)] = (None, "advance", frozenset(need | ({"add"} if v[2] == fr else set())))
                            adv.append(1)
                        else:
                            bad.append(("frame", "the position in the buffers does not advance by one frame, starting over with each block"))
            end.add("advance")
            if not adv:
                bad.append(("frame", "the position in the buffers does not advance"))
        if not bad:
            do[procs[0]] = (None, "process", frozenset(x for x in end if x not in ("process", "advance")))

        def due(fct, dues=dues):
            if fct[0] == "is" and fct[2] == "Some":
                for l, xs in dues.items():
                    if l != "frame" and fct[1] in xs:
                        return l, "set"
            return None

        wk = Walker(fl, E)
        vs = [(x, []) for x in bad] or wk.run(Nest(wk, S, do, loops, frozenset(end), before, due), Nest.INIT)
        report(ctx, "before", w.name, f, fl, vs, None if bad else wk, "parameters are set, then the node processes the frame")
    ctx.floor("before", n, 4)


def p11_tables(ctx):
    """Names and hints of parameters: those of the wrapped node at the same index, the wrapper's own one after them."""
    F, g = anchors(ctx)
    n = 0
    want = inner_call(F)
    for w in wrappers(F):
        for m in ("param_descriptions", "param_hints"):
            f = method(F, w, m)
            if f is None:
                continue  # reported by pass-on
            n += 1
            fl, E = flatten(ctx, f, QUIET)
            src = set()
            bad = []
            for b in fl.reachable():
                t = fl.blocks[b].t
                if t[0] == "call" and want(t):
                    ty = F.insts[t[1]].get("a") or []
                    if want(t) != m or t[2]:
                        bad.append(("other", f"{want(t)} is called for {m}"))
                    src.add(canon(E.place(t[3])))
            if not src:
                bad.append(("source", "the table of the wrapped node is not used"))
            if not w.adds_param:
                def at(facts, eff, v, var, src=src):
                    if v not in src or any(e[0] == "write" and e[1][0] != "loc" for e in eff):
                        return "table", "the table is not that of the wrapped node"
                vs = [(x, []) for x in bad] or ordered(ctx, fl, E, want, at, purge=False)
                report(ctx, "tables", f"{w.name}.{m}", f, fl, vs, None, "the table of the wrapped node")
                continue
            S = Sites(g, fl, E, any_end=True)
            W = Where(F, S, E)
            P = size(w, "Parameters")
            ret = strip_it(canon(E.local(fl.retlocal)))
            do, loops, end = {}, {}, {"own"}
            for b in fl.reachable():
                for s in fl.blocks[b].s:
                    if not (s[0] == "=" and any(x[0] in ("*", "i", "c") for x in s[1][1])):
                        continue
                    p, v = canon(E.place(s[1])), canon(E.rvalue(s[2]))
                    d, e = at_(p), W.elem(p)
                    if d and d[0] == ret and uncast(d[1]) == P and not any(x in src for x in walk(v)):
                        do[id(s)] = (None, "own", frozenset())
                        continue
                    x = W.elem(d[1]) if d and d[0] == ret and W.pos(d[1]) is None else None
                    by = e is not None and e[1] == ret and not e[2]  # the loop runs over the result itself
                    i = (W.pos(d[1]) if x is None else x[0] if x[1] == ("index",) else None) if d and d[0] == ret else e[0] if by else None
                    if i is None:
                        if d or e:
                            bad.append(("place", "an entry is written that is neither the node's nor the wrapper's own"))
                        continue
                    d2, e2 = at_(v), W.elem(v)
                    j = W.pos(d2[1]) if d2 and d2[0] in src else e2[0] if e2 and e2[1] in src and not e2[2] else None
                    if i != j or not by and x is None and W.end(i) != P:
                        bad.append(("entry", "the entries are not those of the node's parameters of the same index"))
                        continue
                    do[id(s)] = (i, "entry", frozenset())
                    loops[i] = (None, frozenset({"entry"}))
                    end.add(("loop", i))
            if not loops:
                bad.append(("entries", "the entries of the node's parameters are not passed on"))
            wk = Walker(fl, E)
            vs = [(x, []) for x in bad] or wk.run(Nest(wk, S, do, loops, frozenset(end)), Nest.INIT)
            report(ctx, "tables", f"{w.name}.{m}", f, fl, vs, None if bad else wk, "the node's entries at their index, then the wrapper's own")
    ctx.floor("tables", n, 28)


DYN = "knaster_graph::dynugen::DynUGen::"


def boxed(e):
    """What a box refers to, however it is asked for."""
    if e[0] == "f" and e[1][0] == "v" and e[1][2] == "Dyn":
        return ("f", e, "0")
    return ("f", e[2][0], "0") if e[0] == "call" and e[1] in ("as_mut", "as_ref", "deref", "deref_mut") and len(e[2]) == 1 else e


def p11_dyn(ctx):
    """The type erased node: what is asked of it reaches the node itself."""
    F, g = anchors(ctx)
    n = 0
    impls = [i for i in F.impls if i.get("trait") == DYN[:-2]]
    if len(impls) != 2:
        raise Missing("implementations of DynUGen")
    for i in impls:
        items = {x[0]: x[1] for x in i["items"]}
        enum = bool(i.get("adt"))
        for m in ("init", "process_block", "inputs", "outputs", "parameters", "set_ar_param_buffer", "set_delay_within_block_for_param",
                  "param_apply", "param_description_fn", "param_hints_fn"):
            f = F.fn.get(items.get(m))
            if f is None or "inst" not in f:
                raise Missing(f"DynUGen::{m}")
            n += 1
            fl, E = flatten(ctx, f, QUIET)
            nargs = fl.nargs

            def want(t, enum=enum):
                p = F.insts[t[1]].get("p") or ""
                return p if p.startswith(DYN if enum else UG) else None

            def at(facts, eff, v, var, m=m, enum=enum, nargs=nargs):
                calls = [x for x in eff if x[0] == "call"]
                if any(x[0] == "write" for x in eff):
                    return "write", "something is changed besides"
                node = A1
                if enum:
                    kind = [x[2] for x in facts if x[0] == "is" and x[1] == A1]
                    if kind != ["Dyn"]:
                        if m == "process_block":
                            return "dropped", "a block is skipped silently"
                        if calls or v[0] == "k" and v[1] not in (0, "()") or m.endswith("_fn") and not nothing(v):
                            return "empty", "something other than nothing is answered where there is no node"
                        return None
                    node = ("f", ("f", ("v", A1, "Dyn"), "0"), "0")
                elif m in ("inputs", "outputs", "parameters"):
                    if calls or v != ("k", f"const <<T as knaster_core::ugen::UGen>::{m.capitalize()} as typenum::marker_traits::Unsigned>::U16"):
                        return "size", f"the number of {m} is not that of the node"
                    return None
                elif m.endswith("_fn"):
                    return table(v, "param_descriptions" if m == "param_description_fn" else "param_hints")
                p = (DYN if enum else UG) + m
                want_args = (node,) + tuple(("arg", k) for k in range(2, nargs + 1))
                if [(x[1], tuple(map(boxed, x[2]))) for x in calls] != [(p, want_args)]:
                    return "call", f"{m} of the node is not called once with the arguments given"
                if m in ("inputs", "outputs", "parameters") or m.endswith("_fn"):
                    if v[0] == "call":
                        v = (v[0], v[1], tuple(map(boxed, v[2])))
                    if v != ("call", m, want_args):
                        return "result", f"the result is not that of the node's {m}"
                return None

            def closure(v, fl=fl):
                for b in fl.reachable():
                    for s in fl.blocks[b].s:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and v[0] == "agg" and v[1] == "closure:" + s[2][1][2]:
                            return {"path": s[2][1][2], "inst": s[2][1][1]}
                h = F.fn.get(v[1]) if v[0] in ("fn", "k") else None
                return h if h is not None and "inst" in h else None

            none = lambda r: r[0] == "agg" and r[2] == "None"

            def nothing(v):
                h = closure(v)
                if h is None:
                    return False
                l, X = flatten(ctx, h, QUIET)
                return not ordered(ctx, l, X, lambda t: None, lambda fs, ef, r, k: None if none(r) or k == "None" else ("entry", "an entry without a node"), purge=False)

            def table(v, name):
                h = closure(v)
                if h is None:
                    return "table", "the function that looks up an entry was not found"
                l, X = flatten(ctx, h, QUIET)
                idx = A2 if l.nargs == 2 else A1
                src = ("call", name, ())

                def entry(fs, ef, r, k):
                    if [x[1] for x in ef if x[0] == "call"] != [UG + name]:
                        return "source", f"the entry is not looked up in the node's {name}"
                    got = ("call", "get", (src, idx))
                    if r in (got, ("call", "copied", (got,)), ("call", "cloned", (got,))):
                        return None
                    x = some(r)
                    if x is not None and (at_(x) == (src, idx) or payload(x) == got):
                        return None
                    if (k == "None" or none(r)) and (("is", got, "None") in fs or any(
                            q[0] == "Le" and q[2] == idx and (q[1] == ("call", "len", (src,)) or "Parameters" in str(q[1])) for q in fs)):
                        return None
                    return "entry", "the entry is not the one at the index asked for"

                return next((x[0] for x in ordered(ctx, l, X, want, entry, purge=False)), None)

            vs = ordered(ctx, fl, E, want, at, purge=False)
            report(ctx, "dyn", f"{'enum' if enum else 'node'}.{m}", f, fl, vs, None, "reaches the node with its arguments")
    ctx.floor("dyn", n, 20)


EXT = "knaster_core_dsp::wrappers_core::UGenWrapperCoreExt"


def empty(e):
    return e == ("k", 0) or e[0] == "call" and e[1] == "default" and not e[2] or e[0] == "agg" and e[2] == "None" or \
        e[0] == "repeat" and empty(e[1])


def p11_make(ctx):
    """The extension methods: the wrapper holds the node it is called on and the value given; nothing is waiting in it."""
    F, g = anchors(ctx)
    ws = {w.path: w for w in wrappers(F)}
    n = 0
    for i in [i for i in F.impls if i.get("trait") == EXT]:
        for name, path, *_ in i["items"]:
            f = F.fn.get(path)
            if f is None or "inst" not in f:
                raise Missing(f"{EXT}::{name}")
            n += 1
            fl, E = flatten(ctx, f, WS)
            nargs = fl.nargs

            def at(facts, eff, v, var, nargs=nargs):
                w = ws.get(v[1]) if v[0] == "agg" else None
                if w is None:
                    return "wrapper", "the result is not a wrapper of the node"
                d = dict(v[3])
                if d.get(w.field) != A1:
                    return "node", "the node wrapped is not the one given"
                own = {k: x for k, x in d.items() if k != w.field}
                for a in [("arg", k) for k in range(2, nargs + 1)]:
                    if a not in own.values():
                        return "value", "the value given is not kept"
                if any(x[0] != "arg" and not empty(x) for x in own.values()):
                    return "state", "the wrapper starts with something waiting"
                return None

            report(ctx, "make", name, f, fl, ordered(ctx, fl, E, lambda t: None, at, purge=False), None, "wraps the node, with the value given")
    ctx.floor("make", n, 12)
