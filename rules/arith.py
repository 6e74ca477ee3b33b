"""P14: arithmetic on handles computes what it says."""
from lists import *
from foreach import index_of

OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "pow": "Pow"}
MATH = "knaster_core_dsp::ugens::math::"


def undyn(e):
    """The handle whose channels are iterated; `dynamic` keeps them (handle-channels)."""
    while e[0] == "call" and e[1] == "dynamic" and e[2]:
        e = e[2][0]
    return e


def pushed(e):
    """The site of the push_internal call when e is the id of the node it made (raw expression)."""
    for _ in range(12):
        if e[0] in ("&", "*", "f"):
            e = e[1]
        elif e[0] == "cast":
            e = e[2]
        elif e[0] == "call":
            n = e[1].split("::")[-1]
            if n == "push_internal":
                return e[3]
            if n in ("node_id", "id", "into", "from", "clone", "node") and e[2]:
                e = e[2][0]
            else:
                return None
        elif e[0] == "agg" and e[2] == "Node" and len(e[3]) == 1:
            e = e[3][0][1]
        elif e[0] == "agg" and e[1].endswith("::NodeId"):
            k = dict(e[3]).get("key")
            if k is None:
                return None
            e = k
        else:
            return None
    return None


def expr_policy(g):
    stop = {m["path"] for m in g.methods.values()}
    END = ("::next", "::iter_outputs", "::iter_inputs", "::push", "::into_channel_iter", "::outputs", "::inputs", "::dynamic", "::into_f", "::push_internal", "::node_id")

    def policy(f, x):
        if not x.get("ws", False):
            return False
        p = x.get("p", "")
        if p.endswith("::dynamic"):
            return "H::<" in p and "Handle3" not in p    # the methods of SH and DH, not those of the handles
        return p not in stop and not p.endswith(END) and not p.startswith("knaster_core_dsp::ugens::util::Constant")
    return policy


def p14_expr(ctx):
    F, g = anchors(ctx)
    ops = {m["path"]: m["name"] for m in g.methods.values()}
    n = 0
    kinds = {}
    for f in F.fns:
        name, path = f["name"], f["path"]
        if name not in OPS or not path.startswith(("<knaster_graph::graph_edit::", "knaster_graph::graph_edit::")):
            continue
        if name == "pow" and not path.startswith(("knaster_graph::graph_edit::SH::<", "knaster_graph::graph_edit::DH::<")):
            continue
        if name != "pow" and f"core::ops::arith::{OPS[name]}<" not in path:
            continue
        n += 1
        op = OPS[name]
        fl, E = flatten(ctx, f, expr_policy(g))
        S = Sites(g, fl, E)
        ty = {k: F.types[fl.ltypes[k]]["s"] for k in (1, 2)}
        handle = {k: "graph_edit::SH<" in ty[k] or "graph_edit::DH<" in ty[k] for k in (1, 2)}
        makes = {}
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "call" and (F.insts[t[1]].get("p") or "").endswith("::push_internal"):
                tys = [F.types[a]["s"] for a in F.insts[t[1]].get("a", []) if isinstance(a, int)]
                makes[b] = tys[-1] if tys else ""
        site = {canon(E.place(s.call[3])): b for b, s in S.at.items() if s.call is not None}

        def is_math(b):
            return "math::MathUGen<" in makes.get(b, "")

        def operand(a, raw):
            """(which operand, loop) the source of a connection is, or a message"""
            ps = pushed(raw[1])
            if ps is not None and ps in makes and "util::Constant<" in makes[ps]:
                t = fl.blocks[ps].t
                v = canon(E.op(t[2][1]))
                if v[0] == "call" and v[1] == "new" and len(v[2]) == 1:
                    v = v[2][0]
                if v[0] == "call" and v[1] == "into_f":
                    x = strip_conv(v[2][0])
                    if x in (A1, A2) and not handle[x[1]]:
                        if a[2] != ("k", 0):
                            return "another channel than the only one of the constant is used"
                        return x[1], None
                return "the constant used is not the number given"
            n0 = nextcall(a[1])
            if n0 in site:
                x, y = decode(a[1]), decode(a[2])
                if x and y and nextcall(a[2]) == n0 and x[0] == y[0] and (x[1], y[1]) == (["0"], ["1"]) and x[0][0] == "call" and x[0][1] == "iter_outputs":
                    h = undyn(x[0][2][0])
                    for k in (1, 2):
                        if h == fld(("arg", k), "nodes") or h == ("arg", k):
                            if k in handle and handle[k]:
                                return k, site[n0]
            return "an input of the operation is not an output of an operand"

        extra, need = {}, {}
        loops = set()
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "call" and F.insts[t[1]].get("p") in ops:
                o = ops[F.insts[t[1]]["p"]]
                if o.startswith(("connect", "disconnect", "free")):
                    raw = [E.op(x) for x in t[2]]
                    a = [canon(x) for x in raw]
                    if o != "connect2":
                        extra[b] = ("bad", "operation", f"operands are connected by {o}")
                        continue
                    k = operand(a, raw)
                    m = pushed(raw[4])
                    if isinstance(k, str):
                        extra[b] = ("bad", "operand", k)
                    elif not any(("f", ("arg", q), "graph") in list(walk(a[0])) for q in (1, 2)):
                        extra[b] = ("bad", "graph", "the operation is not made in the graph of the operands")
                    elif m is None or not is_math(m):
                        extra[b] = ("bad", "sink", "an operand is not connected to the arithmetic node")
                    elif uncast(a[3]) != ("k", k[0] - 1):
                        extra[b] = ("bad", "operand order", f"the {'left' if k[0] == 1 else 'right'} operand is connected to input {uncast(a[3])[1] if uncast(a[3])[0] == 'k' else uncast(a[3])}")
                    else:
                        extra[b] = ("tok", k, m)
                        if k[1] is not None:
                            loops.add(k[1])
        bad = None
        if len(loops) != 1:
            bad = [x for x in extra.values() if x[0] == "bad"][:1] or [("bad", "loop", "the channels of the operands are not combined one by one")]
        L = next(iter(loops)) if loops else None
        for b, x in list(extra.items()):
            if x[0] == "tok":
                extra[b] = ("do", L, ("in", x[1][0], x[2]))
        for b in makes:
            if is_math(b):
                extra[b] = ("do", L, ("made", b))
                if not makes[b].rstrip(">").split("::")[-1].split(",")[-1].strip() == op and not makes[b].endswith(f"math::{op}>"):
                    extra[b] = ("bad", "operator", f"the operation made is not {op} ({makes[b][-60:]})")
        maths = [b for b in makes if is_math(b)]
        need[L] = {("in", 1, m) for m in maths} | {("in", 2, m) for m in maths} | {("made", m) for m in maths}

        def describe(m, a):
            r = m.raw
            if len(r) == 1 and r[0][0] == "agg" and r[0][1] == "tuple":
                r = [x for _, x in r[0][3]]
            if len(r) == 2 and node_of(canon(r[0])) is not None:
                p = pushed(r[0])
                if p in maths and canon(r[1]) == ("k", 0):
                    return L, [("op", p)]
            return None

        ps = {p[-1:]: x for p, x in parts(E.local(fl.retlocal)) if p and p[-1] in ("channels", "in_channels", "out_channels")}
        w = Walker(fl, E)

        def spec(st, env, ps=ps, maths=maths):
            out = ps.get(("channels",)) or ps.get(("out_channels",))
            l = listed(out) if out is not None else ("expr", None)
            if l[0] != "list" or dict(st[1]).get(l, ()) != tuple(("op", m) for m in maths) or len(maths) != 1:
                return "result", "the outputs of the result are not those of the arithmetic nodes, in order"
            if ("in_channels",) in ps:
                l = listed(ps[("in_channels",)])
                if l[0] != "list" or dict(st[1]).get(l, ()) != ():
                    return "result inputs", "the result has inputs of its own"
            return None

        if bad:
            vs = [((bad[0][1], bad[0][2]), [])]
        else:
            m = Lists(w, S, fl, E, F, describe=describe, extra=extra, need=need, spec=spec)
            vs = w.run(m, Lists.INIT)
            ctx.states += w.nstates
        sg = (short_ty(ty[1]), short_ty(ty[2]))
        kinds.setdefault(sg, set()).add(op)
        done = set()
        for (k, msg), path_ in vs:
            if k not in done:
                done.add(k)
                ctx.viol("handle-arithmetic", f"{sg[0]} {name} {sg[1]}: {k}", f"{path}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path_))
        if not vs:
            ctx.ok("handle-arithmetic", path, f"{op}(left, right) for each channel")
    # SH, DH with each other (4 + pow) and with four kinds of numbers on either side
    ctx.floor("handle-arithmetic", n, 82)
    ctx.notes.append("operand combinations: " + ", ".join(f"{a}×{b}:{len(v)}" for (a, b), v in sorted(kinds.items())))


def short_ty(s):
    return "SH" if "graph_edit::SH<" in s else "DH" if "graph_edit::DH<" in s else s


# ------------------------------------------------------------------------------------------------ numbers
def p14_number(ctx):
    """A number given as an operand keeps its value: every conversion maps each variant to the same number."""
    F, g = anchors(ctx)
    n = 0
    CN = "knaster_graph::graph_edit::ConstantNumber"
    kinds = set()
    for f in F.fns:
        p = f["path"]
        if "ConstantNumber" not in p or f["name"] not in ("into_f", "from"):
            continue
        n += 1
        fl, E = flatten(ctx, f, lambda a, x: x.get("ws", False) and x.get("p", "").startswith("knaster_graph"))
        V = {"F32": "f32", "F64": "f64", "Usize": "usize", "I32": "i32"}
        into_num = f["name"] == "into_f" or "for f32>" in p or "for f64>" in p or "for f32 " in p

        raws = [E.op(o) for b in fl.reachable() if fl.blocks[b].t[0] == "call" for o in fl.blocks[b].t[2]] + [E.local(fl.retlocal)]

        def at(facts, eff, v, var, p=p, f=f, into_num=into_num):
            if v[0] == "agg" and v[1].startswith(CN):
                ty = F.types[fl.ltypes[1]]["s"]
                if V.get(v[2]) != ty or v[3][0][1] != A1:
                    return "variant", f"{ty} is not stored as it is"
                kinds.add(("make", v[2]))
                return None
            # conversion of a variant
            vs = {q[2] for q in facts if q[0] == "is" and q[1] == A1 and q[2] in V}
            x = v

            while True:
                if x[0] == "cast":
                    x = x[2]
                elif x[0] == "call" and x[1] in ("new", "from_usize", "from", "into", "to_f32", "to_f64") and len(x[2]) == 1:
                    x = x[2][0]
                else:
                    break
            if not (x[0] == "f" and x[1][0] == "v" and x[1][1] == A1 and x[1][2] in V and (not vs or x[1][2] in vs)):
                return "value", "the number is not the one given"
            if "for f32" not in p and any(c[0] == "cast" and c[3] == "f32" for y in raws for c in walk(y)):
                return "precision", "the number goes through a type that cannot hold it"
            kinds.add((f["name"], x[1][2]))
            return None

        vs = summarise(ctx, fl, E, lambda t: None, at)
        for (k, msg), path in vs[:1]:
            ctx.viol("number", f"{p.split('graph_edit::')[-1]}: {k}", f"{p}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
        if not vs:
            ctx.ok("number", p, "")
    ctx.floor("number", n, 7)
    ctx.floor("number-variants", len(kinds), 8)


# ------------------------------------------------------------------------------------------------ arithmetic nodes
BIN = {"Add": {"add"}, "Sub": {"sub"}, "Mul": {"mul"}, "Div": {"div"}, "Pow": {"powf"}, "Ceil": {"ceil"}, "Sqrt": {"sqrt"}, "Floor": {"floor"},
       "Trunc": {"trunc"}, "Fract": {"fract"}, "Exp": {"exp"}}


class Elems:
    """What an expression of a function over slices denotes: (argument, loop) for the element of an argument at the position of a loop."""

    def __init__(self, S, E):
        self.S, self.E = S, E
        self.site = {canon(E.place(s.call[3])): b for b, s in S.at.items() if s.call is not None}
        self.count = {canon(s.idx): b for b, s in S.at.items() if s.call is None}

    def loop_of(self, i):
        """The loop whose position i is (starting at the first element)."""
        i = uncast(i)
        if i in self.count and self.S.at[self.count[i]].start == ("k", 0):
            return self.count[i]
        n = nextcall(i)
        if n in self.site:
            d = decode(i)
            if d == (("index",), []) or d and d[1] == [] and (segs(d[0]) or [("",)])[0][0] == "range":
                return self.site[n]
        return None

    def end_of(self, b):
        """What the loop runs up to, when it counts."""
        s = self.S.at[b]
        if s.call is None:
            return canon(s.end)
        it = strip_it(canon(s.it))
        r = segs(it)
        return r[0][1] if r and r[0][0] == "range" else None

    def elem(self, e):
        n = nextcall(e)
        if n in self.site:
            d = decode(e)
            if d and d[1] == [] and d[0][0] == "arg":
                return d[0][1], self.site[n]
        x = None
        if e[0] == "[]":
            x = e[1], e[2]
        elif e[0] == "call" and e[1] == "index" and len(e[2]) == 2:
            x = e[2]
        if x and strip_it(x[0])[0] == "arg":
            b = self.loop_of(x[1])
            if b is not None:
                return strip_it(x[0])[1], b
        return None


def over(b, el, names):
    """The loop covers whole slices: it zips them, or counts up to the length of one of them."""
    end = el.end_of(b)
    if end is None:
        return True
    return end[0] == "call" and end[1] == "len" and strip_it(end[2][0])[0] == "arg"


def p14_apply(ctx):
    F, g = anchors(ctx)
    n = 0
    for f in F.fns:
        p = f["path"]
        if f["name"] != "apply" or not p.startswith("<" + MATH):
            continue
        op = p[len("<" + MATH):].split(" ")[0]
        if op not in BIN:
            raise Missing("operation " + op)
        n += 1
        fl, E = flatten(ctx, f, lambda a, x: ITER(a, x) and not x.get("p", "").startswith("<f32") and "float::" not in x.get("p", ""))
        S = Sites(g, fl, E, any_end=True)
        el = Elems(S, E)
        two = fl.nargs == 3
        outarg = fl.nargs
        extra, need, loops = {}, {}, set()
        bad = []
        for b in fl.reachable():
            for s in fl.blocks[b].s:
                if s[0] == "=" and any(x[0] in ("*", "i", "c") for x in s[1][1]):
                    d = el.elem(canon(E.place(s[1])))
                    if d is None or d[0] != outarg:
                        if any(x == ("arg", outarg) for x in walk(canon(E.place(s[1])))):
                            bad.append(("output", "an output is written at an odd position"))
                        continue
                    v = canon(E.rvalue(s[2]))
                    args = None
                    if v[0] == "call" and v[1] in BIN[op]:
                        args = v[2]
                    elif v[0] == "bin" and v[1] == op:
                        args = v[2:]
                    if args is None:
                        bad.append(("operator", f"the output is not computed by {sorted(BIN[op])[0]}"))
                        continue
                    w = [(1, d[1]), (2, d[1])][:len(args)]
                    if [el.elem(a) for a in args] != w or len(args) != (2 if two else 1):
                        bad.append(("operands", "the operands are not the inputs in order, at the position of the output"))
                        continue
                    if not over(d[1], el, None):
                        bad.append(("range", "not all elements are computed"))
                        continue
                    extra[id(s)] = ("do", d[1], "out")
                    loops.add(d[1])
                    need[d[1]] = {"out"}
        if len(loops) != 1:
            bad.append(("loop", "the outputs are not computed one by one"))
        report_each(ctx, F, f, fl, E, S, bad, extra, need, "operation", op, f"out = {op}(inputs)")
    ctx.floor("operation", n, 11)


class Each(Lists):
    """Lists without lists: something is done once per element of a loop, and the loop runs to its end. Loop None is the function."""
    INIT = (((None, frozenset()),), ())

    def stmt(self, st, b, s):
        if id(s) in self.extra:
            x = self.extra[id(s)]
            if x[0] == "chain":
                return self.chain(st, x)
            return self.token(st, x[1], x[2])
        return st

    def chain(self, st, x):
        """x = ('chain', loop, before, token): only after `before`."""
        op = dict(st[0])
        if x[2] not in op.get(x[1], ()):
            self.w.viol(("order", "a result is read before it is computed"))
            return None
        return self.token(st, x[1], x[3])

    def term(self, st, b, t, env):
        if t[0] == "call" and b in self.extra:
            x = self.extra[b]
            if x[0] == "chain":
                return self.chain(st, x)
            return self.token(st, x[1], x[2])
        if t[0] == "ret":
            got = {l for l, _ in st[1]}
            for l in self.need:
                if l is None:
                    if self.need[None] - dict(st[0])[None]:
                        self.w.viol(("nothing", "what is to be computed is not computed on some path"))
                        return None
                elif l not in got:
                    self.w.viol(("partial", "not all elements are computed"))
                    return None
            return None
        return st

    def edge(self, st, b, o, v, other, vals):
        oc = self.S.outcome(self.w, b, o, v, other)
        st = super().edge(st, b, o, v, other, vals)
        if st and oc and oc[0].b in self.need:
            l = oc[0].b
            done = dict(st[1])
            done.pop(l, None)
            if oc[1] != "Some" and not set(oc[0].odd) - OKODD:
                done[l] = ("all",)
            return st[0], tuple(sorted(done.items()))
        return st


def report_each(ctx, F, f, fl, E, S, bad, extra, need, rule, key, text):
    w = Walker(fl, E)
    if bad:
        vs = [(x, []) for x in bad]
    else:
        m = Each(w, S, fl, E, F, extra=extra, need=need)
        vs = w.run(m, Each.INIT)
        ctx.states += w.nstates
    done = set()
    for (k, msg), path in vs:
        if k not in done:
            done.add(k)
            ctx.viol(rule, f"{key}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok(rule, f["path"], text)


def p14_ugen(ctx):
    """The arithmetic nodes apply their operation to their inputs in order, for every channel; a constant is its value in every frame."""
    F, g = anchors(ctx)
    n = 0
    OPF = {MATH + "Operation::apply": 2, MATH + "Operation1::apply": 1}
    for f in F.fns:
        p = f["path"]
        if f["name"] not in ("process", "process_block") or not p.startswith(("<" + MATH + "MathUGen<", "<" + MATH + "Math1UGen<")):
            continue
        n += 1
        arity = 2 if "MathUGen<" in p.split(" as ")[0] and "Math1" not in p else 1
        fl, E = flatten(ctx, f)
        S = Sites(g, fl, E, any_end=True)
        el = Elems(S, E)
        block = f["name"] == "process_block"
        extra, need, bad, temps = {}, {}, [], {}

        def chan(e, arg, names):
            """The channel of argument `arg` that e is."""
            if e[0] == "agg" and e[1] == "array" and len(e[3]) == 1:
                e = e[3][0][1]
            if e[0] == "call" and e[1] in names and len(e[2]) == 2 and strip_it(e[2][0]) == ("arg", arg):
                return uncast(e[2][1])
            if e[0] == "[]" and strip_it(e[1]) == ("arg", arg) and "index" in names:
                return uncast(e[2])
            return None

        RD, WR = (("channel_as_slice",), ("channel_as_slice_mut",)) if block else (("index",), ())
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "call" and F.insts[t[1]].get("p") in OPF:
                a = [canon(E.op(x)) for x in t[2]]
                ins = [chan(x, 4, RD) for x in a[:-1]]
                L = el.loop_of(ins[0]) if ins and ins[0] is not None else None
                if len(ins) != arity or any(i is None for i in ins):
                    bad.append(("inputs", "the operation is not applied to inputs of the node"))
                elif arity == 1 and ins[0] != ("k", 0) or arity == 2 and L is None:
                    bad.append(("channel", "the operation is not applied to each channel"))
                elif arity == 2 and el.end_of(L) not in (("k", 2), ("call", "channels", (("arg", 5),))):
                    bad.append(("channels", "the operation is not applied to every channel"))
                elif arity == 2 and ins[1] not in (("bin", "Add", ins[0], el.end_of(L)), ("bin", "Add", el.end_of(L), ins[0])):
                    bad.append(("second input", "the second operand is not the input belonging to the first one (first, in the second half of the inputs)"))
                elif block and chan(a[-1], 5, WR) != ins[0]:
                    bad.append(("output", "the result does not go to the output channel of the inputs"))
                elif not block and any(x == ("arg", 4) for x in walk(a[-1])):
                    bad.append(("output", "the result overwrites an input"))
                else:
                    extra[b] = ("do", L, "apply")
                    need.setdefault(L, set()).add("apply")
                    temps[a[-1]] = (L, ins[0])
        ret = canon(E.local(fl.retlocal))
        if not block:
            for b in fl.reachable():
                for s in fl.blocks[b].s:
                    if s[0] != "=" or not any(x[0] in ("*", "i", "c") for x in s[1][1]):
                        continue
                    d, v = canon(E.place(s[1])), canon(E.rvalue(s[2]))
                    if d[0] == "call" and d[1] == "index" and d[2][0] == ret or d[0] == "[]" and d[1] == ret:
                        at = d[2][1] if d[0] == "call" else d[2]
                        x = v[1] if v[0] == "[]" and v[2] == ("k", 0) else v[2][0] if v[0] == "call" and v[1] == "index" and v[2][1] == ("k", 0) else None
                        if x is None or x not in temps or uncast(at) != temps[x][1]:
                            bad.append(("result", "the result does not go to the output channel of the inputs"))
                        else:
                            extra[id(s)] = ("chain", temps[x][0], "apply", "store")
                            need.setdefault(temps[x][0], set()).add("store")
        if not need or not block and not any("store" in v for v in need.values()):
            if not bad:
                bad.append(("loop", "the operation is not applied to each channel"))
        report_each(ctx, F, f, fl, E, S, bad, extra, need, "math-node", ("Math" if arity == 2 else "Math1") + "UGen." + f["name"], "operation applied to each channel")
    ctx.floor("math-node", n, 4)
    # constants
    C = "knaster_core_dsp::ugens::util::Constant::<F>::"
    m = 0
    for f in F.fns:
        if not f["path"].startswith(C) or f["name"] not in ("new", "process", "process_block"):
            continue
        m += 1
        fl, E = flatten(ctx, f)
        V = fld(A1, "value")
        if f["name"] == "process_block":
            fills = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "fill"]
            ok = [b for b in fills if [canon(E.op(x)) for x in fl.blocks[b].t[2]] == [("[]", A2, ("k", 0)), V]]
            extra = {b: ("do", None, "fill") for b in ok}
            report_each(ctx, F, f, fl, E, Sites(g, fl, E), [] if ok and ok == fills else [("fill", "the block is not filled with the constant")], extra,
                        {None: {"fill"}}, "constant", f["name"], "fills the block")
        else:
            r = canon(E.local(fl.retlocal))
            want = V if f["name"] == "process" else A1
            ok = r[0] == "agg" and len(r[3]) == 1 and r[3][0][1] == want
            report_each(ctx, F, f, fl, E, Sites(g, fl, E), [] if ok else [("value", "it is not the constant")], {}, {}, "constant", f["name"], "the value")
    ctx.floor("constant", m, 3)
