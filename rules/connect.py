"""P26: making a connection makes exactly the requested connection."""
from purge import *
from effects import Summary


def ret_type(ctx, f):
    fl, E = flatten(ctx, f, lambda f, x: False)
    return fl.F.types[fl.ltypes[fl.retlocal]]["s"] if hasattr(fl, "F") else None


def makers(ctx, F, g):
    """(function that adds a summing node, function that adds a pair of feedback nodes, other functions that add nodes)"""
    one, two = [], []
    flag = math_flag(ctx, F, g)
    for f in g.methods.values():
        fl, E = flatten(ctx, f, lambda f, x: False)
        r = F.types[fl.ltypes[fl.retlocal]]["s"]
        if r.startswith("(") and r.count("NodeKey") == 2:
            two.append(f)
        elif r.split("::")[-1] == "NodeKey":
            one.append((f, fl))
    add = [f for f, fl in one if any(s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f" and s[1][1][-1][1] == flag
                                     for b in fl.reachable() for s in fl.blocks[b].s)]
    if len(add) != 1 or len(two) != 1:
        raise Missing("the functions that add summing and feedback nodes")
    return add[0], two[0], [f for f, _ in one if f is not add[0]]


class Made(Summary):
    """Adds: a table slot read after it was written on the path; a node-adding function called twice."""

    def __init__(self, *a, slots=None, **kw):
        super().__init__(*a, **kw)
        self.slots = slots

    def stmt(self, st, b, s):
        facts, (eff, sel) = st
        if s[0] == "=" and s[2][0] == "use" and s[2][1][0] != "k" and any(el[0] in ("*", "i", "c", "v") for el in s[2][1][1][1]):
            self.P.select(sel)
            c = canon(self.P.op(s[2][1]))
            for x in list(eff):
                if x[0] == "write" and self.slots(x[1]) and any(y == x[1] for y in walk(c)):
                    eff = eff | {("stale", x[1])}
            st = facts, (eff, sel)
        return super().stmt(st, b, s)

    def term(self, st, b, t, env):
        facts, (eff, sel) = st
        if t[0] == "call":
            n = self.want_call(t)
            if n:
                self.P.select(sel)
                x = ("call", n, tuple(canon(self.P.op(a)) for a in t[2]))
                if x in eff and n.startswith("new:"):
                    st = facts, (eff | {("again", n)}, sel)
        return super().term(st, b, t, env)


def some(e):
    """content of Some(content)"""
    e = peel(e)
    return canon(e[3][0][1]) if e[0] == "agg" and e[2] == "Some" and len(e[3]) == 1 else None


def edge_of(e):
    """dict of the fields of a connection value (canonical)"""
    if e is not None and e[0] == "agg" and e[3] and {"source", "channel_in_source"} <= {n for n, _ in e[3]}:
        return dict(e[3])
    return None


class Spec:
    def __init__(self, ctx):
        self.ctx = ctx
        self.F, self.g = anchors(ctx)
        self.add, self.fb, self.others = makers(ctx, self.F, self.g)
        g, F = self.g, self.F
        self.names = {self.add["path"]: "new:sum", self.fb["path"]: "new:feedback"}
        self.names.update({f["path"]: "new:other" for f in self.others})
        self.opaque = set(self.names) | ({g.methods["has_path"]["path"]} if "has_path" in g.methods else set())

    def slots(self, c):
        """(role, key or None, channel) of a canonical place that is one slot of a connection table."""
        g = self.g
        if c[0] == "[]":
            base, i = c[1], c[2]
        elif c[0] == "call" and c[1] in ("index", "get", "get_mut") and len(c[2]) == 2:
            base, i = c[2]
        elif c[0] == "f" and c[2] == "0" and c[1][0] == "v" and c[1][2] == "Some" and c[1][1][0] == "call" and c[1][1][1] in ("get", "get_mut"):
            return self.slots(c[1][1])
        elif c[0] == "call" and c[1] in ("unwrap", "expect") and c[2][0][0] == "call" and c[2][0][1] in ("get", "get_mut"):
            return self.slots(c[2][0])
        else:
            return None
        r = roles(g, base)
        if len(r) != 1 or not r & {"in_edges", "out_edges"}:
            return None
        r = next(iter(r))
        if r == "out_edges":
            return (r, None, i)
        k = [x for x in walk(base) if x[0] == "call" and x[1] in ("index", "get", "get_mut", "get_unchecked") and len(x[2]) == 2 and
             x[2][0] == ("f", ("arg", 1), g.f["in_edges"])]
        if len(k) != 1:
            return None
        return (r, norm(k[0][2][1]), i)

    def want(self, fl, E):
        F, g = self.F, self.g

        def w(t):
            p = F.insts[t[1]].get("p", "")
            if p in self.names:
                return self.names[p]
            ln = last(F, t[1])
            if t[2] and t[2][0][0] != "k" and F.types[t[2][0][2]]["k"] in ("refmut", "ptrmut") and ln in REMOVE | {"get_or_insert", "get_or_insert_with", "insert"}:
                if roles(g, E.op(t[2][0])) & set(TABLES):
                    return "tab:" + ln
            return None
        return w

    def run(self, f, at):
        ctx = self.ctx
        base = opaque(*self.opaque)
        pol = lambda a, x: base(a, x) and not x.get("p", "").endswith(("::position", "::find", "::any"))
        fl, E = flatten(ctx, f, pol)
        w = Walker(fl, E)
        m = Made(w, fl, self.want(fl, E), at, slots=lambda c: self.slots(c) is not None, purge=False)
        vs = w.run(m, (frozenset(), (frozenset(), frozenset())))
        ctx.states += w.nstates
        return fl, vs

    def report(self, rule, f, fl, vs):
        done = set()
        for (k, msg), path in vs:
            if k not in done:
                done.add(k)
                self.ctx.viol(rule, f"{f['name']}: {k}", f"{f['path']}: {msg}", where=loc(self.F, f["inst"], None), trace=trace(fl, path))

    def writes(self, eff):
        """slot -> values written; problems."""
        W, bad = {}, []
        for x in eff:
            if x[0] == "write":
                if roles(self.g, x[1]) & set(TABLES):
                    s = self.slots(x[1])
                    if s is None:
                        bad.append("a connection is changed in part")
                    else:
                        W.setdefault(s, set()).add(x[2])
            elif x[0] == "call" and x[1].startswith("tab:"):
                ln = x[1][4:]
                s = self.slots(x[2][0])
                if s is not None and ln == "replace" and len(x[2]) == 2:
                    v = x[2][1]
                    W.setdefault(s, set()).add(v if some(v) is not None else ("agg", "Option", "Some", (("0", v),)))
                elif s is not None and ln == "insert" and len(x[2]) == 2:
                    W.setdefault(s, set()).add(("agg", "Option", "Some", (("0", x[2][1]),)))
                elif s is not None and ln == "take":
                    W.setdefault(s, set())
                elif roles(self.g, x[2][0]) <= {"par_edges"}:
                    pass
                else:
                    bad.append(f"a connection is changed in another way than being set ({ln})")
            elif x[0] == "stale":
                bad.append("a connection is read after it was replaced")
            elif x[0] == "again":
                bad.append("two nodes are added for one connection")
        return W, bad


def norm(e):
    """Node keys and sources up to conversions."""
    e = inner_key(e)
    for _ in range(6):
        if e[0] == "f" and e[2] in ("key",):
            e = inner_key(e[1])
        elif e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Node":
            e = inner_key(e[1][1])
        elif e[0] == "v":
            e = inner_key(e[1])
        else:
            break
    return e


def is_src(e, s, graph):
    """e is the source that argument s names; graph: it is known to be the graph itself."""
    if e[0] == "agg" and e[2] == "Graph":
        return graph
    return not graph and norm(e) == ("arg", s) or norm(e) == ("arg", s) and e[0] != "agg"


def new_result(eff, n):
    r = [x for x in eff if x[0] == "call" and x[1] == n]
    return len(r)


SIGNAL = [("connect2", True, False), ("connect2_replace", False, False), ("connect2_feedback", True, True), ("connect2_feedback_replace", False, True)]


def variant_of(facts, a):
    v = {q[2] for q in facts if q[0] == "is" and q[2] in ("Node", "Graph") and norm(q[1]) == ("arg", a)}
    return next(iter(v)) if len(v) == 1 else None


def p26_signal(ctx):
    sp = Spec(ctx)
    F, g = sp.F, sp.g
    addn, fbn = sp.add["path"].split("::")[-1], sp.fb["path"].split("::")[-1]
    SUM = ("call", addn, (("arg", 1),))
    SRC, SNK = ("f", ("call", fbn, (("arg", 1),)), "0"), ("f", ("call", fbn, (("arg", 1),)), "1")

    for name, additive, feedback in SIGNAL:
        f = g.m(name)
        n = [0]
        kinds = set()

        def at(facts, eff, v, var):
            if var == "Err":
                return None
            src, snk = variant_of(facts, 2), variant_of(facts, 5)
            if src is None or snk is None:
                return "kind", "the connection does not depend on whether its ends are nodes or the graph"
            W, bad = sp.writes(eff)
            if bad:
                return "other change", bad[0]
            if new_result(eff, "new:other"):
                return "other change", "a node is added for the connection that is neither a summing nor a feedback node"
            fb = feedback and src == "Node" and snk == "Node"
            n[0] += 1
            slot = ("in_edges", ("arg", 5), ("arg", 4)) if snk == "Node" else ("out_edges", None, ("arg", 4))

            def requested(d, flag):
                """the connection value comes from the requested output (through the feedback pair)"""
                if d is None:
                    return "it is not a connection"
                if fb:
                    if norm(d["source"]) != SRC:
                        return "its source is not the feedback source"
                    if d["channel_in_source"] != ("k", 0):
                        return "it does not read the only channel of the feedback source"
                    return None
                if not is_src(d["source"], 2, src == "Graph"):
                    return "its source is not the requested one"
                if d["channel_in_source"] != ("arg", 3):
                    return "its channel is not the requested one"
                if d.get("is_feedback") != ("k", False):
                    return "it is marked as feedback"
                return None

            want = {slot}
            if fb:
                if new_result(eff, "new:feedback") != 1:
                    return "feedback", "a feedback connection does not go through a feedback pair"
                s = ("in_edges", SNK, ("k", 0))
                want.add(s)
                d = edge_of(some(next(iter(W.get(s) or {("never",)}))))
                if d is None or not is_src(d["source"], 2, False) or d["channel_in_source"] != ("arg", 3) or d.get("is_feedback") != ("k", True):
                    return "feedback sink", "the feedback pair is not fed by the requested output, marked as feedback"
            elif new_result(eff, "new:feedback"):
                return "feedback", "a connection that is not requested as feedback is delayed"
            old = [q for q in facts if q[0] == "is" and q[2] in ("Some", "None") and sp.slots(q[1]) == slot]
            occ = {q[2] for q in old}
            sums = new_result(eff, "new:sum")
            if any(len(x) != 1 for x in W.values()):
                return "other change", "a connection is set to different values in turn"
            V = {k: some(next(iter(x))) for k, x in W.items()}
            if not additive or not sums:
                if additive and "None" not in occ:
                    return "not added", "an existing connection to the input is replaced although it should be added to"
                if sums:
                    return "not replaced", "a summing node is added although the existing connection is to be replaced"
                if set(W) != want:
                    return "other slot", "not exactly the requested input is connected"
                r = requested(edge_of(V[slot]), False)
                if r:
                    return "wrong source", f"the input is not connected to the requested output: {r}"
                kinds.add((src, snk, "direct"))
                return None
            if "Some" not in occ:
                return "sum", "a summing node is added without an existing connection"
            s0, s1 = ("in_edges", SUM, ("k", 0)), ("in_edges", SUM, ("k", 1))
            if set(W) != want | {s0, s1}:
                return "other slot", "not exactly the requested input and the two inputs of the summing node are connected"
            top = edge_of(V[slot])
            if top is None or norm(top["source"]) != SUM or top["channel_in_source"] != ("k", 0):
                return "sum output", "the input is not connected to the summing node"

            def existing(val, sl):
                raw = next(iter(W[sl]))
                if sp.slots(raw) == slot:
                    return True
                if val is None:
                    return False
                if payload(val) is not None and sp.slots(payload(val)) == slot:
                    return True
                d = edge_of(val)
                if d is None:
                    return False
                return all(x[0] == "f" and x[2] == k and payload(x[1]) is not None and sp.slots(payload(x[1])) == slot
                           for k, x in d.items() if k != "is_feedback")
            a, b = s0, s1
            if not existing(V[a], a):
                a, b = b, a
            if not existing(V[a], a):
                return "existing lost", "the existing connection does not go into the summing node"
            r = requested(edge_of(V[b]), False)
            if r:
                return "wrong source", f"the summing node is not connected to the requested output: {r}"
            kinds.add((src, snk, "sum"))
            return None

        fl, vs = sp.run(f, at)
        sp.report("connect", f, fl, vs)
        if not vs:
            ctx.ok("connect", f["path"], f"{n[0]} ways to succeed; {sorted(kinds)}")
            ctx.floor("connect-" + name, len(kinds), 8 if additive else 4)


def payload(e):
    if e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Some":
        return e[1][1]
    if e[0] == "call" and e[1] in ("unwrap", "expect", "unwrap_unchecked") and e[2]:
        return e[2][0]
    return None


def p26_sum(ctx):
    """The function that adds a summing node adds one node that adds, and returns its key."""
    sp = Spec(ctx)
    F, f = sp.F, sp.add
    fl, E = flatten(ctx, f, lambda a, x: False)
    push = []
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and F.insts[t[1]].get("ws") and any("::MathUGen<" in F.types[a]["s"] for a in F.insts[t[1]].get("a", [])) and t[2] and \
                canon(E.op(t[2][0])) == ("arg", 1):
            push.append(t)
    if len(push) != 1:
        ctx.viol("summing-node", f"{f['name']}: pushes", f"{f['path']}: not exactly one arithmetic node is added", where=loc(F, f["inst"], None), trace=[])
        return
    ty = [F.types[a]["s"] for a in F.insts[push[0][1]]["a"] if "::MathUGen<" in F.types[a]["s"]][0]
    op = ty.rstrip(">").split("::")[-1]
    r = canon(E.local(fl.retlocal))
    from_push = any(x[0] == "call" and x[1] == last(F, push[0][1]) for x in chain_roots(r) if x[0] == "call")
    if op != "Add":
        ctx.viol("summing-node", f"{f['name']}: operation", f"{f['path']}: signals are combined by {op} instead of being added", where=loc(F, f["inst"], None), trace=[])
    elif not from_push:
        ctx.viol("summing-node", f"{f['name']}: result", f"{f['path']}: does not return the node it added", where=loc(F, f["inst"], None), trace=[])
    else:
        ctx.ok("summing-node", f["path"], ty)


PARAM = [("connect_to_parameter", True), ("connect_replace_to_parameter", False)]


def pedge(e):
    return dict(e[3]) if e[0] == "agg" and {"source", "channel_in_source", "parameter_index"} <= {n for n, _ in e[3]} else None


def closure_eq(F, clo, lhs_field):
    """For closure |x| x.field == captured (or *x == captured): the captured values compared with, and whether equality is returned."""
    inst = closure_inst(F, clo[1][8:]) if clo[0] == "agg" and clo[1].startswith("closure:") else None
    if inst is None:
        return None
    cf = Flat(F, inst, lambda a, x: ITER(a, x) and not x.get("p", "").endswith("PartialEq>::eq"))
    cE = Exprs(cf)
    ups = {n: canon(v) for n, v in clo[3]}
    res = []

    def at(facts, eff, v, var):
        res.append((frozenset(subst(q, ups, ("arg", 1)) for q in facts), subst(v, ups, ("arg", 1))))
        return None
    summarise_quiet(cf, cE, at)
    out = set()
    for facts, v in res:
        if v[0] == "k":
            return None
        at_ = atoms(v, True)
        if len(at_) != 1 or at_[0][0] not in ("Eq", "Ne"):
            return None
        k, a, b = at_[0]
        for x, y in ((a, b), (b, a)):
            z = x[1] if lhs_field and x[0] == "f" and x[2] == lhs_field else x if not lhs_field else None
            if z == ("arg", 2):
                out.add((k, y))
    return next(iter(out)) if len(out) == 1 else None


def summarise_quiet(fl, E, at):
    w = Walker(fl, E)
    w.run(Summary(w, fl, lambda t: None, at), (frozenset(), (frozenset(), frozenset())))


def p26_param(ctx):
    sp = Spec(ctx)
    F, g = sp.F, sp.g
    addn = sp.add["path"].split("::")[-1]
    SUM = ("call", addn, (("arg", 1),))
    memo = {}

    def ceq(clo, field):
        k = (clo, field)
        if k not in memo:
            memo[k] = closure_eq(F, clo, field)
        return memo[k]

    def entries(e):
        """e is the list of parameter connections of the sink."""
        if roles(g, e) != {"par_edges"}:
            return False
        k = [x for x in walk(e) if x[0] == "call" and x[1] in ("index", "get", "get_mut", "get_unchecked") and len(x[2]) == 2]
        return len(k) == 1 and k[0][2][0] == ("f", ("arg", 1), g.f["par_edges"]) and norm(k[0][2][1]) == ("arg", 5)

    def listed(e):
        """e iterates over (all of) the entries"""
        while e[0] == "call" and e[1] in ("iter", "iter_mut", "into_iter", "deref", "deref_mut", "as_slice") and e[2]:
            e = e[2][0]
        return entries(e)

    def is_pi(e, facts):
        """e is the index of the requested parameter."""
        e = uncast(e)
        kind = {q[2] for q in facts if q[0] == "is" and q[2] in ("Index", "Desc") and norm(q[1]) == ("arg", 4)}
        if kind == {"Index"}:
            return e[0] == "f" and e[2] == "0" and norm(e[1]) == ("arg", 4)
        p = payload(e)
        if kind == {"Desc"} and p is not None and p[0] == "call" and p[1] == "position" and len(p[2]) == 2:
            it = p[2][0]
            r = ceq(p[2][1], None)
            if r is None or r[0] != "Eq" or norm(r[1]) != ("f", ("v", ("arg", 4), "Desc"), "0") and not (r[1][0] == "f" and norm(r[1][1]) == ("arg", 4)):
                return False
            # the descriptions of the sink, in their order
            if any(x[0] == "call" and x[1] in FILTERS or x[0] == "agg" and "::adapters::" in str(x[1]) and not x[1].endswith(("Map", "Copied", "Cloned")) for x in walk(it)):
                return False
            return any(norm(x) == ("arg", 5) for x in walk(it))
        return False

    for name, additive in PARAM:
        f = g.m(name)
        kinds = set()

        def at(facts, eff, v, var):
            if var == "Err":
                return None
            W, bad = sp.writes(eff)
            if bad:
                return "other change", bad[0]
            if new_result(eff, "new:other") or new_result(eff, "new:feedback"):
                return "other change", "a node is added for the connection that is not a summing node"
            tab = [x for x in eff if x[0] == "call" and x[1].startswith("tab:") and roles(g, x[2][0]) == {"par_edges"}]
            pushes = [x for x in tab if x[1] == "tab:push"]
            rest = [x for x in tab if x[1] != "tab:push"]
            if any(x[0] == "write" and roles(g, x[1]) == {"par_edges"} for x in eff):
                return "other change", "a parameter connection is changed in place"
            if len(pushes) != 1 or not entries(pushes[0][2][0]):
                return "other node", "not exactly one connection is added, to the parameters of the requested node"
            d = pedge(pushes[0][2][1])
            if d is None or not is_pi(d["parameter_index"], facts):
                return "other parameter", "the connection is not made to the requested parameter"

            def requested(d):
                if not is_src(d["source"], 2, False):
                    return "its source is not the requested one"
                if d["channel_in_source"] != ("arg", 3):
                    return "its channel is not the requested one"
                return None
            sums = new_result(eff, "new:sum")
            if not additive:
                if sums:
                    return "not replaced", "a summing node is added although the existing connection is to be replaced"
                if W:
                    return "other change", "another connection is changed"
                if len(rest) != 1 or rest[0][1] not in ("tab:retain", "tab:retain_mut") or not entries(rest[0][2][0]):
                    return "not replaced", "the existing connections of the parameter are not removed"
                r = ceq(rest[0][2][1], "parameter_index")
                if r is None or r[0] != "Ne" or not is_pi(r[1], facts):
                    return "not replaced", "not exactly the existing connections of the parameter are removed"
                q = requested(d)
                kinds.add("replace")
                return ("wrong source", f"the parameter is not connected to the requested output: {q}") if q else None
            # is there a connection already?
            look = {q[2] for q in facts if q[0] == "is" and q[2] in ("Some", "None") and search(q[1], facts)}
            if not sums:
                if look != {"None"}:
                    return "not added", "a connection is made without looking for an existing one to add to"
                if W or rest:
                    return "other change", "another connection is changed"
                q = requested(d)
                kinds.add("direct")
                return ("wrong source", f"the parameter is not connected to the requested output: {q}") if q else None
            if look != {"Some"}:
                return "sum", "a summing node is added without an existing connection"
            if norm(d["source"]) != SUM or d["channel_in_source"] != ("k", 0):
                return "sum output", "the parameter is not connected to the summing node"
            if len(rest) != 1 or rest[0][1] not in ("tab:swap_remove", "tab:remove") or not entries(rest[0][2][0]) or \
                    payload(rest[0][2][1]) is None or not search(payload(rest[0][2][1]), facts):
                return "existing kept", "not exactly the existing connection of the parameter is replaced by the sum"
            old = ("call", rest[0][1][4:], rest[0][2])
            s0, s1 = ("in_edges", SUM, ("k", 0)), ("in_edges", SUM, ("k", 1))
            if set(W) != {s0, s1} or any(len(x) != 1 for x in W.values()):
                return "other slot", "not exactly the two inputs of the summing node are connected"
            V = {k: edge_of(some(next(iter(x)))) for k, x in W.items()}
            ex = lambda d: d is not None and inner_key(d["source"]) == ("f", old, "source") and d["channel_in_source"] == ("f", old, "channel_in_source")
            a, b = (s0, s1) if ex(V[s0]) else (s1, s0)
            if not ex(V[a]):
                return "existing lost", "the existing connection does not go into the summing node"
            if V[b] is None:
                return "wrong source", "the summing node is not connected to the requested output"
            q = requested(V[b])
            kinds.add("sum")
            return ("wrong source", f"the summing node is not connected to the requested output: {q}") if q else None

        def search(e, facts):
            """e is the position of the existing connection of the parameter."""
            if e[0] == "call" and e[1] == "position" and len(e[2]) == 2 and listed(e[2][0]):
                r = ceq(e[2][1], "parameter_index")
                return r is not None and r[0] == "Eq" and is_pi(r[1], facts)
            return False

        fl, vs = sp.run(f, at)
        sp.report("connect-parameter", f, fl, vs)
        if not vs:
            ctx.ok("connect-parameter", f["path"], f"{sorted(kinds)}")
            ctx.floor("connect-parameter-" + name, len(kinds), 2 if additive else 1)


def uncast(e):
    while e[0] == "cast":
        e = e[2]
    return e
