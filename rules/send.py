"""P15: scheduled changes carry what the caller asked for."""
from wrap import *
from handles import item, leaf

STOP = ("SchedulingChannelSender::send", "::position", "::find", "parameter_descriptions", "param_descriptions", "FromFn", "::push_node",
        "::node_data", "type_name", "shorten_name", "enumerate::Enumerate", "Iterator::enumerate", "::try_param")
EV = "knaster_graph::scheduling::SchedulingEvent"
PARTS = (EV, "knaster_graph::scheduling::Time", "knaster_graph::handle::ParameterChange")
NOTIME = ("agg", "core::option::Option", "None", ())


def sched(f, x):
    return ITER(f, x) and not any(k in x.get("p", "") for k in STOP)


def fields_of(F, adt, want):
    """Field names of a struct by (a part of) their types."""
    a = F.adts.get(adt)
    if a is None:
        raise Missing(adt)
    out = {}
    for k, t in want.items():
        n = [f["name"] for f in a["variants"][0]["fields"] if t(F.ts(f["ty"]))]
        if len(n) != 1:
            raise Missing(f"{k} of {adt}")
        out[k] = n[0]
    return out


def event(F):
    """Roles of the fields of an event."""
    e = lambda s: lambda t: t.endswith(s)
    return fields_of(F, EV, {"node": e("NodeKey"), "param": e("usize"), "value": e("ParameterValue>"), "smoothing": e("ParameterSmoothing>"),
                             "token": e("SchedulingToken>"), "time": e("scheduling::Time>")})


def conv(e):
    """X when e is X converted."""
    return e[2][0] if e[0] == "call" and e[1] in ("into", "from") and len(e[2]) == 1 else None


def is_conv(x):
    return lambda e: conv(e) == x


def somewhat(p):
    return lambda e: some(e) is not None and p(some(e))


def nothing_(e):
    return e[0] == "agg" and e[2] == "None"


def timed(F, absolute, x):
    tf = fields_of(F, "knaster_graph::scheduling::Time", {"s": lambda t: t.endswith("Seconds"), "a": lambda t: t == "bool"})
    same = lambda e: conv(e) if conv(e) is not None and conv(e)[0] == "agg" else e   # a Time converted into a Time
    return lambda e: (lambda e: e[0] == "agg" and e[1].endswith("scheduling::Time") and (lambda d: conv(d[tf["s"]]) == x and d[tf["a"]] in (("k", absolute), ("k", int(absolute))))(dict(e[3])))(same(e))


def trigger(e):
    return e[0] == "agg" and e[1].endswith("ParameterValue") and e[2] == "Trigger" or e[0] == "k" and str(e[1]).endswith("ParameterValue::Trigger")


def forwarded(eff, facts, v, var, why, S="send"):
    """One event is sent, the result says whether that worked; returns (problem, receiver, event)."""
    sent = [x for x in eff if x[0] == "call" and x[1] == S]
    if any(x[0] == "write" for x in eff):
        return ("write", "something else is changed besides"), None, None
    if not sent:
        if var == "Err":
            return why(facts), None, None
        return ("lost", "the change is not sent and no error is returned"), None, None
    if len(sent) > 1:
        return ("twice", "more than one change is sent"), None, None
    c = ("call", S, sent[0][2])
    if v != c:
        r = [q[2] for q in facts if q[0] == "is" and q[1] == c]
        if var not in ("Ok", "Err") or r != [var]:
            return ("result", "the result does not say whether the change could be sent"), None, None
    return None, sent[0][2][0], sent[0][2][1]


def check_event(names, e, spec):
    d = dict(e[3]) if e[0] == "agg" and e[1] == EV else None
    if d is None:
        return "event", "what is sent is not an event built here"
    text = {"node": "names another node than the one of the handle", "param": "names another parameter", "value": "does not carry the value asked for",
            "smoothing": "does not carry the smoothing asked for", "token": "does not carry the token asked for", "time": "does not carry the time asked for"}
    for k, n in names.items():
        if not spec[k](d[n]):
            return k, f"the change that is sent {text[k]}"
    return None


def narrow(F, fl):
    """A conversion that would lose part of an index."""
    return any(s[0] == "=" and s[2][0] == "cast" and F.ts(s[2][3]) in ("u8", "i8", "i16") for b in fl.reachable() for s in fl.blocks[b].s)


def no_reason(facts):
    return "refused", "a change is refused for no reason"


def go(ctx, rule, inst, f, at, names=("send",), pol=sched, text="one event"):
    F = ctx.facts()
    fl, E = flatten(ctx, f, pol)
    want = lambda t: last(F, t[1]) if last(F, t[1]) in names else None
    seen = [0]

    def at2(facts, eff, v, var):
        seen[0] += 1
        return at(facts, eff, v, var, fl)
    vs = ordered(ctx, fl, E, want, at2, purge=False, parts=PARTS)
    if narrow(F, fl):
        vs = vs + [(("narrow", "an index is cut down to eight bits"), [])]
    if not seen[0]:
        raise Missing(f"a way through {f['path']}")
    report(ctx, rule, inst, f, fl, vs, None, text)
    return not vs


def getf(F, suffix):
    fs = [f for f in F.fns if f["path"].endswith(suffix) and "inst" in f]
    if len(fs) != 1:
        raise Missing(suffix)
    return fs[0]


def p15_send(ctx):
    """The sender puts the event it was given in the queue, once, and says when it could not."""
    F = ctx.facts()

    def at(facts, eff, v, var, fl):
        sent = [x for x in eff if x[0] == "call"]
        if any(x[0] == "write" for x in eff):
            return "write", "something else is changed besides"
        if not sent:
            if var != "Err":
                return "lost", "the event is not put in the queue and no error is returned"
            if not any(q[0] == "true" and q[1][0] == "call" and q[1][1] == "is_abandoned" for q in facts):
                return "refused", "an event is refused although there is a receiver"
            return None
        if len(sent) > 1:
            return "twice", "more than one event is put in the queue"
        q, e = sent[0][2][0], sent[0][2][1]
        if e != A2 or not any(x == ("f", A1, "0") for x in walk(q)):
            return "event", "what is put in the queue is not the event given"
        if [q_[2] for q_ in facts if q_[0] == "is" and q_[1] == ("call", "push", sent[0][2])] != [var]:
            return "result", "the result does not say whether the event was put in the queue"
        return None

    go(ctx, "send", "sender", getf(F, "handle::SchedulingChannelSender::send"), at, ("push",), lambda f, x: ITER(f, x), "the event given, once")
    sf = sender_field(F, "knaster_graph::handle::RawHandle")
    raw = ("handle::RawHandle::send", A1)
    for suf, base in (raw, ("handle::Handle<T> as knaster_graph::handle::HandleTrait>::schedule_event", fld(A1, raw_field(F, "Handle"))),
                      ("handle::AnyHandle as knaster_graph::handle::HandleTrait>::schedule_event", fld(A1, raw_field(F, "AnyHandle")))):
        def at(facts, eff, v, var, fl, base=base):
            p, to, e = forwarded(eff, facts, v, var, no_reason)
            if p:
                return p
            if to != fld(base, sf):
                return "queue", "the event is sent elsewhere"
            if e != A2:
                return "event", "what is sent is not the event given"
        go(ctx, "send", suf.split("handle::")[1], getf(F, suf), at, text="the event given")


def sender_field(F, adt):
    return fields_of(F, adt, {"s": lambda t: t.endswith("SchedulingChannelSender")})["s"]


def raw_field(F, name):
    return fields_of(F, "knaster_graph::handle::" + name, {"r": lambda t: t.endswith("RawHandle")})["r"]


def key_field(F):
    return fields_of(F, "knaster_graph::graph::NodeId", {"k": lambda t: t.endswith("NodeKey"), "g": lambda t: t in ("u64", "usize", "u32") or t.endswith("GraphId")})


METHODS_ = [(k + s) for k in ("set", "smooth", "trig") for s in ("", "_time", "_at", "_after")]


def p15_parameter(ctx):
    """Setting, smoothing and triggering a parameter: now, at a time, and after a time."""
    F = ctx.facts()
    names, kf = event(F), key_field(F)["k"]
    pf = fields_of(F, "knaster_graph::graph_edit::Parameter", {"node": lambda t: t.endswith("NodeId"), "i": lambda t: t in ("u16", "usize", "u32"),
                                                               "s": lambda t: t.endswith("SchedulingChannelSender")})
    n = 0
    for m in METHODS_:
        f = getf(F, "knaster_graph::graph_edit::Parameter::" + m)
        kind, _, when = m.partition("_")
        t = A2 if kind == "trig" else A3
        spec = {"node": lambda e: e == fld(fld(A1, pf["node"]), kf), "param": lambda e: e == fld(A1, pf["i"]) or conv(e) == fld(A1, pf["i"]), "token": nothing_,
                "value": {"set": somewhat(is_conv(A2)), "smooth": nothing_, "trig": somewhat(trigger)}[kind],
                "smoothing": somewhat(is_conv(A2)) if kind == "smooth" else nothing_,
                "time": {"": lambda e: nothing_(e), "time": somewhat(is_conv(t)), "at": somewhat(timed(F, True, t)), "after": somewhat(timed(F, False, t))}[when]}

        def at(facts, eff, v, var, fl, spec=spec):
            p, to, e = forwarded(eff, facts, v, var, no_reason)
            if p:
                return p
            if to != fld(A1, pf["s"]):
                return "queue", "the event is sent elsewhere"
            return check_event(names, e, spec)
        go(ctx, "event", f"Parameter.{m}", f, at)
        n += 1
    ctx.floor("event", n, 12)


def closure_of(F, fl, v):
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and v[0] == "agg" and v[1] == "closure:" + s[2][1][2]:
                return {"path": s[2][1][2], "inst": s[2][1][1]}
    return None


def unok(e):
    return unok(e[2][0]) if e[0] == "call" and e[1] in ("ok_or", "ok_or_else") else e


def unbranch(e):
    """(branch(X) as Continue).0 is (X as Some).0; ok_or(X, _) has the payload of X; the payload of Some(x) is x."""
    if e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] in ("Continue", "Some", "Ok"):
        x = e[1][1]
        x = unok(x[1] if x[0] == "branch" else x)
        return some(x) if some(x) is not None else ("f", ("v", x, "Some"), "0")
    return e


class Search:
    """A position found in, or missing from, a list of names."""

    def __init__(self, ctx, fl, lists):
        self.ctx, self.fl, self.lists = ctx, fl, lists
        self.memo = {}

    def closure(self, c, desc):
        """The closure says whether its argument is `desc`."""
        if c not in self.memo:
            self.memo[c] = False
            h = closure_of(self.ctx.facts(), self.fl, c)
            if h is not None:
                caps = dict(c[3])
                l, X = flatten(self.ctx, h, sched)
                ok = []

                def at(facts, eff, v, var):
                    cap = [n for n, x in caps.items() if x == desc]
                    want = [(A2, fld(A1, n)) for n in cap] + [(fld(A1, n), A2) for n in cap]
                    ok.append(v[0] == "call" and v[1] == "eq" and v[2] in want or any(("bin", "Eq") + w == v for w in want))
                ordered(self.ctx, l, X, lambda t: None, at, purge=False)
                self.memo[c] = bool(ok) and all(ok)
        return self.memo[c]

    def in_list(self, l):
        return self.lists(strip_it(l))

    def found(self, e, desc, facts):
        """e is the position of desc in the list on this path."""
        e = unbranch(e)
        if e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Some" and e[1][1][0] == "call" and e[1][1][1] == "position":
            it, c = e[1][1][2]
            return self.in_list(it) and c[0] == "agg" and self.closure(c, desc)
        x = item(e)
        if x is None or x[1] != ["0"] or x[0][0] != "call" or x[0][1] != "enumerate" or not self.in_list(x[0][2][0]):
            return False
        name = ("f", e[1], "1")
        return any(q in (("Eq", desc, name), ("Eq", name, desc)) for q in facts)

    def missing(self, desc, facts):
        """desc is not in the list on this path."""
        for q in facts:
            if q[0] == "is" and q[2] == "Break":
                q = ("is", unok(q[1][1] if q[1][0] == "branch" else q[1]), "None")
            if q[0] == "is" and q[2] == "None" and q[1][0] == "call":
                if q[1][1] == "position" and self.in_list(q[1][2][0]) and self.closure(q[1][2][1], desc):
                    return True
                if q[1][1] == "next":
                    it = strip_it(q[1][2][0])
                    if it[0] == "call" and it[1] == "enumerate" and self.in_list(it[2][0]):
                        some_ = ("f", ("v", q[1], "Some"), "0")
                        return not any(r[0] == "Eq" and desc in r[1:] for r in facts)
        return False


def index_of_param(p, S, bound=None):
    """Predicates (parameter names the one asked for, change may be refused)."""
    I, D = ("f", ("v", p, "Index"), "0"), ("f", ("v", p, "Desc"), "0")

    def good(e, facts):
        e = unbranch(e)
        if e == I:
            return ("is", p, "Index") in facts and (bound is None or any(q[0] == "Lt" and q[1] == I and bound(q[2]) for q in facts))
        return ("is", p, "Desc") in facts and S.found(e, D, facts)

    def refuse(facts):
        if ("is", p, "Index") in facts:
            return bound is not None and any(q[0] == "Le" and q[2] == I and bound(q[1]) for q in facts)
        return ("is", p, "Desc") in facts and S.missing(D, facts)
    return good, refuse


def p15_set(ctx):
    """Changes made through the older handles and through the graph."""
    F = ctx.facts()
    names, kf = event(F), key_field(F)
    pc = fields_of(F, "knaster_graph::handle::ParameterChange", {"param": lambda t: t.endswith("Param"), "value": lambda t: t.endswith("ParameterValue>"),
                   "smoothing": lambda t: t.endswith("ParameterSmoothing>"), "token": lambda t: t.endswith("SchedulingToken>"), "time": lambda t: t.endswith("scheduling::Time>")})
    sf = sender_field(F, "knaster_graph::handle::RawHandle")
    rn = fields_of(F, "knaster_graph::handle::RawHandle", {"n": lambda t: t.endswith("NodeId")})["n"]
    plist = fields_of(F, "knaster_graph::handle::AnyHandle", {"p": lambda t: "Vec<&" in t and "str" in t})["p"]
    for h in ("Handle<T>", "AnyHandle"):
        f = getf(F, f"handle::{h} as knaster_graph::handle::HandleTrait>::set")
        raw = fld(A1, raw_field(F, h.split("<")[0]))

        def lists(e, h=h):
            return e == ("call", "param_descriptions", ()) if h != "AnyHandle" else e == fld(A1, plist)

        def at(facts, eff, v, var, fl, raw=raw, lists=lists):
            eff = [x for x in eff if x[1] == "send"] + [x for x in eff if x[0] == "write"]
            c = ("call", "into", (A2,))
            S = Search(ctx, fl, lists)
            good, refuse = index_of_param(fld(c, pc["param"]), S)
            p, to, e = forwarded(eff, facts, v, var, lambda fs: None if refuse(fs) else no_reason(fs))
            if p or to is None:
                return p
            if to != fld(raw, sf):
                return "queue", "the event is sent elsewhere"
            spec = {k: (lambda k: lambda x: x == fld(c, pc[k]))(k) for k in ("value", "smoothing", "token", "time")}
            spec["node"] = lambda x: x == fld(fld(raw, rn), kf["k"])
            spec["param"] = lambda x: good(x, facts)
            return check_event(names, e, spec)
        go(ctx, "event", f"{h}.set", f, at, ("send",))
    # an AnyHandle has the names of its node
    f = getf(F, "handle::Handle::<T>::into_any")

    def at(facts, eff, v, var, fl):
        d = dict(v[3]) if v[0] == "agg" and v[1].endswith("::AnyHandle") else None
        if d is None:
            raise Missing("construction of AnyHandle")
        l = d[plist]
        while l[0] == "call" and l[1] in ("collect", "to_vec", "into", "from"):
            l = strip_it(l[2][0])
        if l != ("call", "param_descriptions", ()):
            return "names", "the names of the parameters are not those of the node"
        if d[raw_field(F, "AnyHandle")] != fld(A1, raw_field(F, "Handle")):
            return "node", "the handle names another node"
    go(ctx, "event", "Handle.into_any", f, at, text="same node, its parameters")
    # the graph
    for owner, a in (("graph::Graph::<F>", None), ("graph_edit::GraphEdit::<'b, F>", None)):
        f = getf(F, f"knaster_graph::{owner}::set")
        set_path(ctx, f, names, kf, lambda x: conv(x) == A2, ("call", "into", (A3,)), is_conv(A4), lambda e: conv(e) == A5 or e == A5, owner.split("::")[1] + ".set", own=A1)
    f = getf(F, "knaster_graph::graph::Graph::<F>::set_many")
    many(ctx, f)


def set_path(ctx, f, names, kf, node, P, value, time, inst, own):
    F = ctx.facts()
    def at(facts, eff, v, var, fl):
        eff = [x for x in eff if x[1] == "send" or x[0] == "write"]
        same = wrong = False
        G = None
        for q in facts:
            if q[0] in ("Eq", "Ne"):
                for x, y in ((q[1], q[2]), (q[2], q[1])):
                    if x[0] == "f" and x[2] == kf["g"] and node(x[1]) and y[0] == "f":
                        G = y[1]
                        same, wrong = same or q[0] == "Eq", wrong or q[0] == "Ne"
        key = lambda e: e[0] == "f" and e[2] == kf["k"] and node(e[1])
        entry = lambda e: e[0] == "call" and e[1] == "get" and len(e[2]) == 2 and key(e[2][1]) and G is not None and e[2][0][0] == "f" and e[2][0][1] == G
        ofnode = lambda e: any(x[0] == "f" and x[2] == "0" and x[1][0] == "v" and x[1][2] == "Some" and entry(x[1][1]) for x in walk(e))
        S = Search(ctx, fl, lambda l: l[0] == "call" and l[1] == "parameter_descriptions" and ofnode(l))
        good, refuse = index_of_param(P, S, lambda b: conv(b) is not None and conv(b)[0] == "f" and conv(b)[2] == "parameters" and ofnode(conv(b)) or b[0] == "f" and b[2] == "parameters" and ofnode(b) or b[0] == "call" and b[1] == "parameters" and ofnode(b))

        def why(fs):
            if wrong or any(q[0] == "is" and q[2] == "None" and entry(q[1]) for q in fs) or refuse(fs):
                return None
            return no_reason(fs)
        p, to, e = forwarded(eff, facts, v, var, why)
        if p or to is None:
            return p
        if not same:
            return "graph", "a change for a node of another graph is sent"
        if not (to[0] == "f" and any(x == G for x in walk(to))):
            return "queue", "the event is sent to another graph"
        spec = {"node": key, "param": lambda x: good(x, facts), "value": somewhat(value), "smoothing": nothing_, "token": nothing_, "time": somewhat(time)}
        return check_event(names, e, spec)
    go(ctx, "event", inst, f, at, ("send",))


def many(ctx, f):
    """set_many: every element of the slice, as it is."""
    F = ctx.facts()
    setf = getf(F, "knaster_graph::graph::Graph::<F>::set")
    fl, E = flatten(ctx, f, lambda h, x: ITER(h, x) and x.get("p") != setf["path"] and "log" not in x.get("p", ""))
    S = Sites(anchors(ctx)[1], fl, E, any_end=True)
    calls = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and F.insts[fl.blocks[b].t[1]].get("p") == setf["path"]]
    if len(calls) != 1:
        raise Missing("the call of Graph::set in set_many")
    W = Where(F, S, E)
    a = [canon(E.op(x)) for x in fl.blocks[calls[0]].t[2]]
    bad, loops_ = [], set()
    for k, x in enumerate(a[1:4]):
        r = W.elem(x)
        if r is None and x[0] == "f":
            d = at_(x[1])
            p = W.pos(d[1]) if d and d[0] == A2 else None
            r = (p, A2, [x[2]]) if p is not None and W.end(p) == ("call", "len", (A2,)) else None
        if r is None or r[1] != A2 or list(r[2]) != [str(k)]:
            bad.append((("change", "the changes are not passed on as they are"), []))
        else:
            loops_.add(r[0])
    if a[0] != A1:
        bad.append((("graph", "the changes are made to another graph"), []))
    if a[4] != A3:
        bad.append((("time", "the time is not the one given"), []))
    if len(loops_) != 1 and not bad:
        bad.append((("change", "parts of different changes are put together"), []))
    vs = bad
    if not bad:
        l = loops_.pop()
        w = Walker(fl, E)
        vs = list(w.run(Nest(w, S, {calls[0]: (l, "set", frozenset())}, {l: (None, frozenset({"set"}))}, frozenset({("loop", l)})), Nest.INIT))
        ctx.states += w.nstates
    report(ctx, "event", "Graph.set_many", f, fl, vs, None, "every change in turn")


def graph_gen_types(F):
    a = F.adts["knaster_graph::graph::Graph"]
    return {k: fields_of(F, "knaster_graph::graph::Graph", {"x": t})["x"] for k, t in {
        "com": lambda t: "GraphGenCommunicator" in t, "self": lambda t: t.endswith("NodeId"), "nodes": lambda t: "SlotMap<" in t}.items()}, a


def p15_handles(ctx):
    """A handle names the node it was made for, a parameter of it the parameter asked for."""
    F, g = anchors(ctx)
    kf = key_field(F)
    roles_, _ = graph_gen_types(F)
    com_sender = fields_of(F, "knaster_graph::graph::GraphGenCommunicator", {"s": lambda t: t.endswith("SchedulingChannelSender")})["s"]
    pf = fields_of(F, "knaster_graph::graph_edit::Parameter", {"node": lambda t: t.endswith("NodeId"), "i": lambda t: t in ("u16", "usize", "u32"),
                                                               "s": lambda t: t.endswith("SchedulingChannelSender")})
    n = 0
    idf = lambda h: fields_of(F, "knaster_graph::graph_edit::" + h, {"n": lambda t: t.endswith("NodeId")})["n"]

    def is_sender(e, h):
        """e is the sender of the graph handle h is for."""
        if e[0] == "agg" and e[1].endswith("SchedulingChannelSender"):
            e = e[3][0][1]
            if e[0] != "f":
                return False
            e = e[1]
        return e[0] == "f" and e[2] == com_sender and e[1][0] == "f" and e[1][2] == roles_["com"] and any(x == fld(h, "graph") for x in walk(e[1]))

    for h, kind in (("SH", "Handle3"), ("DH", "DynamicHandle3")):
        fs = [f for f in F.fns if f["name"] == "try_param" and f"::{h}::<" in f["path"] and kind in f["path"] and "inst" in f]
        if len(fs) != 1:
            raise Missing(f"{h}::try_param")
        node = fld(fld(A1, "nodes"), idf(kind))

        def at(facts, eff, v, var, fl, h=h, node=node):
            if any(x[0] == "write" for x in eff):
                return "write", "something is changed"
            lists = (lambda l: l == ("call", "param_descriptions", ())) if h == "SH" else (
                lambda l: l[0] == "call" and l[1] == "parameter_descriptions" and l[2] == (fld(fld(A1, "nodes"), "data"),))
            bound = (lambda b: b == usize("U", "Parameters")) if h == "SH" else (lambda b: fld(fld(fld(A1, "nodes"), "data"), "parameters") in (b, conv(b)))
            good, refuse = index_of_param(("call", "into", (A2,)), Search(ctx, fl, lists), bound)
            if var == "None":
                return None if refuse(facts) else ("refused", "a parameter the node has is not found")
            x = some(v)
            if x is None or x[0] != "agg" or not x[1].endswith("graph_edit::Parameter"):
                return "value", "what is returned is not a parameter built here"
            d = dict(x[3])
            if d[pf["node"]] != node:
                return "node", "the parameter is one of another node"
            if not good(d[pf["i"]], facts):
                return "param", "the parameter is another one than asked for"
            if not is_sender(d[pf["s"]], A1):
                return "queue", "changes of the parameter go to another graph"
        go(ctx, "handle", f"{h}.try_param", fs[0], at, (), lambda f, x: sched(f, x) or "::try_param" in x.get("p", "") and ITER(f, x), "the parameter asked for, of the node of the handle")
        fs = [f for f in F.fns if f["name"] == "param" and f"::{h}::<" in f["path"] and kind in f["path"] and "inst" in f]
        if len(fs) != 1:
            raise Missing(f"{h}::param")

        def at(facts, eff, v, var, fl):
            c = payload(v)
            if c is None or c[0] != "call" or c[1] != "try_param" or c[2][0] != A1 or c[2][1] not in (A2, ("call", "into", (A2,))):
                return "param", "the parameter returned is not the one asked for"
        go(ctx, "handle", f"{h}.param", fs[0], at, text="try_param's")
        n += 2

    def node_id(e, key, graph):
        d = dict(e[3]) if e[0] == "agg" and e[1].endswith("graph::NodeId") else None
        return d is not None and key(d[kf["k"]]) and graph(d[kf["g"]])

    def fresh(e, eff, has):
        """e is the identity of the node that was just added."""
        pushed = [x for x in eff if x[0] == "call" and x[1] == "push_node"]
        if len(pushed) != 1:
            return "pushed", "not exactly one node is added"
        G = pushed[0][2][0]
        if not node_id(e, lambda k: k == ("call", "push_node", pushed[0][2]), lambda x: x == fld(G, kf_graph)):
            return "node", "the handle names another node than the one added"
        if has is not None and not any(x == has for x in walk(pushed[0][2][1])):
            return "other", "what is added is not the node given"
        return None

    kf_graph = fields_of(F, "knaster_graph::graph::Graph", {"x": lambda t: t.endswith("GraphId")})["x"] if any(
        F.ts(f["ty"]).endswith("GraphId") for f in F.adts["knaster_graph::graph::Graph"]["variants"][0]["fields"]) else "graph_id"
    raw = fields_of(F, "knaster_graph::handle::RawHandle", {"n": lambda t: t.endswith("NodeId"), "s": lambda t: t.endswith("SchedulingChannelSender")})
    for m in ("push", "push_with_done_action"):
        f = getf(F, "knaster_graph::graph_edit::GraphEdit::<'b, F>::" + m)

        def at(facts, eff, v, var, fl):
            d = dict(v[3]) if v[0] == "agg" and v[1].endswith("graph_edit::SH") else None
            h = dict(d["nodes"][3]) if d is not None and d["nodes"][0] == "agg" else None
            if h is None:
                raise Missing("construction of the handle")
            if d["graph"] != fld(A1, "graph"):
                return "graph", "the handle belongs to another graph"
            return fresh(h[idf("Handle3")], [x for x in eff if x[0] == "call"], A2)
        go(ctx, "handle", f"GraphEdit.{m}", f, at, ("push_node",), text="the node just added")
        n += 1
    for m in ("push_internal", "push_with_done_action"):
        f = getf(F, "knaster_graph::graph::Graph::<F>::" + m)

        def at(facts, eff, v, var, fl):
            r = [x for x in walk(v) if x[0] == "agg" and x[1].endswith("handle::RawHandle")]
            if len(r) != 1:
                raise Missing("construction of the handle")
            d = dict(r[0][3])
            e = d[raw["s"]]
            e = e[3][0][1] if e[0] == "agg" else e
            e = e[1] if e[0] == "f" and e[2] == "0" else e
            if e != fld(fld(A1, roles_["com"]), com_sender):
                return "queue", "changes made through the handle go to another graph"
            return fresh(d[raw["n"]], [x for x in eff if x[0] == "call"], A2)
        go(ctx, "handle", f"Graph.{m}", f, at, ("push_node",), text="the node just added")
        n += 1
    # a subgraph is the node it was added as
    for f in [f for f in F.fns if f["name"] in ("subgraph", "subgraph_init") and "graph::Graph::<F>" in f["path"] and "inst" in f]:
        def at(facts, eff, v, var, fl):
            ids = [x for x in eff if x[0] == "id"]
            return None
        fl, E = flatten(ctx, f, lambda h, x: False)
        w = []
        for b in fl.reachable():
            for s in fl.blocks[b].s:
                if s[0] == "=" and s[1][1] and s[1][1][-1] == ("f", roles_["self"]) or s[0] == "=" and s[1][1] and tuple(s[1][1][-1])[:2] == ("f", roles_["self"]):
                    w.append(canon(E.rvalue(s[2])))
        ok = len(w) == 1 and node_id(w[0], lambda k: k[0] == "call" and k[1] == "push_node" and k[2][0] == A1, lambda x: x == fld(A1, kf_graph))
        if not ok:
            ctx.viol("handle", "subgraph", f"{f['path']}: the graph that is returned does not know the node it was added as", where=loc(F, f["inst"], None))
        else:
            ctx.ok("handle", f["path"], "the node just added")
        n += 1
    # identities
    tests = [(f, fld(fld(A1, "nodes"), idf("Handle3"))) for f in F.fns if f["name"] == "id" and "::SH::<" in f["path"] and "Handle3<" in f["path"]]
    tests += [(f, fld(fld(A1, "nodes"), idf("DynamicHandle3"))) for f in F.fns if f["name"] == "id" and "::DH::<" in f["path"] and "DynamicHandle3" in f["path"]]
    tests += [(f, fld(A1, roles_["self"])) for f in F.fns if f["path"].endswith("graph::Graph::<F>::id")]
    for f in F.fns:
        if f["name"] == "from" and "graph::NodeId" in f["path"]:
            if "graph::Graph<F>" in f["path"]:
                tests.append((f, fld(A1, roles_["self"])))
            elif "SH<" in f["path"] or "DH<" in f["path"]:
                tests.append((f, fld(fld(A1, "nodes"), idf("Handle3" if "SH<" in f["path"] else "DynamicHandle3"))))
            elif "Handle3<" in f["path"]:
                tests.append((f, fld(A1, idf("Handle3"))))
            else:
                tests.append((f, ("call", "node_id", (A1,))))
        if f["name"] == "node_id" and "HandleTrait>" in f["path"]:
            tests.append((f, fld(fld(A1, raw_field(F, "AnyHandle" if "AnyHandle" in f["path"] else "Handle")), raw["n"])))
    for f, want in tests:
        if "inst" not in f:
            continue

        def at(facts, eff, v, var, fl, want=want):
            if v != want or eff:
                return "identity", "the identity is not the one of the handle's node"
        go(ctx, "handle", short(f["path"]), f, at, text="its node")
        n += 1
    # looked up
    f = getf(F, "knaster_graph::graph_edit::GraphEdit::<'b, F>::handle")

    def at(facts, eff, v, var, fl):
        c = [x[2] for x in eff if x[0] == "call"]
        if var == "None":
            return None if any(q[0] == "is" and q[2] == "None" and q[1][0] == "call" and q[1][1] == "node_data" for q in facts) else (
                "refused", "a node that exists is not found")
        d = dict(some(v)[3]) if some(v) is not None and some(v)[0] == "agg" else {}
        h = dict(d["nodes"][3]) if d.get("nodes", ("",))[0] == "agg" else {}
        if len(c) != 1 or d.get("graph") != fld(A1, "graph") or not is_conv(A2)(h.get(idf("DynamicHandle3"), A1)) or h.get("data") != (
                "f", ("v", ("call", "node_data", c[0]), "Some"), "0") or not is_conv(A2)(c[0][1]):
            return "node", "the handle is not the one of the node asked for"
    go(ctx, "handle", "GraphEdit.handle", f, at, ("node_data",), text="the node asked for")
    f = getf(F, "knaster_graph::graph::Graph::<F>::node_data")

    def at(facts, eff, v, var, fl):
        same = any(q[0] == "Eq" and {q[1][2] if q[1][0] == "f" else 0, q[2][2] if q[2][0] == "f" else 0} == {kf["g"], kf_graph} for q in facts)
        other = any(q[0] == "Ne" and {q[1][2] if q[1][0] == "f" else 0, q[2][2] if q[2][0] == "f" else 0} == {kf["g"], kf_graph} for q in facts)
        entry = lambda e: e[0] == "call" and e[1] == "get" and len(e[2]) == 2 and e[2][0] == fld(A1, roles_["nodes"]) and e[2][1][0] == "f" and e[2][1][2] == kf["k"] and (
            e[2][1][1] == A2 or is_conv(A2)(e[2][1][1]))
        if var == "None":
            return None if other or any(q[0] == "is" and q[2] == "None" and entry(q[1]) for q in facts) else ("refused", "a node that exists is not found")
        x = some(v)
        if not same:
            return "graph", "a node of another graph is found"
        if x is None or x[0] != "f" or x[2] != "data" or payload(x[1]) is None or not entry(payload(x[1])):
            return "node", "what is returned is not of the node asked for"
    go(ctx, "handle", "Graph.node_data", f, at, pol=lambda f, x: ITER(f, x), text="the node asked for")
    f = getf(F, "knaster_graph::graph_edit::GraphEdit::<'b, F>::handle_from_name")

    def at(facts, eff, v, var, fl):
        c = [x[2] for x in eff if x[0] == "call"]
        if var == "None":
            return None if any(q[0] == "is" and q[2] == "None" and q[1][0] == "call" and q[1][1] == "node_data_from_name" for q in facts) else (
                "refused", "a node that exists is not found")
        d = dict(some(v)[3]) if some(v) is not None and some(v)[0] == "agg" else {}
        h = dict(d["nodes"][3]) if d.get("nodes", ("",))[0] == "agg" else {}
        r = ("f", ("v", ("call", "node_data_from_name", c[0]), "Some"), "0") if len(c) == 1 else None
        if r is None or d.get("graph") != fld(A1, "graph") or h.get(idf("DynamicHandle3")) != fld(r, "0") or h.get("data") != fld(r, "1") or c[0][1] not in (A2, ("call", "into", (A2,))):
            return "node", "the handle is not the one of the node asked for"
    go(ctx, "handle", "GraphEdit.handle_from_name", f, at, ("node_data_from_name",), text="the node asked for")
    by_name = [f for f in F.fns if "inst" in f and f["path"].startswith("knaster_graph::graph::Graph::<F>::") and f["name"] in ("node_data_from_name", "node_id_from_name", "node_from_name", "get_node_id", "node_id_with_name")]
    ctx.floor("by-name", len(by_name), 1)
    for f in by_name:
        def at(facts, eff, v, var, fl):
            nodes = fld(A1, roles_["nodes"])
            named = lambda q: q[1:] if q[0] in ("Eq", "Ne") and len(q) == 3 else None

            def el(e):
                x = item(e)
                return x[1] if x is not None and strip_it(x[0]) == nodes else None

            if var == "None":
                if any(q[0] == "is" and q[2] == "None" and q[1][0] == "call" and q[1][1] == "next" and strip_it(q[1][2][0]) == nodes for q in facts) and not any(
                        q[0] == "Eq" and any(y[0] == "f" and y[2] == "name" for y in q[1:]) for q in facts):
                    return None
                return "refused", "a node that exists is not found"
            ids = [x for x in walk(v) if x[0] == "agg" and x[1].endswith("graph::NodeId")]
            if len(ids) != 1 or not node_id(ids[0], lambda k: el(k) == ["0"], lambda x: x == fld(A1, kf_graph)):
                return "node", "the node found is not one of this graph"
            if not any(q[0] == "Eq" and any(y[0] == "f" and y[2] == "name" and el(y[1]) == ["1"] for y in q[1:]) and any(
                    y in (A2, ("call", "into", (A2,)), ("call", "as_ref", (A2,))) for y in q[1:]) for q in facts):
                return "name", "the node found has another name"
            for x in walk(v):
                if x[0] == "f" and x[2] == "data" and el(x[1]) != ["1"]:
                    return "data", "the description is of another node"
        go(ctx, "handle", "Graph." + f["name"], f, at, pol=lambda f, x: ITER(f, x), text="the node of that name")
    ctx.floor("handle", n, 15)


def short(p):
    return p.replace("knaster_graph::", "").replace("knaster_core::", "").replace("core::convert::", "")[:90]


def plain_value(ctx, rule, inst, f, ok, msg, text):
    F = ctx.facts()
    fl, E = flatten(ctx, f, ITER)
    seen = []

    def at(facts, eff, v, var):
        seen.append(v)
        if eff or not ok(v):
            return "value", msg
    vs = ordered(ctx, fl, E, lambda t: None, at, purge=False)
    bits = {"f32": 24, "f64": 53, "u8": 8, "i8": 8, "u16": 16, "i16": 16}
    if any(s[0] == "=" and s[2][0] == "cast" and F.ts(s[2][3]) in bits and s[2][1] != "PointerCoercion" for b in fl.reachable() for s in fl.blocks[b].s
           if not (s[0] == "=" and s[2][0] == "cast" and F.ts(s[2][3]) == "f64")):
        vs = vs + [(("narrow", "part of the value is cut off"), [])]
    if not seen:
        raise Missing(f"a way through {f['path']}")
    report(ctx, rule, inst, f, fl, vs, None, text)


def p15_values(ctx):
    """Values, times and parameters given in other forms are taken for what they are."""
    F = ctx.facts()
    V = "knaster_core::parameters::types::ParameterValue"
    n = 0

    def enum(v, name, *args):
        return v[0] == "agg" and v[2] == name and [x for _, x in v[3]] == list(args) or not args and v[0] == "k" and str(v[1]).endswith("::" + name)

    kinds = {"<f32>": lambda v: enum(v, "Float", A1), "<f64>": lambda v: enum(v, "Float", A1), "<bool>": lambda v: enum(v, "Bool", A1),
             "PTrigger>": lambda v: enum(v, "Trigger"), "<T>": lambda v: v[0] == "agg" and v[2] == "Integer" and conv(v[3][0][1]) == A1,
             "ParameterSmoothing>": lambda v: v[0] == "agg" and v[2] == "Smoothing" and v[3][0][1] == A1 and enum(v[3][1][1], "BlockRate"),
             "Rate)>": lambda v: enum(v, "Smoothing", fld(A1, "0"), fld(A1, "1"))}
    for f in F.fns:
        if f["name"] == "from" and f["path"].startswith(f"<{V} as core::convert::From<") and "inst" in f:
            k = [x for x in kinds if f["path"].split("From")[1].endswith(x + ">::from") ]
            if len(k) != 1:
                ctx.notes.append(f"not checked: {f['path']}")
                continue
            n += 1
            plain_value(ctx, "value", short(f["path"]), f, kinds[k[0]], "the value is not the one given", "the value given")
        if f["name"] == "from" and f["path"].startswith("<knaster_core::parameters::Param as core::convert::From<") and "inst" in f:
            n += 1
            plain_value(ctx, "value", short(f["path"]), f, (lambda v: enum(v, "Index", A1)) if "usize" in f["path"] else (lambda v: enum(v, "Desc", A1)),
                        "another parameter is meant", "the parameter given")
    pc = fields_of(F, "knaster_graph::handle::ParameterChange", {"param": lambda t: t.endswith("Param"), "value": lambda t: t.endswith("ParameterValue>"),
                   "smoothing": lambda t: t.endswith("ParameterSmoothing>"), "token": lambda t: t.endswith("SchedulingToken>"), "time": lambda t: t.endswith("scheduling::Time>")})
    for f in F.fns:
        if f["name"] == "from" and "handle::ParameterChange as core::convert::From<(" in f["path"] and "inst" in f:
            parts = [x.strip() for x in f["path"].split("From<(")[1].split(")>")[0].split(",")]
            role = {"P": "param", "V": "value", "S": "smoothing", "knaster_graph::scheduling::SchedulingToken": "token", "T": "time"}
            if any(x not in role for x in parts):
                ctx.notes.append(f"not checked: {f['path']}")
                continue
            n += 1

            def ok(v, parts=parts):
                d = dict(v[3]) if v[0] == "agg" and v[1].endswith("::ParameterChange") else None
                if d is None:
                    return False
                for k, name in pc.items():
                    i = [j for j, x in enumerate(parts) if role[x] == k]
                    e = d[name]
                    src = fld(A1, str(i[0])) if i else None
                    if not i:
                        if not nothing_(e):
                            return False
                    elif k == "param":
                        if conv(e) != src:
                            return False
                    elif some(e) is None or some(e) not in (src, ("call", "into", (src,)), ("call", "from", (src,))):
                        return False
                return True
            plain_value(ctx, "value", short(f["path"]), f, ok, "the change is not made of what was given", "each part in its place")
    tf = fields_of(F, "knaster_graph::scheduling::Time", {"s": lambda t: t.endswith("Seconds"), "a": lambda t: t == "bool"})

    def is_time(sec, absolute):
        return lambda v: v[0] == "agg" and v[1].endswith("scheduling::Time") and (lambda d: sec(d[tf["s"]]) and d[tf["a"]] in (("k", absolute), ("k", int(absolute))))(dict(v[3]))
    for m, s, a in (("at", lambda e: e == A1, True), ("after", lambda e: e == A1, False), ("asap", lambda e: e[0] == "k" and str(e[1]).endswith("Seconds::ZERO"), False)):
        n += 1
        plain_value(ctx, "value", "Time." + m, getf(F, "scheduling::Time::" + m), is_time(s, a), "the time is not the one given", "the time given")
    for m, a in (("to_absolute", True), ("to_relative", False)):
        f = getf(F, "scheduling::Time::" + m)
        fl, E = flatten(ctx, f, lambda f, x: False)
        w = [(s[1], canon(E.rvalue(s[2]))) for b in fl.reachable() for s in fl.blocks[b].s if s[0] == "=" and s[1][0] == 1 and s[1][1]]
        r = canon(E.local(fl.retlocal))
        ok = is_time(lambda e: e == fld(A1, tf["s"]), a)(r) and not w or r == A1 and len(w) == 1 and [tuple(x)[:2] for x in w[0][0][1]] == [("f", tf["a"])] and w[0][1] in (("k", a), ("k", int(a)))
        n += 1
        if not ok:
            ctx.viol("value", m, f"{f['path']}: the time is not the one given, made {'absolute' if a else 'relative'}", where=loc(F, f["inst"], None))
        else:
            ctx.ok("value", "Time." + m, "the time given")
    ctx.floor("value", n, 16)


def p15_channel(ctx):
    """The queue a graph's changes are put in is the one its audio side reads."""
    F, g = anchors(ctx)
    f = getf(F, "knaster_graph::graph::Graph::<F>::new")
    fl, E = flatten(ctx, f, WS)
    parts = {}
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt":
                for name in ("GraphGenCommunicator", "GraphGen"):
                    if s[2][1][1].endswith("::" + name):
                        parts.setdefault(name, []).append(dict(E.rvalue(s[2])[3]))
    if sorted(parts) != ["GraphGen", "GraphGenCommunicator"] or any(len(x) != 1 for x in parts.values()):
        raise Missing("construction of the two sides of a graph")
    com_sender = fields_of(F, "knaster_graph::graph::GraphGenCommunicator", {"s": lambda t: t.endswith("SchedulingChannelSender")})["s"]
    rec = [a for a in F.adts if a.endswith("::GraphGen")]
    recv = fields_of(F, rec[0], {"r": lambda t: "rtrb" in t and "Consumer<" in t and "SchedulingEvent" in t})["r"]

    def half(e):
        """(call site of the queue, which half)."""
        out = set()
        for x in walk(e):
            if x[0] == "f" and x[2] in ("0", "1") and x[1][0] == "call" and x[1][1].split("::")[-1] == "new" and "RingBuffer" in x[1][1]:
                out.add((x[1][3], x[2]))
        return out
    a, b = half(parts["GraphGenCommunicator"][0][com_sender]), half(parts["GraphGen"][0][recv])
    if len(a) != 1 or len(b) != 1 or {x[0] for x in a} != {x[0] for x in b} or (next(iter(a))[1], next(iter(b))[1]) != ("0", "1"):
        ctx.viol("channel", "halves", f"{f['path']}: changes are not put in the queue the audio side of the graph reads", where=loc(F, f["inst"], None))
    else:
        ctx.ok("channel", f["path"], "producer and consumer of one queue")
    # the sender handed out
    f = getf(F, "knaster_graph::graph::Graph::<F>::scheduling_channel_sender")
    roles_, _ = graph_gen_types(F)

    def at(facts, eff, v, var, fl):
        e = v[3][0][1] if v[0] == "agg" else v
        e = e[1] if e[0] == "f" and e[2] == "0" else e
        if e != fld(fld(A1, roles_["com"]), com_sender):
            return "sender", "the sender is not the one of this graph"
    go(ctx, "channel", "sender", f, at, text="the graph's own")
