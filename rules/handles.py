"""P26 (handles): connecting handles pairs their channels in order. P14: arithmetic on handles."""
from connect import *

CH = ("iter_outputs", "iter_inputs")
OKODD = {"iter_outputs", "iter_inputs", "chain", "zip", "enumerate", "into", "into_iter", "copied", "cloned"}


def strip_it(e):
    while e[0] in ("&", "*") or e[0] == "call" and e[1] in ("into_iter", "iter", "by_ref", "copied", "cloned", "iter_mut", "as_slice", "deref") and e[2]:
        e = e[1] if e[0] in ("&", "*") else e[2][0]
    return e


def item(e):
    """(iterator, components) when e is a component of the item an iterator produced (canonical)."""
    path = []
    for _ in range(8):
        if e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Some" and e[1][1][0] == "call" and e[1][1][1] == "next":
            return strip_it(e[1][1][2][0]), path[::-1]
        if e[0] == "f":
            path.append(e[2])
            e = e[1]
        else:
            return None
    return None


def leaf(it, path):
    """Follow zip and enumerate: (leaf iterator, remaining components); ('index',) for the position."""
    it = strip_it(it)
    for _ in range(6):
        if it[0] == "call" and it[1] == "zip" and path:
            it, path = strip_it(it[2][int(path[0])]), path[1:]
        elif it[0] == "call" and it[1] == "enumerate" and path:
            if path[0] == "0":
                return ("index",), path[1:]
            it, path = strip_it(it[2][0]), path[1:]
        elif it[0] == "agg" and it[1].endswith("RangeFrom") and dict(it[3]).get("start") == ("k", 0) and not path:
            return ("index",), path
        else:
            return it, path
    return None


def decode(e):
    x = item(e)
    return leaf(*x) if x else None


def first_of(e):
    """(iterator, component) when e is a component of the first item of iter_outputs(..), its `next` inlined."""
    comp = None
    if e[0] == "f" and e[2] in ("0", "1"):
        comp, e = e[2], e[1]
    if e[0] in ("call", "[]"):
        base, i = (e[2] if e[0] == "call" and e[1] == "index" and len(e[2]) == 2 else (e[1], e[2]) if e[0] == "[]" else (None, None))
        if base is not None and i is not None and base[0] == "f" and i[0] == "f" and base[1] == i[1] and base[1][0] == "call" and base[1][1] in CH:
            return base[1], comp
    return None


def segs(it):
    """The channels an iterator runs through, in order: list of (what, of what)."""
    it = strip_it(it)
    if it[0] == "call" and it[1] == "chain":
        a, b = segs(it[2][0]), segs(it[2][1])
        return a + b if a is not None and b is not None else None
    if it[0] == "call" and it[1] in CH and len(it[2]) == 1:
        return [(it[1], it[2][0])]
    if it[0] == "agg" and it[1].endswith("Range") and dict(it[3]).get("start") == ("k", 0):
        return [("range", dict(it[3])["end"])]
    if it[0] == "f" or it[0] == "arg":
        return [("elements", it)]
    return None


def node_of(e):
    return e[3][0][1] if e[0] == "agg" and e[2] == "Node" and len(e[3]) == 1 else None


def edit_fns(F, heads, name):
    return [f for f in F.fns if f["name"] == name and f["path"].startswith(tuple("knaster_graph::graph_edit::" + h for h in heads))]


A1N, A2N = ("f", ("arg", 1), "nodes"), ("f", ("arg", 2), "nodes")
TO = {"to": ("connect2", "pair"), "to_feedback": ("connect2_feedback", "pair"), "to_replace": ("connect2_replace", "pair"),
      "to_feedback_replace": ("connect2_feedback_replace", "pair"), "try_to": ("connect2", "pair"),
      "to_graph_out": ("connect2", "position"), "to_graph_out_replace": ("connect2_replace", "position"),
      "to_graph_out_channels": ("connect2", "given"), "to_graph_out_channels_replace": ("connect2_replace", "given")}


def is_graph(e):
    return e[0] == "agg" and e[2] == "Graph"


def own_graph(e):
    """The graph argument comes from the handle's own reference (through its lock)."""
    return ("f", ("arg", 1), "graph") in list(walk(e))


def p26_handles(ctx):
    F, g = anchors(ctx)
    ops = {m["path"]: m["name"] for m in g.methods.values()}
    n = 0
    for name, (op, how) in TO.items():
        for f in edit_fns(F, ("SH::<", "DH::<"), name):
            n += 1
            fl, E = flatten(ctx, f, lambda a, x: opaque(*ops)(a, x) and not x.get("p", "").endswith("::next"))
            S = Sites(g, fl, E, any_end=True)
            calls = {b: fl.blocks[b].t for b in fl.reachable() if fl.blocks[b].t[0] == "call" and F.insts[fl.blocks[b].t[1]].get("p") in ops}
            want = {p for p, x in ops.items() if x == op}

            def beside(st, e):
                """The item of a second iterator that is moved on once for every channel."""
                return any(canon(E.place(S.at[x].call[3])) == nextcall(e) and ("took", x) in st[1][1] for x in second)

            def counting(st, e):
                """A counter from zero; moved on once for every channel, after its connection."""
                return any(canon(E.local(l)) == e and ("took", ("count", l)) not in st[1][1] for l in steps)

            def event(st, b, what, x):
                if what == "stmt":
                    for l, ds in steps.items():
                        if any(d is x[2] for d in ds):
                            if ("took", "edge") not in st[1][1]:
                                return [("bad", "sink channel", "the channel of the graph's outputs is not the position of the handle's output")]
                            return [("mark", ("took", ("count", l))), ("do", next(iter(loops)))]
                    return None
                if what == "call" and b in second:
                    return [("bad", "sink", "an input of the other handle is left out")] if ("took", b) in st[1][1] else [("mark", ("took", b))]
                if what != "call" or b not in calls:
                    return None
                p = F.insts[x[1]]["p"]
                if p not in want:
                    if ops[p].startswith(("connect", "disconnect", "free", "push", "new_")):
                        return [("bad", "operation", f"channels are connected by {ops[p]} instead of {op}")]
                    return None
                a = [canon(E.op(y)) for y in x[2]]
                if not own_graph(a[0]):
                    return [("bad", "graph", "the connection is not made in the graph of the handle")]
                it = item(a[1])
                if it is None:
                    return [("bad", "source", "the source of a connection is not one of the handle's outputs, in order")]
                site = next((s for s in S.at if S.at[s].call is not None and canon(E.place(S.at[s].call[3])) == nextcall(a[1])), None)
                if site is None:
                    return [("bad", "source", "the source of a connection is not one of the handle's outputs, in order")]
                l, c = leaf(*it)
                if l != ("call", "iter_outputs", (A1N,)) or c != ["0"]:
                    return [("bad", "source", "the source of a connection is not the handle's output")]
                if decode(a[2]) != (l, ["1"]) or nextcall(a[2]) != nextcall(a[1]):
                    return [("bad", "source channel", "the source channel of a connection is not that of the handle's output")]
                if how == "pair":
                    k = ("call", "iter_inputs", (A2N,))
                    if decode(a[4]) != (k, ["0"]) or nextcall(a[4]) != nextcall(a[1]) and not beside(st, a[4]):
                        return [("bad", "sink", "the sink of a connection is not the other handle's input at the same position")]
                    if decode(a[3]) != (k, ["1"]) or nextcall(a[3]) != nextcall(a[4]):
                        return [("bad", "sink channel", "the sink channel of a connection is not that of the other handle's input at the same position")]
                else:
                    if not is_graph(a[4]):
                        return [("bad", "sink", "the sink of the connection is not the graph")]
                    if how == "position" and counting(st, a[3]) and ("took", "edge") not in st[1][1]:
                        return [("mark", ("took", "edge"))]
                    d = decode(a[3])
                    if nextcall(a[3]) != nextcall(a[1]) or d is None or not (d == (("index",), []) if how == "position" else
                                                                             strip_conv(d[0]) == ("arg", 2) and d[1] == []):
                        return [("bad", "sink channel", "the channel of the graph's outputs is not the " + ("position of the handle's output" if how == "position" else "given one"))]
                return [("do", site)]

            loops = {b: "channels" for b, s in S.at.items() if s.call is not None and leaf_sites(canon(E.place(s.call[3])))}
            # an iterator over the inputs that is moved on by hand
            second = {b for b in loops if segs(canon(S.at[b].it)) == [("iter_inputs", A2N)]} if len(loops) > 1 else set()
            for b in second:
                del loops[b]
            # counters: their steps
            steps = {}
            used = {canon(E.op(t[2][3])) for t in calls.values() if len(t[2]) > 3}
            for l, ds in fl.defs().items():
                if how == "position" and len(ds) == 2 and S.counter(E.local(l)) == ("k", 0) and canon(E.local(l)) in used:
                    steps[l] = [d[2] for d in ds if d[1] == "rv" and E.rv(d)[0] != "k"]
            if len(loops) != 1 or len(second) > 1:
                ctx.viol("handle-connect", f"{f['path'].split('::')[2][:2]}.{name}: loop", f"{f['path']}: does not connect the channels one after another", where=loc(F, f["inst"], None), trace=[])
                continue
            for b in loops:
                if set(S.at[b].odd) <= OKODD:
                    S.at[b].odd = []
            w = Walker(fl, E)
            m = ForEach(w, S, loops, event, lambda st, b: False, ["channels"], lambda k: "a channel is not connected", lambda k: "not all channels are connected",
                        keep=lambda q: q[0] == "is" and q[2] == "None" and any(q[1] == canon(E.place(S.at[b].call[3])) for b in second),
                        inner={b: [("took", "edge")] + [("took", x) for x in second] + [("took", ("count", l)) for l in steps] for b in loops})
            # a second iterator that ends ends the pairs
            m.noreturn = lambda facts: bool(facts)
            m.exempt = lambda st, b: bool(st[0])
            if name == "try_to":
                base_term = m.term
                m.term = lambda st, b, t, env, base_term=base_term, w=w: None if t[0] == "ret" and w.variant_of_return(env) == "Err" else base_term(st, b, t, env)
            vs = w.run(m, ForEach.INIT)
            ctx.states += w.nstates
            ret = canon(E.local(fl.retlocal))
            hd = f["path"].split("::")[2][:2]
            if how == "pair" and not all(x == ("arg", 2) or name == "try_to" and (x == ("agg", "core::result::Result", "Ok", (("0", ("arg", 2)),)) or failed(x))
                                         for x in (ret[1] if ret[0] == "phi" else (ret,))):
                vs = list(vs) + [(("result", "the other handle is not what is returned for further connections"), [])]
            done = set()
            for (k, msg), path in vs:
                if k not in done:
                    done.add(k)
                    ctx.viol("handle-connect", f"{hd}.{name}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
            if not vs:
                ctx.ok("handle-connect", f["path"], f"{op} for each channel")
    ctx.floor("handle-connect", n, 17)


def failed(x):
    """The error of a connection, handed on."""
    return x[0] == "call" and x[1] == "from_residual" or x[0] == "agg" and x[2] == "Err"


def nextcall(e):
    """The next() call whose item e is a component of."""
    for _ in range(8):
        if e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Some" and e[1][1][0] == "call" and e[1][1][1] == "next":
            return e[1][1]
        if e[0] != "f":
            return None
        e = e[1]
    return None


def leaf_sites(c):
    """An iteration over channels of handles."""
    if not (c[0] == "call" and c[1] == "next"):
        return False
    return any(x[0] == "call" and x[1] in CH for x in walk(c))


def strip_conv(e):
    while e[0] == "call" and e[1] in ("into", "into_iter", "from") and len(e[2]) == 1:
        e = e[2][0]
    return e


def p26_single(ctx):
    """link, disconnect_output, disconnect_input: one operation with the arguments of the call."""
    F, g = anchors(ctx)
    ops = {m["path"]: m["name"] for m in g.methods.values()}
    EDIT = {"connect2", "connect2_replace", "connect2_feedback", "connect2_feedback_replace", "connect_to_parameter", "connect_replace_to_parameter",
            "disconnect_output_from_source", "disconnect_input_to_sink", "free_node_from_key"}
    n = 0

    def nth(e, which, comp):
        """e is component comp of the item of which(self.nodes) at the position given by argument 2"""
        if not (e[0] == "f" and e[2] == comp):
            return False
        p = payload(e[1])
        return p is not None and p[0] == "call" and p[1] == "nth" and p[2][0] == ("call", which, (A1N,)) and uncast(p[2][1]) == ("arg", 2)

    def check_link(a, facts):
        src, ch, par, sink = a[1], a[2], a[3], a[4]
        s = src
        if s[0] == "f" and s[2] == "0" and s[1][0] == "v" and s[1][2] == "Node":
            s = s[1][1]
        k = ("call", "iter_outputs", (("f", ("arg", 3), "nodes"),))

        def comp(e, c):
            x = first_of(e)
            if x is not None:
                return x == (k, c)
            if e[0] == "f" and e[2] == c:
                p = payload(e[1])
                return p is not None and p[0] == "call" and p[1] == "next" and strip_it(p[2][0]) == k
            return False
        if not comp(s, "0") or not comp(ch, "1"):
            return "the parameter is not linked to the given output"
        if strip_conv(par) != ("arg", 2):
            return "another parameter than the given one is linked"
        if strip_conv(sink) != ("f", A1N, "node_id"):
            return "the parameter of another node is linked"
        return None

    SPEC = {"link": ({"connect_replace_to_parameter"}, check_link),
            "disconnect_output": ({"disconnect_output_from_source"}, lambda a, facts: None if nth(a[1], "iter_outputs", "0") and nth(a[2], "iter_outputs", "1") else
                                  "another output than the given one is disconnected"),
            "disconnect_input": ({"disconnect_input_to_sink"}, lambda a, facts: None if nth(a[2], "iter_inputs", "0") and nth(a[1], "iter_inputs", "1") else
                                 "another input than the given one is disconnected")}
    for name, (want, check) in SPEC.items():
        for f in edit_fns(F, ("SH::<", "DH::<"), name):
            n += 1
            fl, E = flatten(ctx, f, lambda a, x: opaque(*ops)(a, x) and not x.get("p", "").endswith(("::nth", "::next")))
            hd = f["path"].split("::")[2][:2]
            cnt = [0]

            def at(facts, eff, v, var):
                calls = [x for x in eff if x[0] == "call"]
                if any(x[1] not in want for x in calls):
                    return "operation", f"the handle does {sorted(x[1] for x in calls)} instead"
                if not calls:
                    # a graph input cannot be linked to a parameter: refused by logging
                    if name == "link" and any(q[0] == "is" and q[2] == "Graph" for q in facts):
                        return None
                    return "nothing", "nothing is done"
                if len(calls) != 1:
                    return "operation", "more than one operation is done"
                cnt[0] += 1
                if not own_graph(calls[0][2][0]):
                    return "graph", "it is not done in the graph of the handle"
                r = check(calls[0][2], facts)
                return ("arguments", r) if r else None

            vs = summarise(ctx, fl, E, lambda t: ops.get(F.insts[t[1]].get("p")) if ops.get(F.insts[t[1]].get("p")) in EDIT else None, at)
            done = set()
            for (k, msg), path in vs:
                if k not in done:
                    done.add(k)
                    ctx.viol("handle-single", f"{hd}.{name}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
            if not vs:
                ctx.ok("handle-single", f["path"], f"{cnt[0]} paths")
                ctx.floor("handle-single-" + name, cnt[0], 1)
    ctx.floor("handle-single", n, 6)
