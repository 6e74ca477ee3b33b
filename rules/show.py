"""P27: an inspection lists the nodes and the signal connections of the graph."""
from wrap import *
from foreach import ForEach, index_of
from signals import run, peel
from parts import root_local
from send import fields_of

NI, EI, ES, GI = ["knaster_graph::inspection::" + x for x in ("NodeInspection", "EdgeInspection", "EdgeSource", "GraphInspection")]
TEXT = {"to_string", "clone", "into", "from", "to_owned", "as_str", "as_ref", "deref", "borrow"}


def untext(e):
    while e[0] == "call" and e[1].split("::")[-1] in TEXT and e[2]:
        e = e[2][0]
    return e


def node_field(g, e):
    """(key, names) when e is a field of the node of that key."""
    names = []
    e = untext(e)
    while e[0] == "f" and payload(e) is None:
        e, names = e[1], [e[2]] + names
    p = payload(e)
    if p is not None:
        e = p
    e = strip_it(e)
    d = at_(e)
    if d is None and e[0] == "call" and e[1] in ("get", "get_unchecked", "get_mut") and len(e[2]) == 2:
        d = strip_it(e[2][0]), e[2][1]
    return (d[1], names) if d is not None and d[0] == fld(A1, g.f["nodes"]) else None


def table_slot(g, e, role):
    """key when e is the list of one node in a table"""
    while e[0] == "f" and e[2] == "0" and payload(e) is None:
        e = e[1]
    p = payload(e)
    e = strip_it(p if p is not None else e)
    while e[0] == "f" and e[2] == "0" and payload(e) is None:
        e = e[1]
    if e[0] in ("[]",) and strip_it(e[1]) == fld(A1, g.f[role]):
        return e[2]
    if e[0] == "call" and e[1] in ("get", "index", "get_unchecked", "get_mut") and len(e[2]) == 2 and strip_it(e[2][0]) == fld(A1, g.f[role]):
        return e[2][1]
    return None


def LISTS(f, x):
    return ITER(f, x)


LISTS.collect = lambda f, x, t: "NodeData" not in f.F.ts(t[8][2])


def p27_lists(ctx):
    F, g = anchors(ctx)
    f = F.fn.get("knaster_graph::graph::Graph::<F>::inspection")
    if f is None:
        raise Missing("Graph::inspection")
    ef = fields_of(F, "knaster_graph::edge::Edge", {"source": lambda t: t.endswith("NodeKeyOrGraph"), "chan": lambda t: t == "u16", "fb": lambda t: t == "bool"})
    fl, E = flatten(ctx, f, LISTS)
    S = Sites(g, fl, E, any_end=True)
    W = Where(F, S, E)
    kinds = {}
    for b, s in S.at.items():
        rs = s.roles
        if rs == {"order"}:
            kinds[b] = "node"
        elif rs == {"in_edges"}:
            kinds[b] = "connection"
        elif rs == {"out_edges"}:
            kinds[b] = "output"
    by = {k: [b for b in kinds if kinds[b] == k] for k in ("node", "connection", "output")}
    if any(len(v) != 1 for v in by.values()):
        raise Missing("one loop each over the nodes, their inputs and the graph's outputs in the inspection")
    L, C, O = by["node"][0], by["connection"][0], by["output"][0]
    vecs = {}

    def elem_key(e):
        """e is the key of the current node"""
        r = W.elem(e)
        if r is not None:
            return r[0] == L and r[1] == fld(A1, g.f["order"]) and not r[2]
        d = at_(e)
        return d is not None and d[0] == fld(A1, g.f["order"]) and S.at[L].idx is not None and d[1] == canon(S.at[L].idx)

    def slot(e, b):
        """e is the connection (an option) at the position of loop b"""
        d = at_(e)
        if d is not None and S.at[b].idx is not None:
            return uncast(d[1]) == uncast(canon(S.at[b].idx))
        return nextcall(e) == canon(E.place(S.at[b].call[3])) if S.at[b].call is not None and nextcall(e) else False

    def of_edge(e, b, name):
        """e is that field of the connection loop b is at"""
        if e[0] != "f" or e[2] != name:
            return False
        p = payload(e[1])
        return p is not None and slot(p, b)

    want = {"inputs": ["data", "inputs"], "outputs": ["data", "outputs"], "name": ["name"], "is_graph": ["is_graph"]}

    def event(st, b, what, x):
        if what == "stmt":
            if x[0] == "=" and x[2][0] == "agg":
                c = canon(E.rvalue(x[2]))
                if c[0] == "agg" and c[1] == ES:
                    src = [q[1] for q in st[0] if q[0] == "is" and q[2] == c[2] and any(of_edge(q[1], l, ef["source"]) for l in (C, O))]
                    if not src:
                        src = [q[1] for q in st[0] if q[0] == "isnot" and q[2] != c[2] and q[2] in ("Node", "Graph") and any(of_edge(q[1], l, ef["source"]) for l in (C, O))]
                    if not src:
                        return [("bad", "source kind", "a connection from a node is shown as one from the graph, or the other way around")]
            return None
        n = last(F, x[1])
        if n not in ("push", "insert", "push_front", "pop", "remove", "truncate", "clear", "retain", "swap", "reverse", "swap_remove", "dedup_by_key", "extend", "append") or len(x[2]) < 1:
            return None
        ty = F.ts(fl.ltypes[x[2][0][1][0]]) if x[2][0][0] != "k" else ""
        if "Inspection>" not in ty:
            return None
        if n != "push":
            return [("bad", "changed", "a list of the inspection is changed in another way than by adding to it")]
        v = canon(E.op(x[2][1]))
        if v[0] != "agg":
            return [("bad", "record", "what is listed is not made from an element of the graph")]
        vecs.setdefault(v[1], {})[b] = ("vec", peel(E.op(x[2][0])))
        raw = E.op(x[2][1])
        d = dict(v[3])
        if v[1] == NI:
            if not elem_key(d["key"]):
                return [("bad", "key", "a node is shown with another key than its own")]
            for k, path in want.items():
                r = node_field(g, d[k])
                if r is None or not elem_key(r[0]) or r[1] != path:
                    return [("bad", k, f"the {k.replace('_', ' ')} shown for a node is not the node's own")]
            for k, m in (("parameter_descriptions", "parameter_descriptions"), ("parameter_hints", "parameter_hints")):
                cl = [c for c in walk(d[k]) if c[0] == "agg" and str(c[1]).startswith("closure:")]
                own = [node_field(g, c) for c in walk(d[k]) if c[0] in ("f", "call")]
                own = [r for r in own if r and elem_key(r[0])]
                if not own or not any(("::" + m + "::") in c[1] or m + "_fn" in str(c) for c in cl) or any(k2 in c[1] for c in cl for k2 in ("parameter_descriptions", "parameter_hints") if k2 != m):
                    return [("bad", k, f"the {k.replace('_', ' ')} shown for a node are not the node's own")]
            u = d["unconnected"]
            if not (u[0] == "call" and u[1] == "contains" and strip_it(u[2][0]) == fld(A1, g.f["disc"]) and elem_key(strip_it(u[2][1]))):
                return [("bad", "unconnected", "whether a node is unconnected is not what is shown")]
            vecs.setdefault("in", set()).add(peel(raw_field(raw, "input_edges")))
            return [("do", L)]
        if v[1] == EI:
            l = next((l for l in (C, O) if of_edge(d["from_index"], l, ef["chan"])), None)
            if l is None:
                return [("bad", "channel", "a connection is not shown with the channel it reads")]
            r = judge(st, d, l, raw_field(raw, "to_index"))
            if r:
                return [r]
            vecs.setdefault(kinds[l], set()).add(peel(E.op(x[2][0])))
            return [("do", l)]
        return None

    def judge(st, d, l, to):
        if not of_edge(d["is_feedback"], l, ef["fb"]):
            return ("bad", "feedback", "whether a connection is a feedback connection is not what is shown")
        if not index_of(S, to, l):
            return ("bad", "index", "a connection is not shown at the input it feeds")
        for a in alts(d["source"]):
            if a[0] == "agg" and a[1] == ES and a[2] == "Graph":
                continue
            x = a[3][0][1] if a[0] == "agg" and a[1] == ES and a[2] == "Node" else None
            if x is None or not (x[0] == "f" and x[1][0] == "v" and x[1][2] == "Node" and of_edge(x[1][1], l, ef["source"])):
                return ("bad", "source", "a connection is not shown with the node it comes from")
        return None

    def exempt(st, b):
        """the slot is empty, or the node has no inputs at all"""
        fs = st[0]
        if b in (C, O):
            return any((q[0], q[2]) in (("is", "None"), ("isnot", "Some")) and slot(q[1], b) for q in fs if q[0] in ("is", "isnot"))
        return False

    vs = run(ctx, f, "lists", fl, E, lambda w: ForEach(
        w, S, kinds, event, exempt, ["node", "output"], lambda n: f"a{'n' if n == 'output' else ''} {n} of the graph can be left out",
        lambda n: f"only a part of the {n}s of the graph are shown", inner={L: ["connection"]}), {"node": 1, "connection": 1, "output": 1})
    # the lists end up in the inspection
    bad = []
    n = 0
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[2][0] == "agg":
                r = E.rvalue(s[2])
                if r[0] == "agg" and r[1] == GI:
                    n += 1
                    d, c = dict(r[3]), dict(canon(r)[3])
                    if [peel(d["nodes"])] != list({x[1] for x in vecs.get(NI, {}).values()}):
                        bad.append(("nodes", "the list of nodes is not the one the nodes were added to"))
                    if [peel(d["graph_output_edges"])] != list(vecs.get("output", ())):
                        bad.append(("outputs", "the list of connections to the outputs is not the one they were added to"))
                    for k, t in (("num_inputs", "num_inputs"), ("num_outputs", "num_outputs"), ("graph_id", "graph_id"), ("graph_name", "name")):
                        if untext(c[k]) != fld(A1, t):
                            bad.append((k, f"the {k.replace('_', ' ')} shown is not the graph's"))
                    for k, t in (("param_sender", "scheduling_event_producer"), ("shared_frame_clock", "shared_frame_clock")):
                        if not any(x == fld(fld(A1, g.f["comm"]), t) for x in walk(c[k])):
                            bad.append((k, f"the {k.replace('_', ' ')} of an inspection is not the graph's"))
    if not vs and list(vecs.get("in", ())) != list(vecs.get("connection", ())):
        bad.append(("inputs", "the list of connections to a node is not the one they were added to"))
    if n != 1:
        raise Missing("the inspection made by Graph::inspection")
    if not vs:
        report(ctx, "whole", "inspection", f, fl, [(x, []) for x in bad], None, "the lists, counts and identity of the graph")
    p27_data(ctx, F, g)
    p27_handles(ctx, F, g)
    p27_graphs(ctx, F, g)


def raw_field(r, n):
    return dict(r[3])[n] if r[0] == "agg" else ("?",)


def p27_data(ctx, F, g):
    """The data of a node is what its generator says, taken when the node is made; parameters are listed from the first to the last."""
    f = F.fn.get("knaster_graph::node::Node::<F>::new")
    if f is None or "inst" not in f:
        raise Missing("Node::new")
    fl, E = flatten(ctx, f, lambda h, x: ITER(h, x) and "DynUGen" not in x.get("p", "") and "UGenEnum" not in x.get("p", ""))
    bad, n = [], 0
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[2][0] == "agg":
                c = canon(E.rvalue(s[2]))
                if c[0] == "agg" and c[1].endswith("::NodeData"):
                    n += 1
                    for k, m in (("parameter_descriptions_fn", "param_description_fn"), ("parameter_hints_fn", "param_hints_fn"), ("inputs", "inputs"),
                                 ("outputs", "outputs"), ("parameters", "parameters")):
                        v = dict(c[3]).get(k)
                        if v is None or not (v[0] == "call" and v[1].split("::")[-1] == m and A2 in v[2]):
                            bad.append((k, f"the {k} of a node is not what its generator says"))
                if c[0] == "agg" and c[1] == "knaster_graph::node::Node" and dict(c[3]).get("name") != A1:
                    bad.append(("name", "the name of a node is not the one given"))
    if n != 1:
        raise Missing("the data of a node in Node::new")
    report(ctx, "data", "new node", f, fl, [(x, []) for x in bad], None, "counts and tables are the generator's")
    # the iterators over descriptions and hints
    k = 0
    for m in ("parameter_descriptions", "parameter_hints"):
        f = F.fn.get(f"knaster_graph::node::NodeData::{m}")
        if f is None or "inst" not in f:
            raise Missing(f"NodeData::{m}")
        fl, E = flatten(ctx, f, ITER)
        start = None
        for b in fl.reachable():
            for s in fl.blocks[b].s:
                if s[0] == "=" and s[2][0] == "agg":
                    c = canon(E.rvalue(s[2]))
                    if c[0] == "agg" and str(c[1]).startswith("closure:"):
                        start = c
        if start is None:
            raise Missing(f"the iteration of NodeData::{m}")
        path = start[1][len("closure:"):]
        zero = [i for i, (_, v) in enumerate(start[3]) if v == ("k", 0)]
        table = {"parameter_descriptions": "parameter_descriptions_fn", "parameter_hints": "parameter_hints_fn"}[m]
        own = [i for i, (_, v) in enumerate(start[3]) if v in (A1, fld(A1, table))]
        cf = F.fn.get(path)
        inst = cf["inst"] if cf and "inst" in cf else next((i for i, x in F.insts.items() if x.get("p") == path and x.get("body")) if isinstance(F.insts, dict)
                                                           else (i for i, x in enumerate(F.insts) if x.get("p") == path and x.get("body")), None)
        if inst is None or len(zero) != 1 or len(own) != 1:
            raise Missing(f"the iteration of NodeData::{m}")
        fc, Ec = flatten(ctx, {"path": path, "inst": inst}, ITER)
        cnt = fld(A1, str(zero[0]))
        fn = fld(A1, str(own[0]))
        fn = fld(fn, table) if start[3][own[0]][1] == A1 else fn

        def at(fs, eff, v, var):
            ws = writes(eff)
            if ws != [(cnt, ("bin", "Add", cnt, ("k", 1)))]:
                return ("step", "the parameters of a node are not listed one by one")
            if not any(x == fn for x in walk(v)) and not (v[0] == "call" and cnt in v[2]):
                return ("entry", "what is listed for a parameter is not the entry of that parameter")
            return None

        vs = list(ordered(ctx, fc, Ec, lambda t: None, at, purge=False))
        w = Walker(fc, Ec)
        vs += list(w.run(ReadFirst(w, Ec, cnt), False))
        report(ctx, "list", m, {"path": path, "inst": inst, "name": m}, fc, vs, None, "entry i for i = 0, 1, ..")
        k += 1
    ctx.floor("list", k, 2)


class ReadFirst(Monitor):
    """A counter is not read after it has been moved on."""

    def __init__(self, w, E, cnt):
        super().__init__(w)
        self.E, self.cnt = E, cnt

    def stmt(self, st, b, s):
        if s[0] == "=":
            if st and s[2][0] == "use" and s[2][1][0] != "k" and s[2][1][1][1] and canon(self.E.place(s[2][1][1])) == self.cnt:
                self.w.viol(("step", "the parameters are not listed from the first one on"))
                return None
            if s[1][1] and canon(self.E.place(s[1])) == self.cnt:
                return True
        return st

    def term(self, st, b, t, env):
        if t[0] == "call" and st and any(a[0] != "k" and a[1][1] and canon(self.E.place(a[1])) == self.cnt for a in t[2]):
            self.w.viol(("step", "the parameters are not listed from the first one on"))
            return None
        return None if t[0] == "ret" else st


def p27_graphs(ctx, F, g):
    """Nodes that are graphs are marked with the graph in them."""
    NODE = "knaster_graph::node::Node"
    n = 0
    for f in g.methods.values():
        fl, E = flatten(ctx, f, lambda h, x: ITER(h, x) and not any(k in x.get("p", "") for k in ("push", "::new_graph", "Graph::<F>::new")))
        subs = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]).startswith("push")
                and any(a[0] != "k" and "graph_gen::GraphGen<" in F.ts(a[2]) or a[0] != "k" and "Node<" in F.ts(a[2]) and "graph::Graph<" not in F.ts(a[2]) for a in fl.blocks[b].t[2][1:])]
        made = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and "graph::Graph<" in F.ts(fl.ltypes[fl.blocks[b].t[3][0]])
                and F.ts(fl.ltypes[fl.blocks[b].t[3][0]]).startswith("(")]
        if not subs or not made:
            continue
        n += 1

        def at(fs, eff, v, var):
            ws = [(p, x) for k, p, x, *_ in eff if k == "write" and p[0] == "f" and p[2] == "is_graph"]
            if len(ws) != 1:
                return ("mark", "a node that is a graph is not marked as one")
            x = some(ws[0][1])
            if x is None or not (x[0] == "f" and x[2] == "graph_id") or x[1] == A1:
                return ("mark", "a node that is a graph is marked with another graph")
            return None

        vs = ordered(ctx, fl, E, lambda t: None, at, purge=False)
        report(ctx, "graphs", f["name"], f, fl, vs, None, "marked with the graph in it")
    ctx.floor("graphs", n, 1)


def p27_handles(ctx, F, g):
    """The handles made from an inspection name its nodes, in order, with their own data."""
    f = F.fn.get("knaster_graph::inspection::GraphInspection::node_handles")
    if f is None or "inst" not in f:
        raise Missing("GraphInspection::node_handles")
    fl, E = flatten(ctx, f, ITERC)
    S = Sites(g, fl, E, any_end=True)
    W = Where(F, S, E)
    loops = {b: "node" for b, s in S.at.items() if W.end(b) == ("call", "len", (fld(A1, "nodes"),)) or strip_it(canon(s.it)) == fld(A1, "nodes")}
    if len(loops) != 1:
        raise Missing("one loop over the nodes in node_handles")
    (L,) = loops

    def of_node(e, name):
        e = untext(e)
        r = W.elem(e)
        if r is not None:
            return r[0] == L and r[2] == [name]
        if e[0] == "f" and e[2] == name:
            d = at_(e[1])
            return d is not None and d[0] == fld(A1, "nodes") and S.at[L].idx is not None and d[1] == canon(S.at[L].idx)
        return False

    def event(st, b, what, x):
        if what != "call" or last(F, x[1]) not in ("push", "insert", "extend", "pop", "reverse", "swap") or len(x[2]) < 2:
            return None
        if last(F, x[1]) != "push":
            return [("bad", "order", "the handles are not in the order of the nodes")]
        v = canon(E.op(x[2][1]))
        if v[0] != "agg" or not v[1].endswith("::AnyHandle"):
            return [("bad", "handle", "what is listed is not a handle to a node")]
        d = dict(v[3])
        for k, n in (("parameters", "parameter_descriptions"), ("parameter_hints", "parameter_hints"), ("inputs", "inputs"), ("outputs", "outputs")):
            if not of_node(d[k], n):
                return [("bad", k, f"the {k} of a handle are not those of its node")]
        ids = [c for c in walk(d["raw_handle"]) if c[0] == "agg" and c[1].endswith("::NodeId")]
        if len(ids) != 1 or not of_node(dict(ids[0][3])["key"], "key") or dict(ids[0][3])["graph"] != fld(A1, "graph_id"):
            return [("bad", "id", "a handle does not name the node it is made for")]
        for k in ("param_sender", "shared_frame_clock"):
            if not any(c == fld(A1, k) for c in walk(d["raw_handle"])):
                return [("bad", k, "a handle does not send to the graph of its node")]
        return [("do", L)]

    run(ctx, f, "handles", fl, E, lambda w: ForEach(
        w, S, loops, event, lambda st, b: False, ["node"], lambda n: "a node can be left without a handle", lambda n: "handles are made for only some of the nodes"), {"node": 1})
