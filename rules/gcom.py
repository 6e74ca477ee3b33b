"""Shared vocabulary of the graph rules: what counts as a structural edit of a graph, where the
entry points are, and the events a flattened entry point performs."""
from facts import Missing
from flat import Flat, _closure_comb
from expr import Exprs, walk, show
from rt import noSite

GRAPH = "graph::Graph"


def fields_by_type(F, adt, wanted):
    """{role: field name}: the unique field of `adt` whose type satisfies the predicate."""
    a = next((a for p, a in F.adts.items() if p.endswith("::" + adt) and p.startswith("knaster")), None)
    if not a:
        raise Missing(f"type {adt}")
    fs = [(f["name"], F.ts(f["ty"])) for v in a["variants"] for f in v["fields"]]
    out = {}
    for role, (pred, fallback) in wanted.items():
        c = [n for n, t in fs if pred(t)]
        if len(c) != 1 and fallback in [n for n, _ in fs]:
            c = [fallback]
        if len(c) != 1:
            raise Missing(f"field of {adt} playing the role of {role}: candidates {c}")
        out[role] = c[0]
    return out


class G:
    """Anchors of the graph type."""

    def __init__(self, F):
        self.F = F
        w = {
            "nodes": (lambda t: "SlotMap<" in t and "node::Node<" in t, "nodes"),
            "in_edges": (lambda t: "SecondaryMap<" in t and "edge::Edge>" in t, "node_input_edges"),
            "par_edges": (lambda t: "SecondaryMap<" in t and "ParameterEdge>" in t, "node_parameter_edges"),
            "out_edges": (lambda t: "SecondaryMap<" not in t and "edge::Edge>" in t, "output_edges"),
            "dirty": (lambda t: t == "bool", "recalculation_required"),
            "pending_nodes": (lambda t: "Vec<(" in t and "NodeKey" in t and "Arc<" in t, "node_keys_to_free_when_safe"),
            "pending_bufs": (lambda t: "Vec<" in t and "OwnedRawBuffer" in t, "buffers_to_free_when_safe"),
            "mortality": (lambda t: "SecondaryMap<" in t and t.endswith(", bool>"), "node_mortality"),
            "comm": (lambda t: "GraphGenCommunicator" in t, "graph_gen_communicator"),
            "order": (lambda t: False, "node_order"),
            "disc": (lambda t: False, "disconnected_nodes"),
            "gid": (lambda t: False, "graph_id"),
            "alloc": (lambda t: "BufferAllocator" in t, "buffer_allocator"),
            "ar_off": (lambda t: "Vec<(" in t and "NodeKey, u16" in t, "ar_parameters_to_disable"),
        }
        self.f = fields_by_type(F, GRAPH, w)
        self.c = fields_by_type(F, "graph::GraphGenCommunicator", {
            "flag": (lambda t: "Atomic<bool>" in t, "next_change_flag"),
            "ret": (lambda t: "Consumer<" in t and "TaskData" in t, "task_data_to_be_dropped_consumer"),
            "new": (lambda t: "Producer<" in t and "TaskData" in t, "new_task_data_producer"),
        })
        self.methods = {f["name"]: f for f in F.fns if f.get("impl_adt", "").endswith("::" + GRAPH)
                        and "impl_trait" not in f and "inst" in f}

    def entries(self):
        """Graph methods callable from outside the graph module."""
        out = []
        for n, f in self.methods.items():
            v = f.get("vis") or ""
            if v == "Public" or (v.startswith("Restricted") and not v.split("~")[1].strip(" )").endswith("::graph")):
                out.append(f)
        return out

    def m(self, name):
        if name not in self.methods:
            raise Missing(f"Graph method {name}")
        return self.methods[name]


STOP = {"extend", "spec_extend", "extend_trusted", "extend_desugared", "collect", "from_iter", "sort_by", "sort_by_key",
        "retain", "retain_mut", "dedup_by", "sort_unstable_by", "sort_unstable_by_key"}
WS = lambda f, x: x.get("ws", False) or x["k"] == "shim" or (_closure_comb(x) and x.get("p", "").split("::")[-1] not in STOP)
FULL = lambda f, x: x.get("ws", False) or x["k"] == "shim" or _closure_comb(x)


def mentions(e, name):
    return any(x[0] == "f" and x[2] == name for x in walk(e))


def last(F, cid):
    return F.insts[cid].get("p", "").split("::")[-1]


MUTV = {"push", "insert", "remove", "swap_remove", "retain", "retain_mut", "clear", "truncate", "drain", "pop", "extend", "extend_from_slice",
        "append", "take", "replace", "insert_mut", "get_or_insert", "swap", "push_mut", "resize", "fill"}


def chain_roots(e, inner=False):
    """Expressions the place e is reached through, outermost first (fields, derefs, first arguments)."""
    st, seen = [e], 0
    while st and seen < 4000:
        x = st.pop(0)
        seen += 1
        yield x
        k = x[0]
        if k in ("f", "*", "&", "[]", "v", "cast", "discr"):
            st.insert(0, x[2] if k == "cast" else x[1])
        elif k == "call" and x[2]:
            st.insert(0, x[2][0])
        elif k == "phi":
            st[0:0] = list(x[1])


def roles(g, e):
    """Graph containers the place e lies in: the container field nearest to the place, per alternative."""
    inv = {v: k for k, v in g.f.items() if k != "gid"}
    out = set()
    st = [e]
    n = 0
    while st and n < 4000:
        x = st.pop()
        n += 1
        k = x[0]
        if k == "f" and x[2] in inv:
            out.add(inv[x[2]])
            continue
        if k in ("f", "*", "&", "[]", "v", "discr"):
            st.append(x[1])
        elif k == "cast":
            st.append(x[2])
        elif k == "call" and x[2]:
            st.append(x[2][0])
        elif k == "phi":
            st.extend(x[1])
    return out


def events(g, fl, E):
    """block -> list of (index or 't', kind, detail): structural edits and flag writes."""
    F = g.F
    out = {}
    for b in fl.reachable():
        blk = fl.blocks[b]
        for i, s in enumerate(blk.s):
            if s[0] != "=" or not s[1][1]:
                continue
            if not any(el[0] in ("*", "f", "i", "c") for el in s[1][1]):
                continue
            e = E.place(s[1])
            if e[0] == "f" and e[2] == g.f["dirty"]:
                out.setdefault(b, []).append((i, "dirty", E.rvalue(s[2])))
                continue
            r = roles(g, e)
            if r:
                out.setdefault(b, []).append((i, "write", (r, e, E.rvalue(s[2]), s[3])))
        t = blk.t
        if t[0] == "call" and t[2]:
            ln = last(F, t[1])
            x = F.insts[t[1]]
            if (ln in MUTV or (t[6] or "").split("::")[-1] in MUTV) and not x.get("ws"):
                r = roles(g, E.op(t[2][0]))
                a0 = t[2][0]
                mut = a0[0] == "k" or F.types[a0[2]]["k"] in ("refmut", "ptrmut") or ln in ("drain",)
                if r and mut:
                    out.setdefault(b, []).append(("t", ln, (r, E.op(a0), tuple(E.op(a) for a in t[2][1:]), t[5])))
    return out


STRUCT = {"in_edges", "par_edges", "out_edges"}


def structural(ev):
    """Does this event change what the next schedule has to contain?"""
    if ev[1] == "dirty":
        return None
    r = ev[2][0]
    if ev[1] == "write":
        x = r & STRUCT
        return "/".join(sorted(x)) if x else None
    x = r & (STRUCT | {"pending_nodes"})
    if "nodes" in r and ev[1] in ("insert", "remove", "clear", "retain", "drain"):
        x = x | {"nodes"}
    return "/".join(sorted(x)) + "." + ev[1] if x else None


def variant(w, o, v):
    """Name of the enum variant a switch edge selects, if it switches on a discriminant."""
    e = w.E.op(o)
    tab = w._discr_table(o)
    if e[0] == "discr" and tab:
        d = dict(tab)
        if v is not None and v in d:
            return e[1], d[v]
        return e[1], None
    if v in (0, 1) and w.F.types[o[2]]["k"] == "bool":
        neg = False
        while e[0] == "un" and e[1] == "Not":
            e, neg = e[2], not neg
        if e[0] == "bin" and e[1] in ("Eq", "Ne"):
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                if x[0] == "discr" and y[0] == "discr":
                    c = y[1]
                    while c[0] in ("&", "*"):
                        c = c[1]
                    if c[0] == "agg" and c[2]:
                        if (bool(v) != neg) == (e[1] == "Eq"):
                            return x[1], c[2]
                        a = w.F.adts.get(c[1])
                        rest = [z["name"] for z in a["variants"] if z["name"] != c[2]] if a else []
                        return x[1], rest[0] if len(rest) == 1 else None
    return None, None
