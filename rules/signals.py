"""P28: every connection carries the right signal (schedule generation and the audio thread's block)."""
from foreach import *


def peel(e):
    while e[0] in ("&", "*", "cast"):
        e = e[2] if e[0] == "cast" else e[1]
    return e


def field_of_node(g, e, name):
    """Key expression K when e is nodes[K]...name."""
    e = peel(e)
    if e[0] == "f" and e[2] == name and roles(g, e) == {"nodes"}:
        return access_key(g, e)
    return None


def node_ptr(g, e):
    """Key expression K when e is the output pointer of nodes[K]."""
    e = peel(e)
    if e[0] == "phi":
        c = [x for x in e[1] if x != ("never",)]
        return node_ptr(g, c[0]) if len(c) == 1 else None
    if e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Pointer":
        return field_of_node(g, e[1][1], "node_output")
    return None


def elem_field(S, e, name, b):
    """e is the field `name` of the element of site b."""
    e = peel(e)
    return e[0] == "f" and e[2] == name and S.elem_of(e[1]) == b


def channel_ptr(g, S, e):
    """(site, problem) when e points into the output of the source node of an edge."""
    e = peel(e)
    for a in alts(e):
        a = peel(a)
        if a[0] == "call" and a[1].split("::")[-1] == "add" and len(a[2]) == 2:
            k = node_ptr(g, a[2][0])
            if k is None:
                continue
            ks = peel(k)
            src = ks
            if src[0] == "f" and src[2] == "0" and src[1][0] == "v" and src[1][2] == "Node":
                src = peel(src[1][1])
            b = S.elem_of(src)
            if not (src[0] == "f" and src[2] == "source" and b is not None):
                return b, "the output of a node other than the source of the connection"
            off = peel(a[2][1])
            if off[0] == "bin" and off[1] in ("Mul",):
                for x, y in ((off[2], off[3]), (off[3], off[2])):
                    if elem_field(S, x, "channel_in_source", b) and is_block_size(y):
                        return b, None
            return b, "a channel other than the one connected"
        k = node_ptr(g, a)
        if k is not None and S.elem_of(k) is not None and peel(k)[0] == "f":
            return S.elem_of(k), "the first channel of the source node, whatever channel is connected"
    return None


def within(e, c):
    """e is c or one of its fields."""
    while e != c:
        if e[0] not in ("f", "v"):
            return False
        e = e[1]
    return True


def is_block_size(e):
    e = peel(e)
    return e[0] == "f" and e[2] == "block_size" and peel(e[1]) == ("arg", 1)


def target(E, s):
    """(base, index) when the statement writes an element of a slice or vector."""
    if s[0] != "=" or not s[1][1]:
        return None
    return split_index(E.place(s[1]))


def split_index(e):
    e = peel(e)
    if e[0] == "[]":
        return e[1], e[2]
    if e[0] == "call" and e[1].split("::")[-1] in ("index_mut", "index", "get_unchecked_mut", "get_mut") and len(e[2]) == 2:
        return e[2][0], e[2][1]
    return None


def fresh(e):
    """The call that created the collection e lies in."""
    e = canonless(e)
    for x in chain_roots(e):
        if x[0] == "call" and x[1].split("::")[-1] in ("from_elem", "new", "with_capacity", "default", "collect"):
            return x
    return None


def canonless(e):
    return e


def source_graph(facts, el=None):
    return any(f[0] == "is" and f[2] == "Graph" for f in facts)


def run(ctx, f, rule, fl, E, mk, floors):
    """Runs the ForEach monitor made by mk(walker) and reports."""
    F = ctx.facts()
    w = Walker(fl, E)
    m = mk(w)
    vs = w.run(m, ForEach.INIT)
    ctx.states += w.nstates
    for n, least in floors.items():
        if not vs:
            ctx.floor(rule + "-" + n.replace(" ", "-"), m.n.get(n, 0), least)
    for (k, msg), path in vs:
        ctx.viol(rule, f"{f['name']}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok(rule, f["path"], f"{w.nstates} path states")
    return vs


# ---------------------------------------------------------------- tasks
def tasks(ctx):
    """Every node in the processing order gets exactly one task, in that order, made of its own parts."""
    F, g = anchors(ctx)
    f = g.m("generate_tasks")
    fl, E = flatten(ctx, f, ITER)
    S = Sites(g, fl, E)
    loops = {b: "node" for b, s in S.at.items() if s.roles == {"order"}}
    if len(loops) != 1:
        raise Missing("one loop over the processing order in generate_tasks")
    (L,) = loops
    vec = []

    def event(st, b, what, x):
        if what == "call" and last(F, x[1]) in ("push", "insert", "extend", "swap", "reverse", "rotate_left", "pop", "remove", "truncate", "push_front") and x[2]:
            base = E.op(x[2][0])
            v = E.op(x[2][1]) if len(x[2]) > 1 else None
            if v is None or v[0] != "agg" or not v[1].endswith("::Task"):
                if fresh(base) in vec and last(F, x[1]) != "push":
                    return [("bad", "rearranged", "the tasks are rearranged after having been generated")]
                return None
            if last(F, x[1]) != "push":
                return [("bad", "position", "a task is not added at the end of the tasks, so tasks and nodes get out of step")]
            vec.append(fresh(base))
            d = dict(v[3])
            own = lambda e, name: (k := field_of_node(g, e, name)) is not None and S.elem_of(k) == L
            ib = d["in_buffers"]
            if ib[0] == "call" and ib[1].split("::")[-1] in ("clone", "to_vec", "to_owned"):
                ib = ib[2][0]
            if not own(ib, "node_inputs"):
                return [("bad", "inputs", "the task of a node does not read the inputs assigned to that node")]
            k = node_ptr(g, d["out_buffer"])
            if k is None or S.elem_of(k) != L:
                return [("bad", "output", "the task of a node does not write to the buffer assigned to that node")]
            if not own(d["output_channels"], "outputs"):
                return [("bad", "channels", "the task of a node does not have the node's number of outputs")]
            return [("do", L)] + ugen(d["ugen"])
        return None

    def ugen(u):
        al = [peel(a) for a in alts(u)]
        seen = set()
        for a in al:
            if a[0] == "agg" and a[2] == "TakeFromTask":
                a, kind = peel(dict(a[3])["0"]), "Live"
            else:
                kind = "Local"
            if not (a[0] == "f" and a[2] == "0" and a[1][0] == "v" and a[1][2] == kind):
                return [("bad", "ugen", "the task of a node does not run the node's own generator")]
            r = a[1][1]
            if not (r[0] == "call" and r[1].split("::")[-1] == "replace"):
                return [("bad", "ugen", "the task of a node is made from a generator that stays with the node")]
            k = field_of_node(g, r[2][0], "ugen")
            if k is None or S.elem_of(k) != L:
                return [("bad", "ugen", "the task of a node takes the generator of another node")]
            n = r[2][1]
            if not (n[0] == "agg" and n[2] == "Live" and index_of(S, dict(n[3])["0"], L)):
                return [("bad", "index", "a node remembers a position in the tasks that is not the position of its task, so the next schedule takes over the wrong generator")]
            seen.add(kind)
        if seen != {"Live", "Local"}:
            return [("bad", "ugen", "a generator that is new, or one that is already on the audio thread, does not get into the task of its node")]
        return []

    run(ctx, f, "tasks-match-nodes", fl, E, lambda w: ForEach(
        w, S, loops, event, lambda st, b: False, ["node"], lambda n: "a node in the processing order can be left without a task",
        lambda n: "tasks are generated for only a part of the processing order", keep=lambda f: False), {"node": 1})
    order_sent(ctx, F, g)


def order_sent(ctx, F, g):
    """The schedule contains what was generated, and the order the tasks were generated in."""
    f = g.m("generate_task_data")
    fl, E = flatten(ctx, f, lambda F_, x: False)
    e = E.local(fl.retlocal)
    al = [a for a in alts(e) if a[0] == "agg" and a[1].endswith("::TaskData")]
    if not al:
        raise Missing("the schedule built by generate_task_data")
    for a in al:
        d = dict(a[3])
        o = d["node_task_order"]
        bad = None
        if not (roles(g, o) == {"order"} and o[0] == "call" and o[1].split("::")[-1] in ("clone", "to_vec", "take", "replace")):
            bad = "node_task_order", "the order of nodes sent with the tasks is not the order the tasks were generated in"
        for n, m in (("tasks", "generate_tasks"), ("output_task", "generate_output_tasks"), ("ar_parameter_changes", "generate_ar_parameter_changes")):
            if not any(x[0] == "call" and x[1].split("::")[-1] == m for x in walk(d[n])):
                bad = bad or (n, f"the schedule does not contain what {m} made")
        if d["applied"] != ("arg", 2):
            bad = bad or ("applied", "the takeover flag in the schedule is not the one it was made with")
        if d["graph_input_channels_to_nodes"] != ("arg", 3):
            bad = bad or ("graph_input_channels_to_nodes", "the graph inputs of the schedule are not those that were assigned")
        if bad:
            ctx.viol("schedule-contents", bad[0], f"{f['path']}: {bad[1]}", where=loc(F, f["inst"], None))
        else:
            ctx.ok("schedule-contents", f["path"])


# ---------------------------------------------------------------- graph outputs
def outputs(ctx):
    F, g = anchors(ctx)
    f = g.m("generate_output_tasks")
    fl, E = flatten(ctx, f, ITER)
    S = Sites(g, fl, E)
    loops = {b: "output" for b, s in S.at.items() if s.roles == {"out_edges"}}
    zips = {b: z for b, s in S.at.items() if (z := zipped(g, s, "out_edges")) is not None}
    loops.update({b: "output" for b in zips})
    if len(loops) != 1:
        raise Missing("one loop over the output connections in generate_output_tasks")
    (L,) = loops
    element = None
    if L in zips:
        el = ("f", ("v", canon(E.place(S.at[L].call[3])), "Some"), "0")
        edge, element = (canon(("f", el, str(i))) for i in (zips[L], 1 - zips[L]))
        S.at[L].odd = []

    def value(v):
        """The signals a channel can be given by a value."""
        if v[0] == "phi":
            return [y for x in v[1] for y in value(x)]
        if v[0] == "agg" and v[2] == "Some" and "Option" in v[1]:
            return value(dict(v[3])["0"])
        return [v]

    def event(st, b, what, x):
        if what != "stmt" or x[0] != "=":
            return None
        if not x[1][1] or x[2][0] == "agg":
            # a signal is made
            v = E.rvalue(x[2])
            if v[0] == "agg" and v[1].endswith("::BlockOrGraphInput"):
                r = made(st, v)
                if r:
                    return r
        if not x[1][1]:
            return None
        v = value(E.rvalue(x[2]))
        if not any(y[0] == "agg" and y[1].endswith("::BlockOrGraphInput") for y in v):
            return None
        if any(not (y[0] == "agg" and y[1].endswith("::BlockOrGraphInput")) for y in v):
            return [("bad", "source", "a graph output is given something other than the signal connected to it")]
        t = target(E, x)
        if t is None and element is None:
            return None
        if element is not None and canon(E.place(x[1])) != element or element is None and not index_of(S, t[1], L):
            return [("bad", "channel", "the signal of one graph output is put on another")]
        for y in v:
            r = made(st, y, False)
            if r:
                return r
        return [("do", L)]

    def made(st, v, here=True):
        p = dict(v[3])["0"]
        if v[2] == "Block":
            r = channel_ptr(g, S, p)
            if not r or r[0] != L or r[1]:
                return [("bad", "source", "a graph output reads from " + (r[1] if r and r[1] else "something other than its source node"))]
        elif v[2] == "GraphInput":
            if not elem_field(S, p, "channel_in_source", L):
                return [("bad", "graph input", "a graph output is given a graph input other than the one connected")]
            if here and not source_graph(st[0]):
                return [("bad", "graph input", "a graph output that is connected to a node is given a graph input")]
        return None

    def exempt(st, b):
        return elem_none(S, E, st[0], b)

    run(ctx, f, "graph-outputs", fl, E, lambda w: ForEach(
        w, S, loops, event, exempt, ["output"], lambda n: "a connected graph output can be left silent",
        lambda n: "only a part of the graph outputs is connected", once=False), {"output": 2})


def zipped(g, s, role):
    """0 or 1 when the loop runs over two collections side by side, the one with that role first or second."""
    e = s.it
    for _ in range(8):
        if e[0] in ("&", "*"):
            e = e[1]
        elif e[0] == "call" and e[2] and e[1].split("::")[-1] in ("into_iter", "by_ref"):
            e = e[2][0]
        else:
            break
    if not (e[0] == "call" and e[1].split("::")[-1] == "zip" and len(e[2]) == 2):
        return None
    for x in e[2]:
        for y in chain_roots(x):
            if y[0] == "call" and y[1].split("::")[-1] not in ("iter", "iter_mut", "into_iter", "deref", "deref_mut", "as_slice", "as_mut_slice",
                                                               "into_boxed_slice", "from_elem"):
                return None
            if y[0] == "call" and y[1].split("::")[-1] == "from_elem":
                break
    r = [roles(g, x) == {role} for x in e[2]]
    return r.index(True) if sum(r) == 1 else None


def elem_none(S, E, facts, b):
    """The element at site b is known to be None (an unconnected channel)."""
    el = canon(E.place(S.at[b].call[3])) if S.at[b].call is not None else None
    for f in facts:
        if f[0] == "is" and f[2] == "None":
            c = f[1]
            if el is not None and any(x == el for x in walk(c)) and c != el:
                return True
            if S.at[b].idx is not None and any(x == canon(S.at[b].idx) for x in walk(c)):
                return True
    return False


# ---------------------------------------------------------------- node inputs
def inputs(ctx):
    from order import alloc_policy, is_alloc
    F, g = anchors(ctx)
    f = g.m("allocate_node_buffers")
    fl, E = flatten(ctx, f, alloc_policy(F))
    S = Sites(g, fl, E)
    wr = []
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            t = target(E, s)
            if t:
                r = channel_ptr(g, S, E.rvalue(s[2]))
                if r:
                    wr.append((b, t, r))
    if not wr:
        raise Missing("the assignment of input pointers in allocate_node_buffers")
    B = {r[0] for _, _, r in wr}
    if len(B) != 1:
        raise Missing("one loop over the input connections of a node that assigns input pointers")
    (B,) = B
    owner = S.at[B].outer if S.at[B].outer in S.at else (S.elem_of(S.at[B].key) if S.at[B].key is not None else None)
    if owner is None:
        raise Missing("the loop over all nodes around the assignment of input pointers")
    A = owner
    bases = {fresh(t[0]) for _, t, _ in wr}
    (base,) = bases
    silent = lambda e: any(x[0] == "call" and x[1].split("::")[-1] == "empty_channel" for x in walk(e)) and not any(
        x[0] == "call" and x[1].split("::")[-1] in ("add", "offset") for x in walk(e))
    prefilled = base is not None and base[1].endswith("from_elem") and silent(base[2][0])
    loops = {A: "node", B: "connected input"}
    for b, s in S.at.items():
        if b not in loops and not s.roles and fresh(s.base if s.idx is not None else s.it) == base:
            loops[b] = "input"
    inner = {A: ["connected input", "input"]}
    els = {canon(E.place(S.at[B].call[3]))} if S.at[B].call is not None else {canon(S.at[B].idx)}
    okroles = {"in_edges", "nodes", "order"}

    def event(st, b, what, x):
        facts, (op, done) = st
        if what == "call":
            return None
        t = target(E, x)
        v = E.rvalue(x[2]) if x[0] == "=" else None
        if t and fresh(t[0]) == base and v is not None:
            r = channel_ptr(g, S, v)
            if r:
                if r[1]:
                    return [("bad", "source", "an input reads from " + r[1])]
                if not index_of(S, t[1], B):
                    return [("bad", "channel", "the signal connected to one input is given to another input")]
                return [("do", B)]
        if x[0] == "=" and v is not None and silent(v) and x[1][1]:
            e = E.place(x[1])
            el = S.elem_of(e)
            if el in loops and loops[el] == "input":
                if ("false", canon(("call", "is_null", (e,), None))) in facts:
                    return [("bad", "overwritten", "a connected input is replaced by silence")]
                if not any(f_[0] == "true" and f_[1][0] == "call" and f_[1][1] == "is_null" for f_ in facts):
                    return [("bad", "overwritten", "an input is replaced by silence without testing that it is not connected")]
                return [("do", el)]
        if x[0] == "=" and x[1][1]:
            e = E.place(x[1])
            if e[0] == "f" and e[2] == "node_inputs" and roles(g, e) == {"nodes"}:
                k = access_key(g, e)
                if k is None or S.elem_of(k) != A:
                    return [("bad", "owner", "inputs are given to a node other than the one they were looked up for")]
                if fresh(v) != base:
                    return [("bad", "assigned", "a node is given inputs other than those that were looked up")]
                if "connected input" not in done:
                    return [("bad", "early", "a node is given its inputs before all of its connections have been looked at")]
                if "input" not in done and not prefilled:
                    return [("bad", "null", "a node is given its inputs before those without a connection have been pointed at silence")]
                return [("do", A)]
        return None

    def exempt(st, b):
        if loops[b] == "connected input":
            return elem_none(S, E, st[0], b) or source_graph(st[0])
        if loops[b] == "input":
            return any(f_[0] == "false" and f_[1][0] == "call" and f_[1][1] == "is_null" for f_ in st[0])
        return False

    if not S.at[A].roles <= okroles:
        raise Missing("input pointers are assigned in a loop over all nodes")
    n = None
    if base is not None and base[1].endswith("from_elem"):
        n = field_of_node(g, base[2][1], "inputs")
    if n is None or S.elem_of(n) != A:
        ctx.viol("node-inputs", "length", f"{f['path']}: the number of input pointers of a node is not its number of inputs", where=loc(F, f["inst"], None))
    run(ctx, f, "node-inputs", fl, E, lambda w: ForEach(
        w, S, loops, event, exempt, ["node"], lambda n: {"node": "a node can be left with the inputs of an earlier schedule",
                                                       "connected input": "a connected input can be left without its signal",
                                                       "input": "an input without a connection can be left pointing nowhere"}[n],
        lambda n: "the inputs of only a part of the nodes are assigned", once=False, inner=inner,
        keep=lambda f_: f_[0] == "is" and any(x in els for x in walk(f_[1])) or f_[0] in ("true", "false") and f_[1][0] == "call" and f_[1][1] == "is_null"),
        {"node": 1, "connected input": 1})
    graph_inputs(ctx, F, g, f, fl, E, S)


def graph_inputs(ctx, F, g, f, fl, E, S):
    """Connections from the graph's own inputs are listed with the graph's channel, the node's input and the node's position."""
    push = {}
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and len(t[2]) > 1 and last(F, t[1]) in ("push", "push_back"):
            v = E.op(t[2][1])
            if v[0] == "agg" and v[1] == "tuple" and len(v[3]) == 2:
                push[b] = v
    inn = {b: v for b, v in push.items() if any(x[0] == "f" and x[2] == "channel_in_source" for x in walk(v))
           and not any(z in push for z in ())}
    inn = {b: v for b, v in inn.items() if elem_field_any(S, dict(v[3])["0"]) is not None or elem_field_any(S, dict(v[3])["1"]) is not None}
    if len(inn) != 1:
        raise Missing("the list of graph inputs connected to a node")
    (bi, vi), = inn.items()
    d = dict(vi[3])
    B = elem_field_any(S, d["0"])
    if B is None:
        B = elem_field_any(S, d["1"])
    A = S.at[B].outer if S.at[B].outer in S.at else (S.elem_of(S.at[B].key) if S.at[B].key is not None else None)
    outer = {b: v for b, v in push.items() if b != bi and A is not None and (index_of(S, dict(v[3])["0"], A) or index_of(S, dict(v[3])["1"], A))}
    if A is None or S.at[A].roles != {"order"} or len(outer) != 1:
        ctx.viol("graph-inputs", "position", f"{f['path']}: connections from graph inputs are not listed with the position of their node in the processing order",
                 where=loc(F, f["inst"], None))
        return
    loops = {B: "graph input"}
    els = {canon(E.place(S.at[B].call[3]))} if S.at[B].call is not None else {canon(S.at[B].idx)}

    def event(st, b, what, x):
        if what != "call" or b not in (bi,) + tuple(outer):
            return None
        if b == bi:
            if not elem_field(S, d["0"], "channel_in_source", B):
                return [("bad", "channel", "a node reads a graph input other than the one connected")]
            if not index_of(S, d["1"], B):
                return [("bad", "input", "a graph input is read by an input of the node other than the one it is connected to")]
            return [("do", B)]
        o = dict(outer[b][3])
        if not index_of(S, o["0"], A):
            return [("bad", "position", "connections from graph inputs are listed with the position of another node")]
        return None

    run(ctx, f, "graph-inputs", fl, E, lambda w: ForEach(
        w, S, loops, event, lambda st, b: elem_none(S, E, st[0], b) or any(x[0] == "is" and x[2] == "Node" for x in st[0]), [],
        lambda n: "a connection from a graph input can be left out", lambda n: "", keep=lambda f_: f_[0] == "is" and any(x in els for x in walk(f_[1]))), {"graph input": 1})


def elem_field_any(S, e):
    e = peel(e)
    return S.elem_of(e[1]) if e[0] == "f" and e[2] == "channel_in_source" else None


# ---------------------------------------------------------------- audio rate parameters
def ar_params(ctx):
    F, g = anchors(ctx)
    f = g.m("generate_ar_parameter_changes")
    fl, E = flatten(ctx, f, ITER)
    S = Sites(g, fl, E)
    pushes = {}
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and len(t[2]) > 1 and last(F, t[1]) in ("push",):
            v = E.op(t[2][1])
            if v[0] == "agg" and v[1].endswith("::ArParameterChange"):
                pushes[b] = dict(v[3])
    conn = {b: r for b, d in pushes.items() if (r := channel_ptr(g, S, d["buffer"]))}
    if len(conn) != 1:
        raise Missing("the change that connects a parameter to the signal of its source")
    (bc, r), = conn.items()
    B = r[0]
    A = S.at[B].outer if S.at[B].outer in S.at else (S.elem_of(S.at[B].key) if S.at[B].key is not None else None)
    if A is None or S.at[B].roles != {"par_edges"}:
        raise Missing("the loops over the parameter connections of every node")
    loops = {A: "node", B: "parameter connection"}
    dis = {}
    for b, d in pushes.items():
        if b != bc:
            s = next((x for x in S.of(d["parameter_index"]) if x not in loops), None)
            if s is not None:
                dis[b] = s
                loops[s] = "disconnected parameter"
    if not dis:
        raise Missing("the change that disconnects a parameter from its signal")
    pos = {b: "position" for b, s in S.at.items() if s.roles == {"order"}}
    key_of = {}

    def position(facts, e, key):
        """e is the position in the processing order of the node with this key."""
        e = peel(e)
        c = canon(key)
        if not any(f_[0] == "Eq" and (within(f_[1], c) or within(f_[2], c)) and any(
                y[0] == "f" and y[2] == g.f["order"] for q in f_[1:] for y in walk(q)) for f_ in facts):
            return False
        for a in alts(e):
            a = peel(a)
            if a[0] == "phi" or a[0] == "k" or a[0] == "loc" or a[0] == "bin":
                continue
            if a[0] == "f" and (a[2] == "0" or a[2] == "count"):
                continue
            return False
        return True

    def keyof(b):
        s = S.at[b]
        e = E.place(s.call[3]) if s.call is not None else None
        return e

    def event(st, b, what, x):
        facts, (op, done) = st
        if what != "call" or b not in pushes:
            return None
        d = pushes[b]
        if b == bc:
            if r[1]:
                return [("bad", "source", "a parameter reads from " + r[1])]
            if not elem_field(S, d["parameter_index"], "parameter_index", B):
                return [("bad", "parameter", "the signal connected to one parameter is given to another")]
            if not position(facts, d["node"], node_key(A)):
                return [("bad", "node", "the signal connected to a parameter is given to a node that is not known to be the one connected")]
            return [("do", B)]
        s = dis.get(b)
        if s is None:
            return [("bad", "unknown", "a parameter is changed that is neither connected nor disconnected")]
        n = peel(d["buffer"])
        if not any(y[0] == "call" and y[1].split("::")[-1] == "null" for y in walk(n)) and n != ("k", 0):
            return [("bad", "null", "a disconnected parameter keeps reading from a buffer")]
        el = ("f", ("v", E.place(S.at[s].call[3]), "Some"), "0")
        if canon(d["parameter_index"]) != canon(("f", el, "1")):
            return [("bad", "disabled", "a parameter other than the one disconnected is disconnected from its signal")]
        if not position(facts, d["node"], ("f", el, "0")):
            return [("bad", "disabled node", "a parameter is disconnected from its signal on a node that is not known to be the right one")]
        if any(f_[0] == "Eq" and any(y[0] == "f" and y[2] == "parameter_index" for q in f_[1:] for y in walk(q)) for f_ in facts):
            return [("bad", "still connected", "a parameter that was connected again is disconnected from its signal")]
        return [("do", s)]

    def node_key(a):
        s = S.at[a]
        el = ("f", ("v", E.place(s.call[3]), "Some"), "0")
        return ("f", el, "0") if s.roles != {"order"} else el

    def exempt(st, b):
        facts, (op, done) = st
        if loops[b] == "node":
            return "parameter connection" in done or "position" in done
        if "position" in done:
            return True  # the node is not in the processing order
        if loops[b] == "disconnected parameter":
            el = ("f", ("v", E.place(S.at[b].call[3]), "Some"), "0")
            for f_ in facts:
                if f_[0] == "is" and f_[2] == "None" and any(y[0] == "f" and y[2] == g.f["par_edges"] for y in walk(f_[1])) and f_[1][0] == "call" and f_[1][1] in ("get", "get_mut"):
                    return True
                if f_[0] == "nothas" and any(y[0] == "f" and y[2] == g.f["par_edges"] for y in walk(f_[1])):
                    return True
                if f_[0] == "Eq" and canon(("f", el, "1")) in f_[1:] and any(y[0] == "f" and y[2] == "parameter_index" for q in f_[1:] for y in walk(q)):
                    return True
        return False

    run(ctx, f, "parameter-signals", fl, E, lambda w: ForEach(
        w, S, loops, event, exempt, ["node", "disconnected parameter"], lambda n: {
            "node": "the parameter connections of a node can be left out", "parameter connection": "a connected parameter can be left without its signal",
            "disconnected parameter": "a parameter can keep reading a signal it was disconnected from"}[n],
        lambda n: "only a part of the parameter connections is looked at", once=False, inner={A: ["parameter connection", "position"], B: ["position"], **{s: ["position"] for s in dis.values()}},
        track=pos, keep=lambda f_: f_[0] in ("Eq", "is", "nothas")), {"parameter connection": 1, "disconnected parameter": 1})
