"""P20: a node that is done, or wants its graph to be gone, is freed: it and no other."""
from wrap import *
from send import go, getf, fields_of

NEVER = ("never",)
FL = "knaster_core::ugen::UGenFlags"


def flag_names(F):
    a = F.adts.get(FL)
    names = [f["name"] for f in a["variants"][0]["fields"]]
    need = ["remove_self_supported", "done", "done_frame_in_block", "remove_self", "remove_parent", "remove_parent_from_frame_in_block"]
    if any(n not in names for n in need):
        raise Missing("the flags of a node")
    return need


def atomic_bool(t):
    return "AtomicBool" in t or "Atomic<bool>" in t


def num(e, k):
    return e == ("k", k) or e == ("k", int(k))


def p20_wrap(ctx):
    """The done wrapper: each block starts without flags; a done node is treated as configured, the node's flag is raised when it is to be removed."""
    F = ctx.facts()
    flag_names(F)
    ws = [w for w in wrappers(F) if any(F.ts(f["ty"]).endswith("knaster_core::Done") for f in F.adts[w.path]["variants"][0]["fields"])]
    if len(ws) != 1:
        raise Missing("the wrapper with a done action")
    w = ws[0]
    ff = fields_of(F, w.path, {"flag": lambda t: atomic_bool(t), "action": lambda t: t.endswith("knaster_core::Done")})
    fl_ = lambda n: fld(A3, n)
    action, flag = fld(A1, ff["action"]), fld(A1, ff["flag"])
    n = 0
    for m in ("process", "process_block"):
        f = method(F, w, m)
        if f is None:
            raise Missing(f"{w.name}::{m}")
        n += 1

        def at(facts, eff, v, var, flt, m=m):
            eff = sorted(eff, key=lambda x: x[-1])
            inner = [i for i, x in enumerate(eff) if x[0] == "call" and x[1] == m]
            if len(inner) != 1:
                return "node", "the node is not called once"
            i = inner[0]
            if fl_("remove_self") not in eff[i][2] and A3 not in eff[i][2]:
                return "flags", "the node is given other flags"
            state = {}
            for x in eff[:i]:
                if x[0] == "write":
                    state[x[1]] = x[2]
            for k, val in (("done", False), ("remove_self", False), ("remove_self_supported", True)):
                if not num(state.get(fl_(k), A1), val):
                    return "reset", f"what earlier nodes reported is still there when the node is called ({k})"
            post, stores = {}, 0
            for x in eff[i + 1:]:
                if x[0] == "write":
                    if x[1][0] != "f" or x[1][1] != A3:
                        return "write", "something else is changed"
                    post[x[1][2]] = x[2]
                elif x[1] == "store":
                    if x[2][0] != flag or not num(x[2][1], True):
                        return "flag", "another flag is raised"
                    stores += 1
            if any(x[0] == "call" and x[1] == "store" for x in eff[:i]):
                return "early", "the node is removed before it has run"
            if ("true", fl_("remove_self")) in facts and ("false", fl_("remove_self")) in facts:
                return None
            if num(post.get("remove_self", A1), True) and ("false", fl_("remove_self")) in facts and ("true", fl_("remove_self")) not in facts:
                return None  # read after it was set: cannot be
            done, notdone = ("true", fl_("done")) in facts, ("false", fl_("done")) in facts
            if done == notdone:
                return "done", "whether the node is done is not looked at"
            rs, rp = post.get("remove_self"), post.get("remove_parent")
            kind = {q[2] for q in facts if q[0] == "is" and q[1] == action}
            kind = kind or {"None", "FreeSelf", "FreeParent"} - {q[2] for q in facts if q[0] == "isnot" and q[1] == action}
            want_self = want_parent = False
            if done:
                if len(kind) != 1:
                    return "action", "the configured action is not looked at"
                want_self, want_parent = kind == {"FreeSelf"}, kind == {"FreeParent"}
            unsupported = ("false", fl_("remove_self_supported")) in facts
            if (rs is not None) != (want_self and not unsupported) or rs is not None and not num(rs, True):
                return "self", "a node is (not) removed against its configured action"
            if (rp is not None) != want_parent or rp is not None and not num(rp, True):
                return "parent", "the graph of a node is (not) removed against the configured action"
            if want_parent and post.get("remove_parent_from_frame_in_block") != fl_("done_frame_in_block"):
                return "frame", "the graph is not silent from the frame the node was done"
            other = set(post) - {"remove_self", "remove_parent", "remove_parent_from_frame_in_block"}
            if other:
                return "write", f"the flag {sorted(other)[0]} is changed"
            removed = rs is not None or ("true", fl_("remove_self")) in facts
            known_ = removed or ("false", fl_("remove_self")) in facts
            if stores != (1 if removed else 0) or not known_:
                return "raise", "the flag the graph looks at does not say whether the node is to be removed"
        go(ctx, "wrap", f"{w.name}.{m}", f, at, (m, "store"), lambda g, x: ITER(g, x) and "ArLogSender" not in x.get("p", ""), "done → configured action → the node's flag")
    ctx.floor("wrap", n, 2)
    # the parameter that configures it
    f = method(F, w, "param_apply")
    P = size(w, "Parameters")

    def at(facts, eff, v, var, flt):
        k = known(facts, A3, P)
        ws_ = [x for x in eff if x[0] == "write"]
        if k == "own":
            def int_of(e):
                for x in walk(e):
                    if x == ("f", ("v", A4, "Integer"), "0"):
                        return True
                return False
            if not ws_ and any(q[0] == "isnot" and q[1] == A4 and q[2] == "Integer" or q[0] == "is" and q[1] == A4 and q[2] != "Integer" for q in facts):
                return None
            if any(x == NEVER for y in ws_ for x in walk(y[2])):
                return None  # a value that is no action: panics
            odd = [x for y in ws_ for x in walk(y[2]) if x[0] == "call" and x[1] not in ("into", "from", "unwrap_or", "unwrap_or_default", "from_usize", "from_u8", "from_u64", "from_i64")]
            if len(ws_) != 1 or ws_[0][1] != action or odd or not int_of(ws_[0][2]):
                return "action", "the done action is not set to the value given"
        elif ws_:
            return "action", "the done action is changed by another parameter"
    go(ctx, "wrap", f"{w.name}.param_apply", f, at, (), lambda g, x: ITER(g, x) and "ArLogSender" not in x.get("p", ""), "the action asked for")


def peel_arc(e):
    while e[0] in ("&", "*") or e[0] == "call" and e[1].split("::")[-1] == "clone" and e[2]:
        e = e[1] if e[0] in ("&", "*") else e[2][0]
    return e


def p20_wiring(ctx):
    """The flag a graph looks at for a node is the one that is raised on the audio thread for that node."""
    F, g = anchors(ctx)
    NODE = "knaster_graph::node::Node"
    rm = fields_of(F, NODE, {"r": lambda t: "Option<" in t and atomic_bool(t)})["r"]
    audio = {}
    for p, a in F.adts.items():
        for f in (a["variants"][0]["fields"] if len(a["variants"]) == 1 else []):
            if atomic_bool(F.ts(f["ty"])) and p.split("::")[-1] in ("GraphGen", "WrDone"):
                audio[p] = f["name"]
    if len(audio) != 2:
        raise Missing("the flags on the audio thread")
    sites = 0
    seen_audio = set()
    for f in F.fns:
        if "inst" not in f or not f["path"].lstrip("<").startswith("knaster_graph"):
            continue
        if "body" not in F.insts[f["inst"]]:
            continue
        fl = Flat(F, f["inst"], lambda a, b: False)
        E = Exprs(fl)
        made, given, nodes = [], [], 0
        for b in fl.reachable():
            for s in fl.blocks[b].s:
                if s[0] != "=":
                    continue
                if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in audio:
                    made.append(peel_arc(dict(E.rvalue(s[2])[3])[audio[s[2][1][1]]]))
                    seen_audio.add(s[2][1][1])
                if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == NODE:
                    v = dict(E.rvalue(s[2])[3])[rm]
                    if not (v[0] == "agg" and v[2] == "None"):
                        given.append((v, s))
                if s[1][1] and tuple(s[1][1][-1])[:2] == ("f", rm):
                    given.append((E.rvalue(s[2]), s))
        if not made and not given:
            continue
        sites += 1
        bad = None
        if len(made) != 1 or len(given) != 1:
            bad = ("pair", "a flag is raised on the audio thread that no node has, or the other way round")
        else:
            v = given[0][0]
            p = some_raw(v)
            if p is None or peel_arc(p) != made[0] or made[0][0] != "call":
                bad = ("flag", "the flag a graph looks at for a node is not the one raised for it on the audio thread")
            else:
                arg = made[0][2][0] if made[0][2] else None
                if not (arg is not None and arg[0] == "call" and arg[1].split("::")[-1] == "new" and arg[2] and num(arg[2][0], False)):
                    bad = ("initial", "a node starts out marked for removal")
        if bad is None:
            # the node with the flag is the one that holds the wrapper
            bad = same_node(F, fl, E, given[0][1], rm, made[0], audio)
        if bad:
            ctx.viol("wiring", f"{f['name']}: {bad[0]}", f"{f['path']}: {bad[1]}", where=loc(F, f["inst"], None))
        else:
            ctx.ok("wiring", f["path"], "one flag on both sides")
    ctx.floor("wiring", sites, 2)
    f = getf(F, "knaster_graph::graph::Graph::<F>::push_with_done_action")
    w = [p for p in audio if p.endswith("WrDone")][0]
    a = F.adts[w]["variants"][0]["fields"]
    act = [x["name"] for x in a if F.ts(x["ty"]).endswith("knaster_core::Done")][0]
    own = audio[w]

    def at(facts, eff, v, var, fl):
        ws_ = [x for e in eff if e[0] == "call" for y in e[2] for x in walk(y) if x[0] == "agg" and x[1] == w]
        if len(ws_) != 1:
            return "wrapped", "the node is added without the wrapper"
        d = dict(ws_[0][3])
        if d[act] != A3:
            return "action", "the configured action is not the one asked for"
        if [x for n, x in d.items() if n not in (act, own)] != [A2]:
            return "node", "another node is wrapped"
    go(ctx, "wiring", "push_with_done_action", f, at, ("push_node",), lambda h, x: ITER(h, x) and not any(k in x.get("p", "") for k in ("::push_node", "type_name", "shorten_name")),
       "the action asked for")


def some_raw(v):
    return v[3][0][1] if v[0] == "agg" and v[2] == "Some" else None


def same_node(F, fl, E, s, rm, flag, audio):
    """The node that is given the flag holds what raises it."""
    if s[1][1]:
        base = E.local(s[1][0])
        while base[0] in ("&", "*"):
            base = base[1]
        has = lambda e: any(x[0] == "agg" and x[1] in audio and peel_arc(dict(x[3])[audio[x[1]]]) == flag for x in walk(e))
        if not has(base):
            return "other", "the flag is given to another node than the one that raises it"
    return None


def p20_graph(ctx):
    """A graph that is to be removed says so, once no more of it is to be heard."""
    F = ctx.facts()
    gens = [i for i in F.impls if i.get("trait") == UG[:-2] and (i.get("adt") or "").endswith("::GraphGen")]
    if len(gens) != 1:
        raise Missing("the audio side of a graph")
    f = F.fn[{x[0]: x[1] for x in gens[0]["items"]}["process_block"]]
    names = fields_of(F, gens[0]["adt"], {"flag": lambda t: atomic_bool(t), "freed": lambda t: t == "bool"})
    flag_names(F)
    fl, E = flatten(ctx, f, lambda h, x: x.get("p", "").startswith((FL, "<" + FL, "core::option", "core::result")) or WS(h, x) and not any(
        k in x.get("p", "") for k in ("apply_parameter_change", "apply_self_on_audio", "ArLog", "::run", "iter_mut", "::next")))
    runs, vals = [], set()
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and last(F, t[1]) == "run" and "Task" in (F.insts[t[1]].get("p") or ""):
            runs.append(b)
            vals.add(canon_loc(fl, E, t[2][-1]))
    if len(runs) != 1 or None in vals:
        raise Missing("the call that runs a node")
    L = vals.pop()
    bad = []
    ini = [canon(E.rv(d)) for d in fl.defs().get(L, ()) if d[0] == ()]
    if not ini or not all(x[0] == "agg" and x[1] == FL and all(num(v, False) for n, v in x[3] if n != "remove_parent_from_frame_in_block" and "frame" not in n) for x in ini):
        bad.append(("fresh", "the flags nodes are called with are not new for each block"))

    def is_flag(p, n):
        return p[0] == L and [tuple(x)[:2] for x in p[1]] == [("f", n)]

    class M(Monitor):
        """(asked: None/True/False, raised, marked)"""

        def edge(self, st, b, o, v, other, vals_):
            p = o[1] if o[0] in ("cp", "mv") else None
            if p is not None:
                src = flag_read(fl, E, p)
                if src is not None and is_flag(src, "remove_parent") and v in (0, 1):
                    return (bool(v),) + st[1:]
                if src is not None and is_flag(src, "remove_parent") and other:
                    return (True,) + st[1:]
            return st

        def stmt(self, st, b, s):
            if s[0] == "=" and s[1][1] and canon(E.place(s[1])) == fld(A1, names["freed"]):
                v = canon(E.rvalue(s[2]))
                if not num(v, True):
                    self.w.viol(("undo", "a removed graph is started again"))
                    return None
                return (st[0], st[1], True, st[3])
            return st

        def term(self, st, b, t, env):
            if t[0] == "call":
                if b in runs and st[0] is not None:
                    self.w.viol(("early", "whether the graph is to be removed is looked at before all nodes have run"))
                    return None
                if last(F, t[1]) in ("store", "swap", "fetch_or") and "Atomic" in (F.insts[t[1]].get("p") or ""):
                    a = [canon(E.op(x)) for x in t[2]]
                    if a[0] == fld(A1, names["flag"]):
                        if not num(a[1], True):
                            self.w.viol(("flag", "the flag is taken back"))
                            return None
                        return (st[0], True, st[2], st[3])
            if t[0] == "ret":
                if st[0] is None and not st[3]:
                    if st[1] or st[2]:
                        self.w.viol(("unasked", "the graph is removed without a node asking for it"))
                elif bool(st[0]) != st[1]:
                    self.w.viol(("raise", "the flag the parent graph looks at does not say whether the graph is to be removed"))
                elif bool(st[0]) != st[2]:
                    self.w.viol(("silent", "a graph that is to be removed keeps playing"))
                return None
            if b in runs:
                return st[:3] + (True,)
            return st
    vs = [(x, []) for x in bad]
    if not bad:
        w = Walker(fl, E)
        vs = w.run(M(w), (None, False, False, False))
        ctx.states += w.nstates
    report(ctx, "graph", "GraphGen.process_block", f, fl, vs, None, "asked for ⇔ flag raised and silent from the next block on")


def canon_loc(fl, E, o):
    """The local an argument refers to."""
    for _ in range(8):
        if o[0] not in ("cp", "mv") or any(x[0] != "*" for x in o[1][1]):
            return None
        l = o[1][0]
        ds = [d for d in fl.defs().get(l, ()) if d[0] == ()]
        if len(ds) != 1 or ds[0][1] == "call":
            return l
        r = ds[0][2]
        if r[0] in ("ref", "refmut", "rawptr"):
            if [x for x in r[1][1] if x[0] != "*"]:
                return None
            if not r[1][1]:
                return r[1][0]
            o = ("cp", (r[1][0], ()))
        elif r[0] == "use":
            o = r[1]
        else:
            return l
    return None


def flag_read(fl, E, p):
    """The place a branch condition was read from: (local, fields)."""
    for _ in range(10):
        ds = fl.defs().get(p[0], ())
        whole = [d for d in ds if d[0] == ()]
        if p[1] and p[1][0][0] == "*":
            l = canon_loc(fl, E, ("cp", (p[0], ())))
            if l is None or l == p[0]:
                return None
            p = (l, tuple(p[1][1:]))
            continue
        if p[1]:
            return p
        if len(whole) != 1 or whole[0][1] == "call":
            return None
        r = whole[0][2]
        if r[0] == "use" and r[1][0] in ("cp", "mv"):
            p = r[1][1]
            continue
        return None
    return None


def closure_fn(F, fl, v):
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and v[0] == "agg" and v[1] == "closure:" + s[2][1][2]:
                return {"path": s[2][1][2], "inst": s[2][1][1]}
    return None


def p20_poll(ctx):
    """At every commit, each node whose flag is up is freed, and no other because of a flag."""
    F, g = anchors(ctx)
    NODE = "knaster_graph::node::Node"
    rm = fields_of(F, NODE, {"r": lambda t: "Option<" in t and atomic_bool(t)})["r"]
    nodes = fld(A1, g.f["nodes"])
    free = g.m("free_node_from_key")
    calls_free = lambda fl: [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and F.insts[fl.blocks[b].t[1]].get("p") == free["path"]]
    f = g.m("commit_changes")
    stop = {free["path"]} | {m["path"] for n, m in g.methods.items() if n in (
        "evaluate_if_node_should_be_removed", "generate_task_data", "allocate_node_buffers", "calculate_node_order", "send_updated_tasks")}
    fl, E = flatten(ctx, f, lambda h, x: ITER(h, x) and x.get("p") not in stop and "log" not in x.get("p", ""))
    S = Sites(g, fl, E, any_end=True, pops=True)
    W = Where(F, S, E)

    def flag_up(q, is_node):
        """q says that the flag of a node is up."""
        if q[0] != "true" or q[1][0] != "call" or q[1][1] != "load":
            return None
        p = payload(q[1][2][0])
        return p[1] if p is not None and p[0] == "f" and p[2] == rm and is_node(p[1]) else None

    bad, do, loops = [], {}, {}
    frees = calls_free(fl)
    if len(frees) != 1:
        raise Missing("the call that frees a node whose flag is up")
    a = [canon(E.op(x)) for x in fl.blocks[frees[0]].t[2]]
    r = W.elem(a[1])
    if r is None and at_(a[1]):
        q, i = at_(a[1])
        l = W.pos(i)
        if l is not None and uncast(W.end(l)) == ("call", "len", (q,)):
            r = (l, q, [])
    if r is None or a[0] != A1 or r[2]:
        bad.append(("node", "what is freed is not one of the nodes found"))
    due = None
    if not bad:
        l2, q = r[0], r[1]
        do[frees[0]] = (l2, "free", frozenset())
        loops[l2] = (None, frozenset({"free"}))
        end = {("loop", l2)}
        if q[0] == "call" and q[1] in ("new", "with_capacity", "default"):
            pushes = [(b, [canon(E.op(x)) for x in fl.blocks[b].t[2]]) for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) in (
                "push", "push_back", "push_front", "insert", "extend", "append", "clear", "truncate", "pop", "retain", "remove")]
            pushes = [(b, x) for b, x in pushes if strip_it(x[0]) == q and b != l2]
            if len(pushes) != 1 or last(F, fl.blocks[pushes[0][0]].t[1]) not in ("push", "push_back"):
                bad.append(("queue", "the nodes to free are not collected in one place"))
            else:
                b, x = pushes[0]
                k = W.elem(x[1])
                if k is None or k[1] != nodes or list(k[2]) not in (["0"], []):
                    bad.append(("key", "what is put in the queue is not the key of a node looked at"))
                else:
                    l1, it = k[0], item(x[1])
                    do[b] = (l1, "push", frozenset({("due", "push")}))
                    loops[l1] = (None, frozenset())
                    end.add(("loop", l1))
                    el = x[1][1] if x[1][0] == "f" else x[1]

                    def due(fct):
                        n = flag_up(fct, lambda e: W.elem(e) is not None and W.elem(e)[:2] == (l1, nodes) and list(W.elem(e)[2]) == ["1"]
                                    or e[0] in ("[]",) and strip_it(e[1]) == nodes and e[2] == x[1]
                                    or e[0] == "call" and e[1] == "index" and strip_it(e[2][0]) == nodes and e[2][1] == x[1]
                                    or payload(e) is not None and payload(e)[0] == "call" and payload(e)[1] in ("get", "get_mut") and payload(e)[2][1:] == (x[1],))
                        return (l1, "push") if n is not None else None
        else:
            # collected from the nodes: filter + map, or filter_map
            while q[0] == "call" and q[1] in ("collect", "from_iter", "into_iter", "iter") and q[2]:
                q = strip_it(q[2][-1] if q[1] == "from_iter" else q[2][0])
            bad += chain(ctx, F, fl, q, nodes, rm, flag_up)
            S.at[l2].odd = []
    vs = [(x, []) for x in bad]
    if not bad:
        w = Walker(fl, E)
        rec = fld(A1, g.f["dirty"])

        class Commit(Nest):
            """Whether there is anything to commit is decided once the flags have been looked at."""

            def edge(self, st, b, o, v, other, vals):
                if ("loop", l2) not in st[0][1] and any(x == rec for x in walk(canon(self.w.E.op(o)))):
                    self.w.viol(("late", "whether there is anything to commit is decided before the flags are looked at"))
                    return None
                return super().edge(st, b, o, v, other, vals)
        M = Commit(w, S, do, loops, frozenset(end), due=due)
        first = frozenset(x for x in end if x != ("loop", l2))
        M.before = {l2: first}
        vs = list(w.run(M, Nest.INIT))
        ctx.states += w.nstates
    report(ctx, "poll", f["name"], f, fl, vs, None, "every node whose flag is up, no other")


IA = "core::iter::adapters::"
ADAPTERS = {IA + "map::Map": ("map", "f"), IA + "filter::Filter": ("filter", "predicate"), IA + "filter_map::FilterMap": ("filter_map", "f")}


def chain(ctx, F, fl, q, nodes, rm, flag_up):
    """keys of the nodes whose flag is up: nodes.iter().filter(..).map(..), or filter_map(..)."""
    stages = []
    while True:
        if q[0] == "call" and q[1] in ("filter", "map", "filter_map", "copied", "cloned") and q[2]:
            if len(q[2]) == 2:
                stages.append((q[1], q[2][1]))
            q = strip_it(q[2][0])
        elif q[0] == "agg" and q[1] in ADAPTERS:
            d = dict(q[3])
            stages.append((ADAPTERS[q[1]][0], d[ADAPTERS[q[1]][1]]))
            q = strip_it(d["iter"])
        else:
            break
    if q != nodes or not stages:
        return [("queue", "the nodes to free are not collected from all nodes")]
    cond = key = False
    for kind, c in reversed(stages):
        h = closure_fn(F, fl, c)
        if h is None:
            return [("queue", "how the nodes to free are chosen cannot be read")]
        l, X = flatten(ctx, h, lambda f, x: ITER(f, x))
        out = []

        def at(facts, eff, v, var, kind=kind):
            node = lambda e: e == fld(A2, "1")
            up = any(flag_up(x, node) is not None for x in facts)
            down = any(x[0] == "false" and flag_up(("true",) + x[1:], node) is not None or x[0] == "is" and x[2] == "None" and x[1] == fld(fld(A2, "1"), rm) for x in facts)
            val = flag_up(("true", v), node) is not None
            if eff:
                out.append("write")
            elif kind == "filter":
                out.append("ok" if up and num(v, True) or down and num(v, False) or val else "bad")
            elif kind == "map":
                out.append("ok" if v == fld(A2, "0") else "bad")
            else:
                out.append("ok" if up and some(v) == fld(A2, "0") or down and var == "None" else "bad")
        ordered(ctx, l, X, lambda t: None, at, purge=False)
        if not out or set(out) != {"ok"}:
            return [("flag", "a node is freed whose flag is not up, or not freed although it is")]
        cond, key = cond or kind != "map", key or kind != "filter"
    return [] if cond and key else [("queue", "the nodes to free are not chosen by their flags")]
