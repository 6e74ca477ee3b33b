"""The audio thread's block: taking over schedules, applying changes, running tasks, producing the graph's outputs."""
from signals import *
from fold import fold

_pol = {}


def gg_policy(F):
    if id(F) not in _pol:
        stop = ("UGenEnum", "::Time::", "ArLogSender", "::SchedulingToken", "::ActivateToken")
        _pol[id(F)] = lambda f, x: ITER(f, x) and not any(k in x.get("p", "") for k in stop) and not x.get("p", "").endswith("::apply_parameter_change")
    return _pol[id(F)]


class GG:
    """Anchors of the audio side, found by type."""

    def __init__(self, ctx):
        F = ctx.facts()
        self.F = F
        fs = [f for f in F.fns if f["name"] == "process_block" and f.get("impl_adt", "").endswith("::GraphGen") and "inst" in f]
        if not fs:
            raise Missing("GraphGen::process_block")
        self.f = fs[0]
        self.c = fields_by_type(F, "graph_gen::GraphGen", {
            "cur": (lambda t: t.endswith("TaskData<F>") and "rtrb" not in t, "current_task_data"),
            "new": (lambda t: "rtrb" in t and "Consumer" in t and "TaskData" in t, "new_task_data_consumer"),
            "ret": (lambda t: "rtrb" in t and "Producer" in t and "TaskData" in t, "task_data_to_be_dropped_producer"),
            "alloc": (lambda t: "OwnedRawBuffer" in t, "_arc_buffer_allocation_ptr"),
            "waiting": (lambda t: "VecDeque" in t and "SchedulingEvent" in t, "waiting_parameter_changes"),
            "events": (lambda t: "SchedulingChannelConsumer" in t or ("rtrb" in t and "Consumer" in t and "SchedulingEvent" in t), "scheduling_event_receiver"),
            "remove": (lambda t: "AtomicBool" in t, "remove_me_flag"),
            "freed": (lambda t: t == "bool", "freed")})
        self.t = fields_by_type(F, "task::TaskData", {
            "tasks": (lambda t: "Task<F>" in t and "OutputTask" not in t, "tasks"),
            "out": (lambda t: "OutputTask" in t, "output_task"),
            "applied": (lambda t: "AtomicBool" in t, "applied"),
            "alloc": (lambda t: "OwnedRawBuffer" in t, "current_buffer_allocation"),
            "ar": (lambda t: "ArParameterChange" in t, "ar_parameter_changes"),
            "order": (lambda t: "NodeKey" in t, "node_task_order"),
            "gin": (lambda t: False, "graph_input_channels_to_nodes")})
        fl, E = flatten(ctx, self.f, gg_policy(F))
        if not hasattr(fl, "folded"):
            fl.folded = fold(fl, E, blocksize=lambda e: peel(e)[0] == "f" and peel(e)[2] == "block_size" or peel(e)[0] == "call" and peel(e)[1].split("::")[-1] == "block_size")
        self.fl, self.E = fl.folded
        g = Graph0(self)
        self.S = Sites(g, self.fl, self.E)
        self.g = g


class Graph0:
    """Stand-in for the graph anchors: no graph containers on the audio side."""

    def __init__(self, G):
        self.F, self.f, self.c = G.F, {}, {}


def under_field(e, *names):
    """The access chain of e goes through these fields, nearest first (others may lie between)."""
    n = [x[2] for x in chain_roots(e) if x[0] == "f" and not x[2].isdigit()]
    i = 0
    for x in n:
        if i < len(names) and x == names[i]:
            i += 1
    return i == len(names)


def field_read(e, name):
    e = peel(e)
    return e[0] == "f" and e[2] == name


_gg = {}


def gg(ctx):
    F = ctx.facts()
    if id(F) not in _gg:
        _gg[id(F)] = GG(ctx)
    return _gg[id(F)]


def pay(e, variant_, n="0"):
    """X when e is (X as variant).n"""
    e = peel(e)
    if e[0] == "f" and e[2] == n and e[1][0] == "v" and e[1][2] == variant_:
        return e[1][1]
    return None


def zero(e):
    e = peel(e)
    return e[0] == "k" and str(e[1]).strip("'\"") in ("0.0", "0", "-0.0") or e[0] == "k" and "ZERO" in str(e[1])


# ---------------------------------------------------------------- takeover of schedules
class Takeover(ForEach):
    """Adds the consumption of the queue of new schedules to the loops."""

    def __init__(self, G, w, *a, **kw):
        super().__init__(w, G.S, *a, **kw)
        self.G = G

    def edge(self, st, b, o, v, other, vals):
        G = self.G
        x, name = variant(self.w, o, v)
        if x is not None and x[0] == "call" and x[1].split("::")[-1] in ("pop", "read_chunk") and under_field(x[2][0], G.c["new"]):
            facts, (op, done) = st
            if x[1].endswith("pop"):
                if "elem" in op:
                    self.w.viol(("schedules skipped", "a new schedule is received and not put into use"))
                    return None
                if name == "Ok":
                    return frozenset(), (op | {"elem"}, done - {"schedules", "carried", "parameters", "announced", "replaced", "returned"})
                return facts, (op, done | {"schedules"})
            if name == "Err":
                return facts, (op, done | {"schedules"})
        st2 = super().edge(st, b, o, v, other, vals)
        if st2 is None:
            return None
        facts, (op, done) = st2
        e = self.w.E.op(o)
        if v in (0, 1) and self.w.F.types[o[2]]["k"] == "bool":
            for f in atoms(e, bool(v)):
                sl = lambda q: q[0] == "call" and q[1] == "slots" and q[2] and q[2][0][0] == "f" and q[2][0][2] == G.c["new"]
                if f[0] in ("Le", "Eq") and sl(f[1]) and f[2] == ("k", 0) or f[0] == "Lt" and sl(f[1]) and f[2] == ("k", 1) or f[0] == "true" and f[1][0] == "call" and f[1][1] == "is_empty" \
                        and f[1][2][0][0] == "f" and f[1][2][0][2] == G.c["new"]:
                    done = done | {"schedules"}
        return facts, (op, done)


def new_schedule(G, e):
    """e lies in a schedule received from the queue (site of the loop, or 'elem')."""
    for x in chain_roots(e):
        if x[0] == "call":
            l = x[1].split("::")[-1]
            if l in ("next",) and x[3] in G.S.at and under_field(G.S.at[x[3]].it, G.c["new"]):
                return x[3]
            if l == "pop" and under_field(x[2][0], G.c["new"]):
                return "elem"
    return None


def is_cur(G, e):
    return under_field(e, G.c["cur"]) and new_schedule(G, e) is None


def takeover(ctx, want):
    """want: which of {'P04','P05','P06'} to report."""
    G = gg(ctx)
    F, S, E, fl, c, t = G.F, G.S, G.E, G.fl, G.c, G.t
    L = [b for b, s in S.at.items() if s.call is not None and under_field(s.it, c["new"]) and not any(
        x[2] in t.values() for x in chain_roots(s.it) if x[0] == "f") and s.outer is None]
    pops = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and fl.blocks[b].t[2] and last(F, fl.blocks[b].t[1]) == "pop"
            and under_field(E.op(fl.blocks[b].t[2][0]), c["new"])]
    if len(L) + len(pops) != 1:
        raise Missing("one loop that receives new schedules on the audio thread")
    loop = L[0] if L else None
    if loop is not None:
        # the chunk covers everything that is waiting
        ch = next((x for x in chain_roots(S.at[loop].it) if x[0] == "call" and x[1].split("::")[-1] == "read_chunk"), None)
        if ch is None or not any(x[0] == "call" and x[1].split("::")[-1] == "slots" and under_field(x[2][0], c["new"]) for x in walk(ch[2][1])) \
                or any(x[0] == "bin" for x in walk(ch[2][1])):
            if "P06" in want:
                ctx.viol("takeover", "all", f"{G.f['path']}: not every waiting schedule is taken over", where=loc(F, G.f["inst"], None))
            return
    loops = {}
    if loop is not None:
        loops[loop] = "schedules"
        S.at[loop].odd = [x for x in S.at[loop].odd if x not in ("read_chunk", "slots")]
    else:
        loops["elem"] = "schedules"
    mv = [b for b, s in S.at.items() if s.call is not None and new_schedule(G, s.it) is not None and under_field(s.it, t["tasks"])]
    ar = [b for b, s in S.at.items() if s.call is not None and new_schedule(G, s.it) is not None and under_field(s.it, t["ar"])]
    cnt = [b for b, s in S.at.items() if s.idx is not None and new_schedule(G, s.base if s.base else s.it) is not None]
    for b in cnt:
        (mv if under_field(S.at[b].base, t["tasks"]) else ar if under_field(S.at[b].base, t["ar"]) else []).append(b)
    for b in set(mv):
        loops[b] = "carried"
    for b in set(ar):
        loops[b] = "parameters"
    mv, ar = set(mv), set(ar)
    if len(mv) != 1 or len(ar) != 1:
        raise Missing("the loops that carry over generators and parameter signals to a new schedule")
    (M,), (A,) = mv, ar
    for b in (M, A):
        o = S.at[b].odd
        S.at[b].odd = o[:o.index("pop")] if "pop" in o else o
    main = loop if loop is not None else "elem"
    inner = {main: ["carried", "parameters", "announced", "replaced", "returned"]}
    uses = {"run": 0}

    def bad(p, k, msg):
        return [("bad", k, msg)] if p in want else [("stop",)]

    def event(st, b, what, x):
        facts, (op, done) = st
        F_ = F
        if what == "stmt":
            if x[0] != "=" or not x[1][1]:
                return None
            p = E.place(x[1])
            if p[0] == "f" and p[2] == "ugen" and new_schedule(G, p) is not None:
                v = E.rvalue(x[2])
                return carried(p, v)
            if p[0] == "f" and p[2] == c["cur"] or (p[0] == "f" and p[2] in t.values() and is_cur(G, p)):
                if p[2] == c["cur"]:
                    return bad("P05", "overwritten", "the schedule in use is overwritten (and dropped on the audio thread) instead of being returned")
            return None
        if what != "call":
            return None
        ln = last(F_, x[1])
        args = [E.op(a) for a in x[2]]
        if ln == "set_ar_param_buffer" and args and new_schedule(G, args[0]) is not None:
            a = peel(args[0])
            tgt = None
            for y in chain_roots(args[0]):
                si = split_index(y)
                if si and under_field(si[0], t["tasks"]):
                    tgt = si[1]
                    break
            el = lambda e, n: field_read(e, n) and S.elem_of(peel(e)[1]) == A
            if tgt is None or not el(tgt, "node"):
                return bad("P28", "parameter node", "an audio rate parameter signal is given to a node other than the one it is for")
            if not (el(args[2], "parameter_index") and el(args[3], "buffer")):
                return bad("P28", "parameter signal", "an audio rate parameter is not given the signal that is meant for it")
            if "carried" not in done:
                return bad("P28", "parameters early", "audio rate parameters are set before the generators are in the new schedule")
            return [("do", A)]
        if ln == "store" and args and new_schedule(G, args[0]) is not None:
            if not under_field(args[0], t["applied"]):
                return None
            if args[1] != ("k", True):
                return bad("P04", "not announced", "the takeover of a schedule is not announced")
            o = order_of(args[2])
            if o not in ("Release", "SeqCst", "AcqRel"):
                return bad("P04", "ordering", f"the takeover of a schedule is announced with {o} ordering, so the editing thread can act on it too early")
            for n, what_ in (("carried", "generators have been moved out of the previous schedule"), ("parameters", "parameter signals of the previous schedule have been replaced")):
                if n not in done:
                    return bad("P04", "early " + n, f"the takeover of a schedule is announced before all {what_}")
            return [("mark", "announced")]
        if ln in ("replace", "swap") and len(args) == 2 and "mem" in F_.insts[x[1]].get("p", "") and peel(args[0])[0] == "f" and peel(args[0])[2] == c["cur"]:
            if new_schedule(G, args[1]) is None:
                return bad("P06", "other", "the schedule in use is replaced by something other than a new schedule")
            if "announced" not in done:
                return bad("P04", "unannounced", "a schedule is put into use without its takeover being announced")
            return [("mark", "replaced")] + ([("mark", "swapped")] if ln == "swap" else [])
        if ln == "push" and args and under_field(args[0], c["ret"]):
            v = args[1]
            isold = v[0] == "call" and v[1].split("::")[-1] == "replace" and peel(v[2][0])[0] == "f" and peel(v[2][0])[2] == c["cur"] \
                or ("swapped" in done and new_schedule(G, v) is not None)
            if not isold:
                return bad("P05", "returned", "something other than the replaced schedule is returned to the editing side")
            return [("mark", "returned"), ("finish", main)]
        # any other use of the schedule that is being replaced
        if "announced" in done and "replaced" not in done:
            for a in args:
                if is_cur(G, a) and peel(a)[0] != "k":
                    return bad("P04", "used after", f"the previous schedule is still used ({ln}) after the takeover of the new one has been announced")
        if ln in ("process_block", "apply_parameter_change") and args:
            uses["run"] += 1
            if "schedules" not in done:
                return bad("P06", "late", f"nodes are run or changed ({ln}) before the schedules that are waiting have been taken over")
        return None

    def carried(p, v):
        if S.elem_of(p[1]) != M:
            return bad("P04", "carried", "a generator is put into a task other than the one being looked at")
        if not (v[0] == "call" and v[1].split("::")[-1] in ("take", "replace")):
            return bad("P04", "carried", "a generator is put into a new schedule without being taken out of the previous one")
        src = v[2][0]
        si = None
        for y in chain_roots(src):
            si = split_index(y)
            if si and under_field(si[0], t["tasks"], c["cur"]):
                break
            si = None
        if not (field_read(src, "ugen") and si and is_cur(G, si[0])):
            return bad("P04", "carried", "the generator of a node is not taken from the task it has in the previous schedule")
        j = pay(si[1], "TakeFromTask")
        if j is None or not (field_read(j, "ugen") and S.elem_of(peel(j)[1]) == M):
            return bad("P04", "carried index", "a generator is taken from a position other than the one it was left at")
        return [("do", M)]

    class Mon(Takeover):
        def apply(self, st, evs):
            for e in evs or ():
                facts, (op, done) = st
                if e[0] == "mark":
                    st = facts, (op, done | {e[1]})
                elif e[0] == "stop":
                    return None
                elif e[0] == "finish":
                    for n in ("announced", "replaced", "returned"):
                        if n not in done:
                            if ("P05" if n == "returned" else "P06") in want:
                                self.w.viol((n, "a new schedule is not put into use"))
                            return None
                    self.n["schedules"] = self.n.get("schedules", 0) + 1
                    st = facts, (op - {main}, done)
                else:
                    st = super().apply(st, [e])
                    if st is None:
                        return None
            return st

    def exempt(st, b):
        facts = st[0]
        if b == M:
            return any(f[0] == "is" and f[2] in ("Dyn", "None") or f[0] == "isnot" and f[2] == "TakeFromTask" for f in facts)
        return False

    def skip(n):
        return {"schedules": "a schedule that was received is not put into use, announced and exchanged for the previous one",
                "carried": "a generator can stay behind in the previous schedule", "parameters": "an audio rate parameter can be left without its signal"}[n]
    w = Walker(fl, E)
    def tk(f):
        for x in walk(f[1]):
            if x[0] == "f" and x[2] == "ugen":
                return True
        return False

    m = Mon(G, w, loops, event, exempt, [], skip, lambda n: "", once=False, inner=inner, keep=lambda f: f[0] in ("is", "isnot") and tk(f))
    vs = w.run(m, ForEach.INIT)
    ctx.states += w.nstates
    own = {"schedules skipped": ("P06", "P05"), "carried skipped": ("P04",), "parameters skipped": ("P28",)}
    n = 0
    for (k, msg), path in vs:
        if k in own and not set(own[k]) & want:
            continue
        n += 1
        ctx.viol("takeover", k, f"{G.f['path']}: {msg}", where=loc(F, G.f["inst"], None), trace=trace(fl, path))
    if not n:
        ctx.ok("takeover", G.f["path"], f"{w.nstates} path states")
        for nm, least in (("schedules", 1), ("carried", 1), ("parameters", 1)):
            if not vs:
                ctx.floor("takeover-" + nm, m.n.get(nm, 0), least)


def order_of(e):
    e = peel(e)
    if e[0] == "agg":
        return e[2]
    if e[0] == "k":
        return str(e[1]).split("::")[-1]
    return "?"


def p04_takeover(ctx):
    takeover(ctx, {"P04"})


def p05_returned(ctx):
    takeover(ctx, {"P05"})


def p06_takeover(ctx):
    takeover(ctx, {"P06"})


def p28_parameters(ctx):
    takeover(ctx, {"P28"})


# ---------------------------------------------------------------- one block
def chan_of(e, n):
    """index when e is (a view of) channel `index` of block argument n."""
    e = peel(e)
    for _ in range(6):
        if e[0] == "call" and e[1].split("::")[-1] in ("channel_as_slice", "channel_as_slice_mut") and len(e[2]) == 2:
            return e[2][1] if peel(e[2][0]) == ("arg", n) else None
        if e[0] == "call" and e[2] and e[1].split("::")[-1] in ("as_ptr", "as_ref", "as_mut", "deref", "deref_mut", "as_mut_ptr", "iter", "iter_mut"):
            e = peel(e[2][0])
            continue
        break
    return None


def zip_side(S, e, b):
    """0 / 1 when e is the first / second half of the element of site b, which iterates over a zip."""
    e = peel(e)
    if e[0] == "f" and e[2] in ("0", "1") and e[1][0] == "f" and e[1][2] == "0":
        v = e[1][1]
        if v[0] == "v" and v[1][0] == "call" and v[1][3] == b and any(x[0] == "call" and x[1].split("::")[-1] == "zip" for x in chain_roots(S.at[b].it)):
            return int(e[2])
    return None


def zip_args(S, b):
    for x in chain_roots(S.at[b].it):
        if x[0] == "call" and x[1].split("::")[-1] == "zip":
            return x[2]
    return None


def block(ctx):
    G = gg(ctx)
    F, S, E, fl, c, t = G.F, G.S, G.E, G.fl, G.c, G.t
    IN, OUT = 4, 5
    cur = lambda e, *n: under_field(e, *n, c["cur"]) and new_schedule(G, e) is None
    base = lambda s: s.base if s.idx is not None else s.it
    runs, outs, gis, gjs, zeros = [], [], [], [], []
    calls = {b: fl.blocks[b].t for b in fl.reachable() if fl.blocks[b].t[0] == "call"}
    for b, x in calls.items():
        if last(F, x[1]) == "process_block" and x[2] and cur(E.op(x[2][0]), "ugen", t["tasks"]):
            runs.append(b)
    if len(runs) != 1:
        raise Missing("one place where the tasks of the current schedule are run")
    L = S.elem_of(E.op(calls[runs[0]][2][0]))
    O = [b for b, s in S.at.items() if cur(base(s), "channels", t["out"]) or cur(base(s), t["out"])]
    if L is None or len(O) != 1:
        raise Missing("loops over the tasks and over the output channels of the current schedule")
    O = O[0]
    GI = [b for b, s in S.at.items() if cur(base(s), t["gin"]) and s.outer is None]
    GJ = [b for b, s in S.at.items() if cur(base(s), t["gin"]) and s.outer is not None and s.outer in GI]
    if len(GI) != 1 or len(GJ) != 1:
        raise Missing("loops over the graph's inputs of the current schedule")
    GI, GJ = GI[0], GJ[0]
    loops = {L: "tasks", O: "outputs", GI: "graph inputs", GJ: "graph input"}
    clears = {b for b, s in S.at.items() if b not in loops and not s.odd and (
        s.idx is None and not any(x[0] == "call" and x[1].split("::")[-1] == "zip" for x in chain_roots(s.it)) and any(x == ("arg", OUT) for x in chain_roots(s.it))
        or s.idx is not None and s.start == ("k", 0) and peel(s.end)[0] == "call" and peel(s.end)[1].split("::")[-1] == "channels" and peel(peel(s.end)[2][0]) == ("arg", OUT))}
    w = Walker(fl, E)

    def own_elem(e, n, b):
        """e is field/tuple part n of the element of site b."""
        e = peel(e)
        return e[0] == "f" and e[2] == n and S.elem_of(e[1]) == b and not any(
            x[0] == "f" and x[2] not in ("0", "1", n) for x in until(e[1], b))

    def until(e, b):
        for x in chain_roots(e):
            yield x
            if x[0] == "call" and x[3] == b:
                return

    els = {canon(E.place(S.at[O].call[3]))} if S.at[O].call is not None else set()
    if S.at[O].idx is not None:
        els.add(canon(S.at[O].idx))

    def silence(st):
        return elem_none(S, E, st[0], O)

    def dst(e):
        s = zip_side(S, e, O)
        if s is not None:
            za = zip_args(S, O)
            return any(x == ("arg", OUT) for x in chain_roots(za[s])) and plain_out(za[0]) and plain_out(za[1])
        i = chan_of(e, OUT)
        return i is not None and index_of(S, i, O)

    def plain_out(a):
        return not any(x[0] == "call" and x[1].split("::")[-1] in FILTERS for x in chain_roots(a))

    def event(st, b, what, x):
        facts, (op, done) = st
        if what == "stmt":
            if x[0] != "=" or not x[1][1]:
                return None
            tg = target(E, x)
            if tg and cur(tg[0], "in_buffers", t["tasks"]):
                si = None
                for y in chain_roots(tg[0]):
                    si = split_index(y)
                    if si and cur(si[0], t["tasks"]):
                        break
                    si = None
                v = peel(E.rvalue(x[2]))
                ch = chan_of(v, IN) if v[0] == "call" and v[1].split("::")[-1] == "as_ptr" else None
                if si is None or not own_elem(si[1], "0", GI):
                    return [("bad", "graph input node", "an input of the graph is given to a node other than the one it is connected to")]
                if not own_elem(tg[1], "1", GJ):
                    return [("bad", "graph input channel", "an input of the graph is given to an input of a node other than the one it is connected to")]
                if ch is None or not own_elem(ch, "0", GJ):
                    return [("bad", "graph input source", "a node that is connected to an input of the graph is given something else")]
                return [("do", GJ)]
            p = E.place(x[1])
            if p[0] == "f" and p[2] == c["freed"] and E.rvalue(x[2]) == ("k", True):
                return [("mark", "freed")]
            if x[1][1][-1][0] in ("*", "i", "c") and any(y == ("arg", OUT) for y in chain_roots(p)) and F.types[fl.ltypes[x[1][0]]]["k"] != "adt":
                return touched(st)
            return None
        if what != "call":
            return None
        ln = last(F, x[1])
        if b == runs[0]:
            a = [E.op(z) for z in x[2]]
            i = find_agg(a, "RawAggregateBlockRead")
            o = find_agg(a, "RawContiguousBlock")
            if i is None or o is None:
                raise Missing("the blocks handed to a task")
            bs = lambda d: peel(d["block_size"])[0] == "f" and peel(d["block_size"])[2] == "block_size"
            if not own_field(i, "in_buffers"):
                return [("bad", "task input", "a task is run on something other than its own inputs")]
            if not own_field(o, "out_buffer") or not own_field(o, "output_channels"):
                return [("bad", "task output", "a task writes to something other than its own output")]
            if not bs(i) or not bs(o):
                return [("bad", "task length", "a task is run for something other than a whole block")]
            if "graph inputs" not in done:
                return [("bad", "early tasks", "a task is run before the graph's inputs have been given to the nodes connected to them")]
            if L not in op:
                return [("bad", "tasks twice", "a task is run twice in a block")]
            return [("do", L)]
        if ln in ("copy_from_slice", "clone_from_slice") and x[2]:
            a = [E.op(z) for z in x[2]]
            if not any(y == ("arg", OUT) for y in walk(a[0])):
                return None
            if not dst(a[0]):
                return [("bad", "output channel", "the signal of one graph output is put on another")]
            for s in alts(peel(a[1])):
                s = peel(s)
                p = ptr_len(s)
                if p is not None:
                    ptr, n = p
                    src = pay(ptr, "Block")
                    if src is None or S.elem_of(src) != O:
                        return [("bad", "output source", "a graph output is given a signal other than that of the node connected to it")]
                    if not (peel(n)[0] == "f" and peel(n)[2] == "block_size"):
                        return [("bad", "output length", "the length of a signal is not the block size")]
                else:
                    ch = chan_of(s, IN)
                    src = pay(ch, "GraphInput") if ch is not None else None
                    if src is None or S.elem_of(src) != O:
                        return [("bad", "output source", "a graph output is given a graph input other than the one connected to it")]
            if "tasks" not in done:
                return [("bad", "early output", "a graph output is taken before all nodes have been run")]
            return [("do", O), ("mark", "begun")]
        if ln == "fill" and x[2]:
            a = [E.op(z) for z in x[2]]
            if not any(y == ("arg", OUT) for y in walk(a[0])):
                return None
            if not zero(a[1]):
                return [("bad", "silence", "a graph output without a connection is given something other than silence")]
            if O in op and dst(a[0]) and silence(st):
                return [("do", O), ("mark", "begun")]
            i = chan_of(a[0], OUT)
            cl = next((q for q in clears if S.at[q].idx is not None and index_of(S, i, q)), None) if i is not None else S.elem_of(a[0])
            whole = not any(y[0] == "call" and y[1].split("::")[-1] in ("index", "index_mut", "get_mut", "split_at_mut") and len(y[2]) > 1 and "Range" in show(y[2][1]) for y in chain_roots(a[0]))
            return touched(st) + ([("unmark", ("due", cl))] if cl in clears and whole else [])
        if ln in ("write", "swap", "copy_within", "reverse", "rotate_left", "rotate_right", "fill_with", "swap_with_slice") and x[2] \
                and any(y == ("arg", OUT) for y in walk(E.op(x[2][0]))):
            return touched(st)
        return None

    def touched(st):
        """The output block is written to outside of the loop that gives every channel its signal."""
        facts, (op, done) = st
        if is_freed(st):
            return []
        if "begun" not in done and O not in op and "outputs" not in done:
            return [("mark", "before")]
        if "outputs" in done:
            return [("mark", "tail")]
        return [("bad", "changed", "the signal of a graph output is changed after it has been taken")]

    def own_field(d, n):
        for k, e in d.items():
            e = peel(e)
            for _ in range(4):
                if e[0] == "call" and e[1].split("::")[-1] in ("deref", "as_slice", "as_ref") and e[2]:
                    e = peel(e[2][0])
            if e[0] == "f" and e[2] == n and S.elem_of(e[1]) == L:
                return True
        return False

    def is_freed(st):
        return any(f[0] == "true" and f[1][0] == "f" and f[1][2] == c["freed"] for f in st[0])

    def exempt(st, b):
        return b == GI and "graph input" in st[1][1] or b == O and "cleared" in st[1][1] and silence(st)

    def noreturn(facts):
        return is_freed((facts,))

    class Block(ForEach):
        """Adds loops that silence all channels beforehand, and what may be written afterwards."""

        def edge(self, st, b, o, v, other, vals):
            oc = S.outcome(w, b, o, v, other)
            st = super().edge(st, b, o, v, other, vals)
            if st is None or oc is None or oc[0].b not in clears:
                return st
            facts, (op, done) = st
            s = oc[0].b
            if oc[1] == "Some":
                if ("due", s) in done:
                    done = done | {("part", s)}
                return facts, (op, done | {("due", s)})
            if ("due", s) not in done and ("part", s) not in done:
                done = done | {"cleared"}
            return facts, (op, done - {("due", s), ("part", s)})

        def term(self, st, b, t, env):
            done = st[1][1]
            if t[0] == "ret" and "tail" in done and "freed" not in done and not is_freed(st):
                w.viol(("changed", "the signal of a graph output is changed after it has been taken"))
                return None
            return super().term(st, b, t, env)

    m = Block(w, S, loops, event, exempt, ["tasks", "outputs", "graph inputs"],
                lambda n: {"tasks": "a task can be left out of a block", "outputs": "an output channel can be left as it was in the block before",
                           "graph inputs": "an input of the graph can be kept from a node connected to it", "graph input": "an input of the graph can be kept from a node connected to it"}[n],
                lambda n: {"tasks": "not all tasks are run in a block", "outputs": "not all output channels are written in a block"}.get(n, "not all inputs of the graph are given to the nodes connected to them"),
                once=False, noreturn=noreturn, inner={GI: ["graph input"]}, keep=lambda f: f[0] == "is" and any(x in els for x in walk(f[1])) or f[0] in ("true", "false") and f[1][0] == "f" and f[1][2] == c["freed"])
    vs = w.run(m, ForEach.INIT)
    ctx.states += w.nstates
    for (k, msg), path in vs:
        ctx.viol("block", k, f"{G.f['path']}: {msg}", where=loc(F, G.f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("block", G.f["path"], f"{w.nstates} path states")
        for n, least in (("tasks", 1), ("outputs", 3), ("graph input", 1)):
            ctx.floor("block-" + n.replace(" ", "-"), m.n.get(n, 0), least)


def find_agg(args, name):
    for a in args:
        a = peel(a)
        if a[0] == "agg" and a[1].endswith("::" + name):
            return dict(a[3])
    return None


def ptr_len(e):
    if e[0] == "call" and e[1].split("::")[-1] in ("from_raw_parts", "slice_from_raw_parts") and len(e[2]) == 2:
        return e[2]
    return None


# ---------------------------------------------------------------- a removed graph is silent
def removed(ctx):
    """freed -> every output channel is zero-filled and nothing else happens."""
    G = gg(ctx)
    F, S, E, fl, c = G.F, G.S, G.E, G.fl, G.c
    OUT = 5
    n = {"fill": 0, "freed": 0}

    class Freed(FactMon):
        """state = (facts, (phase)): phase in start / loop (an element is due) / done."""

        def relevant(self, f):
            return f[0] in ("true", "false") and f[1][0] == "f" and f[1][2] == c["freed"]

        def term(self, st, b, tm, env):
            facts, ph = st
            on = any(f[0] == "true" for f in facts)
            if not on:
                if not facts and tm[0] == "call" and last(F, tm[1]) == "process_block":
                    self.w.viol(("runs", "a removed graph still runs its nodes"))
                    return None
                return st if not any(f[0] == "false" for f in facts) else None
            if tm[0] == "call":
                ln = last(F, tm[1])
                a = [E.op(z) for z in tm[2]]
                if ln in ("process_block",) or ln == "apply_parameter_change":
                    self.w.viol(("runs", "a removed graph still runs its nodes"))
                    return None
                if ln == "fill" and a and any(y == ("arg", OUT) for y in walk(a[0])):
                    if not zero(a[1]) or any(x[0] == "call" and x[1].split("::")[-1] in ("index_mut", "index", "get_mut") for x in chain_roots(a[0])):
                        self.w.viol(("noise", "a removed graph outputs something other than silence"))
                        return None
                    n["fill"] += 1
                    return facts, "filled"
            if tm[0] == "ret":
                n["freed"] += 1
                if ph != "done":
                    self.w.viol(("stale", "a removed graph can leave an output channel as it was in the block before"))
                return None
            return st

        def edge(self, st, b, o, v, other, vals):
            st2 = super().edge(st, b, o, v, other, vals)
            facts, ph = st2
            if any(f[0] == "true" for f in facts):
                x, name = variant(self.w, o, v)
                e = E.op(o)
                # the iterator over the output's channels (inlined, or a call)
                if x is not None and self.channels(x):
                    if name == "Some":
                        if ph == "due":
                            self.w.viol(("stale", "a removed graph can leave an output channel as it was in the block before"))
                            return None
                        return facts, "due"
                    if name == "None":
                        if ph == "due":
                            self.w.viol(("stale", "a removed graph can leave an output channel as it was in the block before"))
                            return None
                        return facts, "done"
                if v in (0, 1) and F.types[o[2]]["k"] == "bool":
                    for f in atoms(e, bool(v)):
                        # counting over the channels
                        if f[0] == "Lt" and self.count(f[2]):
                            return facts, "due"
                        if f[0] == "Le" and self.count(f[1]):
                            return (facts, "done") if ph != "due" else (facts, ph)
            return facts, ph

        def count(self, e):
            return e[0] == "call" and e[1] == "channels" and e[2] and canonarg(e[2][0]) == OUT

        def channels(self, x):
            if x[0] == "phi":
                al = [peel(a) for a in x[1]]
                return any(a[0] == "agg" and a[2] == "Some" and any(y == ("arg", OUT) for y in walk(a)) for a in al)
            if x[0] == "call" and x[1].split("::")[-1] in ("next",):
                s = S.at.get(x[3])
                return s is not None and (s.idx is None or s.start == ("k", 0)) and any(y == ("arg", OUT) for y in walk(x)) and not any(y[0] == "call" and y[1].split("::")[-1] in FILTERS | {"take"} for y in chain_roots(x))
            return False

    w = Walker(fl, E)
    vs = w.run(Freed(w), (frozenset(), "start"))
    ctx.states += w.nstates
    for (k, msg), path in vs:
        ctx.viol("removed-graph", k, f"{G.f['path']}: {msg}", where=loc(F, G.f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("removed-graph", G.f["path"], f"{w.nstates} path states")
        ctx.floor("removed-graph", min(n.values()), 1)


def canonarg(e):
    return e[1] if e[0] == "arg" else None


def all_(ctx):
    takeover(ctx, {"P04", "P05", "P06", "P28"})


# ---------------------------------------------------------------- the buffers a schedule uses stay alive
def p03_hold(ctx):
    """A buffer allocation taken out of the schedule in use is held by the audio side from then on."""
    G = gg(ctx)
    F, S, E, fl, c, t = G.F, G.S, G.E, G.fl, G.c, G.t
    n = {"held": 0, "holder": 0}
    src = lambda e: under_field(e, t["alloc"], c["cur"])

    def out_of(e):
        """The call that takes the allocation out of the current schedule."""
        for x in chain_roots(e):
            if x[0] == "call" and x[1].split("::")[-1] in ("take", "replace") and x[2] and src(x[2][0]):
                return True
        return False

    class Hold(Monitor):
        """state: an allocation has been taken out and is not held."""

        def __init__(self, w):
            self.w = w

        def stmt(self, st, b, s):
            if s[0] != "=" or not s[1][1]:
                return st
            p = E.place(s[1])
            if field_read(p, c["alloc"]) and peel(peel(p)[1]) == ("arg", 1):
                n["holder"] += 1
                v = E.rvalue(s[2])
                if not (out_of(v) or src(v)):
                    self.w.viol(("let go", "the audio side replaces the buffers it holds by something other than those of the schedule in use"))
                    return None
                return False
            return st

        def term(self, st, b, tm, env):
            if tm[0] == "call":
                p = E.place(tm[3])
                if field_read(p, c["alloc"]) and peel(peel(p)[1]) == ("arg", 1):
                    n["holder"] += 1
                    e = E.op(tm[2][0]) if tm[2] else None
                    if e is None or not src(e):
                        self.w.viol(("let go", "the audio side replaces the buffers it holds by something other than those of the schedule in use"))
                        return None
                    return False
                if last(F, tm[1]) in ("replace", "swap") and len(tm[2]) == 2:
                    a = [E.op(z) for z in tm[2]]
                    for x, y in (a, a[::-1]):
                        if field_read(x, c["alloc"]) and peel(peel(x)[1]) == ("arg", 1):
                            n["holder"] += 1
                            if not any(out_of(q) or src(q) for q in alts(y)):
                                self.w.viol(("let go", "the audio side replaces the buffers it holds by something other than those of the schedule in use"))
                                return None
                            return False
            if st and (tm[0] == "ret" or tm[0] == "call" and last(F, tm[1]) == "process_block"):
                self.w.viol(("not held", "the buffers of the schedule in use are taken out of it and not held"))
                return None
            return st

        def edge(self, st, b, o, v, other, vals):
            x, name = variant(self.w, o, v)
            if x is not None and x[0] == "call" and x[1].split("::")[-1] in ("take", "replace") and x[2] and src(x[2][0]):
                n["held"] += name == "Some"
                return name == "Some"
            return st

    w = Walker(fl, E)
    vs = w.run(Hold(w), False)
    ctx.states += w.nstates
    for (k, msg), path in vs:
        ctx.viol("buffers-held", k, f"{G.f['path']}: {msg}", where=loc(F, G.f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("buffers-held", G.f["path"], f"{w.nstates} path states; {n['held']} takes, {n['holder']} stores")
    # a take that is never examined (its result dropped or ignored) is a loss as well
    for b in fl.reachable():
        x = fl.blocks[b].t
        if x[0] == "call" and last(F, x[1]) in ("take", "replace") and x[2] and src(E.op(x[2][0])):
            if not n["held"] and not n["holder"]:
                ctx.viol("buffers-held", "dropped", f"{G.f['path']}: the buffers of the schedule in use are taken out of it and not held", where=loc(F, G.f["inst"], None))
