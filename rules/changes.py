"""P16: parameter changes on the audio thread are applied, or kept for a later block."""
from audio import *
from effects import Summary, summarise

STOPS = ("UGenEnum", "::Time::", "ArLogSender", "::SchedulingToken", "::ActivateToken", "::Seconds::")


class Ordered(Summary):
    """Effects carry the number of the effects before them."""

    def stmt(self, st, b, s):
        before = st[1][0]
        facts, (eff, sel) = super().stmt(st, b, s)
        return facts, (before | {x + (min(len(before), 8),) for x in eff - before}, sel)

    def term(self, st, b, t, env):
        facts, (eff, sel) = st
        before = eff
        st2 = super().term(st, b, t, env)
        if st2 is None or st2[1][0] == before:
            return st2
        facts, (eff, sel) = st2
        new = eff - before
        return facts, (before | {x + (min(len(before), 8),) for x in new}, sel)


def ordered(ctx, fl, E, want_call, at_ret, **kw):
    w = Walker(fl, E)
    vs = w.run(Ordered(w, fl, want_call, at_ret, **kw), (frozenset(), (frozenset(), frozenset())))
    ctx.states += w.nstates
    return vs


def field_c(e, n):
    """X when e is X.n (canonical)."""
    return e[1] if e[0] == "f" and e[2] == n else None


def payload_c(e):
    """X when e is (X as Some).0 (canonical)."""
    if e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] in ("Some", "Ok"):
        return e[1][1]
    return None


def uncast(e):
    while e[0] == "cast":
        e = e[2]
    return e


def applier(F):
    fs = [f for f in F.fns if "inst" in f and f.get("krate", "knaster_graph") and f["name"] == "apply_parameter_change"]
    if not fs:
        raise Missing("the function that applies a parameter change")
    return fs[0]


def p16_apply(ctx):
    """A change is applied to its own node and parameter once it is ready, and otherwise given back unchanged."""
    F = ctx.facts()
    f = applier(F)
    fl, E = flatten(ctx, f, lambda f, x: ITER(f, x) and not any(k in x.get("p", "") for k in STOPS))
    S = Sites(Graph0(gg(ctx)), fl, E)
    EV = [n for n in range(1, 12) if types_of(F, fl, n).endswith("scheduling::SchedulingEvent")]
    if len(EV) != 1:
        raise Missing("the change handed to apply_parameter_change")
    EV = ("arg", EV[0])
    BS = [("arg", n) for n in range(1, 12) if types_of(F, fl, n) in ("u64", "usize")]
    NAMES = {"param_apply", "set_delay_within_block_for_param", "to_samples_until_due"}
    want = lambda t: last(F, t[1]) if last(F, t[1]) in NAMES else None
    fe = lambda n: ("f", EV, n)
    n = {"applied": 0, "kept": 0, "smoothing": 0, "value": 0, "delay": 0}

    def is_bs(e):
        e = uncast(e)
        return e in BS[:1] or e[0] == "f" and e[2] == "block_size" or e[0] == "call" and e[1].split("::")[-1] == "block_size"

    def delay(e):
        e = uncast(e)
        return e[0] == "call" and e[1].split("::")[-1] == "to_samples_until_due" and payload_c(uncast(e[2][0])) == fe("time")

    def task_of(facts):
        """Elements whose key is the change's node."""
        out = []
        for q in facts:
            if q[0] == "Eq":
                for x, y in ((q[1], q[2]), (q[2], q[1])):
                    for _ in range(3):
                        if x == fe("node_key"):
                            out.append(y)
                        x = x[1] if x[0] == "f" else x
                        if x[0] == "arg":
                            break
        return out

    def same_elem(key, task):
        """key and task are the two halves of one zip element, or entries with one index."""
        def parts(e):
            for _ in range(8):
                if e[0] == "f" and e[2] in ("0", "1") and payload_c(e[1]) is not None:
                    return ("zip", payload_c(e[1])), e[2]
                ix = split_index(e)
                if ix:
                    return ("idx", ix[1]), ix[0]
                if e[0] in ("f", "v"):
                    e = e[1]
                else:
                    return None, None
            return None, None
        a, x = parts(key)
        b, y = parts(task)
        it = a[1] if a is not None and a[0] == "zip" else payload_c(key)
        if it is not None and it[0] == "call" and b is not None and b[0] == "idx":
            # position(): the counter of the search itself
            c = uncast(b[1])
            return all(z[0] != "call" or z[1].split("::")[-1] in WHOLE for z in walk(it)) and len(S.at) == 1 and c[0] == "phi" and \
                ("k", 0) in c[1] and all(z == ("k", 0) or z[0] == "bin" and z[1].startswith("Add") and z[3] == ("k", 1) and z[2][0] == "loc" for z in c[1])
        return a is not None and a == b and x != y

    WHOLE = {"next", "into_iter", "zip", "iter", "iter_mut", "enumerate", "copied", "cloned", "deref", "deref_mut", "as_slice", "as_mut_slice", "by_ref", "new"}

    def exhausted(q):
        """The search has seen every node."""
        if q[0] == "is" and q[2] == "None" and q[1][0] == "call" and q[1][1].split("::")[-1] == "next":
            return all(x[0] != "call" or x[1].split("::")[-1] in WHOLE or x[1].split("::")[-1] == "len" for x in walk(q[1])) and not any(
                x[0] == "k" and isinstance(x[1], int) and x[1] for x in walk(q[1]))
        return q[0] == "Le" and q[1][0] in ("phi", "loc") and q[2][0] in ("call", "un")

    def at(facts, eff, v, variant_):
        calls = sorted([x for x in eff if x[0] == "call" and x[1] != "to_samples_until_due"], key=lambda x: x[3])
        for x in calls:
            if x[2][2] != fe("parameter"):
                return "parameter", "a change is applied to a parameter other than the one it names"
            ks = task_of(facts)
            tk = uncast(x[2][0])
            if not any(same_elem(k, tk) for k in ks):
                return "node", "a change is applied to a node other than the one it names"
        none = v[0] == "agg" and v[2] == "None" or variant_ == "None"
        if none:
            n["applied"] += 1
            if not task_of(facts):
                return "lost", "a change is dropped without its node having been found"
            tok = ("is", fe("token"), "None") in facts or any(q[0] == "true" and q[1][0] == "call" and q[1][1] == "is_activated" and payload_c(q[1][2][0]) == fe("token") for q in facts)
            if not tok:
                return "token", "a change is applied before its token is activated"
            tim = ("is", fe("time"), "None") in facts
            if not tim and not any(q[0] == "Lt" and delay(q[1]) and is_bs(q[2]) for q in facts):
                return "early", "a change is applied before its time has come"
            sets = [x for x in calls if x[1].startswith("set_delay")]
            if not tim:
                zero_ = any(q[0] == "Le" and delay(q[1]) and q[2] == ("k", 0) or q[0] == "Eq" and delay(q[1]) and q[2] == ("k", 0) or q[0] == "Eq" and delay(q[2]) and q[1] == ("k", 0) for q in facts)
                if not zero_ and not sets:
                    return "delay", "a change in the middle of a block is applied at its start"
                if any(not delay(x[2][3]) for x in sets):
                    return "delay", "the delay of a change within the block is not the one computed from its time"
                n["delay"] += bool(sets)
            pa = [x for x in calls if x[1] == "param_apply"]
            if sets and pa and max(x[3] for x in sets) > min(x[3] for x in pa):
                return "delay order", "the delay of a change is set after the change has been applied"
            src = []
            for x in pa:
                a = uncast(x[2][3])
                while a[0] == "call" and a[1].split("::")[-1] in ("into", "from", "clone") and len(a[2]) == 1 or a[0] == "agg" and a[1].endswith("ParameterValue") and len(a[3]) == 1:
                    a = uncast(a[2][0] if a[0] == "call" else a[3][0][1])
                p = payload_c(a)
                if p == fe("value"):
                    src.append("value")
                elif p == fe("smoothing"):
                    src.append("smoothing")
                else:
                    return "value", "a node is given a value that the change does not carry"
            for k in ("value", "smoothing"):
                if ("is", fe(k), "None") in facts:
                    continue
                if k not in src:
                    return k + " lost", f"the {k} of a change is not applied"
                n[k] += 1
            if src == ["value", "smoothing"]:
                return "order", "the smoothing of a change is applied after its value"
            if len(src) != len(set(src)):
                return "twice", "a change is applied twice"
            return None
        n["kept"] += 1
        if any(x[1] == "param_apply" for x in calls):
            return "again", "a change that has been applied is kept and will be applied again"
        p = None
        if v[0] == "agg" and v[2] == "Some":
            p = v[3][0][1]
        if p is None:
            raise Missing("the value apply_parameter_change returns")
        due = None
        if p[0] == "agg" and len(p[3]) == 2:
            d = dict(p[3])
            p, due = d["0"], d["1"]
        if p != EV:
            return "changed", "a change that is kept is not the one that was received"
        if due is not None:
            due = uncast(due)
            later = any(q[0] == "Le" and is_bs(q[1]) and delay(q[2]) for q in facts)
            if due[0] == "bin" and due[1] in ("Lt", "Gt"):
                x, y = (due[2], due[3]) if due[1] == "Lt" else (due[3], due[2])
                if not ((delay(x) or x == ("k", 0) and ("is", fe("time"), "None") in facts) and is_bs(y)):
                    return "due", "whether the time of a change has come is not computed from its time"
            elif due[0] == "k" and isinstance(due[1], bool):
                if due[1] and later or not due[1] and not later:
                    return "due", "whether the time of a change has come is not computed from its time"
            else:
                return "due", "whether the time of a change has come is not computed from its time"
        ready_tok = ("is", fe("token"), "None") in facts or any(q[0] == "true" and q[1][0] == "call" and q[1][1] == "is_activated" for q in facts)
        ready_time = ("is", fe("time"), "None") in facts or any(q[0] == "Lt" and delay(q[1]) and is_bs(q[2]) for q in facts)
        if ready_tok and ready_time and task_of(facts):
            return "late", "a change that is ready for its node is not applied"
        if ready_tok and ready_time and not any(exhausted(q) for q in facts):
            return "search", "a change that is ready is kept without all nodes having been searched for its own"
        return None

    bad_writes = None
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[1][1] and canon(E.place(s[1]))[0] == "f" and any(x == EV for x in chain_roots(canon(E.place(s[1])))):
                bad_writes = s
    if bad_writes is not None:
        ctx.viol("apply-change", "edited", f"{f['path']}: a change is altered while it waits", where=loc(F, f["inst"], None))
    vs = ordered(ctx, fl, E, want, at)
    for (k, msg), path in vs:
        ctx.viol("apply-change", k, f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("apply-change", f["path"], f"{n}")
        for k, least in (("applied", 4), ("kept", 4), ("smoothing", 1), ("value", 1), ("delay", 1)):
            ctx.floor("apply-change-" + k, n[k], least)


def types_of(F, fl, n):
    return F.types[fl.ltypes[n]]["s"] if n <= fl.nargs else ""


def p16_time(ctx):
    """The delay of a change: absolute times count from the start, relative times count down block by block."""
    F = ctx.facts()
    fs = [f for f in F.fns if f["name"] == "to_samples_until_due" and "inst" in f]
    if not fs:
        raise Missing("Time::to_samples_until_due")
    f = fs[0]
    fl, E = flatten(ctx, f, lambda f, x: ITER(f, x) and not any(k in x.get("p", "") for k in ("ArLogSender", "time::Seconds")))
    SELF = ("arg", 1)
    n = {"absolute": 0, "relative": 0}
    sec = lambda e: e == ("f", SELF, "seconds")

    def samples(e):
        e = uncast(e)
        return e[0] == "call" and e[1].split("::")[-1] == "to_samples" and sec(e[2][0]) and e[2][1] == ("arg", 3)

    def at(facts, eff, v, variant_):
        if v[0] == "phi":
            raise Missing("the delay to_samples_until_due returns")
        ab = any(q == ("true", ("f", SELF, "absolute")) for q in facts)
        re = any(q == ("false", ("f", SELF, "absolute")) for q in facts)
        writes = [x for x in eff if x[0] == "write"]
        v = uncast(v)
        if ab:
            n["absolute"] += 1
            if writes:
                return "absolute", "an absolute time changes while its change waits"
            if v == ("k", 0):
                ok = any(q[0] in ("Le", "Lt") and samples(q[1]) and q[2] == ("arg", 4) for q in facts)
            elif v[0] == "call" and v[1].split("::")[-1] == "saturating_sub":
                ok = samples(v[2][0]) and v[2][1] == ("arg", 4)
            elif v[0] == "bin" and v[1].startswith("Sub"):
                ok = samples(v[2]) and v[3] == ("arg", 4) and any(q[0] in ("Le", "Lt") and samples(q[2]) and q[1] == ("arg", 4) for q in facts)
            else:
                ok = False
            if not ok:
                return "absolute", "the delay of a change with an absolute time is not the distance from now to that time"
        elif re:
            n["relative"] += 1
            if v == ("k", 0):
                if not any(q[0] == "Eq" and (sec(q[1]) or sec(q[2])) for q in facts):
                    return "relative", "a change with a relative time is applied without its time having come"
                return None
            if not samples(v):
                return "relative", "the delay of a change with a relative time is not that time"
            ok = [x for x in writes if sec(x[1]) and counts_down(x[2])]
            if len(ok) != 1 or len(writes) != 1:
                return "count", "a relative time is not counted down by one block for each block its change waits"
            if not any(x[0] == "call" and x[3] < ok[0][3] for x in eff):
                return "relative", "the delay of a change with a relative time is what is left of it after this block"
        else:
            return "kind", "absolute and relative times are not told apart"
        return None

    def counts_down(e):
        if e[:2] == ("result", "saturating_sub"):
            return down_call()
        if e[0] == "call" and e[1].split("::")[-1] in ("saturating_sub", "sub") and sec(e[2][0]):
            b = e[2][1]
            return b[0] == "call" and b[1].split("::")[-1] == "from_samples" and uncast(b[2][0]) == ("arg", 2) and uncast(b[2][1]) == ("arg", 3)
        return False

    def down_call():
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "call" and last(F, t[1]) == "saturating_sub" and t[3][1]:
                e = ("call", "saturating_sub", tuple(canon(E.op(a)) for a in t[2]))
                if counts_down(e):
                    return True
        return False

    vs = ordered(ctx, fl, E, lambda t: "to_samples" if last(F, t[1]) == "to_samples" else None, at)
    for (k, msg), path in vs:
        ctx.viol("time", k, f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("time", f["path"], f"{n}")
        ctx.floor("time", min(n.values()), 1)
    # a token counts as activated when its shared flag is up
    fs = [f for f in F.fns if f["name"] == "is_activated" and "inst" in f]
    if not fs:
        raise Missing("SchedulingToken::is_activated")
    for f in fs:
        fl, E = flatten(ctx, f, ITER)
        e = E.local(fl.retlocal)
        p = e
        if p[0] == "call" and p[1].split("::")[-1] == "load" and under_field(p[2][0], "token") and order_of(p[2][1]) in ("Acquire", "SeqCst"):
            ctx.ok("token", f["path"])
        else:
            ctx.viol("token", "activated", f"{f['path']}: a token's state is not read from its shared flag", where=loc(F, f["inst"], None))


def p16_block(ctx):
    """Every waiting and every new change is offered to its node before the nodes run, and kept when it is not applied."""
    G = gg(ctx)
    F, S, E, fl, c, t = G.F, G.S, G.E, G.fl, G.c, G.t
    ap = applier(F)["name"]
    n = {"waiting": 0, "new": 0, "kept": 0, "aged": 0}
    wait = lambda e: field_read(e, c["waiting"]) and peel(peel(e)[1]) == ("arg", 1)
    cw = ("f", ("arg", 1), c["waiting"])
    appl = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == ap]
    if not appl:
        raise Missing("parameter changes are applied in process_block")
    pops = {b: fl.blocks[b].t for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) in ("pop_front", "pop_back")
            and fl.blocks[b].t[2] and wait(E.op(fl.blocks[b].t[2][0]))}
    popname = {last(F, x[1]) for x in pops.values()}
    if len(pops) != 1 or popname != {"pop_front"}:
        raise Missing("one place where waiting changes are taken from the front of their queue")
    POP = next(iter(pops))
    # the loop over the waiting changes counts to their number; the loop over the new ones is over the whole queue
    WL = [b for b, s in S.at.items() if s.idx is not None and wait(s.base)]
    NL = [b for b, s in S.at.items() if s.idx is None and under_field(s.it, c["events"])]
    NP = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "pop" and under_field(E.op(fl.blocks[b].t[2][0]), c["events"])]
    if len(WL) != 1 or len(NL) + len(NP) != 1:
        raise Missing("loops over the waiting and the new parameter changes")
    WL = WL[0]
    NL, NP = (NL or [None])[0], (NP or [None])[0]

    def from_pop(e):
        for x in chain_roots(e):
            if x[0] == "call" and x[3] == POP:
                return True
        return False

    def from_new(e):
        for x in chain_roots(e):
            if x[0] == "call" and x[3] is not None and x[3] in (NL, NP):
                return True
        return False

    def part(e, name):
        """e is tuple part `name` of the popped element."""
        e = peel(e)
        return e[0] == "f" and e[2] == name and from_pop(e[1]) and not (e[1][0] == "f" and e[1][2] in ("0", "1") and from_pop(e[1][1]) and e[1][1][0] == "f" and e[1][1][2] == "0" and e[1][1][1][0] == "f")

    def result_part(e, name):
        """e is part `name` of the pair (or the change alone) inside the result of an application; its block."""
        e = peel(e)
        if e[0] == "f" and e[2] == name and e[1][0] == "f" and e[1][2] == "0" and e[1][1][0] == "v" and e[1][1][2] == "Some":
            x = e[1][1][1]
        elif name == "0" and e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Some":
            x = e[1][1]
        else:
            return None
        return x[3] if x[0] == "call" and x[3] in appl else None

    def aged(facts):
        """the popped change has waited longer than a limit kept in the graph."""
        for q in facts:
            if q[0] in ("Lt", "Le"):
                a, b = uncast(q[1]), uncast(q[2])
                if a[0] == "f" and a[1] == ("arg", 1) and b[0] == "f" and b[2] == "1" and any(x[0] == "call" and x[1].split("::")[-1] == "pop_front" for x in walk(b)):
                    return True
        return False

    def full(facts):
        for q in facts:
            if q[0] in ("Le", "Eq"):
                for a, b in ((q[1], q[2]), (q[2], q[1])) if q[0] == "Eq" else ((q[1], q[2]),):
                    if a[0] == "call" and a[1].split("::")[-1] == "capacity" and a[2][0] == cw and b[0] == "call" and b[1].split("::")[-1] == "len" and b[2][0] == cw:
                        return True
        return False

    # a count chosen by a branch: n when the change is not due, n + 1 when it is
    def phi_age(e):
        e = uncast2(e) if e is not None else ("?",)
        return e[0] == "phi" and all(kind(x) for x in e[1])

    def kind(e):
        e = uncast2(e)
        if e[0] == "f" and e[2] == "0" and e[1][0] == "bin":
            e = e[1]
        if part(e, "1"):
            return "same"
        if e[0] == "bin" and e[1].startswith("Add") and part(e[2], "1") and e[3] == ("k", 1):
            return "older"
        return None

    ages = {}
    for l, ds in fl.defs().items():
        ds = [d for d in ds if d[0] == ()]
        if len(ds) > 1 and phi_age(E.local(l)):
            for d in ds:
                ages.setdefault((d[3], l), []).append((d[2], kind(E.rv(d))))

    class Mon(FactMon):
        """state = (facts, (phase, block of the application, done)); phase: - / popped / new / applied-w / applied-n / keep-w / keep-n"""

        def relevant(self, f):
            return f[0] in ("Lt", "Le", "Eq", "true", "false") and any(x == cw or x[0] == "call" and x[1].split("::")[-1] in ("pop_front", ap) for q in f[1:] for x in walk(q))

        def bad(self, k, msg):
            self.w.viol((k, msg))

        def settle(self, st):
            """The change in hand is let go of here."""
            facts, (ph, ab, done) = st
            if ph == "popped":
                if not aged(facts):
                    self.bad("waiting lost", "a waiting change can be dropped without having waited too long")
                    return False
                n["aged"] += 1
            elif ph == "new":
                self.bad("new lost", "a new change can be dropped without having been offered to its node")
                return False
            elif ph.startswith("applied"):
                self.bad("result ignored", "a change that could not be applied is dropped")
                return False
            elif ph == "keep-w":
                self.bad("waiting dropped", "a waiting change that cannot be applied yet is dropped")
                return False
            elif ph == "keep-n":
                if not full(facts):
                    self.bad("new dropped", "a new change that cannot be applied yet is dropped although there is room to keep it")
                    return False
            return True

        def term(self, st, b, tm, env):
            facts, (ph, ab, done) = st
            if tm[0] == "call":
                ln = last(F, tm[1])
                if b == POP:
                    if not self.settle(st):
                        return None
                    n["waiting"] += 1
                    fs = frozenset(f for f in facts if not any(x[0] == "call" and x[1].split("::")[-1] == "pop_front" for q in f[1:] for x in walk(q)))
                    return fs, ("popped", None, done - {"same", "older", "?"})
                if b in appl:
                    a = [E.op(z) for z in tm[2]]
                    ev = [i for i, e in enumerate(a) if from_pop(e) or from_new(e)]
                    if ph not in ("popped", "new") or len(ev) != 1:
                        self.bad("applied", "something other than the change in hand is applied")
                        return None
                    e = a[ev[0]]
                    if ph == "popped" and not part(e, "0") or ph == "new" and not from_new(e):
                        self.bad("applied", "something other than the change in hand is applied")
                        return None
                    r = self.args(a)
                    if r:
                        self.bad(*r)
                        return None
                    return facts, ("applied-w" if ph == "popped" else "applied-n", b, done)
                if tm[2] and wait(E.op(tm[2][0])) and ln in ("push_back", "push_front", "insert", "clear", "truncate", "drain", "remove", "retain", "swap", "pop_back", "rotate_left", "rotate_right"):
                    if ln != "push_back" or not ph.startswith("keep"):
                        self.bad("queue", f"the queue of waiting changes is changed in another way ({ln})")
                        return None
                    v = E.op(tm[2][1])
                    d = dict(v[3]) if v[0] == "agg" else {}
                    if result_part(d.get("0", ("?",)), "0") != ab:
                        self.bad("kept", "what is kept is not the change that could not be applied")
                        return None
                    if not (self.count(ph, d.get("1"), ab) or ("same" in done or "older" in done) and "?" not in done and phi_age(d.get("1"))):
                        self.bad("age", "how long a change has waited is not counted in blocks")
                        return None
                    n["kept"] += 1
                    return facts, ("-", None, done)
                if ln == "process_block" and tm[2] and under_field(E.op(tm[2][0]), "ugen", t["tasks"]):
                    if not self.settle(st):
                        return None
                    for d, m in (("waiting", "nodes are run before all waiting changes have been looked at"), ("new", "nodes are run before all new changes have been looked at")):
                        if d not in done:
                            self.bad(d + " late", m)
                            return None
                    return None
            if tm[0] == "ret":
                self.settle(st)
                return None
            return st

        def stmt(self, st, b, s):
            if s[0] == "=" and s[1][1] == () and (b, s[1][0]) in ages:
                for d, k in ages[b, s[1][0]]:
                    if d is s[2]:
                        facts, (ph, ab, done) = st
                        due = {q[0] for q in facts if q[0] in ("true", "false") and self.is_due(q[1])}
                        return facts, (ph, ab, done - {"same", "older"} | {k if due == {"false" if k == "same" else "true"} else "?"})
            return st

        def is_due(self, e):
            return e[0] == "f" and e[2] == "1" and payload_c(e[1]) is not None and payload_c(e[1])[0] == "call" and payload_c(e[1])[1].split("::")[-1] == ap

        def args(self, a):
            for e in a:
                p = peel(e)
                if p[0] == "call" and p[1].split("::")[-1] in ("deref", "deref_mut", "as_slice", "as_mut_slice"):
                    p = peel(p[2][0])
                if under_field(p, t["order"]) or under_field(p, t["tasks"]):
                    if not under_field(p, c["cur"]):
                        return "schedule", "changes are applied to the nodes of another schedule"
                    for x in chain_roots(p):
                        if x[0] == "[]" or x[0] == "call" and x[1].split("::")[-1] in ("index", "index_mut", "get", "split_at", "split_at_mut"):
                            return "schedule", "changes are offered to only a part of the nodes"
            u = [i for i in range(len(a)) if F.types[fl_types[i]]["s"] == "u64"] if fl_types else []
            if len(u) == 2:
                bs, sr = (peel(a[i]) for i in u)
                nm = lambda e: e[2] if e[0] == "f" else e[1].split("::")[-1] if e[0] == "call" else "?"
                if nm(bs) != "block_size" or nm(sr) != "sample_rate":
                    return "rates", "the time of a change is converted with something other than the block size and sample rate"
            return None

        def count(self, ph, e, ab):
            if e is None:
                return False
            e = uncast2(e)
            if ph == "keep-n":
                return e == ("k", 0) or result_part(e, "1") == ab
            if e[0] == "f" and e[2] == "0" and e[1][0] == "bin":
                e = e[1]
            if e[0] == "bin" and e[1].startswith("Add") or e[0] == "call" and e[1].split("::")[-1] in ("saturating_add", "wrapping_add"):
                x, y = (e[2], e[3]) if e[0] == "bin" else e[2]
                for x, y in ((x, y), (y, x)):
                    if part(x, "1") and (result_part(uncast2(y), "1") == ab or y == ("k", 1)):
                        return result_part(uncast2(y), "1") == ab
            return False

        def edge(self, st, b, o, v, other, vals):
            st2 = super().edge(st, b, o, v, other, vals)
            if st2 is None:
                return None
            facts, (ph, ab, done) = st2
            oc = S.outcome(self.w, b, o, v, other)
            if oc and oc[0].b == WL:
                if not self.settle(st2):
                    return None
                if oc[1] == "None":
                    return facts, ("-", None, done | ({"waiting"} if not oc[0].odd else set()))
                return facts, ("-", None, done - {"waiting"})
            x, name = variant(self.w, o, v)
            if x is not None and x[0] == "call" and x[3] == POP and name == "None" and ph == "popped":
                return facts, ("-", None, done | {"waiting"})
            if oc and oc[0].b == NL or x is not None and x[0] == "call" and NP is not None and x[3] == NP:
                nm = oc[1] if oc else {"Ok": "Some", "Err": "None"}.get(name, name)
                if not self.settle(st2):
                    return None
                if nm == "Some":
                    if "waiting" not in done:
                        self.bad("order", "new changes are put in the queue before the waiting ones have been looked at")
                        return None
                    n["new"] += 1
                    return facts, ("new", None, done - {"new"})
                ok = NL is None or not set(S.at[NL].odd) - {"read_chunk"}
                return facts, ("-", None, done | ({"new"} if ok else set()))
            if x is not None and x[0] == "call" and x[3] in appl and x[3] == ab and ph.startswith("applied"):
                if name == "None":
                    return facts, ("-", None, done)
                if name == "Some":
                    return facts, ("keep" + ph[7:], ab, done)
            if x is not None and x[0] == "call" and x[1].split("::")[-1] == "read_chunk" and under_field(x[2][0], c["events"]) and name == "Err":
                return facts, (ph, ab, done | {"new"})
            e = E.op(o)
            if v in (0, 1) and F.types[o[2]]["k"] == "bool":
                for f in atoms(e, bool(v)):
                    if f[0] == "true" and f[1][0] == "call" and f[1][1].split("::")[-1] == "is_empty" and f[1][2][0] == cw or \
                            f[0] in ("Le", "Eq") and f[1][0] == "call" and f[1][1].split("::")[-1] == "len" and f[1][2][0] == cw and f[2] == ("k", 0):
                        done = done | {"waiting"}
                    if f[0] in ("Le", "Eq") and f[1][0] == "call" and f[1][1].split("::")[-1] == "slots" and under_c(f[1][2][0], c["events"]) and f[2] == ("k", 0) or \
                            f[0] == "true" and f[1][0] == "call" and f[1][1].split("::")[-1] == "is_empty" and under_c(f[1][2][0], c["events"]):
                        done = done | {"new"}
            return facts, (ph, ab, done)

    fa = applier(F)
    body = F.insts[fa["inst"]].get("body")
    fl2 = flatten(ctx, fa, lambda f, x: False)[0]
    fl_types = fl2.ltypes[1:fl2.nargs + 1]
    # the whole queue of new changes is read
    if NL is not None:
        for x in chain_roots(S.at[NL].it):
            if x[0] == "call" and x[1].split("::")[-1] == "read_chunk":
                a = x[2][1]
                if not (a[0] == "call" and a[1].split("::")[-1] == "slots" and under_field(a[2][0], c["events"])):
                    ctx.viol("changes", "part", f"{G.f['path']}: only some of the new changes are read", where=loc(F, G.f["inst"], None))
    w = Walker(fl, E)
    vs = w.run(Mon(w), (frozenset(), ("-", None, frozenset())))
    ctx.states += w.nstates
    for (k, msg), path in vs:
        ctx.viol("changes", k, f"{G.f['path']}: {msg}", where=loc(F, G.f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("changes", G.f["path"], f"{w.nstates} path states; {n}")
        for k, least in (("waiting", 1), ("new", 1), ("kept", 2), ("aged", 1)):
            ctx.floor("changes-" + k, n[k], least)


def uncast2(e):
    while e[0] in ("cast", "&", "*"):
        e = e[2] if e[0] == "cast" else e[1]
    return e


def under_c(e, name):
    return e[0] == "f" and e[2] == name or e[0] in ("f", "call") and any(x[0] == "f" and x[2] == name for x in walk(e))
