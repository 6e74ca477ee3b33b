"""Retiring nodes, buffers and schedules: what keeps them alive, and when they are let go."""
from foreach import *
from effects import Summary, summarise
from graph import task_pushes
from signals import peel
import signals

LOADS = ("Acquire", "SeqCst")


def order_name(e):
    e = peel(e)
    return e[2] if e[0] == "agg" else str(e[1]).split("::")[-1] if e[0] == "k" else "?"


def elem(S, g, e, role):
    """A name for the element of container `role` that the place e lies in: ('idx', canonical index) or ('it', site)."""
    for x in chain_roots(e):
        if x[0] == "call" and x[1].split("::")[-1] in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut", "remove", "swap_remove") \
                and len(x[2]) == 2 and roles(g, x[2][0]) == {role}:
            return "idx", canon(x[2][1])
        if x[0] == "[]" and roles(g, x[1]) == {role}:
            return "idx", canon(x[2])
        if x[0] == "call" and x[3] in S.at and x[1].split("::")[-1] in ("next", "next_back") and S.at[x[3]].roles == {role}:
            return "it", x[3]
    return None


def is_load(e):
    return e[0] == "call" and e[1].split("::")[-1] == "load" and len(e[2]) == 2


def flag_loads(w, o, v):
    """(place of the flag, ordering, value) when the switch edge decides on the value of an atomic flag."""
    e, neg = w.E.op(o), False
    if v not in (0, 1) or w.F.types[o[2]]["k"] != "bool":
        return None
    while e[0] == "un" and e[1] == "Not":
        e, neg = e[2], not neg
    if e[0] == "bin" and e[1] in ("Eq", "Ne"):
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if is_load(x) and y[0] == "k" and isinstance(y[1], bool):
                neg ^= (e[1] == "Eq") != y[1]
                e = x
                break
    if is_load(e):
        return e[2][0], order_name(e[2][1]), bool(v) != neg
    return None


class Free(Monitor):
    """Nodes leave the graph only when the flag stored with their key is up, and then their entry goes too.
    state = (up, down, freed, loop): elements whose flag was seen up / down / whose node was removed."""

    def __init__(self, w, g, evs, S, loops, want):
        super().__init__(w)
        self.g, self.evs, self.S, self.loops, self.want = g, evs, S, loops, want
        self.n = {"free": 0, "load": 0, "push": 0, "other": 0}

    def bad(self, pid, k, msg):
        if pid in self.want:
            self.w.viol((k, msg))
        else:
            self.n["other"] = 1

    def event(self, st, ev, b):
        g, S = self.g, self.S
        up, down, freed, cur = st
        kind = ev[1]
        if kind == "dirty":
            return st
        r = ev[2][0]
        if "nodes" in r and kind in ("remove", "clear", "retain", "drain", "retain_mut"):
            k = ev[2][2][0] if ev[2][2] else None
            e = elem(S, g, k, "pending_nodes") if kind == "remove" and k is not None else None
            if e is None or not (peel(k)[0] == "f" and peel(k)[2] == "0"):
                self.bad("P03", "unconditional", "a node is freed although it is not waiting to be freed, so the audio thread may be using it")
                return None
            if e not in up:
                self.bad("P03", "in use", "a node is freed without the audio thread having announced that it has taken over a schedule without it")
                return None
            self.n["free"] += 1
            return up, down, freed | {e}, cur
        if r == {"pending_nodes"}:
            if kind in ("remove", "swap_remove"):
                e = ("idx", canon(ev[2][2][0]))
                if e not in freed:
                    self.bad("P03", "forgotten", "a node that waits to be freed is forgotten without being freed")
                    return None
                return up - {e}, down - {e}, freed - {e}, cur - {e}
            if kind == "push":
                self.n["push"] += 1
                v = ev[2][2][0]
                f = dict(v[3]).get("1") if v[0] == "agg" else None
                c = canon(f) if f else None
                if c is None or not (c[0] == "f" and c[2] == g.c["flag"]):
                    self.bad("P03", "flag", "a removed node is not tied to the takeover of the next schedule")
                    return None
                return st
            if kind in ("retain", "retain_mut", "extract_if") and b is not None:
                return st   # checked on its own
            if kind in ("write",):
                return st
            self.bad("P03", "forgotten", f"nodes that wait to be freed are dropped from the list ({kind}) without being freed")
            return None
        if r == {"pending_bufs"} and kind in ("remove", "swap_remove"):
            e = ("idx", canon(ev[2][2][0]))
            if ("buf", e) not in up:
                self.bad("BUF", "buffer in use", "a replaced buffer is freed while a schedule may still point into it")
                return None
            return up - {("buf", e)}, down, freed, cur
        if r == {"pending_bufs"} and kind in ("clear", "truncate", "drain", "pop", "take"):
            self.bad("BUF", "buffer in use", f"replaced buffers are freed ({kind}) without knowing that no schedule points into them")
            return None
        return st

    def stmt(self, st, b, s):
        for ev in self.evs.get(b, ()):
            if ev[0] != "t" and self.w.fl.blocks[b].s[ev[0]] is s:
                st = self.event(st, ev, b)
                if st is None:
                    return None
        return st

    def term(self, st, b, t, env):
        for ev in self.evs.get(b, ()):
            if ev[0] == "t":
                st = self.event(st, ev, b)
                if st is None:
                    return None
        if t[0] == "ret" and st[3]:
            self.bad("P03", "kept", "a node whose schedule has been taken over can stay allocated forever")
            return None
        return st

    def edge(self, st, b, o, v, other, vals):
        w, g, S = self.w, self.g, self.S
        up, down, freed, cur = st
        oc = S.outcome(w, b, o, v, other)
        if oc and oc[0].roles == {"pending_nodes"} and oc[0].b in self.loops:
            s, name = oc
            e = ("idx", canon(s.idx)) if s.idx is not None else ("it", s.b)
            if e in cur and e not in down:
                self.bad("P03", "kept", "a node whose schedule has been taken over is not freed")
                return None
            if freed:
                self.bad("P03", "twice", "a freed node stays in the list of nodes to free")
                return None
            up = frozenset(x for x in up if x[0] == "buf")
            return up, frozenset(), frozenset(), frozenset([e]) if name == "Some" else frozenset()
        fl = flag_loads(w, o, v)
        if fl:
            e = elem(S, g, fl[0], "pending_nodes")
            if e and peel(fl[0])[0] in ("f", "call"):
                self.n["load"] += 1
                if fl[1] not in LOADS:
                    self.bad("P04", "load", f"the takeover of a schedule is read with {fl[1]} ordering, so what the audio thread did before announcing it need not be visible")
                    return None
                return (up | {e}, down, freed, cur) if fl[2] else (up, down | {e}, freed, cur)
        if w.F.types[o[2]]["k"] == "bool" and v in (0, 1):
            for f in atoms(w.E.op(o), bool(v)):
                if f[0] in ("Eq", "Le", "Lt") and f[1][0] == "call" and f[1][1] == "strong_count" and f[2] in (("k", 1), ("k", 2)):
                    if f[2] == ("k", 1) and f[0] in ("Eq", "Le") or f[2] == ("k", 2) and f[0] == "Lt":
                        e = elem(S, g, f[1][2][0], "pending_bufs")
                        if e:
                            up = frozenset(x for x in up if x[0] != "buf") | {("buf", e)}
                elif f[0] in ("Ne", "Lt") and f[1][0] == "call" and f[1][1] == "strong_count":
                    up = frozenset(x for x in up if x[0] != "buf")
        return up, down, freed, cur


def retain_closure(ctx, F, g, fl, E, b, want, rule):
    """`pending.retain(|x| ..)`: what is dropped is allowed to be."""
    t = fl.blocks[b].t
    role = next(iter(roles(g, E.op(t[2][0]))))
    cl = peel(E.op(t[2][1]))
    inst = closure_inst(F, cl[1][8:]) if cl[0] == "agg" and cl[1].startswith("closure:") else None
    if inst is None:
        raise Missing(f"the closure deciding which of {role} stay")
    cf = Flat(F, inst, ITER)
    cE = Exprs(cf)
    ups = {n: canon(v) for n, v in cl[3]}

    def at_ret(facts, eff, v, var):
        removed = [e for e in eff if e[0] == "call" and e[1] == "remove"]
        fs = list(facts)
        up = down = False
        ordr = None
        for f in fs:
            if f[0] in ("true", "false") and f[1][0] == "call" and f[1][1] == "load":
                up, down = up or f[0] == "true", down or f[0] == "false"
                ordr = order_name(f[1][2][1])
        if role == "pending_bufs":
            one = any(f[0] in ("Eq", "Le") and f[1][0] == "call" and f[1][1] == "strong_count" and f[2] == ("k", 1) for f in fs)
            if v == ("k", True) or one and v == ("k", False):
                return None
            e = v
            if e[0] == "bin" and e[2][0] == "call" and e[2][1] == "strong_count" and (e[1], e[3]) in (("Gt", ("k", 1)), ("Ne", ("k", 1)), ("Ge", ("k", 2))):
                return None
            return ("buffer in use", "a replaced buffer is freed while a schedule may still point into it")
        for b in (True, False):
            a = atoms(v, b) if v[0] != "k" else []
            if a and all(x in facts for x in a):
                v = ("k", b)
                break
        if ordr and ordr not in LOADS:
            return ("load", f"the takeover of a schedule is read with {ordr} ordering")
        if v == ("k", True):
            if removed:
                return ("twice", "a freed node stays in the list of nodes to free")
            return None if down and not up else ("kept", "a node whose schedule has been taken over is not freed")
        if v == ("k", False):
            if not removed:
                return ("forgotten", "a node that waits to be freed is forgotten without being freed")
            if not up:
                return ("in use", "a node is freed without the audio thread having announced that it has taken over a schedule without it")
            k = removed[0][2][1]
            return None if k[0] == "f" and k[2] == "0" and any(x[0] == "arg" and x[1] == 2 for x in walk(k)) else ("in use", "a node other than the one whose schedule was taken over is freed")
        return ("undecided", "which nodes stay in the list of nodes to free cannot be determined")

    def want_call(t):
        return last(F, t[1]) if last(F, t[1]) == "remove" else None
    vs = summarise(ctx, cf, cE, want_call, at_ret)
    n = 0
    for (k, msg), path in vs:
        if {"load": "P04", "buffer in use": "BUF"}.get(k, "P03") in want:
            n += 1
            ctx.viol(rule, k, msg, where=loc(F, inst, None), trace=trace(cf, path))
    if not n:
        ctx.ok(rule, F.name(inst))


def frees(ctx, want):
    F, g = anchors(ctx)
    total = {"free": 0, "load": 0, "push": 0, "other": 0}
    rule = "free-when-safe"
    retained = 0
    for f in g.entries():
        if not (f["inputs"] and "&mut" in f["inputs"][0]):
            continue
        fl, E = flatten(ctx, f, ITER)
        evs = events(g, fl, E)
        if not any(e[1] != "dirty" and (e[2][0] & {"pending_nodes", "pending_bufs"} or "nodes" in e[2][0] and e[1] in ("remove", "clear", "retain", "drain")) for l in evs.values() for e in l):
            continue
        S = Sites(g, fl, E)
        # loops that free: those whose element's flag is read
        loops = set()
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "call" and last(F, t[1]) == "load" and len(t[2]) == 2:
                e = elem(S, g, E.op(t[2][0]), "pending_nodes")
                if e:
                    loops |= {s.b for s in S.at.values() if s.roles == {"pending_nodes"} and (e == ("it", s.b) or s.idx is not None and e == ("idx", canon(s.idx)))}
            if t[0] == "call" and last(F, t[1]) in ("retain", "retain_mut") and t[2] and roles(g, E.op(t[2][0])) in ({"pending_nodes"}, {"pending_bufs"}):
                if roles(g, E.op(t[2][0])) == {"pending_nodes"}:
                    retained += 1
                retain_closure(ctx, F, g, fl, E, b, want, rule)
        w = Walker(fl, E, track_ret=False)
        m = Free(w, g, evs, S, loops, want)
        vs = w.run(m, (frozenset(),) * 4)
        ctx.states += w.nstates
        for k, v in m.n.items():
            total[k] += v
        for (k, msg), path in vs:
            ctx.viol(rule, f"{f['name']}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
        if not vs:
            ctx.ok(rule, f["path"], f"{w.nstates} path states")
    if not ctx.violations and not total["other"]:
        if "P03" in want:
            ctx.floor(rule + "-freed", total["free"] + retained, 1)
            ctx.floor(rule + "-waiting", total["push"], 1)
        ctx.floor(rule + "-flag-read", total["load"] + retained, 1)


def p03_free(ctx):
    frees(ctx, {"P03", "BUF"})


def p01_buffers(ctx):
    """The audio thread never holds the last reference to a replaced buffer: the graph gives up its own only when it is the last."""
    frees(ctx, {"BUF"})


def p04_load(ctx):
    frees(ctx, {"P04"})


# ---------------------------------------------------------------- one flag per schedule
def fresh_flag(e):
    e = peel(e)
    return e[0] == "call" and e[1].split("::")[-1] in ("new", "from") and any(
        x[0] == "call" and x[1].split("::")[-1] in ("new", "from") and x[2] and x[2][0] == ("k", False) for x in walk(e)) and not any(x[0] in ("f", "arg") for x in walk(e))


class Handover(Monitor):
    """state = (room, swapped, given, drained, sent)."""

    def __init__(self, w, g, want, pushes):
        super().__init__(w)
        self.g, self.want, self.pushes = g, want, pushes
        self.n = {"schedule": 0, "drain": 0, "other": 0}

    def bad(self, pid, k, msg):
        if pid in self.want:
            self.w.viol((k, msg))
        else:
            self.n["other"] = 1

    def flagplace(self, e):
        e = peel(e)
        return e[0] == "f" and e[2] == self.g.c["flag"]

    def stmt(self, st, b, s):
        room, swapped, given, drained, sent = st
        E, g = self.w.E, self.g
        if s[0] == "=" and s[1][1]:
            p = E.place(s[1])
            if self.flagplace(p):
                v = E.rvalue(s[2])
                if not fresh_flag(v):
                    self.bad("P03", "flag reuse", "the takeover flag for the next schedule is not a new one")
                    return None
                swapped = (swapped or frozenset()) | {"yes"}
        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("::TaskData"):
            self.n["schedule"] += 1
            v = dict(E.rvalue(s[2])[3])["applied"]
            c = peel(v)
            early = False
            while c[0] == "call" and c[1].split("::")[-1] == "clone":
                early = early or c[3] in (swapped or ())
                c = peel(c[2][0])
            if c[0] == "call" and c[1].split("::")[-1] in ("replace", "take") and self.flagplace(c[2][0]):
                pass
            elif self.flagplace(c):
                if swapped and "yes" in swapped and not early:
                    self.bad("P03", "flag", "a schedule is sent with the flag of the schedule after it, so nodes removed from it are never freed")
                    return None
            else:
                self.bad("P03", "flag", "a schedule is not sent with the flag that the nodes removed from it wait for")
                return None
            if not room:
                self.bad("P05", "no room", "a schedule is built, which moves generators into it, without knowing that it can be sent")
                return None
            given = True
        return room, swapped, given, drained, sent

    def term(self, st, b, t, env):
        room, swapped, given, drained, sent = st
        g, E, F = self.g, self.w.E, self.w.F
        if t[0] == "call":
            ln = last(F, t[1])
            a = [E.op(x) for x in t[2]]
            if ln in ("replace", "swap", "take") and a and self.flagplace(a[0]) and "mem" in F.insts[t[1]].get("p", ""):
                if ln != "replace" or not fresh_flag(a[1]):
                    self.bad("P03", "flag reuse", "the takeover flag for the next schedule is not a new one")
                    return None
                swapped = (swapped or frozenset()) | {"yes"}
            if ln == "clone" and a and self.flagplace(a[0]) and "yes" not in (swapped or ()):
                swapped = (swapped or frozenset()) | {b}
            if ln in ("clone_from", "store") and a and self.flagplace(a[0]):
                self.bad("P03", "flag reuse", "the takeover flag for the next schedule is changed")
                return None
            if ln == "push" and a and roles(g, a[0]) == {"pending_nodes"} and given and not sent:
                self.bad("P03", "late", "a node is removed after the schedule without it was made")
                return None
            if b in self.pushes:
                if not drained:
                    self.bad("P05", "not drained", "a schedule is sent before those the audio thread has returned are dropped, so that the queue they are returned through can be full")
                    return None
                sent = "try"
                room = False if room != "sure" else room
            if ln == "commit_all" and a and any(x[0] == "f" and x[2] == g.c["ret"] for x in chain_roots(a[0])):
                drained = True
        if t[0] == "ret":
            if sent and "yes" not in (swapped or ()):
                self.bad("P03", "flag reuse", "two schedules share one takeover flag, so a node can be freed before the schedule without it is taken over")
            if not drained:
                self.bad("P05", "kept", "schedules returned by the audio thread are not dropped by a commit")
            return None
        return room, swapped, given, drained, sent

    def edge(self, st, b, o, v, other, vals):
        room, swapped, given, drained, sent = st
        g, E, w = self.g, self.w.E, self.w
        new = lambda e: e[0] == "f" and e[2] == g.c["new"]
        ret = lambda e: any(x[0] == "f" and x[2] == g.c["ret"] for x in chain_roots(e))
        e = E.op(o)
        if v in (0, 1) and w.F.types[o[2]]["k"] == "bool":
            for f in atoms(e, bool(v)):
                if f[0] == "false" and f[1][0] == "call" and f[1][1] == "is_full" and new(f[1][2][0]):
                    room = True
                sl = f[1] if f[0] == "Ne" else f[2] if f[0] in ("Lt", "Le") and len(f) > 2 else None
                k = f[2] if f[0] == "Ne" else f[1]
                if sl is not None and sl[0] == "call" and sl[1] == "slots" and new(sl[2][0]) and (f[0] in ("Ne", "Lt") and k == ("k", 0) or f[0] == "Le" and k == ("k", 1)):
                    room = True
                if f[0] == "true" and f[1][0] == "call" and f[1][1] == "is_empty" and ret(f[1][2][0]) or \
                        f[0] in ("Eq", "Le") and f[1][0] == "call" and f[1][1] == "slots" and ret(f[1][2][0]) and f[2] == ("k", 0):
                    drained = True
        x, name = variant(w, o, v)
        if x is not None and x[0] == "call":
            ln = x[1].split("::")[-1]
            if ln in ("read_chunk", "pop", "next", "peek") and ret(x[2][0]):
                if ln == "read_chunk" and name == "Err":
                    drained = True   # cannot happen for a chunk of what is there
                if ln == "read_chunk" and not (self.all_of(x[2][1])):
                    self.bad("P05", "partial", "not every schedule returned by the audio thread is dropped")
                    return None
                if ln in ("pop", "peek") and name in ("Err",):
                    drained = True
                if ln == "next" and name == "None":
                    drained = drained or self.whole(x[2][0])
                if ln in ("next", "pop") and name in ("Some", "Ok"):
                    self.n["drain"] += 1
            if x[3] in self.pushes and name == "Err" and given:
                return None   # there was room, and nobody else sends
        return room, swapped, given, drained, sent

    def all_of(self, n):
        n = peel(n)
        return n[0] == "call" and n[1].split("::")[-1] == "slots" and any(x[0] == "f" and x[2] == self.g.c["ret"] for x in chain_roots(n[2][0]))

    def whole(self, it):
        for x in chain_roots(it):
            if x[0] == "call":
                l = x[1].split("::")[-1]
                if l == "read_chunk":
                    return True
                if l not in PASS:
                    return False
        return False


def handover(ctx, want):
    F, g = anchors(ctx)
    f = g.m("commit_changes")
    fl, E = flatten(ctx, f, ITER)
    pushes = task_pushes(F, fl)
    ctx.floor("hand-over", len(pushes), 1)
    w = Walker(fl, E, track_ret=False)
    m = Handover(w, g, want, pushes)
    vs = w.run(m, (False, False, False, False, False))
    ctx.states += w.nstates
    for (k, msg), path in vs:
        ctx.viol("hand-over", k, f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("hand-over", f["path"], f"{w.nstates} path states")
    if not vs and not m.n["other"]:
        ctx.floor("hand-over-schedule", m.n["schedule"], 1)


def p03_flag(ctx):
    handover(ctx, {"P03"})


def p05_handover(ctx):
    handover(ctx, {"P05"})


def ring_capacity(ctx):
    """The queue that returns schedules holds more than can ever be on their way back between two commits."""
    F, g = anchors(ctx)
    f = g.methods.get("new")
    if not f:
        raise Missing("Graph::new")
    fl, E = flatten(ctx, f, WS)
    cons = None
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("::GraphGenCommunicator"):
                cons = dict(E.rvalue(s[2])[3])
    if cons is None:
        raise Missing("construction of the queues between the threads")

    def cap(e):
        for x in walk(e):
            if x[0] == "call" and x[1].split("::")[-1] == "new" and "RingBuffer" in x[1]:
                return peel(x[2][0])
        raise Missing("capacity of a queue")
    n, r = cap(cons[g.c["new"]]), cap(cons[g.c["ret"]])
    ok = False
    a = r
    if a[0] == "f" and a[2] == "0" and a[1][0] == "bin":
        a = a[1]
    if a[0] == "bin" and a[1] in ("Add", "AddWithOverflow", "AddUnchecked"):
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if canon(x) == canon(n) and y[0] == "k" and isinstance(y[1], int) and y[1] >= 1:
                ok = True
    elif a[0] == "bin" and a[1] in ("Mul", "MulWithOverflow") and n[0] != "k":
        ok = False
    elif a[0] == "k" and n[0] == "k":
        ok = a[1] > n[1]
    if not ok:
        ctx.viol("return-queue", "capacity", f"{f['path']}: the queue that returns replaced schedules has room for {show(r, 3)}, the one that delivers new ones for "
                 f"{show(n, 3)}: the audio thread can hold one more than fits, which is then lost or freed there", where=loc(F, f["inst"], None))
    else:
        ctx.ok("return-queue", f["path"], f"{show(r, 3)} > {show(n, 3)}")


# ---------------------------------------------------------------- buffers
def p03_buffers(ctx):
    """Every schedule holds the buffers it points into, replaced buffers are kept until nobody else holds them."""
    F, g = anchors(ctx)
    # schedules
    f = g.m("generate_task_data")
    fl, E = flatten(ctx, f, lambda F_, x: False)
    al = [a for a in alts(E.local(fl.retlocal)) if a[0] == "agg" and a[1].endswith("::TaskData")]
    if not al:
        raise Missing("the schedule built by generate_task_data")
    for a in al:
        v = dict(a[3])["current_buffer_allocation"]
        ok = v[0] == "agg" and v[2] == "Some"
        if ok:
            p = peel(dict(v[3])["0"])
            ok = p[0] == "call" and roles(g, p) == {"alloc"} and last_is_buffer(F, p)
        if not ok:
            ctx.viol("schedule-holds-buffers", "none", f"{f['path']}: a schedule does not hold the buffers it points into", where=loc(F, f["inst"], None))
        else:
            ctx.ok("schedule-holds-buffers", f["path"])
    # the allocation that was replaced
    f = g.m("allocate_node_buffers")
    from order import alloc_policy
    fl, E = flatten(ctx, f, alloc_policy(F))
    calls = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "finished_assigning_make_allocation"]
    ctx.floor("replaced-buffers", len(calls), 1)

    class Keep(Monitor):
        def edge(self, st, b, o, v, other, vals):
            x, name = variant(self.w, o, v)
            if x is not None and x[0] == "call" and x[3] in calls:
                return "kept" if name == "None" else st
            return st

        def term(self, st, b, t, env):
            if b in calls:
                return "held"
            if t[0] == "call" and st == "held":
                ln = last(F, t[1])
                if ln in ("push", "extend", "extend_from_slice", "insert") and t[2] and roles(g, E.op(t[2][0])) == {"pending_bufs"} and any(
                        x[0] == "call" and x[3] in calls for a in t[2][1:] for x in walk(E.op(a))):
                    return "kept"
            if t[0] == "ret" and st == "held":
                self.w.viol(("dropped", "a buffer allocation that was replaced is not kept until the audio thread has stopped using it"))
                return None
            return st
    w = Walker(fl, E, track_ret=False)
    vs = w.run(Keep(w), "none")
    ctx.states += w.nstates
    for (k, msg), path in vs:
        ctx.viol("replaced-buffers", k, f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("replaced-buffers", f["path"])
    # the audio side holds the nodes and the first allocation
    f = g.methods.get("new")
    fl, E = flatten(ctx, f, lambda F_, x: False)
    gg = own = None
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("::GraphGen"):
                gg = dict(E.rvalue(s[2])[3])
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("::graph::Graph"):
                own = dict(E.rvalue(s[2])[3])
    if gg is None or own is None:
        raise Missing("construction of Graph and GraphGen")
    holds = {r: [n for n, v in gg.items() if v[0] == "call" and v[1].split("::")[-1] in ("clone", "buffer") and rooted(v, g.f[r], own[g.f[r]])] for r in ("nodes", "alloc")}
    for r, m in (("nodes", "the nodes"), ("alloc", "the buffers")):
        if not holds[r]:
            ctx.viol("audio-side-holds", r, f"{f['path']}: the audio side of a graph does not hold {m} of the graph, which are freed with the graph", where=loc(F, f["inst"], None))
        else:
            ctx.ok("audio-side-holds", r, holds[r][0])


def rooted(v, field, value):
    return any(x[0] == "f" and x[2] == field or x == value and x[0] == "call" for x in chain_roots(v))


def last_is_buffer(F, p):
    """The call returns a clone of the allocator's allocation."""
    for x in F.fns:
        if x["path"].split("::")[-1] == p[1].split("::")[-1] and x.get("impl_adt", "").endswith("::BufferAllocator") and "inst" in x:
            fl = Flat(F, x["inst"], WS)
            E = Exprs(fl)
            e = E.local(fl.retlocal)
            return e[0] == "call" and e[1].split("::")[-1] == "clone" and peel(e[2][0])[0] == "f" and peel(e[2][0])[2] == "buffer"
    return False


# ---------------------------------------------------------------- the audio side keeps the nodes alive
def p03_arena(ctx):
    """The audio side of a graph holds the very collection of nodes its schedules point into, for as long as it exists."""
    F, g = anchors(ctx)
    of = lambda adt: (next((p for p in F.adts if p == "knaster_graph::" + adt), None), adt)[0]
    GR_, GG_ = of("graph::Graph"), of("graph_gen::GraphGen")
    if not GR_ or not GG_:
        raise Missing("the two sides of a graph")
    arena = lambda p: [x["name"] for x in F.adts[p]["variants"][0]["fields"] if "Arc<" in F.ts(x["ty"]) and "SlotMap<" in F.ts(x["ty"])]
    own, held = arena(GR_), arena(GG_)
    if len(own) != 1:
        raise Missing("the nodes of a graph")
    if len(held) != 1:
        ctx.viol("arena", "not held", "the audio side of a graph does not hold the nodes its schedules point into", where=None)
        return
    own, held = own[0], held[0]
    sites = writes = 0

    def peel_arc(e):
        while e[0] in ("&", "*") or e[0] == "call" and e[1].split("::")[-1] in ("clone", "borrow", "as_ref", "deref") and e[2]:
            e = e[1] if e[0] in ("&", "*") else e[2][0]
        return e

    def made(fl, E, adt, name):
        out = []
        for b in sorted(fl.reachable()):
            for s in fl.blocks[b].s:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == adt:
                    out.append(peel_arc(dict(E.rvalue(s[2])[3])[name]))
        return out

    small = lambda f, x: x.get("ws", False) and not any(k in x.get("p", "") for k in ("generate_", "BufferAllocator", "Node", "graph_edit", "log::"))
    direct = {}
    for f in F.fns:
        if "inst" not in f or not f["path"].lstrip("<").startswith("knaster_graph") or "body" not in F.insts[f["inst"]]:
            continue
        fl = Flat(F, f["inst"], lambda a, b: False)
        for b in fl.reachable():
            for s in fl.blocks[b].s:
                if s[0] != "=":
                    continue
                if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == GG_:
                    direct[f["inst"]] = f
                if s[1][1]:
                    last_ = s[1][1][-1]
                    if last_[0] == "f" and (last_[1], last_[2]) in ((own, GR_), (held, GG_)):
                        writes += 1
                        ctx.viol("arena", f"{f['name']}: replaced", f"{f['path']}: the collection of nodes is replaced while schedules point into it",
                                 where=loc(F, f["inst"], None))
    work = [(f, 0) for f in direct.values()]
    while work:
        f, depth = work.pop()
        fl, E = flatten(ctx, f, small)
        nodes = made(fl, E, GR_, own)
        for v in made(fl, E, GG_, held):
            if any(x[0] == "arg" for x in chain_roots(v)) and not nodes and v[0] == "arg" and depth < 3:
                up = [h for h in F.fns if "inst" in h and "body" in F.insts[h["inst"]] and h["path"].lstrip("<").startswith("knaster_graph")
                      and any(c == f["inst"] or F.insts[c].get("p") == F.insts[f["inst"]].get("p") for c, _ in F.callees(h["inst"])[0])]
                work += [(h, depth + 1) for h in up]
                if not up:
                    sites += 1
                    ctx.viol("arena", f"{f['name']}: source", f"{f['path']}: where the nodes held by the audio side come from cannot be told", where=loc(F, f["inst"], None))
                continue
            sites += 1
            same = v in nodes and v[0] == "call" or v[0] == "f" and v[2] == own and len(nodes) <= 1
            if same:
                ctx.ok("arena", f["path"], "the audio side holds the nodes of its graph")
            else:
                ctx.viol("arena", f"{f['name']}: other nodes", f"{f['path']}: the audio side of a graph holds another collection than the nodes its schedules point into",
                         where=loc(F, f["inst"], None))
    ctx.floor("arena", sites, 1)
