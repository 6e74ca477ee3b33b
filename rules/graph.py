"""Graph editing rules."""
from gcom import *
from gcom import G as Anchors
from rt import loc
from walk import Walker, Monitor
from facts import Missing

_cache = {}


def anchors(ctx):
    F = ctx.facts()
    k = id(F)
    if k not in _cache:
        _cache[k] = Anchors(F)
    return F, _cache[k]


def flatten(ctx, f, policy=WS):
    F = ctx.facts()
    k = (id(F), f["inst"], policy)
    if k not in _cache:
        fl = Flat(F, f["inst"], policy)
        _cache[k] = (fl, Exprs(fl))
    return _cache[k]


def trace(fl, path, lines=14):
    out, lastw = [], None
    for b in path:
        t = fl.blocks[b].t
        l = t[4] if t[0] == "switch" else t[5] if t[0] == "call" else None
        w = fl.where(b, l) if l else None
        if w and w != lastw:
            out.append(("branch at " if t[0] == "switch" else "call at ") + w)
            lastw = w
    return out[-lines:]


# ---------------------------------------------------------------- P06
class Dirty(Monitor):
    """clean -> edit -> (flag) -> ...; at return an edit without the flag is a violation. The flag
    may be raised before or after the edit."""

    def __init__(self, w, evs):
        super().__init__(w)
        self.evs = evs

    def apply(self, st, ev, line):
        raised, pend = st
        if ev[1] == "dirty":
            v = ev[2]
            if v == ("k", True):
                return True, frozenset()
            if v == ("k", False):
                return False, frozenset()
            return False, pend
        x = structural(ev)
        if x and not raised:
            return raised, pend | {x}
        return st

    def stmt(self, st, b, s):
        for ev in self.evs.get(b, ()):
            if ev[0] != "t" and self.w.fl.blocks[b].s[ev[0]] is s:
                st = self.apply(st, ev, s[3])
        return st

    def term(self, st, b, t, env):
        for ev in self.evs.get(b, ()):
            if ev[0] == "t":
                st = self.apply(st, ev, t[5])
        if t[0] == "ret" and st[1]:
            v = self.w.variant_of_return(env)
            self.w.viol((tuple(sorted(st[1])), v))
            return None
        return st


def p06(ctx):
    F, g = anchors(ctx)
    ents = [f for f in g.entries() if f["inputs"] and "&mut" in f["inputs"][0] and f["name"] != "commit_changes"]
    n = 0
    for f in ents:
        fl, E = flatten(ctx, f)
        evs = events(g, fl, E)
        kinds = {structural(e) for l in evs.values() for e in l} - {None}
        if not kinds:
            continue
        n += 1
        w = Walker(fl, E, track_ret=False)
        m = Dirty(w, evs)
        vs = w.run(m, (False, frozenset()))
        ctx.states += w.nstates
        if not vs:
            ctx.ok("edit-schedules-recalculation", f["path"], f"{len(kinds)} kinds of edit: {sorted(kinds)}")
        for (ks, ret), path in vs:
            for k in ks:
                ctx.viol("edit-schedules-recalculation", f"{f['name']}: {k}",
                         f"{f['path']} can return after editing the graph ({k}) without marking it for recalculation, "
                         "so the edit is not heard after the next commit", where=loc(F, f["inst"], None), trace=trace(fl, path))
    ctx.floor("edit-schedules-recalculation", n, 12)


class Commit(Monitor):
    """The commit protocol. state = (decided, seen, sent): decided in {None, 'dirty', 'clean'};
    seen: stages done since; sent: schedule handed over."""

    STAGES = ("order", "buffers", "tasks")

    def __init__(self, w, g, evs, pushes):
        super().__init__(w)
        self.g, self.evs, self.pushes = g, evs, pushes

    def ev(self, st, ev):
        dec, seen, sent = st
        kind, d = ev[1], ev[2]
        if kind == "dirty":
            if d == ("k", False) and sent is not True:
                self.w.viol(("cleared-unsent", "the recalculation mark is cleared before the new schedule was handed to the audio thread"))
                return None
            if d == ("k", True) and (dec is not None):
                self.w.viol(("late", "the graph is edited after the decision whether to recalculate"))
                return None
            if d == ("k", False):
                return "clean", seen, sent
            return st
        r = d[0]
        if "order" in r and kind in ("extend", "extend_from_slice", "push", "append", "write", "insert"):
            seen = seen | {"order"}
        elif "order" in r:
            pass
        if "alloc" in r and kind in ("write", "clear") and "order" in seen:
            seen = seen | {"buffers"}
        return dec, seen, sent

    def stmt(self, st, b, s):
        for ev in self.evs.get(b, ()):
            if ev[0] != "t" and self.w.fl.blocks[b].s[ev[0]] is s:
                st = self.ev(st, ev)
                if st is None:
                    return None
        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("::TaskData") and st[0] == "dirty":
            dec, seen, sent = st
            if "buffers" not in seen or "order" not in seen:
                self.w.viol(("stale", "a schedule is built without recomputing " + ("the processing order" if "order" not in seen else "the buffer assignment")))
                return None
            st = dec, seen | {"tasks"}, sent
        return st

    def term(self, st, b, t, env):
        for ev in self.evs.get(b, ()):
            if ev[0] == "t":
                st = self.ev(st, ev)
                if st is None:
                    return None
        if b in self.pushes:
            st = st[0], st[1], "maybe"
        if t[0] == "ret":
            v = self.w.variant_of_return(env)
            if v != "Err" and st[0] == "dirty":
                self.w.viol(("lost", "a commit succeeds although the graph was edited and no schedule was sent"))
            return None
        return st

    def edge(self, st, b, o, v, other, vals):
        e = self.w.E.op(o)
        neg = False
        while e[0] == "un" and e[1] == "Not":
            e, neg = e[2], not neg
        if e[0] == "f" and e[2] == self.g.f["dirty"] and v in (0, 1):
            return ("dirty" if bool(v) != neg else "clean"), st[1], st[2]
        # success of the hand-over
        if st[2] == "maybe" and e[0] == "discr" or e[0] == "call":
            base = e[1] if e[0] == "discr" else e[2][0] if e[2] else None
            if base is not None and any(x[0] == "call" and x[3] in self.pushes for x in walk(base)):
                tab = self.w._discr_table(o)
                name = dict(tab).get(v) if tab and v is not None else None
                last_ = e[1].split("::")[-1] if e[0] == "call" else None
                ok = name in ("Ok", "Continue") or (last_ == "is_ok" and bool(v) != neg) or (last_ == "is_err" and bool(v) == neg)
                if name is None and last_ is None and other:
                    ok = True
                return st[0], st[1], True if ok else False
        return st


def task_pushes(F, fl):
    """Blocks handing a schedule to the queue towards the audio thread."""
    out = {}
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and F.insts[t[1]].get("crate") == "rtrb" and len(t[2]) == 2 and t[2][1][0] != "k" \
                and (F.adt_of(t[2][1][2]) or "").endswith("::TaskData"):
            out[b] = t
    return out


def p06_commit(ctx):
    F, g = anchors(ctx)
    f = g.m("commit_changes")
    fl, E = flatten(ctx, f)
    evs = events(g, fl, E)
    pushes = task_pushes(F, fl)
    ctx.floor("commit-sends-schedule", len(pushes), 1)
    w = Walker(fl, E)
    vs = w.run(Commit(w, g, evs, pushes), (None, frozenset(), False))
    ctx.states += w.nstates
    for (k, msg), path in vs:
        ctx.viol("commit-protocol", k, msg, where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("commit-protocol", f["path"], f"{w.nstates} path states")


def p06_drop(ctx):
    """Ending an edit session commits, on every path."""
    F, g = anchors(ctx)
    commit = g.m("commit_changes")["inst"]
    ds = [f for f in F.fns if f.get("impl_trait", "").endswith("::Drop") and f.get("impl_adt", "").endswith("::GraphEdit")]
    if len(ds) != 1:
        raise Missing("Drop for GraphEdit")
    must_call(ctx, F, ds[0]["inst"], commit, "edit-session-commits", "an edit session can end without committing its changes")
    # the public way to open a session goes through that type
    f = g.m("edit")
    if any(x["k"] == "agg" for x in ()):
        pass


def must_call(ctx, F, inst, target, rule, msg, policy=None):
    """Every path of `inst` to a return passes a call of `target`."""
    pol = policy or (lambda fl, x: (x.get("ws", False) or x["k"] == "shim") and x["id"] != target)
    fl = Flat(F, inst, pol)
    hits = {b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and fl.blocks[b].t[1] == target}
    seen, st = {fl.entry}, [fl.entry]
    bad = None
    while st:
        b = st.pop()
        if b in hits:
            continue
        if fl.blocks[b].t[0] == "ret":
            bad = b
        for s in fl.succ(b):
            if s not in seen:
                seen.add(s)
                st.append(s)
    if bad is not None or not hits:
        ctx.viol(rule, F.name(inst), msg, where=loc(F, inst, None))
    else:
        ctx.ok(rule, F.name(inst), f"{len(hits)} call site(s) of {F.name(target)}")
