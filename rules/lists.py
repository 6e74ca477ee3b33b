"""Lists of channels built in order.

A function that builds lists element by element is summarised as: which list it returns where, and which channels each list
holds, in which order. The summary is path-sensitive in the order of the loops and demands that every element of a loop is
added exactly once; how the function is split up, or how it spells the loop, does not matter."""
from handles import *

NEWLIST = {"new", "with_capacity", "default", "uninit"}
SAME = {"expect", "unwrap", "into_channel_iter", "from", "into", "into_iter", "into_boxed_slice", "into_vec", "index_mut", "deref_mut"}


def listed(e):
    """The list an expression stands for: ('list', where it was created), ('expr', canonical) otherwise."""
    x = e
    for _ in range(12):
        if x[0] in ("&", "*"):
            x = x[1]
        elif x[0] == "cast":
            x = x[2]
        elif x[0] == "call" and x[1].split("::")[-1] in NEWLIST and x[3] is not None:
            return ("list", x[3])
        elif x[0] == "call" and x[1].split("::")[-1] in SAME and x[2]:
            x = x[2][0]
        elif x[0] == "f" and x[2] == "channels":
            x = x[1]
        elif x[0] == "agg" and "channels" in dict(x[3]):
            x = dict(x[3])["channels"]
        elif x[0] == "f" and x[2] == "0" and x[1][0] == "v" and x[1][2] in ("Some", "Ok"):
            x = x[1][1]
        elif x[0] == "call" and x[1].split("::")[-1] == "collect" and x[2]:
            return ("expr", ("all", canon(x[2][0])))
        else:
            break
    return ("expr", canon(e))


def parts(e, path=()):
    """Fields of the aggregate an expression builds, innermost: [(path, expr)]."""
    while e[0] in ("&", "*"):
        e = e[1]
    if e[0] == "agg" and e[1].startswith("knaster_graph::"):
        out = []
        for n, x in e[3]:
            out += parts(x, path + (n,))
        return out
    return [(path, e)]


def walk_raw(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from walk_raw(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        yield from walk_raw(y)


def slots(e):
    """The list whose element (of a loop over all of it) e is."""
    path = []
    for _ in range(12):
        if e[0] in ("&", "*"):
            e = e[1]
        elif e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Some" and e[1][1][0] == "call" and e[1][1][1].split("::")[-1] == "next":
            it = e[1][1][2][0]
            break
        elif e[0] == "f":
            path.insert(0, e[2])
            e = e[1]
        else:
            return None
    else:
        return None
    mutable = False
    for _ in range(20):
        if it[0] in ("&", "*"):
            it = it[1]
        elif it[0] == "cast":
            it = it[2]
        elif it[0] == "call" and it[2] and it[1].split("::")[-1] in ("into_iter", "iter_mut", "by_ref", "as_mut_slice", "deref_mut"):
            mutable = mutable or it[1].split("::")[-1] == "iter_mut"
            it = it[2][0]
        elif it[0] == "call" and it[1].split("::")[-1] == "zip" and path:
            it = it[2][int(path.pop(0))]
        elif it[0] == "call" and it[1].split("::")[-1] == "enumerate" and path:
            if path.pop(0) == "0":
                return None
            it = it[2][0]
        else:
            return it if mutable and not path else None
    return None


class Lists(Monitor):
    """state = (open loops and what was done for their current element, lists so far)"""

    def __init__(self, w, S, fl, E, F, describe=None, extra=None, need=None, spec=None):
        super().__init__(w)
        self.S, self.fl, self.E, self.F = S, fl, E, F
        self.site = {}
        for b, s in S.at.items():
            if s.call is not None:
                self.site[canon(E.place(s.call[3]))] = b
        self.count = {canon(s.idx): b for b, s in S.at.items() if s.call is None}
        self.describe, self.extra, self.spec = describe or (lambda m, a: None), extra or {}, spec
        self.need = dict(need or {})
        self.adds = {}      # block -> (list, loop or None, segments) or a message
        self.stadds = {}
        self.segs = {}      # loop -> [(list, segments)]
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "call":
                n = (F.insts[t[1]].get("p") or "").split("::")[-1]
                if n in ("push", "push_back", "extend") and len(t[2]) >= 2:
                    l = listed(E.op(t[2][0]))
                    if l[0] == "list":
                        self.raw = [E.op(x) for x in t[2][1:]]
                        a = [canon(x) for x in self.raw]
                        self.adds[b] = (l,) + (self.whole(a[0]) if n == "extend" else self.element(a))
            for s in fl.blocks[b].s:
                if s[0] == "=" and s[1][1]:
                    e = E.place(s[1])
                    while e[0] in ("&", "*"):
                        e = e[1]
                    if e[0] == "call" and e[1].split("::")[-1] in ("index_mut", "index") and len(e[2]) == 2:
                        l, i = listed(e[2][0]), canon(e[2][1])
                    elif e[0] == "[]":
                        l, i = listed(e[1]), canon(e[2])
                    elif slots(e) is not None and decode(canon(e)) is not None:
                        # an element of the list, which is run through beside the channels
                        l, i = listed(slots(e)), None
                    else:
                        continue
                    if l[0] == "list":
                        self.raw = [E.rvalue(s[2])]
                        x = self.element([canon(self.raw[0])])
                        if i is None:
                            if x[0] is None or self.site.get(nextcall(canon(e))) != x[0]:
                                x = (None, "a channel is stored at another position than its own")
                        elif decode(i) != (("index",), []) or x[0] is None or nextcall(i) is None or self.site.get(nextcall(i)) != x[0]:
                            x = (None, "a channel is stored at another position than its own")
                        self.stadds[id(s)] = (l,) + x
        for l, loop, seg in list(self.adds.values()) + list(self.stadds.values()):
            if loop is not None:
                self.segs.setdefault(loop, []).append((l, tuple(seg)))
                self.need.setdefault(loop, set()).add(("add", l))

    def whole(self, it):
        s = segs(it)
        return (None, tuple(s)) if s is not None else (None, "the channels added are not those of a handle, in order")

    def element(self, a):
        """(loop, segments) of one element added to a list."""
        if len(a) == 1 and a[0][0] == "agg" and a[0][1] == "tuple":
            a = [x for _, x in a[0][3]]
        d = self.describe(self, a)
        if d is not None:
            return d
        if len(a) == 1:
            p = payload(a[0])
            if p is not None and p[0] == "call" and p[1] == "nth" and p[2][0][0] == "call" and p[2][0][1] in CH:
                i = uncast(p[2][1])
                n = nextcall(i)
                d = decode(i)
                if n in self.site and not self.fresh(self.raw[0]):
                    return None, "the channels are counted from the last one that was taken"
                if n in self.site and d and d[1] == []:
                    return self.site[n], [("nth", p[2][0][1], p[2][0][2][0], strip_conv2(d[0]))]
            n, it = nextcall(a[0]), item(a[0])
            if it is not None and n in self.site:
                l, rest = leaf(*it)
                s = segs(l) if rest == [] else None
                if s is not None:
                    return self.site[n], s
        if len(a) == 2:
            n = nextcall(a[1])
            if a[1] in self.count and self.S.at[self.count[a[1]]].start == ("k", 0) and node_of(a[0]) is not None:
                return self.count[a[1]], [("own", node_of(a[0]), canon(self.S.at[self.count[a[1]]].end))]
            if n in self.site:
                x, y = decode(a[0]), decode(a[1])
                if x and y and nextcall(a[0]) == n and x[0] == y[0] and (x[1], y[1]) == (["0"], ["1"]):
                    s = segs(x[0])
                    if s is not None:
                        return self.site[n], s
                if y and y[1] == [] and node_of(a[0]) is not None:
                    s = segs(y[0])
                    if s and s[0][0] == "range":
                        return self.site[n], [("own", node_of(a[0]), s[0][1])]
        return None, "what is added is not a channel of the handle"

    def fresh(self, e):
        """Every `nth` is asked of an iterator made for it."""
        for x in walk_raw(e):
            if x[0] == "call" and x[1].split("::")[-1] == "nth" and x[3] is not None:
                made = next((y[3] for y in walk_raw(x[2][0]) if y[0] == "call" and y[1].split("::")[-1] in CH), None)
                seen, work = set(), list(self.fl.succ(x[3]))
                while work:
                    b = work.pop()
                    if b == x[3]:
                        return False
                    if b == made or b in seen:
                        continue
                    seen.add(b)
                    work += list(self.fl.succ(b))
        return True

    INIT = ((), ())

    def token(self, st, loop, tok):
        op, lists = dict(st[0]), st[1]
        if loop not in op or tok in op[loop]:
            self.w.viol(("twice" if loop in op else "outside", "something is done more than once for a channel" if loop in op else "a channel is handled outside of its loop"))
            return None
        op[loop] = op[loop] | {tok}
        return tuple(sorted(op.items(), key=repr)), lists

    def add(self, st, x):
        l, loop, seg = x
        if isinstance(seg, str):
            self.w.viol(("channel", seg))
            return None
        if loop is not None:
            return self.token(st, loop, ("add", l))
        return st[0], self.append(st[1], l, seg)

    def append(self, lists, l, seg):
        d = dict(lists)
        d[l] = (d.get(l, ()) + tuple(seg))[:12]
        return tuple(sorted(d.items(), key=repr))

    def stmt(self, st, b, s):
        if id(s) in self.stadds:
            return self.add(st, self.stadds[id(s)])
        return st

    def term(self, st, b, t, env):
        if b in self.adds:
            st = self.add(st, self.adds[b])
            if st is None:
                return None
        if b in self.extra:
            x = self.extra[b]
            if x[0] == "bad":
                self.w.viol((x[1], x[2]))
                return None
            return self.token(st, x[1], x[2])
        if t[0] == "ret":
            r = self.spec(st, env)
            if r:
                self.w.viol(r)
            return None
        return st

    def edge(self, st, b, o, v, other, vals):
        oc = self.S.outcome(self.w, b, o, v, other)
        if oc and oc[0].b in self.need:
            l, (op, lists) = oc[0].b, (dict(st[0]), st[1])
            if l in op:
                miss = self.need[l] - op[l]
                if miss:
                    self.w.viol(("skipped", "something is not done for one of the channels"))
                    return None
                del op[l]
            if oc[1] == "Some":
                op[l] = frozenset()
            else:
                for lst, seg in self.segs.get(l, ()):
                    lists = self.append(lists, lst, seg)
            return tuple(sorted(op.items(), key=repr)), lists
        return st


def strip_conv2(e):
    """The given channels: into(argument).channels"""
    for _ in range(4):
        if e[0] == "f" and e[2] == "channels":
            e = e[1]
        else:
            e = strip_conv(e)
    return e


def list_policy(*stop):
    return lambda f, x: (x.get("ws", False) or x["k"] != "shim" and ITER(f, x)) and not x.get("p", "").endswith(("::next", "::iter_outputs", "::iter_inputs", "::push", "::into_channel_iter", "::outputs", "::inputs")) and x.get("p") not in stop


A1, A2 = ("arg", 1), ("arg", 2)


def fld(e, *names):
    for n in names:
        e = ("f", e, n)
    return e


def src(which, *hs):
    return tuple((which, h) for h in hs)


def p26_lists(ctx):
    F, g = anchors(ctx)
    n = 0
    I, O = "iter_inputs", "iter_outputs"
    own = lambda end: (("own", fld(A1, "node_id"), end),)
    N1, N2 = fld(A1, "nodes"), fld(A2, "nodes")
    EMPTY = ()
    GH = "knaster_graph::graph_edit::"
    # function -> part of the result -> the channels it holds
    SPEC = [
        ("iter_outputs", "<" + GH + "Handle3<", {("channels",): ("own", None)}),
        ("iter_inputs", "<" + GH + "Handle3<", {("channels",): ("own", None)}),
        ("iter_outputs", "<" + GH + "DynamicHandle3", {("channels",): ("own", "outputs")}),
        ("iter_inputs", "<" + GH + "DynamicHandle3", {("channels",): ("own", "inputs")}),
        ("iter_inputs", "<" + GH + "Stack<", {("channels",): src(I, fld(A1, "s0"), fld(A1, "s1"))}),
        ("iter_outputs", "<" + GH + "Stack<", {("channels",): src(O, fld(A1, "s0"), fld(A1, "s1"))}),
        ("dynamic", "<" + GH + "Stack<", {("in_channels",): src(I, fld(A1, "s0"), fld(A1, "s1")), ("out_channels",): src(O, fld(A1, "s0"), fld(A1, "s1"))}),
        ("iter_outputs", "<" + GH + "ChannelsHandle<", {("channels",): (("elements", fld(A1, "channels")),)}),
        ("iter_inputs", "<" + GH + "ChannelsHandle<", {("channels",): EMPTY}),
        ("dynamic", "<" + GH + "ChannelsHandle<", {("in_channels",): EMPTY, ("out_channels",): (("elements", fld(A1, "channels")),)}),
        ("iter_outputs", "<" + GH + "DynamicChannelsHandle", {("channels",): (("elements", fld(A1, "out_channels")),)}),
        ("iter_inputs", "<" + GH + "DynamicChannelsHandle", {("channels",): (("elements", fld(A1, "in_channels")),)}),
        ("stack", GH + "DH::<", {("in_channels",): src(I, N1, N2), ("out_channels",): src(O, N1, N2)}),
        ("to_channels_handle", GH + "DH::<", {("in_channels",): src(I, N1), ("out_channels",): src(O, N1)}),
        ("out", GH + "DH::<", {("in_channels",): EMPTY, ("out_channels",): (("nth", O, N1, A2),)}),
        ("out", GH + "SH::<", {("channels",): (("nth", O, N1, A2),)}),
    ]
    for name, head, want in SPEC:
        fs = [f for f in F.fns if f["name"] == name and f["path"].startswith(head)]
        if len(fs) != 1:
            raise Missing(f"{head}…::{name}")
        f = fs[0]
        n += 1
        fl, E = flatten(ctx, f, list_policy())
        S = Sites(g, fl, E, any_end=True)
        ps = {p[-1:]: x for p, x in parts(E.local(fl.retlocal)) if p and p[-1] in ("channels", "in_channels", "out_channels")}
        if not ps:
            ps = {k: E.local(fl.retlocal) for k in want if len(want) == 1}
        pos = {p: x for p, x in parts(E.local(fl.retlocal)) if p and p[-1] == "current_index"}
        w = Walker(fl, E)

        def spec(st, env, ps=ps, want=want, pos=pos):
            for k, segs_ in want.items():
                if k not in ps:
                    return "list", f"the {k[0]} of the result are not built"
                l = listed(ps[k])
                if l[0] == "list":
                    got = dict(st[1]).get(l, ())
                else:
                    e = l[1]
                    if e[0] == "all":
                        s = segs(e[1])
                    else:
                        s = [("elements", e)] if e[0] == "f" else None
                        if e[0] == "call" and e[1] in ("narr", "empty", "from") or e == ("agg", "array", None, ()):
                            s = []
                    if s is None and want[k] == () and not any(x[0] == "arg" for x in walk(e)):
                        s = []
                    got = tuple(s) if s is not None else None
                if segs_ and segs_[0] == "own":
                    end = segs_[1] and (fld(A1, "data", segs_[1]), ("call", segs_[1], (A1,)))
                    ok = got is not None and len(got) == 1 and got[0][0] == "own" and got[0][1] == fld(A1, "node_id") and (end is None or uncast(got[0][2]) in end)
                else:
                    ok = got == segs_
                if not ok:
                    return "order", f"the {k[0].replace('_', ' ')} of the result are not " + words(segs_) + f" (they are {got})"
            for x in pos.values():
                if canon(x) != ("k", 0):
                    return "start", "the channels are not read from the first one"
            return None

        m = Lists(w, S, fl, E, F, spec=spec)
        vs = w.run(m, Lists.INIT)
        ctx.states += w.nstates
        done = set()
        hd = f["path"].replace(GH, "").split("<")[1 if f["path"][0] == "<" else 0].split(" as ")[0]
        for (k, msg), path in vs:
            if k not in done:
                done.add(k)
                ctx.viol("handle-channels", f"{hd.rstrip(':')}.{name}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
        if not vs:
            ctx.ok("handle-channels", f["path"], ", ".join(f"{k[0]}: {words(v)}" for k, v in want.items()))
    ctx.floor("handle-channels", n, 16)


def words(s):
    if not s:
        return "empty"
    if s[0] == "own":
        return "the node's channels in order"
    return "; then ".join(f"{x[0]} of {show_short(x[-1])}" for x in s)


def show_short(e):
    return {"arg": lambda: f"argument {e[1]}", "f": lambda: f"{show_short(e[1])}.{e[2]}"}.get(e[0], lambda: str(e)[:60])()
