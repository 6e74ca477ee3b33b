"""P24: log messages are framed."""
from wrap import *
from iters import PathExprs
from linear import Arith, Lin

MSG = "knaster_core::log::ArLogMessage"
SENDER = "knaster_core::log::ArLogSender"


def variants(F, adt):
    a = F.adts.get(adt)
    if a is None:
        raise Missing(adt)
    return [v["name"] for v in a["variants"]]


def p24(ctx):
    F = ctx.facts()
    send = F.fn.get(SENDER + "::send")
    if send is None or "inst" not in send:
        raise Missing("ArLogSender::send")
    end = [v for v in variants(F, MSG) if v == "End"]
    if not end:
        raise Missing("the end marker of a log message")
    p24_chains(ctx, F, send)
    p24_send(ctx, F, send)
    p24_values(ctx, F)
    p24_receive(ctx, F)


def p24_logger(ctx):
    """The audio thread of a processor logs to the channel whose receiver is returned with the processor."""
    F = ctx.facts()
    f = F.fn.get("knaster_graph::processor::AudioProcessor::<F>::new")
    if f is None or "inst" not in f:
        raise Missing("AudioProcessor::new")
    fl, E = flatten(ctx, f, lambda h, x: "knaster_graph" in x.get("p", "") and x.get("ws", False) and ("AudioCtx" in x["p"] or "AudioProcessor" in x["p"]))
    bad, n = [], 0
    made = {b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and F.ts(fl.ltypes[fl.blocks[b].t[3][0]]).startswith("(" + SENDER + ",")}
    own = {}
    for b in made:
        own[E.place(fl.blocks[b].t[3])] = b

    def of(e, k):
        """the call that made the channel e is end k of"""
        e = peel(e)
        return own.get(peel(e[1])) if e[0] == "f" and e[2] == k else None

    def peel(e):
        while e[0] in ("ref", "deref", "cast") or e[0] == "call" and e[1].split("::")[-1] in ("clone", "into"):
            e = e[2][0] if e[0] == "call" else e[-1] if e[0] == "cast" else e[1]
        return e

    end = set()
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and (F.insts[t[1]].get("p") or "") == "knaster_core::ugen::AudioCtx::new":
            n += 1
            lg = [of(E.op(a), "0") for a in t[2] if a[0] != "k" and F.ts(fl.ltypes[a[1][0]]) == SENDER]
            end |= set(lg)
            if len(lg) != 1 or lg[0] is None:
                bad.append(("logger", "the audio thread does not log to a channel"))
    ret = E.place((fl.retlocal, ()))
    got = [of(v, "1") for _, v in ret[3]] if ret[0] == "agg" else []
    if not bad and not any(x in end for x in got if x is not None):
        bad.append(("receiver", "the receiver of the channel the audio thread logs to is not returned"))
    if n != 1:
        raise Missing("the context of the audio processor")
    report(ctx, "logger", "AudioProcessor::new", f, fl, [(x, []) for x in bad], None, "logs to the channel whose receiver is returned")


# ------------------------------------------------------------------ senders
class Chain(Monitor):
    """state: (), or the logger whose message is open"""

    def __init__(self, w, fl, E, F, send, senders):
        super().__init__(w)
        self.fl, self.E, self.F, self.send, self.senders = fl, E, F, send, senders

    def term(self, st, b, t, env):
        if t[0] == "call":
            i = t[1]
            if i == self.send:
                lg = canon(self.E.op(t[2][0]))
                m = [x for x in alts(canon(self.E.op(t[2][1])))]
                kinds = {x[2] if x[0] == "agg" else "?" for x in m}
                if st and st != lg:
                    self.w.viol(("logger", "the parts of one message go to different channels"))
                    return None
                if kinds == {"End"}:
                    if not st:
                        self.w.viol(("empty", "an end marker is sent that ends no message"))
                        return None
                    return ()
                if "End" in kinds:
                    self.w.viol(("mixed", "whether a part of a message ends it depends on the value"))
                    return None
                return lg
            if st and i in self.senders:
                self.w.viol(("between", f"another message can be logged between the parts of a message ({last(self.F, i)})"))
                return None
        elif t[0] == "ret":
            if st:
                self.w.viol(("open", "a message is not ended by the end marker"))
            return None
        return st


def reaching(F, target):
    """instances from which target is reached by calls (target excluded)"""
    rev = {}
    for i, x in enumerate(F.insts):
        for c, _ in F.callees(i)[0]:
            rev.setdefault(c, set()).add(i)
    seen, work = set(), [target]
    while work:
        for p in rev.get(work.pop(), ()):
            if p not in seen:
                seen.add(p)
                work.append(p)
    return seen, rev


def p24_chains(ctx, F, send):
    """Every message is a run of parts followed by the end marker, on every path of the function that logs it."""
    reach, rev = reaching(F, send["inst"])
    direct = sorted(i for i in rev.get(send["inst"], ()) if F.insts[i].get("ws"))
    fnof = {}
    for f in F.fns:
        if "inst" in f:
            fnof.setdefault(f["inst"], f)
    # methods of the logger beside send are part of what their callers send
    own = {f["inst"] for f in F.fns if "inst" in f and f.get("impl_adt") == SENDER and f["inst"] != send["inst"]}
    open_, n, checked = set(), 0, set()
    direct = sorted(set(direct) | {i for o in own for i in rev.get(o, ()) if F.insts[i].get("ws") and o in reach})
    work = list(direct)
    while work:
        i = work.pop(0)
        if i in checked or i in own:
            continue
        checked.add(i)
        x = F.insts[i]
        f = fnof.get(i) or {"path": x.get("p", "?"), "inst": i, "name": x.get("p", "?").split("::")[-1]}
        inl = open_ | own
        fl, E = flatten(ctx, f, lambda h, y: y.get("id") in inl or y["k"] == "shim")
        w = Walker(fl, E)
        vs = list(w.run(Chain(w, fl, E, F, send["inst"], reach - inl), ()))
        ctx.states += w.nstates
        callers = [c for c in rev.get(i, ()) if F.insts[c].get("ws")]
        if vs and all(k[0] in ("open", "empty", "between") for k, _ in vs) and callers and not fnof.get(i, {}).get("pub"):
            # a private helper that logs parts of its callers' messages
            open_.add(i)
            for c in callers:
                checked.discard(c)
                work.append(c)
            continue
        n += 1
        report(ctx, "chains", f["path"], f, fl, vs, None, "every message is ended before the function returns or logs another")
    ctx.floor("chains", n, 5)


# ------------------------------------------------------------------ sending one part
def p24_send(ctx, F, send):
    fl, E = flatten(ctx, send, WS)
    PUSH = {"push", "push_partial_slice", "push_entire_slice", "write_chunk", "write_chunk_uninit"}

    def at(fs, eff, v, var):
        cs = [x for x in eff if x[0] == "call"]
        ring = any(f[0] == "is" and f[1] == A1 and f[2] == "RingBuffer" or f[0] == "isnot" and f[1] == A1 and f[2] == "Log" for f in fs)
        if ring and [(x[1], x[2][1:]) for x in cs] != [("push", (A2,))]:
            return ("part", "a part of a message is not put in the channel exactly once, as it is")
        if not ring and not any(f[0] in ("is", "isnot") and f[1] == A1 for f in fs):
            return ("part", "whether a part of a message is put in the channel depends on something else than the kind of logger")
        return None

    vs = ordered(ctx, fl, E, lambda t: last(F, t[1]) if last(F, t[1]) in PUSH else None, at)
    report(ctx, "part", "send", send, fl, vs, None, "one push of the part itself")


KIND = {"f32": "Float", "f64": "Float", "usize": "Unsigned", "u64": "Unsigned", "u32": "Unsigned", "u16": "Unsigned", "u8": "Unsigned",
        "i64": "Signed", "i32": "Signed", "i16": "Signed", "i8": "Signed", "isize": "Signed"}
WIDE = {"f64", "u64", "i64", "usize"}


def p24_values(ctx, F):
    """A value becomes the part that holds it; no value becomes an end marker."""
    n = 0
    for i in F.impls:
        if not (i.get("trait") or "").endswith("convert::From") or i.get("adt") != MSG:
            continue
        for x in i["items"]:
            f = F.fn.get(x[1])
            if f is None or "inst" not in f:
                continue
            n += 1
            fl, E = flatten(ctx, f, WS)
            ty = F.ts(fl.ltypes[1])
            narrow = [s for b in fl.reachable() for s in fl.blocks[b].s if s[0] == "=" and s[2][0] == "cast" and F.ts(fl.ltypes[s[1][0]]) in
                      ("f32", "u32", "u16", "u8", "i32", "i16", "i8", "isize") and F.ts(fl.ltypes[s[1][0]]) != ty]

            def at(fs, eff, v, var, ty=ty):
                if v[0] != "agg" or v[1] != MSG:
                    return ("value", "a value does not become a part of a message")
                if v[2] == "End":
                    return ("value", "a value becomes an end marker")
                want = KIND.get(ty) or {"str": "Str", "Seconds": "Timestamp"}.get(ty.split("::")[-1].split(" ")[-1].lstrip("&"))
                if want is not None and v[2] != want or not v[3] or strip_it(v[3][0][1]) != A1:
                    return ("value", f"a value of type {ty} becomes something else")
                return None

            vs = list(ordered(ctx, fl, E, lambda t: None, at))
            if narrow:
                vs.append((("value", f"a value of type {ty} is cut to a smaller type"), []))
            report(ctx, "values", ty, f, fl, vs, None, "the part that holds the value")
    ctx.floor("values", n, 8)


# ------------------------------------------------------------------ the receiver
def seg_paths(fl, start, stops, limit=4000):
    """acyclic block paths from start to one of stops (or to a return)"""
    out = []

    def go(b, path):
        if len(out) > limit:
            raise Missing("too many paths")
        if b in stops or fl.blocks[b].t[0] == "ret":
            out.append(path + [b])
            return
        if b in path:
            return
        for s in fl.succ(b):
            go(s, path + [b])

    go(start, [])
    return out


class OnPath:
    """Facts, selected definitions and events of one path."""

    def __init__(self, ctx, fl, F, path, W):
        self.fl, self.F, self.path = fl, F, path
        multi = W["multi"]
        P = W["P"]
        sel, facts = {}, frozenset()
        fm = W["fm"]
        D = fl.defs()
        self.sel = sel
        self.events = []
        for k, b in enumerate(path):
            blk = fl.blocks[b]
            for s in blk.s:
                if s[0] == "=" and s[1][0] in multi and s[1][1] == ():
                    sel[s[1][0]] = next(j for j, d in enumerate(D[s[1][0]]) if d[0] == () and d[3] == b and d[1] == "rv" and d[2] is s[2] or
                                        d[0] == () and d[3] == b and d[1] == "rv" and d[2] == s[2])
                    self.events.append(("def", s[1][0], dict(sel), b))
            if k == len(path) - 1:
                break
            nxt = path[k + 1]
            t = blk.t
            P.select(tuple(sorted(sel.items())))
            if t[0] == "call":
                self.events.append(("call", t, dict(sel), b))
                if t[3][0] in multi and t[3][1] == ():
                    sel[t[3][0]] = next(j for j, d in enumerate(D[t[3][0]]) if d[1] != "rv" and d[3] == b)
            elif t[0] == "switch":
                vals = [v for v, _ in t[2]]
                hit = [v for v, x in t[2] if x == nxt]
                if hit and not (len(t) > 3 and t[3] == nxt):
                    for v in hit[:1] if len(hit) == 1 else []:
                        facts = fm.edge((facts, None), b, t[1], v, False, vals)[0]
                elif t[3] == nxt and not hit:
                    isb = t[1][0] != "k" and F.types[t[1][2]]["k"] == "bool" and len(vals) == 1
                    facts = fm.edge((facts, None), b, t[1], 1 - vals[0] if isb else None, not isb, vals)[0]
        self.facts = facts
        self.P = P

    def expr(self, o, sel):
        return canon(self.P.select(tuple(sorted(sel.items()))).op(o))


def unref(e):
    while e[0] == "ref":
        e = e[1]
    return e


def p24_receive(ctx, F):
    """The receiver hands every complete message over once, in order, and keeps an incomplete one."""
    f = F.fn.get("knaster_core::log::ArLogReceiver::<N>::recv")
    if f is None or "inst" not in f:
        raise Missing("ArLogReceiver::recv")
    fl, E = flatten(ctx, f, lambda h, x: x.get("ws", False) or x["k"] == "shim")
    bad = []
    pos = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "position"]
    com = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) in ("commit", "commit_all")]
    nxt = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "next"]
    hand = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) in ("call_mut", "call", "call_once")
            and F.ts(fl.ltypes[fl.blocks[b].t[2][0][1][0]]).lstrip("&mut ") == F.ts(fl.ltypes[2])]
    if len(pos) != 1 or len(com) != 1 or len(nxt) != 1 or not hand:
        raise Missing("the search for end markers, the release of what was read and the calls of the handler in recv")
    pos, com, nxt = pos[0], com[0], nxt[0]
    llocal = skip_local(fl, F, E)
    E = Loose(fl, llocal)
    c = canon(E.op(fl.blocks[pos].t[2][0]))
    parts = scan(c)
    if parts is None:
        raise Missing("what recv searches for end markers")
    S0, S1, L = parts
    D = fl.defs()
    multi = {l for l, ds in D.items() if len([d for d in ds if d[0] == ()]) > 1}
    if llocal not in multi:
        raise Missing("the position up to which messages were handed over")
    # the predicate is "is an end marker"
    cl = canon(E.op(fl.blocks[pos].t[2][1]))
    cp = str(cl[1])[len("closure:"):] if cl[0] == "agg" and str(cl[1]).startswith("closure:") else None
    ci = next((i for i, x in enumerate(F.insts) if cp and x.get("p") == cp and x.get("body")), None)
    if ci is None:
        raise Missing("how recv recognises the end of a message")
    fc, Ec = flatten(ctx, {"path": cp, "inst": ci}, WS)

    def isend(fs, eff, v, var):
        ie = any(f[0] == "is" and f[2] == "End" for f in fs)
        if v not in (("k", True), ("k", False)):
            return ("search", "how the end of a message is recognised is not decided")
        if (v == ("k", True)) != ie:
            return ("search", "something else than the end marker ends a message")
        return None

    bad += [x for x, _ in ordered(ctx, fc, Ec, lambda t: None, isend)]
    # what is read is everything in the channel, of every channel
    rc = [canon(E.op(a)) for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "read_chunk" for a in fl.blocks[b].t[2]]
    if len(rc) != 2 or rc[1] != ("call", "slots", (rc[0],)):
        bad.append(("read", "not everything in the channel is read"))
    src = canon(E.op(fl.blocks[nxt].t[2][0]))
    if "skip" in repr(src) or "take" in repr(src) or "filter" in repr(src) or "receivers" not in repr(src):
        bad.append(("channels", "not every channel is read"))
    # one message
    P = Loose(fl, llocal)
    w = Walker(fl, P)
    W = {"multi": multi, "P": P, "fm": FactMon(w)}
    sw = fl.blocks[pos].t[4]
    found = None
    tp = fl.blocks[sw].t
    while tp[0] == "goto":
        sw = tp[1]
        tp = fl.blocks[sw].t
    if tp[0] != "switch":
        raise Missing("the outcome of the search for end markers")
    tab = dict(w._discr_table(tp[1]) or {})
    some_b = [x for v, x in tp[2] if tab.get(v) == "Some"] or [tp[3]]
    none_b = [x for v, x in tp[2] if tab.get(v) == "None"] or [tp[3]]
    heads = {pos}
    npaths = 0
    n0, n1 = ("call", "len", (S0,)), ("call", "len", (S1,))
    p = ("f", ("v", canon_call(E, fl, pos), "Some"), "0")
    for path in seg_paths(fl, some_b[0], {pos, nxt}):
        if any(fl.blocks[b].t[0] in ("unreachable",) for b in path):
            continue
        if path[-1] != pos:
            bad.append(("stop", "messages after the first are not handed over"))
            continue
        o = OnPath(ctx, fl, F, path, W)
        A = Arith()
        lL, lp, l0, l1 = A.lin(L), A.lin(p), A.lin(n0), A.lin(n1)
        base = [lL + lp + Lin({}, 1) - l0 - l1, Lin({}, 0) - l0, Lin({}, 0) - l1]
        for q in o.facts:
            if q[0] in ("true", "false") and q[1][0] == "call" and q[1][1] == "is_empty":
                x = q[1][2][0]
                iv = interval(x, S0, S1, A) if x[0] != "k" else (None, Lin(), Lin())
                if iv is not None:
                    base.append(iv[2] - iv[1] if q[0] == "true" else iv[1] - iv[2] + Lin({}, 1))
        if A.entails(list(o.facts), [Lin({}, 1)], base):
            continue  # the path is not taken
        segs, moved, sel_end = [], None, None
        for ev in o.events:
            if ev[0] == "call" and ev[3] in hand:
                a = fl.blocks[ev[3]].t[2][1]
                segs.append(slice_of(fl, F, o, a, ev[2], S0, S1, A))
            if ev[0] == "def" and ev[1] == llocal:
                moved = canon(P.select(tuple(sorted(ev[2].items()))).rv(D[llocal][ev[2][llocal]]))
        if None in segs:
            npaths += 1
            bad.append(("slice", "what is handed over is not a part of what was read"))
            continue
        # where the message begins and ends: in the first or in the second slice
        for case in ([lL - l0 + Lin({}, 1)], [l0 - lL]):
            for case2 in ([lL + lp + Lin({}, 1) - l0], [l0 + Lin({}, 1) - lL - lp - Lin({}, 1)]):
                cb = base + case + case2
                if A.entails(list(o.facts), [Lin({}, 1)], cb):
                    continue
                npaths += 1
                at, good = lL, True
                for which, a, b in segs:
                    if which is None or A.entails(list(o.facts), [a - b, b - a], cb):
                        continue
                    if which == 1:
                        a, b = a + l0, b + l0
                    else:
                        good = good and A.entails(list(o.facts), [b - l0], cb)
                    good = good and A.entails(list(o.facts), [a - at, at - a, b - l0 - l1], cb)
                    at = b
                if not good or not A.entails(list(o.facts), [at - lL - lp - Lin({}, 1), lL + lp + Lin({}, 1) - at], cb):
                    bad.append(("message", "what is handed over for a message is not exactly its parts in order"))
        if moved is None or not A.entails(list(o.facts), eq(A.lin(moved) - lL - lp - Lin({}, 1)), base):
            bad.append(("advance", "the search does not go on right after the message"))
    # the end of a channel
    ini = [d for d in D[llocal] if d[0] == () and d[1] == "rv" and canon(E.rv(d)) == ("k", 0)]
    if not ini:
        bad.append(("first", "the first message is not handed over from its first part"))
    for path in seg_paths(fl, none_b[0], {pos, nxt}):
        if com not in path or path[-1] == pos:
            bad.append(("release", "what was handed over is not released"))
        if any(b in hand for b in path):
            bad.append(("incomplete", "an incomplete message is handed over"))
    ct = fl.blocks[com].t
    if last(F, ct[1]) != "commit" or canon(E.op(ct[2][1])) != L:
        bad.append(("release", "what is released is not what was handed over"))
    if any(b in hand for q in (nxt, com) for path in seg_paths(fl, fl.blocks[q].t[4], {pos, nxt}) for b in path):
        bad.append(("outside", "something beside complete messages is handed over"))
    report(ctx, "receive", "recv", f, fl, [(x, []) for x in bad], None, f"{npaths} paths: L..L+pos+1 of what was read, in order; the rest stays")
    ctx.floor("receive paths", npaths, 3)


class Loose(PathExprs):
    """One local is left as it is: the state carried from one iteration to the next."""

    def __init__(self, fl, keep):
        super().__init__(fl)
        self.keep = keep

    def value(self, l):
        return ("loc", l) if l == self.keep else super().value(l)


def eq(l):
    return [l, Lin({}, 0) - l]


def canon_call(E, fl, b):
    t = fl.blocks[b].t
    return canon(E.place(t[3]))


def skip_local(fl, F, E):
    """the local holding the number of parts to skip"""
    bs = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "skip"]
    if len(bs) != 1:
        raise Missing("how recv goes on after a message")
    o = fl.blocks[bs[0]].t[2][1]
    D = fl.defs()
    while o[0] != "k" and o[1][1] == ():
        ds = D.get(o[1][0], [])
        if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use":
            o = ds[0][2][1]
        else:
            break
    return o[1][0] if o[0] != "k" else None


def scan(c):
    """(first slice, second slice, start) of what is searched"""
    c = unref(c)
    if c[0] == "call" and c[1] == "skip" and len(c[2]) == 2:
        ch, L = c[2]
        if ch[0] == "call" and ch[1] == "chain" and len(ch[2]) == 2:
            a, b = (x[2][0] if x[0] == "call" and x[1] in ("iter", "into_iter") else x for x in ch[2])
            if a[0] == "f" and b[0] == "f" and a[1] == b[1] and a[2] == "0" and b[2] == "1" and a[1][0] == "call" and a[1][1] == "as_slices":
                return a, b, L
    return None


def slice_of(fl, F, o, a, sel, S0, S1, A):
    """(0 / 1 / None when empty, from, to) of the slice handed over"""
    # the argument is a tuple of one slice
    D = fl.defs()
    l = a[1][0]
    for _ in range(20):
        ds = [d for d in D.get(l, []) if d[0] == ()]
        d = D[l][sel[l]] if l in sel else ds[0] if len(ds) == 1 else None
        if d is None or d[1] != "rv":
            break
        r = d[2]
        if r[0] == "agg" and r[1][0] == "tuple" and len(r[2]) == 1:
            x = r[2][0]
        elif r[0] in ("use",):
            x = r[1]
        elif r[0] == "cast":
            x = r[2]
        elif r[0] == "ref":
            x = ("cp", r[1], None)
        else:
            break
        if x[0] == "k":
            break
        if F.ts(fl.ltypes[x[1][0]]).endswith("; 0]"):
            return (None, None, None)
        if x[1][1] not in ((), (("*",),)):
            break
        l = x[1][0]
    e = o.expr(a, sel)
    while e[0] == "agg" and len(e[3]) == 1 and e[1] == "tuple":
        e = e[3][0][1]
    return interval(e, S0, S1, A)


def interval(e, S0, S1, A):
    """(0 / 1, from, to) of a part of the slices searched"""
    e = unref(e)
    if e in (S0, S1):
        return (0 if e == S0 else 1, Lin(), A.lin(("call", "len", (e,))))
    if e[0] == "call" and e[1] == "index" and e[2][0] in (S0, S1):
        which = 0 if e[2][0] == S0 else 1
        r = e[2][1]
    elif (d := at_(e)) is not None and d[0] in (S0, S1):
        which, r = 0 if d[0] == S0 else 1, d[1]
    else:
        return None
    n = A.lin(("call", "len", (S0 if which == 0 else S1,)))
    if r[0] == "agg":
        q = dict(r[3])
        nm = str(r[1]).split("::")[-1]
        if nm == "Range":
            return (which, A.lin(q["start"]), A.lin(q["end"]))
        if nm == "RangeFrom":
            return (which, A.lin(q["start"]), n)
        if nm == "RangeTo":
            return (which, Lin(), A.lin(q["end"]))
        if nm == "RangeToInclusive":
            return (which, Lin(), A.lin(q["end"]) + Lin({}, 1))
        if nm == "RangeFull":
            return (which, Lin(), n)
        if nm == "RangeInclusive":
            return (which, A.lin(q["start"]), A.lin(q["end"]) + Lin({}, 1))
    if r[0] == "call" and r[1] == "new" and len(r[2]) == 2:
        return (which, A.lin(r[2][0]), A.lin(r[2][1]) + Lin({}, 1))
    return None
