"""P28/P16: the processor runs its graph once per block, on the inputs given, with the clock of that block."""
from wrap import *
from send import getf, fields_of
from parts import root_local

PROC = "knaster_graph::processor::AudioProcessor"


def p28_run(ctx):
    F, g = anchors(ctx)
    a = F.adts.get(PROC)
    if a is None:
        raise Missing(PROC)
    pf = fields_of(F, PROC, {"node": lambda t: t.startswith("knaster_graph::node::Node<"), "ptrs": lambda t: "Vec<*const" in t, "out": lambda t: "RawContiguousBlock" in t,
                             "clock": lambda t: t == "u64", "bs": lambda t: t == "usize", "ctx": lambda t: t.endswith("AudioCtx"), "sr": lambda t: t == "u32",
                             "shared": lambda t: t.endswith("SharedFrameClock")})
    fc = fields_of(F, "knaster_core::ugen::BlockMetadata", {"c": lambda t: t == "u64"})["c"]
    own = lambda k: fld(A1, pf[k])
    n = 0
    for m in ("run", "run_raw_ptr_inputs"):
        f = getf(F, PROC + "::<F>::" + m)
        fl, E = flatten(ctx, f, lambda h, x: ITER(h, x) and not any(k in x.get("p", "") for k in ("process_block", "Seconds::")))
        S = Sites(g, fl, E, any_end=True)
        W = Where(F, S, E)
        bad, do, loops = [], {}, {}
        end = {"run", "clock", "tick", "shared"}
        procs = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "process_block"]
        if len(procs) != 1:
            raise Missing(f"the call that runs the graph in {m}")
        need = {"clock"}
        c = [canon(E.op(x)) for x in fl.blocks[procs[0]].t[2]]
        inp = dict(c[3][3]) if c[3][0] == "agg" and c[3][1].endswith("RawAggregateBlockRead") else {}
        src = own("ptrs") if m == "run" else A2
        if not any(x == own("node") for x in walk(c[0])) or c[1] != own("ctx") or c[4] != own("out"):
            bad.append(("graph", "the graph is not run with the processor's context into its output block"))
        if not any(strip_it(v) == src for v in inp.values()) or own("bs") not in inp.values() and not any(x == own("bs") for v in inp.values() for x in walk(v)):
            bad.append(("inputs", "the graph is not given the inputs of this block"))
        fl2 = c[2]
        if fl2[0] == "agg" and any(v not in (("k", False), ("k", 0)) and k != "remove_parent_from_frame_in_block" and "frame" not in k for k, v in fl2[3]) or fl2[0] in ("f", "arg"):
            bad.append(("flags", "the flags are not new for each block"))
        for b in fl.reachable():
            for s in fl.blocks[b].s:
                if s[0] != "=" or not any(x[0] in ("*", "i", "c") for x in s[1][1]):
                    continue
                p, v = canon(E.place(s[1])), canon(E.rvalue(s[2]))
                if p == own("clock"):
                    if v != ("bin", "Add", own("clock"), own("bs")) and v != ("bin", "Add", own("bs"), own("clock")):
                        bad.append(("tick", "the clock does not advance by one block"))
                    do[id(s)] = (None, "tick", frozenset({"run", "clock"}))
                elif p == fld(fld(own("ctx"), "block"), fc):
                    if v != own("clock"):
                        bad.append(("clock", "the block is run with another time than its own"))
                    do[id(s)] = (None, "clock", frozenset())
                elif (W.elem(p) or at_(p)) and m == "run":
                    r, q = W.elem(p), v
                    q = strip_it(q[2][0]) if q[0] == "call" and q[1] == "as_ptr" else None
                    d = at_(p)
                    if d is not None:
                        l = W.pos(d[1])
                        x = W.elem(uncast(d[1]))
                        if l is None and x is not None and x[1] == ("index",) and x[2] == []:
                            l = x[0]   # the position of an element of another container
                        dq = at_(q) if q is not None else None
                        rq = W.elem(q) if q is not None else None
                        good = d[0] == src and l is not None and (
                            dq == (A2, d[1]) and W.end(l) in (("call", "len", (A2,)), ("call", "len", (src,))) or
                            rq is not None and rq[0] == l and rq[1] == A2 and not rq[2])
                    else:
                        l = r[0]
                        rq = W.elem(q) if q is not None else None
                        dq = at_(q) if q is not None else None
                        good = r[1] == src and not r[2] and (rq is not None and rq[0] == l and rq[1] == A2 and not rq[2] or
                                                             dq is not None and dq[0] == A2 and same_pos(W, l, dq[1]))
                    if not good:
                        bad.append(("pointer", "an input of the graph is not the one given in its place"))
                    else:
                        do[id(s)] = (l, "ptr", frozenset())
                        loops[l] = (None, frozenset({"ptr"}))
                        need.add(("loop", l))
                else:
                    bad.append(("write", "something else is changed"))
            t = fl.blocks[b].t
            if t[0] == "call" and last(F, t[1]) in ("store", "swap") and "Atomic" in (F.insts[t[1]].get("p") or ""):
                x = [canon(E.op(q)) for q in t[2]]
                secs = [q for q in walk(x[1]) if q[0] == "call" and q[1] == "from_samples"]
                rate = lambda e: e == own("sr") or e[0] == "call" and e[1] in ("from", "into") and e[2][0] == own("sr")
                if not any(q == own("shared") for q in walk(x[0])) or len(secs) != 1 or not rate(secs[0][2][1]) or not (
                        secs[0][2][0] == own("clock") or same_as_clock(F, fl, E, own("clock"), secs[0][2][0])):
                    bad.append(("shared", "the time told to other threads is not that of the next block"))
                do[b] = (None, "shared", frozenset({"tick"}))
        do[procs[0]] = (None, "run", frozenset(need))
        if m == "run" and not loops and not bad:
            bad.append(("pointer", "the inputs given are not passed on"))
        vs = [(x, []) for x in bad]
        if not bad:
            w = Walker(fl, E)
            vs = list(w.run(Nest(w, S, do, loops, frozenset(end | need)), Nest.INIT))
            ctx.states += w.nstates
            # as many inputs as the graph has
            if not same_count(F, fl, E, src, m, own):
                vs.append((("count", "the number of inputs is not checked"), []))
        report(ctx, "run", m, f, fl, vs, None, "once per block, with its inputs and time")
        n += 1
    f = getf(F, PROC + "::<F>::run_without_inputs")
    fl, E = flatten(ctx, f, lambda h, x: ITER(h, x) and "run_raw_ptr_inputs" not in x.get("p", ""))
    cs = [[canon(E.op(x)) for x in fl.blocks[b].t[2]] for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "run_raw_ptr_inputs"]
    if len(cs) == 1 and cs[0][0] == A1:
        ctx.ok("run", f["path"], "run_raw_ptr_inputs")
        n += 1
    else:
        ctx.viol("run", "run_without_inputs", f"{f['path']}: the graph is not run once", where=loc(F, f["inst"], None))
    ctx.floor("run", n, 3)


def same_as_clock(F, fl, E, clock, v):
    """What is converted is the variable that was stored as the new clock."""
    new, conv = set(), set()
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[1][1] and canon(E.place(s[1])) == clock and s[2][0] == "use":
                new.add(root_local(fl, s[2][1]))
        t = fl.blocks[b].t
        if t[0] == "call" and last(F, t[1]) == "from_samples":
            conv.add(root_local(fl, t[2][0]))
    return len(new) == len(conv) == 1 and new == conv and None not in new


def same_count(F, fl, E, src, m, own):
    """A comparison of the number of inputs given that panics when it fails."""
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "switch":
            e = canon(E.op(t[1]))
            if e[0] == "bin" and e[1] in ("Eq", "Ne") and any(x == ("call", "len", (A2,)) for x in e[2:]):
                return True
    return False
