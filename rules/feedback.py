"""P25: a feedback pair delays by exactly one block.

The connections to and from the pair are P26's subject; that the pair is processed every block, in whatever order, is P10's and P28's."""
from wrap import *
from connect import makers

CLOCK, BS = "clock", "block size"
SIZES = (1, 2, 3, 16, 64, 100)
BLOCKS = range(0, 7)


def bare(e):
    """Numbers: without casts and conversions."""
    while True:
        if e[0] == "cast":
            e = e[2]
        elif e[0] == "call" and e[1].split("::")[-1] in ("from", "into", "clone", "cast", "cast_mut", "cast_const") and len(e[2]) == 1:
            e = e[2][0]
        else:
            return e


class Num:
    """Value of an expression over the clock and the block size."""

    def __init__(self, clock, size):
        self.clock, self.size = clock, size

    def val(self, e, n, bs):
        e = bare(e)
        if e in self.clock:
            return n * bs
        if e in self.size:
            return bs
        if e[0] == "k":
            return e[1] if isinstance(e[1], (int, bool)) else None
        if e[0] == "bin":
            a, b = self.val(e[2], n, bs), self.val(e[3], n, bs)
            if a is None or b is None:
                return None
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b, "Rem": lambda: a % b,
                        "BitAnd": lambda: a & b, "BitXor": lambda: a ^ b, "BitOr": lambda: a | b, "Shr": lambda: a >> b, "Shl": lambda: a << b,
                        "Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b,
                        "Ge": lambda: a >= b}[e[1]]()
            except (KeyError, ZeroDivisionError):
                return None
        if e[0] == "un" and e[1] == "Not":
            a = self.val(e[2], n, bs)
            return (not a) if isinstance(a, bool) else None
        if e[0] == "call":
            xs = [self.val(x, n, bs) for x in e[2]]
            m = e[1].split("::")[-1]
            if None not in xs and m in ("is_multiple_of", "wrapping_rem", "rem_euclid", "wrapping_div", "div_euclid", "wrapping_sub", "wrapping_add", "wrapping_mul") and xs[1]:
                a, b = xs
                return {"is_multiple_of": a % b == 0, "wrapping_rem": a % b, "rem_euclid": a % b, "wrapping_div": a // b, "div_euclid": a // b,
                        "wrapping_sub": a - b, "wrapping_add": a + b, "wrapping_mul": a * b}[m]
        return None

    def holds(self, f, n, bs):
        if f[0] in ("true", "false"):
            a = self.val(f[1], n, bs)
            return None if a is None else bool(a) == (f[0] == "true")
        if f[0] in ("Eq", "Ne", "Lt", "Le"):
            a, b = self.val(f[1], n, bs), self.val(f[2], n, bs)
            if a is None or b is None:
                return None
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b}[f[0]]
        return None


def whole(e, bufs):
    """index of the stored buffer e is the whole of"""
    def buf(x):
        x = strip_it(x)
        if x[0] == "f":
            d = at_(x[1])
            if d is None and x[1][0] == "call" and x[1][1] in ("get_unchecked", "get_unchecked_mut"):
                d = x[1][2]
            if d is not None and d[0] == bufs:
                return d[1]
        return None
    e = strip_it(e)
    if e[0] == "call" and e[1].split("::")[-1] in ("from_raw_parts_mut", "from_raw_parts", "slice_from_raw_parts_mut", "slice_from_raw_parts"):
        p, n = bare(e[2][0]), e[2][1]
        if p[0] == "call" and p[1] in ("as_ptr", "as_mut_ptr"):
            p = p[2][0]
        i = buf(p)
        n = strip_it(n)
        if i is not None and (n[0] == "call" and n[1] == "len" and buf(n[2][0]) == i or n in SIZE):
            return i
        return None
    return buf(e)


CTXBS = fld(A2, "block_size")
SIZE = [CTXBS, ("call", "block_size", (A2,))]


def chan(e, base):
    e = strip_it(e)
    return e[0] == "call" and e[1].split("::")[-1] in ("channel_as_slice", "channel_as_slice_mut") and e[2] == (base, ("k", 0))


def p25_delay(ctx):
    F, g = anchors(ctx)
    make = makers(ctx, F, g)[1]
    fl, E = flatten(ctx, make, ITER)
    halves = {}
    one = "typenum::uint::UInt<typenum::uint::UTerm, typenum::bit::B1>"
    for i in F.impls:
        if i.get("trait") == UG[:-2] and i.get("adt"):
            ty = {x[0]: x[3] for x in i["items"] if x[3]}
            halves[i["adt"]] = (i, ty.get("Inputs") == one and ty.get("Outputs") != one, ty.get("Outputs") == one and ty.get("Inputs") != one)
    made = {}
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[2][0] == "agg":
                c = canon(E.rvalue(s[2]))
                if c[0] == "agg" and c[1] in halves:
                    made.setdefault(c[1], []).append(c)
    sinks = [a for a in made if halves[a][1]]
    sources = [a for a in made if halves[a][2]]
    if len(sinks) != 1 or len(sources) != 1 or any(len(x) != 1 for x in made.values()):
        raise Missing("the two halves of a feedback pair")
    sink, source = sinks[0], sources[0]
    p25_fresh(ctx, F, g, make, fl, E, made, sink, source)
    clocks = [("f", ("f", A2, a), b) for a in fieldnames(F, "knaster_core::ugen::AudioCtx") for b in fieldnames(F, "knaster_core::ugen::BlockMetadata", "u64")]
    N = Num(clocks + [("call", "frame_clock", (A2,))], SIZE)
    maps = {}
    for adt, name in ((sink, "sink"), (source, "source")):
        f = F.fn.get({x[0]: x[1] for x in halves[adt][0]["items"]}.get("process_block"))
        if f is None or "inst" not in f:
            raise Missing(f"the block processing of the feedback {name}")
        bf = [n for n, v in made[adt][0][3] if v[0] == "call" and v[1] == "new"]
        if len(bf) != 1:
            raise Missing(f"the buffers of the feedback {name}")
        maps[name] = half(ctx, F, g, f, name, fld(A1, bf[0]), N)
    W, R = maps["sink"], maps["source"]
    bad = None
    for bs in SIZES:
        for n in BLOCKS:
            w, r = W.get((n, bs)), R.get((n, bs))
            if w is None or r is None:
                continue
            if not (w in (0, 1) and r in (0, 1)):
                bad = bad or f"block {n} of {bs} frames uses a buffer outside the pair ({w}, {r})"
            elif w == r:
                bad = bad or f"block {n} of {bs} frames is stored in the buffer that is read in the same block"
            elif n and W.get((n - 1, bs)) != r:
                bad = bad or f"block {n} of {bs} frames reads another buffer than block {n - 1} was stored in"
    if W and R and len(W) == len(R) == len(SIZES) * len(BLOCKS):
        if bad:
            ctx.viol("delay", "alternate", f"the two halves of a feedback pair do not delay by one block: {bad}", where=loc(F, make["inst"], None))
        else:
            ctx.ok("delay", "write and read index", f"{len(W)} (block, size) pairs: read(n) = write(n-1) != write(n)")
    ctx.floor("delay", 1 if W and R else 0, 1)


def fieldnames(F, adt, ty=None):
    a = F.adts.get(adt)
    if a is None:
        raise Missing(adt)
    return [f["name"] for f in a["variants"][0]["fields"] if ty is None or F.ts(f["ty"]) == ty]


def half(ctx, F, g, f, name, bufs, N):
    """One half: a whole block is copied, once, between channel 0 and one of the two buffers. -> {(n, bs): index}"""
    fl, E = flatten(ctx, f, ITER)
    ch = A4 if name == "sink" else A5
    COPY = ("copy_from_slice", "clone_from_slice")
    S = Sites(g, fl, E, any_end=True)
    loops = [b for b in S.at]
    out = {}

    def judge(fs, dst, src):
        a, b = (dst, src) if name == "sink" else (src, dst)
        i = whole(a, bufs)
        if i is None:
            return ("buffer", f"the block is {'stored in' if name == 'sink' else 'read from'} something else than one whole buffer of the pair")
        if not chan(b, ch):
            return ("channel", "the block copied is not the whole channel")
        got = False
        for bs in SIZES:
            for n in BLOCKS:
                if any(N.holds(q, n, bs) is False for q in fs):
                    continue
                v = N.val(i, n, bs)
                if v is None:
                    return ("index", "which buffer is used does not depend on the clock alone")
                if out.setdefault((n, bs), v) != v:
                    return ("index", "the buffer used in a block is not determined by the clock")
                got = True
        return None

    if loops:
        # sample by sample
        W = Where(F, S, E)
        bad, do, lp = [], {}, {}
        for b in fl.reachable():
            for s in fl.blocks[b].s:
                if s[0] != "=" or not any(x[0] in ("*", "i", "c") for x in s[1][1]):
                    continue
                p, v = canon(E.place(s[1])), canon(E.rvalue(s[2]))
                if at_(p) is not None and at_(v) is not None:
                    (d, i), (c, j) = at_(p), at_(v)
                    l = W.pos(i)
                    if l is None or uncast(i) != uncast(j):
                        bad.append(("order", "the samples are not copied in order"))
                        continue
                    e = W.end(l)
                    if not (e in SIZE or e[0] == "call" and e[1] == "len" and (chan(e[2][0], ch) or whole(e[2][0], bufs) is not None)):
                        bad.append(("length", "not the whole block is copied"))
                else:
                    x, y = W.elem(p), W.elem(v)
                    if x is None or y is None or x[0] != y[0] or x[2] or y[2]:
                        bad.append(("write", "something else is written"))
                        continue
                    l, d, c = x[0], x[1], y[1]
                r = judge((), d, c)
                if r:
                    bad.append(r)
                do[id(s)] = (l, "copy", frozenset())
                lp[l] = (None, frozenset({"copy"}))
        if len(lp) != 1:
            bad.append(("copy", "the block is not copied exactly once"))
        vs = [(x, []) for x in bad]
        if not bad:
            w = Walker(fl, E)
            nest = Nest(w, S, do, lp, frozenset({("loop", l) for l in lp}))
            nest.fine = frozenset({"from_raw_parts_mut", "from_raw_parts", "channel_as_slice"})
            vs = list(w.run(nest, Nest.INIT))
            ctx.states += w.nstates
    else:
        npaths = [0]

        def at(fs, eff, v, var):
            cs = [x for x in eff if x[0] == "call" and x[1] in COPY]
            if any(x[0] == "write" for x in eff):
                return ("write", "something else is written")
            if len(cs) != 1:
                return ("copy", "the block is not copied exactly once")
            npaths[0] += 1
            return judge(fs, *cs[0][2])

        vs = ordered(ctx, fl, E, lambda t: last(F, t[1]) if last(F, t[1]) in COPY or last(F, t[1]) in ("fill", "copy_within", "swap_with_slice", "rotate_left", "rotate_right", "reverse", "swap") else None, at)
        n = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) in
             ("fill", "copy_within", "swap_with_slice", "rotate_left", "rotate_right", "reverse", "swap")]
        if n:
            vs = list(vs) + [(("write", "the block is changed beside being copied"), [])]
    report(ctx, "half", name, f, fl, vs, None, "one whole block per call, between channel 0 and the buffer chosen by the clock")
    if not vs and len(out) != len(SIZES) * len(BLOCKS):
        ctx.viol("half", f"{name}: clock", f"{f['path']}: which buffer is used is not known for every block", where=loc(F, f["inst"], None))
    return {} if vs else out


def p25_fresh(ctx, F, g, make, fl, E, made, sink, source):
    """Each pair has its own two zeroed buffers of one block, shared by its two halves, which are removed together."""
    bad = []
    fl, E = flatten(ctx, make, lambda h, x: ITER(h, x) and "push" not in x.get("p", ""))
    bfs = {a: [v for n, v in made[a][0][3] if v[0] == "call" and v[1] == "new"] for a in (sink, source)}
    if any(len(v) != 1 for v in bfs.values()) or bfs[sink] != bfs[source]:
        bad.append(("shared", "the two halves do not share their buffers"))
    arcs = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and (F.insts[fl.blocks[b].t[1]].get("p") or "").endswith("::Arc::<T>::new")]
    if len(arcs) != 1:
        bad.append(("shared", "the buffers are not made once per pair"))
    own = [c for v in bfs.values() for e in v for c in walk(e) if c[0] == "call" and c[1] == "from_elem"]
    allocs = [fl.blocks[b].t for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "from_elem"]
    for t in allocs:
        z, n = canon(E.op(t[2][0])), canon(E.op(t[2][1]))
        if not (z in (("k", 0.0), ("k", "0.0"), ("k", 0))) or n not in [fld(A1, x) for x in fieldnames(F, "knaster_graph::graph::Graph", "usize")]:
            bad.append(("zero", "the buffers do not start as one silent block"))
    if not own:
        raise Missing("the buffers of a feedback pair")
    arr = [c for v in bfs.values() for e in v for c in walk(e) if c[0] == "agg" and c[1] == "array"]
    if len(allocs) != 2 or not arr or any(len(a[3]) != 2 for a in arr):
        bad.append(("two", "a pair does not have two buffers of its own"))
    # removed together
    sd = fieldnames(F, "knaster_graph::node::Node", "core::option::Option<knaster_graph::graph::NodeKey>")
    free = g.m("free_node_from_key")
    names = {}

    def which(e):
        c = [x for x in walk(e) if x[0] == "agg" and x[1] in (sink, source)]
        return {x[1] for x in c}

    def at(fs, eff, v, var):
        ws = [(p, x) for k, p, x, *_ in eff if k == "write" and p[0] == "f" and p[2] in sd]
        got = set()
        for p, x in ws:
            o, t = which(p), which(x)
            if len(o) != 1 or len(t) != 1 or o == t or some(x) is None:
                return ("partner", "the partner of a half of a feedback pair is not the other half")
            got |= o
        if got != {sink, source}:
            return ("partner", "a half of a feedback pair does not know the other half")
        if v[0] != "agg" or len(v[3]) != 2 or which(v[3][0][1]) != {source} or which(v[3][1][1]) != {sink}:
            return ("result", "the keys returned are not those of the source and the sink")
        return None

    if not sd:
        bad.append(("partner", "the halves of a feedback pair do not know each other"))
    vs = ordered(ctx, fl, E, lambda t: None, at, purge=False) if sd else []
    report(ctx, "pair", "new pair", make, fl, [(x, []) for x in bad] + list(vs), None, "own zeroed buffers of a block, shared; each half knows the other")
    # freeing one half frees the other
    fl3, E3 = flatten(ctx, free, ITER)
    w = Walker(fl3, E3)
    vs = list(w.run(Together(w, F, fl3, E3, sd, free["name"]), frozenset())) if sd else []
    ctx.states += w.nstates
    report(ctx, "together", "freeing", free, fl3, vs, None, "the other half is freed as well")


class Together(Monitor):
    def __init__(self, w, F, fl, E, sd, free):
        super().__init__(w)
        self.F, self.fl, self.E, self.sd, self.free = F, fl, E, sd, free
        self.facts = FactMon(w)

    def term(self, st, b, t, env):
        if t[0] == "call":
            n = last(self.F, t[1])
            if n == self.free and any(fld_chain(canon(self.E.op(a))) in self.sd for a in t[2]):
                st = st | {"free"}
            if n == "push" and any("Atomic" in self.F.ts(self.fl.ltypes[a[1][0]]) for a in t[2] if a[0] != "k"):
                st = st | {"push"}
        if t[0] == "ret":
            if "push" in st and not st & {"free", "none"}:
                self.w.viol(("together", "freeing one half of a feedback pair leaves the other half in the graph"))
            return None
        return st

    def edge(self, st, b, o, v, other, vals):
        for f in self.facts.edge((frozenset(), None), b, o, v, other, vals)[0]:
            if f[0] in ("is", "isnot") and f[1][0] == "f" and f[1][2] in self.sd and (f[0], f[2]) in (("is", "None"), ("isnot", "Some")):
                st = st | {"none"}
        return st


def fld_chain(e):
    p = payload(e)
    p = payload_any(e) if p is None else p
    return p[2] if p is not None and p[0] == "f" else None


def payload_any(e):
    return e[1][1] if e[0] == "f" and e[1][0] == "v" and e[1][2] == "Some" else None
