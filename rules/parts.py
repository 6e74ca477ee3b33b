"""P17: a wrapper that produces a block in parts: consecutive, complete, described as they are."""
from wrap import *
from iters import PathExprs
from done import canon_loc
from send import getf, fields_of, go

BLK = "knaster_primitives::block::"
META = "knaster_core::ugen::BlockMetadata"


def meta(F):
    a = F.adts.get(META)
    names = [f["name"] for f in a["variants"][0]["fields"]]
    off = [n for n in names if "offset" in n]
    fr = [n for n in names if "frames" in n]
    ck = [n for n in names if "clock" in n]
    if len(off) != 1 or len(fr) != 1 or len(ck) != 1:
        raise Missing("the description of a block")
    return off[0], fr[0], ck[0]


def p17_meta(ctx):
    """Describing a part of a block; the parts of blocks."""
    F = ctx.facts()
    off, fr, ck = meta(F)
    n = 0

    def single(f, ok, msg, text, pol=lambda f, x: False):
        fl, E = flatten(ctx, f, pol)
        out = []

        def at(facts, eff, v, var):
            out.append(1)
            if not ok(v, eff):
                return "value", msg
        vs = ordered(ctx, fl, E, lambda t: last(F, t[1]) if last(F, t[1]) in ("write", "channel_as_slice_mut") else None, at, purge=False, parts=(META,))
        if not out:
            raise Missing(f["path"])
        report(ctx, "part", short(f["path"]), f, fl, vs, None, text)

    def add(e, a, b):
        return e in (("bin", "Add", a, b), ("bin", "Add", b, a))
    f = getf(F, META + "::make_partial")

    def okm(v, eff):
        if v[0] != "agg" or v[1] != META or eff:
            return False
        d = dict(v[3])
        return add(d[off], fld(A1, off), A2) and d[fr] == A3 and add(d[ck], fld(A1, ck), A2)
    single(f, okm, "a part of a block is not described by its position and length", "offset and clock moved by the start, the length given")
    for m, name, want in ((META + "::frames_to_process", fr, fld(A1, fr)), (META + "::block_start_offset", off, fld(A1, off)), (META + "::frame_clock", ck, fld(A1, ck))):
        single(getf(F, m), lambda v, eff, want=want: v == want and not eff, "the description of a block is not read as it is", name)
        n += 1
    bf = fields_of(F, "knaster_core::ugen::AudioCtx", {"b": lambda t: t == META})["b"]
    for m, name in (("frames_to_process", fr), ("block_start_offset", off), ("frame_clock", ck)):
        single(getf(F, "knaster_core::ugen::AudioCtx::" + m), lambda v, eff, name=name: v == fld(fld(A1, bf), name) and not eff,
               "the description of a block is not read as it is", name, lambda f, x: META in x.get("p", ""))
    full = getf(F, META + "::new")
    single(full, lambda v, eff: v[0] == "agg" and dict(v[3]) == {off: ("k", 0), fr: A1, ck: ("k", 0)} and not eff, "a full block is not described as one", "all frames, from the start")
    # the parts
    n = 0
    for ty in ("PartialBlock", "PartialBlockMut"):
        a = F.adts.get(BLK + ty)
        if a is None:
            raise Missing(ty)
        fs = [x["name"] for x in a["variants"][0]["fields"]]
        so, ln, bl = [x for x in fs if "offset" in x or "start" in x], [x for x in fs if "len" in x], [x["name"] for x in a["variants"][0]["fields"] if F.ts(x["ty"]) != "usize"]
        if len(so) != 1 or len(ln) != 1 or len(bl) != 1:
            raise Missing(f"the fields of {ty}")
        so, ln, bl = fld(A1, so[0]), fld(A1, ln[0]), fld(A1, bl[0])
        def one_slice(e):
            """x.split_at(a).1[..n] and x[a..][..n] as x[a..a + n]."""
            if not (e[0] == "call" and e[1] in ("index", "index_mut") and len(e[2]) == 2 and e[2][1][0] == "agg"):
                return e
            to = dict(e[2][1][3])
            x = e[2][0]
            while x[0] in ("&", "*"):
                x = x[1]
            if set(to) == {"end"} and "Inclusive" not in e[2][1][1]:
                base = start = None
                if x[0] == "f" and x[2] == "1" and x[1][0] == "call" and x[1][1] in ("split_at", "split_at_mut"):
                    base, start = x[1][2]
                elif x[0] == "call" and x[1] in ("index", "index_mut") and x[2][1][0] == "agg" and [k for k, _ in x[2][1][3]] == ["start"]:
                    base, start = x[2][0], x[2][1][3][0][1]
                if base is not None:
                    a = "core::ops::range::Range"
                    return ("call", e[1], (base, ("agg", a, "Range", (("start", start), ("end", ("bin", "Add", start, to["end"]))))))
            return e
        rng = lambda e: e[0] == "agg" and "Range" in e[1] and (lambda d: d.get("start") == so and add(d.get("end", A2), so, ln))(dict(e[3]))

        def sl(e, m):
            e = one_slice(e)
            return e[0] == "call" and e[1] in ("index", "index_mut", "get_unchecked", "get_unchecked_mut") and rng(e[2][1]) and e[2][0][0] == "call" and e[2][0][1] == m and e[2][0][2] == (bl, A2)
        want = {
            "channel_as_slice": lambda v, eff: sl(v, "channel_as_slice") and not eff,
            "channel_as_slice_mut": lambda v, eff: sl(v, "channel_as_slice_mut"),
            "read": lambda v, eff: v[0] == "call" and v[1] == "read" and v[2][:2] == (bl, A2) and add(v[2][2], A3, so) and not eff,
            "write": lambda v, eff: len(eff) == 1 and (lambda c: c[0] == "call" and c[2][:3] == (bl, A2, A3) and add(c[2][3], A4, so))(list(eff)[0]),
            "channels": lambda v, eff: v == ("call", "channels", (bl,)) and not eff,
            "block_size": lambda v, eff: v == ln and not eff}
        for f in F.fns:
            if "inst" in f and f["path"].startswith(f"<{BLK}{ty}<") and f["name"] in want:
                single(f, want[f["name"]], "the part of the block is not the one described", "that part of the block")
                n += 1
    made = {"PartialBlock": ["PartialBlock::<'a, F, T>::from_block", "block::Block::partial"], "PartialBlockMut": ["block::Block::partial_mut"]}
    for ty, ms in made.items():
        a = F.adts[BLK + ty]["variants"][0]["fields"]
        for m in ms:
            fs = [f for f in F.fns if f["path"].endswith(m) and "inst" in f]
            if len(fs) != 1:
                raise Missing(m)

            def okp(v, eff, a=a):
                if v[0] != "agg" or not v[1].endswith("::" + ty) or eff:
                    return False
                d = dict(v[3])
                return all(d[x["name"]] == (A2 if "offset" in x["name"] or "start" in x["name"] else A3 if F.ts(x["ty"]) == "usize" else A1) for x in a)
            single(fs[0], okp, "the part made is not the one asked for", "the part asked for")
            n += 1
    ctx.floor("part", n, 13)


def short(p):
    return p.replace("knaster_primitives::", "").replace("knaster_core::", "")[:90]


def root_local(fl, o):
    """The variable an operand is a copy of."""
    for _ in range(10):
        if o[0] not in ("cp", "mv") or o[1][1]:
            return None
        l = o[1][0]
        ds = fl.defs().get(l, ())
        if len(ds) != 1 or ds[0][1] == "call" or ds[0][2][0] != "use":
            return l
        if ds[0][2][1][0] == "k" or ds[0][2][1][1][1]:
            return l
        o = ds[0][2][1]
    return None


def p17_parts(ctx):
    F, g = anchors(ctx)
    off, fr, ck = meta(F)
    bf = fields_of(F, "knaster_core::ugen::AudioCtx", {"b": lambda t: t == META})["b"]
    BLOCK = fld(A2, bf)
    FRAMES = fld(BLOCK, fr)
    n = 0
    for w in wrappers(F):
        f = method(F, w, "process_block")
        if f is None:
            continue
        # only those that make parts
        pol = lambda h, x: ITER(h, x) and not any(k in x.get("p", "") for k in ("process_block", "make_partial", "from_block", "::partial", "ArLog", "param_apply", "next_value", "has_new_ar"))
        fl, E = flatten(ctx, f, pol)
        calls = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) == "process_block"]
        parts = any(fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) in ("make_partial", "from_block", "partial", "partial_mut") for b in fl.reachable())
        touches = any(s[0] == "=" and s[1][1] and fld_in(canon(E.place(s[1])), BLOCK) for b in fl.reachable() for s in fl.blocks[b].s)
        if not parts and not touches and len(calls) <= 1:
            continue
        n += 1
        vs = check_parts(ctx, F, g, f, fl, E, calls, BLOCK, FRAMES)
        report(ctx, "parts", w.name, f, fl, vs, None, "consecutive, complete, described")
    ctx.floor("parts", n, 2)


def fld_in(p, base):
    while True:
        if p == base:
            return True
        if p[0] != "f":
            return False
        p = p[1]


def check_parts(ctx, F, g, f, fl, E, calls, BLOCK, FRAMES):
    S = Sites(g, fl, E, any_end=True)
    W = Where(F, S, E)
    # the cursor: what parts start at
    cur = set()
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and last(F, t[1]) in ("from_block", "partial", "partial_mut", "make_partial"):
            l = root_local(fl, t[2][1])
            if l is None:
                return [(("start", "where a part starts is not a position kept from part to part"), [])]
            cur.add(l)
    if len(cur) != 1:
        return [(("start", "a part of the input, of the output and its description do not start at the same position"), [])]
    cur = cur.pop()
    CUR = canon(E.local(cur))
    loop = W.idx.get(CUR)
    if loop is not None and S.at[loop].call is None:
        loop = None  # counted by hand
    inits = []
    for d in fl.defs().get(cur, ()):
        e = canon(E.rv(d))
        if d[0] == () and e[0] == "k":
            inits.append(e)
    if loop is None and inits != [("k", 0)]:
        return [(("start", "the first part does not start at the beginning"), [])]

    class P(Monitor):
        """(phase, description, facts): phase new / cur / ("pend", L) / all; description org / ("part", L)."""

        def __init__(self, w):
            super().__init__(w)
            self.facts = FactMon(w)

        def edge(self, st, b, o, v, other, vals):
            ph, blk, facts = st
            oc = S.outcome(self.w, b, o, v, other) if loop is not None else None
            if oc and oc[0].b == loop:
                if oc[1] == "Some":
                    if isinstance(ph, tuple):
                        if ph[1] != ("k", 1):
                            self.w.viol(("step", "the next part does not start where the last one ended"))
                            return None
                        ph = "cur"
                    elif ph == "cur":
                        self.w.viol(("skipped", "frames are skipped"))
                        return None
                    return ("cur" if ph == "new" else ph, blk, frozenset([("Lt", CUR, W.end(loop))]))
                if W.end(loop) != FRAMES:
                    self.w.viol(("end", "the parts do not reach the end of the block"))
                    return None
                return ("all" if isinstance(ph, tuple) and ph[1] == ("k", 1) or ph == "new" else ph, blk, facts)
            new = self.facts.edge((frozenset(), None), b, o, v, other, vals)[0]
            return (ph, blk, frozenset(x for x in facts | new if self.keep(x)))

        def keep(self, q):
            return q[0] in ("Lt", "Le", "Eq") and any(x in (FRAMES, CUR) or x[0] == "k" for x in q[1:])

        def bounded(self, L, facts):
            """L frames from the cursor on are within the block."""
            if L == ("bin", "Sub", FRAMES, CUR):
                return True
            if L[0] == "phi":
                return all(self.bounded(x, facts) for x in L[1])
            if L[0] == "call" and L[1] == "min" and len(L[2]) == 2:
                return any(self.bounded(x, facts) or x[0] == "loc" for x in L[2])
            if L == ("k", 1):
                return ("Lt", CUR, FRAMES) in facts or any(q[0] == "Ne" and set(q[1:]) == {CUR, FRAMES} for q in facts)
            return False

        def stmt(self, st, b, s):
            ph, blk, facts = st
            if s[0] != "=":
                return st
            place = s[1]
            # reads of the description
            for o in operands(s[2]):
                p = o[1] if o[0] in ("cp", "mv") else o if isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], int) else None
                if p is not None and blk != "org" and self.live(p):
                    self.w.viol(("read", "the description of a part is taken for that of the block"))
                    return None
            if place[1] and fld_in(canon(self.w.E.place(place)), BLOCK) and self.live(place):
                p, v = canon(self.w.E.place(place)), canon(self.w.E.rvalue(s[2]))
                if p != BLOCK:
                    self.w.viol(("describe", "the description of the block is changed in part"))
                    return None
                return (ph, self.described(v), facts)
            if place == (cur, ()) or place[0] == cur and not place[1]:
                v = canon(self.w.E.rvalue(s[2]))
                if v[0] == "k":
                    return ("new" if ph == "new" else "bad", blk, frozenset())
                if not (v[0] == "bin" and v[1] == "Add"):
                    self.w.viol(("step", "the next part does not start where the last one ended"))
                    return None
                a, c = v[2], v[3]
                isc = lambda e: e in (CUR, ("loc", cur))
                L = c if isc(a) else a if isc(c) else None
                if L is None or not isinstance(ph, tuple) or L != ph[1]:
                    self.w.viol(("step", "the next part does not start where the last one ended"))
                    return None
                # what was at most the rest of the block leaves the cursor at most at its end
                return ("cur", blk, frozenset(q for q in facts if not any(x == CUR for y in q[1:] if isinstance(y, tuple) for x in walk(y))))
            return st

        def live(self, p):
            """The place is in the context itself, not in a copy of the description."""
            if not p[1] or p[1][0][0] != "*":
                return False
            l = canon_loc(fl, self.w.E, ("cp", (p[0], ())))
            # a reference to the context, or into it
            e = canon(self.w.E.local(p[0]))
            if not fld_in(canon(self.w.E.place(p)), BLOCK):
                return False
            r = p[0]
            for _ in range(10):
                ds = fl.defs().get(r, ())
                whole = [d for d in ds if d[0] == ()]
                if r == 2 or len(whole) != 1 or whole[0][1] == "call":
                    break
                x = whole[0][2]
                if x[0] in ("ref", "refmut", "rawptr"):
                    q = x[1]
                elif x[0] == "use" and x[1][0] in ("cp", "mv"):
                    q = x[1][1]
                else:
                    break
                if q[1] and q[1][0][0] != "*":
                    return False
                if not q[1] and x[0] != "use":
                    return False  # a local variable
                r = q[0]
            return r == 2

        def described(self, v):
            if v == BLOCK:
                return "org"
            if v[0] == "call" and v[1] == "make_partial" and v[2][0] == BLOCK and v[2][1] == CUR:
                return ("part", v[2][2])
            return "other"

        def term(self, st, b, t, env):
            ph, blk, facts = st
            if t[0] == "call" and last(F, t[1]) == "make_partial" and blk != "org":
                l = canon_loc(fl, self.w.E, t[2][0])
                if l is None or self.live((t[2][0][1][0], (("*",),))):
                    self.w.viol(("nested", "a part of the block is described relative to another part"))
                    return None
            if b in calls:
                a = [canon(self.w.E.op(x)) for x in t[2]]
                if a[1] != A2 or a[2] != A3:
                    self.w.viol(("context", "the node is not given the context and flags"))
                    return None
                if isinstance(ph, tuple) or ph in ("all", "bad"):
                    self.w.viol(("again", "frames are produced twice"))
                    return None
                if a[3] == A4 and a[4] == A5:
                    if blk != "org":
                        self.w.viol(("describe", "the whole block is described as a part"))
                        return None
                    if ph != "new":
                        whole = any(q[0] == "Eq" and FRAMES in q[1:] and any(x != FRAMES and self.bounded(x, facts) for x in q[1:]) for q in facts) or (
                            ("Eq", CUR, ("k", 0)) in facts or ("Eq", ("k", 0), CUR) in facts)
                        if not whole:
                            self.w.viol(("whole", "the whole block is produced although a part of it was already"))
                            return None
                        # all frames from the first: the length is that of the block
                        L = [x for q in facts if q[0] == "Eq" and FRAMES in q[1:] for x in q[1:] if x != FRAMES]
                        return (("pend", L[0]) if L else "all", blk, facts)
                    L = [x for q in facts if q[0] == "Eq" and FRAMES in q[1:] for x in q[1:] if x != FRAMES]
                    return (("pend", L[0]) if L else "all", blk, facts)
                i, o = part_of(a[3], A4), part_of(a[4], A5)
                if i is None or o is None:
                    self.w.viol(("part", "the node is given something else than a part of the input and output"))
                    return None
                if i != o or blk != ("part", i[1]) or i[0] != CUR:
                    self.w.viol(("part", "the parts of the input and output are not the frames described to the node"))
                    return None
                if not self.bounded(i[1], facts):
                    self.w.viol(("outside", "a part can reach past the end of the block"))
                    return None
                return (("pend", i[1]), blk, facts)
            if t[0] == "ret":
                done = ph == "all" or isinstance(ph, tuple) and (ph[1] == ("bin", "Sub", FRAMES, CUR) or ph[1] == FRAMES) or ph in ("cur", "new") and (
                    ("Le", FRAMES, CUR) in facts or ("Eq", FRAMES, CUR) in facts or ("Eq", CUR, FRAMES) in facts)
                if not done:
                    self.w.viol(("rest", "the block is not produced to its end"))
                elif blk != "org":
                    self.w.viol(("restore", "the description of the block is not left as it was found"))
                return None
            return st
    w = Walker(fl, E)
    vs = list(w.run(P(w), ("new", "org", frozenset())))
    ctx.states += w.nstates
    return vs


def operands(r):
    if r[0] == "use":
        return [r[1]]
    if r[0] in ("bin",):
        return [r[2], r[3]]
    if r[0] in ("un", "cast"):
        return [r[2]]
    if r[0] == "agg":
        return list(r[2])
    return []


def part_of(e, whole):
    """(start, length) when e is a part of the block."""
    if e[0] == "call" and e[1] in ("from_block", "partial", "partial_mut") and e[2][0] == whole:
        return e[2][1], e[2][2]
    if e[0] == "agg" and e[1].split("::")[-1].startswith("PartialBlock"):
        d = dict(e[3])
        b = [v for k, v in d.items() if v == whole]
        s = [v for k, v in d.items() if "offset" in k or "start" in k]
        n = [v for k, v in d.items() if "len" in k]
        if b and len(s) == 1 and len(n) == 1:
            return s[0], n[0]
    return None
