"""P18: accessors of blocks and buffers stay inside of the memory they are for, and mean the same sample."""
import re
from wrap import *
from iters import PathExprs, ITER
from linear import Arith, Lin
from log import OnPath, seg_paths

SCOPE = ("knaster_primitives::", "knaster_core::", "knaster_core_dsp::", "knaster_graph::block::", "knaster_graph::graph::OwnedRawBuffer")
BLOCKT = "knaster_primitives::block::Block"
READT = "knaster_primitives::block::BlockRead"
# their memory is not addressed by channel and frame: audio rate parameters (P11, P28)
OTHER = ("WrArParams",)
PADD = ("add", "offset", "wrapping_add", "wrapping_offset")
UNCHECKED = ("get_unchecked", "get_unchecked_mut")
PARTS = ("from_raw_parts", "from_raw_parts_mut")
PMEM = ("read", "write", "replace", "read_volatile", "write_volatile", "read_unaligned", "write_unaligned", "as_ref", "as_mut", "swap",
        "copy_from", "copy_to", "copy_from_nonoverlapping", "copy_to_nonoverlapping", "write_bytes")
IDX = ("index", "index_mut", "[]") + UNCHECKED
ASPTR = ("as_ptr", "as_mut_ptr")


def raw(F, ty):
    k = F.types[ty]["k"]
    return k in ("ptr", "ptrmut")


def thin(F, ty):
    """a raw pointer to samples, or to memory indexed like samples"""
    return raw(F, ty) and F.types[F.types[ty]["a"][0]]["k"] not in ("dyn", "slice", "str")


def in_scope(f):
    p = f["path"].lstrip("<&")
    return p.startswith(SCOPE) and not any(o in f["path"] for o in OTHER)


_pol = {}


def policy(F):
    """helpers of the accessors are part of them"""
    if id(F) not in _pol:
        own = {f["inst"] for f in F.fns if "inst" in f and in_scope(f) and f.get("vis") != "Public"}
        ids = {F.insts[i]["p"] for i in own}
        _pol[id(F)] = lambda g, x: x.get("ws", False) and x.get("p") in ids
    return _pol[id(F)]


def policy_of(F, f):
    """.. and so are the other accessors of the same block"""
    adt = f.get("impl_adt") or f.get("adt")
    k = (id(F), adt)
    if k not in _pol:
        own = {it[1] for im in F.impls if adt and im.get("adt") == adt and im.get("trait") in (BLOCKT, READT) for it in im["items"]}
        base = policy(F)
        _pol[k] = lambda g, x: base(g, x) or x.get("ws", False) and x.get("p") in own
    return _pol[k]


def rawops(F, fl, b):
    """raw memory operations of block b: (kind, operands)"""
    out = []
    blk = fl.blocks[b]

    def place(pl):
        if pl[1] and pl[1][0] == ("*",) and thin(F, fl.ltypes[pl[0]]):
            out.append(("deref", pl[0]))

    for s in blk.s:
        if s[0] != "=":
            continue
        place(s[1])
        r = s[2]
        if r[0] in ("ref", "refmut", "rawptr", "discr", "len"):
            if not (r[0] == "rawptr" and r[1][1] == (("*",),)):
                place(r[1])
        for o in (r[2] if r[0] == "agg" else r[1:]):
            if isinstance(o, tuple) and len(o) == 3 and o[0] in ("cp", "mv"):
                place(o[1])
    t = blk.t
    if t[0] == "call":
        p = F.insts[t[1]].get("p") or ""
        n = p.split("::")[-1]
        if n in PADD and "::ptr::" in p and gives(F, fl):
            out.append(("pointer", t))
        if n in UNCHECKED or n in PARTS and "slice" in p or n in PMEM and ("::ptr::" in p or "intrinsics" in p):
            out.append((n, t))
        for a in t[2]:
            if a[0] != "k":
                place(a[1])
    return out


def plain(e):
    """the length of a channel is the same for reading and writing"""
    if e[0] == "call" and e[1] == "len" and e[2] and e[2][0][0] == "call" and e[2][0][1] == "channel_as_slice_mut":
        return ("call", "len", (("call", "channel_as_slice", e[2][0][2]),))
    return e


def trusted(e):
    """.. and it is the block size (what this module decides for every block)"""
    e = plain(e)
    if e[0] == "call" and e[1] == "len" and e[2] and e[2][0][0] == "call" and e[2][0][1] == "channel_as_slice":
        return ("call", "block_size", (e[2][0][2][0],))
    return e


def gives(F, fl):
    """the function hands out a pointer to samples"""
    return fl.retlocal is not None and re.search(r"\*(mut|const) f32", F.ts(fl.ltypes[fl.retlocal]))


class Mem:
    """Addresses of samples: (base, offset, length)."""

    def __init__(self, F, f, A):
        self.F, self.A = F, A
        self.ptrs, self.slices, self.sizes = {}, {}, []
        adt = F.adts.get(f.get("impl_adt") or "")
        if adt:
            for fd in adt["variants"][0]["fields"]:
                t = F.types[fd["ty"]]
                if t["k"] in ("ptr", "ptrmut"):
                    (self.slices if F.types[t["a"][0]]["k"] == "slice" else self.ptrs)[fd["name"]] = t
                elif t["k"] == "ref" and F.types[t["a"][0]]["k"] == "slice" and F.types[F.types[t["a"][0]]["a"][0]]["k"] in ("ptr", "ptrmut"):
                    self.ptrs["[]" + fd["name"]] = t
                elif F.ts(fd["ty"]) == "usize":
                    self.sizes.append(("f", ("arg", 1), fd["name"]))

    def addr(self, e):
        A = self.A
        while e[0] in ("ref", "&"):
            e = e[1]
        one = Lin({}, 1)
        if e[0] == "[]":
            e = ("call", "[]", (e[1], e[2]))
        if e[0] == "call":
            n, xs = e[1], e[2]
            if n in PADD and len(xs) == 2:
                a = self.addr(xs[0])
                return a and (a[0], a[1] + A.lin(xs[1]), None)
            if n in PARTS and len(xs) == 2:
                a = self.addr(xs[0])
                return a and (a[0], a[1], A.lin(xs[1]))
            if n in ASPTR and len(xs) == 1:
                a = self.addr(xs[0])
                return a and (a[0], a[1], None)
            if n in IDX and len(xs) == 2:
                if n == "[]" and xs[0][0] == "f" and xs[0][1] == ("arg", 1) and "[]" + xs[0][2] in self.ptrs or \
                        n != "[]" and xs[0][0] == "f" and xs[0][1] == ("arg", 1) and "[]" + str(xs[0][2]) in self.ptrs and xs[1][0] != "agg":
                    return (("chan", xs[0], xs[1]), Lin(), None)
                a = self.addr(xs[0])
                if a is None:
                    return None
                i = xs[1]
                if i[0] == "agg" and i[2] and i[2].startswith("Range"):
                    fs = dict(i[3])
                    s = A.lin(fs["start"]) if "start" in fs else Lin()
                    if i[2] in ("RangeInclusive", "RangeToInclusive"):
                        return None
                    end = A.lin(fs["end"]) if "end" in fs else a[2]
                    return (a[0], a[1] + s, None if end is None else end - s)
                if i[0] == "call" and i[1] in ("new", "contains"):
                    return None
                return (a[0], a[1] + A.lin(i), one)
            if n in ("unwrap", "expect") and xs and xs[0][0] == "call" and xs[0][1] in ("get", "get_mut"):
                return self.addr(("call", "index", xs[0][2]))
            if n in ("channel_as_slice", "channel_as_slice_mut") and len(xs) == 2:
                return (("chan", xs[0], xs[1]), Lin(), A.lin(("call", "len", (e,))))
            if n in ("read", "read_unaligned", "read_volatile") and len(xs) == 1:
                a = self.addr(xs[0])
                return a and (a[0], a[1], one)
            if n == "read" and len(xs) == 3:
                return (("chan", xs[0], xs[1]), A.lin(xs[2]), one)
            if n in ("cast", "cast_const", "cast_mut", "deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut") and len(xs) == 1:
                return self.addr(xs[0])
        if e[0] == "f" and e[2] in ("0", "1") and e[1][0] == "call" and e[1][1] in ("split_at", "split_at_mut") and len(e[1][2]) == 2:
            s, n = e[1][2]
            a = self.addr(s)
            if a is None:
                return None
            return (a[0], a[1], A.lin(n)) if e[2] == "0" else (a[0], a[1] + A.lin(n), None if a[2] is None else a[2] - A.lin(n))
        if e[0] in ("f", "arg") or e[0] == "call" and e[1] not in PMEM:
            return (e, Lin(), None)
        return None

    def extent(self, base):
        """samples at the base"""
        A = self.A
        if base[0] == "chan":
            if base[1][0] == "f" and base[1][1] == ("arg", 1) and "[]" + str(base[1][2]) in self.ptrs:
                return self.size()
            return A.lin(("call", "len", (("call", "channel_as_slice", base[1:]),)))
        if base[0] == "f" and base[1] == ("arg", 1):
            if base[2] in self.ptrs:
                return self.size()
            return A.lin(("call", "len", (base,)))
        return A.lin(("call", "len", (base,)))

    def size(self):
        r = Lin({}, 1)
        if not self.sizes:
            return Lin()
        for s in self.sizes:
            r = self.A.mul(r, self.A.lin(s))
        return r


def narrowing(F, fl):
    """casts of sizes to smaller integers"""
    w = {"usize": 64, "u64": 64, "i64": 64, "isize": 64, "u32": 32, "i32": 32, "u16": 16, "i16": 16, "u8": 8, "i8": 8, "u128": 128, "i128": 128}
    for b in fl.reachable():
        for s in fl.blocks[b].s:
            if s[0] == "=" and s[2][0] == "cast" and s[2][1].startswith("IntToInt") and s[2][2][0] != "k":
                a, c = w.get(F.ts(s[2][2][2])), w.get(F.ts(s[2][3]))
                if a and c and c < a:
                    return True
    return False


def setup(fl):
    P = PathExprs(fl)
    w = Walker(fl, P)
    multi = {l for l, ds in fl.defs().items() if len([d for d in ds if d[0] == ()]) > 1}
    return P, {"multi": multi, "P": P, "fm": FactMon(w)}


def paths_of(fl, bs=None):
    """paths from the entry to the ends (or through the blocks bs)"""
    return seg_paths(fl, 0, set())


def p18(ctx):
    F = ctx.facts()
    pol = policy(F)
    covered, n = set(), 0
    direct = {}
    for i, x in enumerate(F.insts):
        if not x.get("ws") or not x.get("body"):
            continue
        f = {"path": x["p"], "inst": i}
        if not in_scope(f):
            continue
        fl = Flat(F, i, lambda g, y: False)
        if any(rawops(F, fl, b) for b in fl.reachable()):
            direct[x["p"]] = i
    helpers = {p for p in direct if pol(None, F.insts[direct[p]])}
    for f in sorted((f for f in F.fns if "inst" in f and in_scope(f) and not f.get("unsafe")), key=lambda f: f["path"]):
        if pol(None, F.insts[f["inst"]]):
            continue
        fl, E = flatten(ctx, f, policy_of(F, f))
        ops = [(b, o) for b in sorted(fl.reachable()) for o in rawops(F, fl, b)]
        if not ops:
            continue
        covered.add(f["path"])
        work = [f["inst"]]
        while work:
            for c, _ in F.callees(work.pop())[0]:
                q = F.insts[c].get("p")
                if q in helpers and q not in covered:
                    covered.add(q)
                    work.append(c)
        if never_made(F, f):
            ctx.notes.append(f"{f['path']}: the type is never made")
            continue
        n += len(ops)
        bad = bounds(ctx, F, f, fl, [b for b, _ in ops])
        report(ctx, "inside", short(f["path"]), f, fl, [(x, []) for x in bad], None, f"{len(ops)} raw memory operations inside the bounds on every path")
    for p, i in sorted(direct.items()):
        g = F.fn.get(p)
        if p not in covered and not (g and g.get("unsafe")):
            ctx.viol("inside", f"unchecked {short(p)}", f"{p}: raw memory operations that are reached in a way that is not decided", p, [])
    ctx.floor("raw memory operations", n, 4)
    layout(ctx, F)
    made(ctx, F)
    channel_iter(ctx, F)


def short(p):
    return re.sub(r"[a-z_0-9]+::", "", p)


def never_made(F, f):
    """no function makes a value of the type the method is for"""
    adt = f.get("impl_adt")
    if adt is None:
        return False
    for x in F.insts:
        if x.get("ws") and x.get("body") and f'"{adt}"' in made_text(F, x):
            return False
    return True


_mt = {}


def made_text(F, x):
    k = (id(F), x["id"])
    if k not in _mt:
        fl = Flat(F, x["id"], lambda g, y: False)
        _mt[k] = " ".join(f'"{s[2][1][1]}"' for b in fl.reachable() for s in fl.blocks[b].s if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt")
    return _mt[k]


def bounds(ctx, F, f, fl, at):
    P, W = setup(fl)
    bad = []
    if narrowing(F, fl):
        bad.append(("narrow", "an index is cut off to a smaller type before it is used"))
    seen = set()
    for path in paths_of(fl):
        for k, b in enumerate(path):
            if b not in at:
                continue
            pre = tuple(path[:k + 1])
            if pre in seen:
                continue
            seen.add(pre)
            o = OnPath(ctx, fl, F, list(pre), W)
            P.select(tuple(sorted(o.sel.items())))
            A = Arith(plain)
            M = Mem(F, f, A)
            extra = list(implied(o.facts, A))
            if A.entails(list(o.facts), [Lin({}, 1)], extra):
                continue
            for op in rawops(F, fl, b):
                v = one(F, M, A, P, fl, o, op, extra)
                if v:
                    bad.append(v)
            ctx.states += 1
    if not seen:
        raise Missing("paths of " + f["path"])
    return sorted(set(bad))


def implied(facts, A):
    for q in facts:
        if q[0] in ("true", "false") and q[1][0] == "call" and q[1][1] == "is_empty":
            n = A.lin(("call", "len", (q[1][2][0],)))
            yield n if q[0] == "true" else Lin({}, 1) - n


def one(F, M, A, P, fl, o, op, extra):
    kind, x = op
    if kind == "deref":
        a = M.addr(canon(P.local(x)))
        ln = Lin({}, 1)
    else:
        args = [canon(P.op(q)) for q in x[2]]
        if kind == "pointer":
            a, ln = M.addr(("call", "add", tuple(args))), Lin({}, 1)
        elif kind in UNCHECKED:
            a = M.addr(("call", kind, tuple(args)))
            ln = a and a[2]
        elif kind in PARTS:
            a = M.addr(("call", kind, tuple(args)))
            ln = a and a[2]
        elif kind in ("read", "write", "replace", "read_volatile", "write_volatile", "read_unaligned", "write_unaligned", "as_ref", "as_mut"):
            a = M.addr(args[0])
            ln = Lin({}, 1)
        else:
            a, ln = None, None
    if a is None or ln is None:
        return (f"undecided {kind}", f"which memory is accessed by {kind} is not decided")
    goal = a[1] + ln - M.extent(a[0])
    if not A.entails(list(o.facts), [goal], extra):
        return (f"outside {kind}", "memory outside of the block is accessed for some index")
    return None


# ------------------------------------------------------------------ layout
def layout(ctx, F):
    """Every accessor of a block type means the same sample by (channel, frame)."""
    n = 0
    for im in F.impls:
        tr = im.get("trait") or ""
        if tr not in (BLOCKT, READT):
            continue
        ms = {it[0]: it[1] for it in im["items"] if it[1] in F.fn}
        fs = {m: F.fn[p] for m, p in ms.items() if "inst" in F.fn[p]}
        if "vharness" in str(im.get("self")) or not fs:
            continue
        name = short(str(im.get("self")))
        need = {"channel_as_slice", "read", "channels", "block_size"} | ({"channel_as_slice_mut", "write"} if tr == BLOCKT else set())
        if not need <= set(fs):
            raise Missing(f"accessors of {name}: {sorted(need - set(fs))}")
        n += 1
        if im.get("adt") is None:
            one_blanket(ctx, F, im, fs, name)
            continue
        one_layout(ctx, F, im, fs, name)
    ctx.floor("block types", n, 7)


def value_of(ctx, F, f, pol):
    fl, E = flatten(ctx, f, pol)
    return canon(E.place((fl.retlocal, ())))


def one_blanket(ctx, F, im, fs, name):
    bad = []
    for m, f in sorted(fs.items()):
        v = value_of(ctx, F, f, policy(F))
        na = 3 if m == "read" else 2 if m.startswith("channel_") else 1
        if v != ("call", m, tuple(("arg", i + 1) for i in range(na))):
            bad.append((m, f"{m} of a block that is only read is not the block's {m}"))
    f = fs["read"]
    report(ctx, "layout", name, f, flatten(ctx, f, policy(F))[0], [(x, []) for x in bad], None, "each accessor is the block's own")


def one_layout(ctx, F, im, fs, name):
    pol = policy_of(F, im)
    bs = value_of(ctx, F, fs["block_size"], pol)
    ch = value_of(ctx, F, fs["channels"], pol)
    bad, unit = [], False
    rd = fs["read"]
    if value_of(ctx, F, rd, pol) in (("loc", 0), ("never",)):
        # no samples at all
        if ch != ("k", 0):
            bad.append(("channels", "the block has channels that cannot be read"))
        report(ctx, "layout", name, rd, flatten(ctx, rd, pol)[0], [(x, []) for x in bad], None, "no channels")
        return

    def want(A, M, base, off, kind, sliced=False):
        """the address of (arg2, arg3), or the channel arg2: (key, msg) or None"""
        C, FR = A.lin(("arg", 2)), A.lin(("arg", 3))
        if base[0] == "chan":
            inner = base[1]
            if base[2] != ("arg", 2):
                return ("channel", f"{kind} uses another channel than the one asked for")
            if inner[0] != "f" or inner[1] != ("arg", 1):
                return ("block", f"{kind} does not use the block's memory")
            rest = off - (Lin() if sliced else FR)
            return ("off", inner, rest)
        rest = off - A.mul(C, A.lin(bs)) - (Lin() if sliced else FR)
        return ("off", base, rest)

    offs = {}
    A0 = Arith(trusted)

    def put(kind, v):
        if v is None or v[0] != "off":
            bad.append(v or ("undecided", f"which sample {kind} means is not decided"))
            return
        offs[kind] = (v[1], frozenset(v[2].m.items()), v[2].c)

    # samples
    def each(m, doit):
        f = fs[m]
        fl, E = flatten(ctx, f, pol)
        if narrowing(F, fl):
            bad.append((m + " narrow", f"{m} cuts an index off to a smaller type"))
        P, W = setup(fl)
        A, M = A0, Mem(F, f, A0)
        live = 0
        for path in paths_of(fl):
            o = OnPath(ctx, fl, F, path, W)
            P.select(tuple(sorted(o.sel.items())))
            extra = list(implied(o.facts, A))
            C, FR = A.lin(("arg", 2)), A.lin(("arg", 4 if m == "write" else 3))
            if m == "write":
                C = A.lin(("arg", 3))
            ins = [C + Lin({}, 1) - A.lin(ch)] + ([FR + Lin({}, 1) - A.lin(bs)] if m in ("read", "write") else [])
            if A.entails(list(o.facts), [Lin({}, 1)], extra + ins):
                continue  # only taken for what is not in the block
            if fl.blocks[path[-1]].t[0] != "ret":
                if fl.blocks[path[-1]].t[0] == "unreachable" or m in ("read", "write") and not panics(F, fl, path):
                    continue
                continue
            live += 1
            doit(f, fl, P, o, A, M, path)
        if not live:
            bad.append((m + " never", f"{m} never returns"))

    def panics(F, fl, path):
        return True

    def read(f, fl, P, o, A, M, path):
        a = M.addr(canon(P.place((fl.retlocal, ()))))
        put("read", a and want(A, M, a[0], a[1], "read"))

    def write(f, fl, P, o, A, M, path):
        ws = []
        for b in path:
            blk = fl.blocks[b]
            for s in blk.s:
                if s[0] == "=" and any(e[0] == "*" for e in s[1][1]):
                    ws.append((canon(P.place(s[1])), canon(P.rvalue(s[2]))))
            t = blk.t
            if t[0] == "call":
                n = last(F, t[1])
                if n in ("write", "replace", "write_volatile") and len(t[2]) == 2 and "ptr" in (F.insts[t[1]].get("p") or "") or n == "replace" and len(t[2]) == 2:
                    ws.append((canon(P.op(t[2][0])), canon(P.op(t[2][1]))))
                elif n == "write" and len(t[2]) == 4:
                    ws.append((("call", "read", (canon(P.op(t[2][0])), canon(P.op(t[2][2])), canon(P.op(t[2][3])))), canon(P.op(t[2][1]))))
        if len(ws) != 1:
            bad.append(("write once", "writing a sample writes none or several"))
            return
        # (value, channel, frame) -> (channel, frame)
        sub = {("arg", 3): ("arg", 2), ("arg", 4): ("arg", 3), ("arg", 2): ("value",)}
        p, v = (rename(x, sub) for x in ws[0])
        if v != ("value",):
            bad.append(("write value", "what is written is not the value given"))
        a = M.addr(p)
        put("write", a and want(A, M, a[0], a[1], "write"))

    def chan(kind):
        def go(f, fl, P, o, A, M, path):
            a = M.addr(canon(P.place((fl.retlocal, ()))))
            if a is None or a[2] is None:
                bad.append((kind, f"which samples {kind} returns is not decided"))
                return
            put(kind, want(A, M, a[0], a[1], kind, True))
            d = a[2] - A.lin(bs)
            if d.m or d.c:
                bad.append((kind + " length", f"{kind} does not return block_size() samples"))
        return go

    each("read", read)
    each("channel_as_slice", chan("channel_as_slice"))
    if "write" in fs:
        each("write", write)
        each("channel_as_slice_mut", chan("channel_as_slice_mut"))
    ln = array_len(F, im)
    if ln is not None and ch[0] == bs[0] == "k" and ch[1] * bs[1] != ln:
        bad.append(("channels", "channels and block size do not fit the memory of the block"))
    vals = set(offs.values())
    if len(vals) > 1:
        bad.append(("agree", "reading, writing and the slice of a channel do not mean the same sample: " + ", ".join(sorted(offs))))
    for v in vals:
        # what is added to the frame must not depend on the channel or frame
        if any("'arg', 2" in repr(k) or "'arg', 3" in repr(k) for k, _ in v[1]):
            bad.append(("distinct", "different samples of a block may be the same memory"))
        own = v[0]
        if own[0] == "f" and delegated(fs, own, im, F):
            # a part of another block: shifted by a field, as long as a field; every channel of the block
            if ch != ("call", "channels", (own,)):
                bad.append(("channels", "the number of channels is not that of the block it is a part of"))
        elif v[1] or v[2]:
            bad.append(("start", "the first sample of the first channel is not the first of the memory"))
    f = fs["read"]
    report(ctx, "layout", name, f, flatten(ctx, f, pol)[0], [(x, []) for x in sorted(set(bad))], None, f"{sorted(offs)}: one sample per channel and frame")


def array_len(F, im):
    """length of the array that is the memory of the block"""
    x = next((F.insts[F.fn[it[1]]["inst"]] for it in im["items"] if it[0] == "read" and "inst" in F.fn[it[1]]), None)
    fl = Flat(F, x["id"], lambda g, y: False)
    for ty in fl.ltypes.values() if isinstance(fl.ltypes, dict) else fl.ltypes:
        m = re.search(r"NumericArray<f32, ((?:UInt<|[a-z_0-9:]+)*UTerm[^()]*)", F.ts(ty).replace("typenum::uint::", "").replace("typenum::bit::", ""))
        if m:
            return int("".join(re.findall(r"B([01])", m[1])), 2)
    return None


def delegated(fs, own, im, F):
    """the field is itself a block"""
    adt = F.adts.get(im["adt"])
    for fd in adt["variants"][0]["fields"]:
        if fd["name"] == own[2]:
            t = F.types[fd["ty"]]
            return t["k"] in ("ref", "refmut") and F.types[t["a"][0]]["k"] in ("param", "adt", "dyn", "alias")
    return False


def rename(e, sub):
    if e in sub:
        return sub[e]
    return tuple(rename(x, sub) if isinstance(x, tuple) else x for x in e)


# ------------------------------------------------------------------ constructors
def made(ctx, F):
    """Safe constructors make or require memory that is big enough."""
    # an owned block
    f = next((f for f in F.fns if "inst" in f and f["path"].endswith("VecBlock::<F>::new")), None)
    if f is None:
        raise Missing("VecBlock::new")
    fl, E = flatten(ctx, f, WS)
    v = canon(E.place((fl.retlocal, ())))
    bad = []
    if v[0] != "agg":
        raise Missing("what VecBlock::new makes")
    fs = dict(v[3])
    A = Arith()
    sizes = [x for k, x in v[3] if x[0] != "call" or x[1] != "from_elem"]
    buf = [x for k, x in v[3] if x[0] == "call" and x[1] == "from_elem"]
    if len(buf) != 1 or len(sizes) != 2:
        raise Missing("the memory and the sizes of VecBlock")
    need = A.mul(A.lin(sizes[0]), A.lin(sizes[1])) - A.lin(buf[0][2][1])
    if not A.entails([], [need]):
        bad.append(("allocates", "less memory is allocated than the block needs"))
    cs = {m: value_of(ctx, F, F.fn[next(p for p in F.fn if p.endswith(f"VecBlock<F> as {BLOCKT}>::{m}"))], WS) for m in ("channels", "block_size")}
    for m, a in (("channels", ("arg", 1)), ("block_size", ("arg", 2))):
        if fs.get(cs[m][-1] if cs[m][0] == "f" else None) != a:
            bad.append((m, f"{m} is not what the block was made with"))
    report(ctx, "made", "VecBlock::new", f, fl, [(x, []) for x in bad], None, "allocates channels * block_size")
    # the unsafe constructors keep what they were given
    for ty in ("RawContiguousBlock", "RawAggregateBlock", "RawAggregateBlockRead"):
        f = next((f for f in F.fns if "inst" in f and re.search(rf"::{ty}::<[^>]*>::new$", f["path"])), None)
        if f is None:
            raise Missing(ty + "::new")
        fl, E = flatten(ctx, f, WS)
        v = canon(E.place((fl.retlocal, ())))
        bad = []
        if v[0] != "agg":
            raise Missing(f"what {ty}::new makes")
        fs = dict(v[3])
        im = next((im for im in F.impls if im.get("adt") == f["impl_adt"] and im.get("trait") in (BLOCKT, READT)), None)
        if im is None:
            raise Missing("block implementation of " + ty)
        b = value_of(ctx, F, F.fn[next(it[1] for it in im["items"] if it[0] == "block_size")], WS)
        c = value_of(ctx, F, F.fn[next(it[1] for it in im["items"] if it[0] == "channels")], WS)
        na = len(f["inputs"])
        if b[0] != "f" or fs.get(b[2]) != ("arg", na):
            bad.append(("block size", "the block size is not the one given"))
        if not (c[0] == "f" and fs.get(c[2]) == ("arg", na - 1) or c[0] == "call" and c[1] == "len" and c[2][0][0] == "f" and fs.get(c[2][0][2]) == ("arg", 1)):
            bad.append(("channels", "the number of channels is not the one given"))
        if sorted(fs.values()) != sorted(("arg", i + 1) for i in range(na)):
            bad.append(("memory", "the block is not made of what was given"))
        report(ctx, "made", ty + "::new", f, fl, [(x, []) for x in bad], None, "keeps memory, channels and block size as given")
    processor(ctx, F)


OWN = lambda f, x: x.get("ws", False) and "AudioProcessor" in x.get("p", "") or not x.get("ws", False) and ITER(f, x)


def processor(ctx, F):
    """The audio processor: its output block is allocated, the inputs are long enough."""
    f = F.fn.get("knaster_graph::processor::AudioProcessor::<F>::new")
    if f is None or "inst" not in f:
        raise Missing("AudioProcessor::new")
    fl, E = flatten(ctx, f, OWN)
    bad, n = [], 0
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and re.search(r"RawContiguousBlock::<.*>::new$", F.insts[t[1]].get("p") or ""):
            n += 1
            p, c, s = (canon(E.op(a)) for a in t[2])
            A = Arith()
            own, off = None, Lin()
            while p[0] == "call" and p[1] in ("expect", "unwrap", "add", "cast"):
                if p[1] == "add" and len(p[2]) == 2:
                    off = off + A.lin(p[2][1])
                p = p[2][0]
            if p[0] == "f" and p[2] == "0" and p[1][0] == "v":
                p = p[1][1]
                if p[0] == "call" and p[1] == "add":
                    off, p = off + A.lin(p[2][1]), p[2][0]
            if p[0] != "call" or p[1] != "new" or len(p[2]) != 1:
                raise Missing("the memory of the output block")
            if not A.entails([], [off + A.mul(A.lin(c), A.lin(s)) - A.lin(p[2][0])]):
                bad.append(("output", "less memory is allocated for the output block than it needs"))
    if n != 1:
        raise Missing("the output block of the audio processor")
    report(ctx, "made", "AudioProcessor::new", f, fl, [(x, []) for x in bad], None, "the output block is allocated")
    own = F.fn.get("knaster_graph::graph::OwnedRawBuffer::<F>::new")
    if own is None or "inst" not in own:
        raise Missing("OwnedRawBuffer::new")
    fo, Eo = flatten(ctx, own, WS)
    v = canon(Eo.place((fo.retlocal, ())))
    bad = []
    ok = v[0] == "agg" and len(v[3]) == 1
    p = v[3][0][1] if ok else v
    while p[0] == "call" and p[1] in ("into_raw", "into_boxed_slice", "leak", "from", "into", "into_iter", "collect"):
        p = p[2][0]
    if not ok or p[0] != "call" or p[1] != "from_elem" or p[2][1] != ("arg", 1):
        bad.append(("size", "a buffer is not allocated with the size asked for"))
    report(ctx, "made", "OwnedRawBuffer::new", own, fo, [(x, []) for x in bad], None, "allocates what is asked for")
    f = F.fn.get("knaster_graph::processor::AudioProcessor::<F>::run")
    if f is None or "inst" not in f:
        raise Missing("AudioProcessor::run")
    fl, E = flatten(ctx, f, OWN)
    w = Walker(fl, E)
    seen = {"set": 0, "new": 0}

    class Mon(FactMon):
        def stmt(self, st, b, s, env=None):
            facts, x = st
            if s[0] == "=" and s[1][1] and s[1][1][0] == ("*",) and F.types[pointee(F, fl.ltypes[s[1][0]])]["k"] in ("ptr", "ptrmut") and len(s[1][1]) == 1:
                v = canon(E.rvalue(s[2]))
                seen["set"] += 1
                if v[0] != "call" or v[1] != "as_ptr":
                    w.viol(("input", "an input of the graph is not the start of a slice the caller gave"))
                    return None
                A = Arith()
                if not A.entails(list(facts), [A.lin(("f", ("arg", 1), bsf)) - A.lin(("call", "len", (v[2][0],)))]):
                    w.viol(("length", "an input that is shorter than a block is used"))
                    return None
            return st

        def term(self, st, b, t, env=None):
            facts, x = st
            if t[0] == "call" and "RawAggregateBlockRead" in (F.insts[t[1]].get("p") or "") and last(F, t[1]) == "new":
                seen["new"] += 1
                p, s = (canon(E.op(a)) for a in t[2])
                A = Arith()
                if not A.entails(list(facts), [A.lin(s) - A.lin(("f", ("arg", 1), bsf))]):
                    w.viol(("block size", "inputs are read further than they were checked"))
                    return None
                n = ("call", "len", (("arg", 2),))
                if not A.entails(list(facts), [A.lin(("call", "len", (p,))) - A.lin(n)]):
                    w.viol(("count", "fewer inputs than the graph has are used"))
                    return None
            return st

    bsf = next((fd["name"] for fd in F.adts["knaster_graph::processor::AudioProcessor"]["variants"][0]["fields"] if fd["name"] == "block_size" or F.ts(fd["ty"]) == "usize"), None)
    if bsf is None:
        raise Missing("the block size of the audio processor")
    w.run(Mon(w), (frozenset(), ()), 4)
    if (not seen["set"] or not seen["new"]) and not w.violations:
        raise Missing("how the inputs of the audio processor are taken over")
    report(ctx, "made", "AudioProcessor::run", f, fl, list(w.violations), None, "inputs are at least a block long, one for every input")


def pointee(F, ty):
    t = F.types[ty]
    return t["a"][0] if t["k"] in ("ref", "refmut", "ptr", "ptrmut") else ty


# ------------------------------------------------------------------ channels of a block, all at once
def channel_iter(ctx, F):
    f = next((f for f in F.fns if "inst" in f and (f.get("impl_adt") or "").endswith("::BlockIterMut") and f["path"].endswith("::next")), None)
    mk = F.fn.get(BLOCKT + "::iter_mut")
    if f is None or mk is None or "inst" not in mk:
        raise Missing("BlockIterMut")
    pol = policy(F)
    fl, E = flatten(ctx, f, pol)
    P, W = setup(fl)
    bad, some_, none = [], 0, 0
    idx = None
    for path in paths_of(fl):
        if fl.blocks[path[-1]].t[0] != "ret":
            continue
        o = OnPath(ctx, fl, F, path, W)
        P.select(tuple(sorted(o.sel.items())))
        v = canon(P.place((fl.retlocal, ())))
        A = Arith(trusted)
        if v[0] == "agg" and v[2] == "None":
            none += 1
            continue
        if v[0] != "agg" or v[2] != "Some":
            raise Missing("what BlockIterMut::next returns")
        some_ += 1
        a = Mem(F, f, A).addr(dict(v[3])["0"])
        if a is None or a[0][0] != "chan":
            raise Missing("the channel BlockIterMut::next returns")
        blk, c = a[0][1], a[0][2]
        if c[0] != "f" or c[1] != ("arg", 1):
            bad.append(("channel", "the channel that is returned is not counted"))
            continue
        idx = c
        # (a position that starts at 0 and advances by one, checked below, stops at the first value it must not have)
        if not A.entails(list(o.facts), [A.lin(c) + Lin({}, 1) - A.lin(("call", "channels", (blk,)))]) and \
                not any(q[0] == "Ne" and {q[1], q[2]} == {c, ("call", "channels", (blk,))} for q in o.facts):
            bad.append(("end", "a channel the block does not have may be returned"))
        if a[1].m or a[1].c or a[2] is None or (a[2] - A.lin(("call", "block_size", (blk,)))).m:
            bad.append(("whole", "what is returned is not the whole channel"))
        step = [canon(P.rvalue(s[2])) for b in path for s in fl.blocks[b].s if s[0] == "=" and canon(P.place(s[1])) == c and any(e[0] == "*" for e in s[1][1])]
        if len(step) != 1 or not A.entails([], [A.lin(c) + Lin({}, 1) - A.lin(step[0]), A.lin(step[0]) - A.lin(c) - Lin({}, 1)]):
            bad.append(("distinct", "the same channel may be returned twice, or one is left out"))
    if not some_ or not none:
        raise Missing("the outcomes of BlockIterMut::next")
    ml, mE = flatten(ctx, mk, WS)
    v = canon(mE.place((ml.retlocal, ())))
    if v[0] != "agg" or idx is None or dict(v[3]).get(idx[2]) != ("k", 0):
        bad.append(("first", "the channels are not returned from the first"))
    report(ctx, "channels", "BlockIterMut", f, fl, [(x, []) for x in sorted(set(bad))], None, "each channel of the block once")
    for nm in ("partial", "partial_mut"):
        m = F.fn.get(f"{BLOCKT}::{nm}")
        if m is None or "inst" not in m:
            raise Missing("Block::" + nm)
        l2, e2 = flatten(ctx, m, WS)
        v = canon(e2.place((l2.retlocal, ())))
        bad = []
        if v[0] != "agg" or sorted(x for _, x in v[3]) != [("arg", 1), ("arg", 2), ("arg", 3)]:
            raise Missing("what " + nm + " makes")
        part(ctx, F, v, m, l2, nm)
    fb = next((g for g in F.fns if "inst" in g and g["path"].endswith("::from_block") and "PartialBlock" in g["path"]), None)
    if fb is not None:
        l2, e2 = flatten(ctx, fb, WS)
        part(ctx, F, canon(e2.place((l2.retlocal, ()))), fb, l2, "from_block")


def part(ctx, F, v, m, fl, nm):
    """a partial block is made with the start and length asked for"""
    bad = []
    if v[0] != "agg":
        raise Missing("what " + nm + " makes")
    fs = dict(v[3])
    im = next((im for im in F.impls if im.get("adt") == v[1] and im.get("trait") in (BLOCKT, READT)), None)
    if im is None:
        raise Missing("block implementation of " + v[1])
    g = {it[0]: F.fn[it[1]] for it in im["items"] if it[1] in F.fn}
    b = value_of(ctx, F, g["block_size"], WS)
    r = value_of(ctx, F, g["read"], WS)
    if b[0] != "f" or fs.get(b[2]) != ("arg", 3):
        bad.append(("length", "a partial block is not as long as asked for"))
    offs = [x for x in walk_f(r) if x[2] in fs and fs[x[2]] == ("arg", 2)]
    if not offs:
        bad.append(("start", "a partial block does not start where asked for"))
    report(ctx, "part", nm, m, fl, [(x, []) for x in bad], None, "start and length as asked for")


def walk_f(e):
    if isinstance(e, tuple):
        if len(e) == 3 and e[0] == "f" and e[1] == ("arg", 1):
            yield e
        for x in e:
            yield from walk_f(x)
