"""P23: safe code outside of the library cannot give it a pointer, and what the library gives out does
not outlive, overlap or change places with other memory.

p23:      signatures, fields and implementations of everything other crates can name
p23_safe: what safe functions do with the unsafe ones
p23_wit:  programs that the compiler has to refuse"""
import re

from wrap import *
from witness import HEAD, Set

RAW = ("*const ", "*mut ", "core::ptr::non_null::NonNull<")
OWNED = ("alloc::boxed::Box", "alloc::vec::Vec", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc")


def raw(t):
    return any(x in (t or "") for x in RAW)


def exported(F, f):
    """other crates can call f"""
    if f.get("of_trait"):
        return F.traits.get(f["of_trait"], {}).get("pub", True)
    a = f.get("impl_adt")
    if f.get("impl_trait"):
        return a is None or F.adts.get(a, {}).get("named", True)
    if f.get("vis") != "Public":
        return False
    if f.get("impl_self"):
        return a is None or F.adts.get(a, {}).get("named", True)
    return f.get("named", True)


def ours(F, f):
    return f["crate"].startswith("knaster")


def where(f):
    return f.get("span")


def p23(ctx):
    F = ctx.facts()
    n = 0
    for f in F.fns:
        if not ours(F, f) or not exported(F, f):
            continue
        n += 1
        takes = [t for t in f["inputs"] if raw(t)]
        if takes and not f["unsafe"] and not f.get("impl_trait"):
            ctx.viol("takes", f["path"], f"a safe public function takes a raw pointer ({takes[0]})", where(f), [])
        elif takes:
            ctx.ok("takes", f["path"], "unsafe")
        out = f.get("output") or ""
        if "&mut " in strip_life(out) and not f["unsafe"] and f["inputs"] and not any(
                "&mut " in strip_life(t) or owned(F, t) for t in f["inputs"]):
            ctx.viol("shared", f["path"], f"a safe public function makes {out} of shared references ({', '.join(f['inputs'])})", where(f), [])
    ctx.floor("takes", n, 300)
    need(ctx, F)
    fields(ctx, F)


def strip_life(t):
    return re.sub(r"&'\w+ ", "&", t)


def owned(F, t):
    """passed by value: what is in it may be given out again"""
    return not t.lstrip().startswith("&")


UNSAFE = [("knaster_core::ugen::UGen", "*const"), ("knaster_graph::dynugen::DynUGen", "*const")]


def need(ctx, F):
    """the traits through which a pointer reaches a node, and what makes blocks of pointers, are there"""
    for tr, _ in UNSAFE:
        if not any(f.get("of_trait") == tr and any(raw(t) for t in f["inputs"]) for f in F.fns):
            raise Missing("the method of " + tr + " that takes a buffer")


def fields(ctx, F):
    n = 0
    holders = set()
    grown = True
    while grown:
        grown = False
        for p, a in F.adts.items():
            if p in holders or not a["crate"].startswith("knaster"):
                continue
            for v in a["variants"]:
                for fd in v["fields"]:
                    t = F.ts(fd["ty"])
                    if raw(t) and "dyn " not in t:
                        holders.add(p)
                        grown = True
    if len(holders) < 8:
        raise Missing("types that hold raw pointers")
    impls = {}
    for i in F.impls:
        if i.get("adt") in holders and i.get("trait"):
            impls.setdefault(i["adt"], set()).add(i["trait"])
    for p in sorted(holders):
        a = F.adts[p]
        tr = impls.get(p, set())
        mutable = [fd["name"] for v in a["variants"] for fd in v["fields"] if "*mut " in F.ts(fd["ty"])]
        if a["drop"] and ("core::clone::Clone" in tr or "core::marker::Copy" in tr):
            ctx.viol("copied", p, "a type that frees the memory it points to can be copied: it is freed twice", a["span"], [])
            continue
        if not a["named"]:
            ctx.ok("holders", p, "not public")
            continue
        n += 1
        open_ = [fd["name"] for v in a["variants"] for fd in v["fields"] if fd["pub"]]
        if open_:
            ctx.viol("fields", f"{p}.{open_[0]}", "a public field of a type that works on raw pointers: safe code can change it", a["span"], [])
        elif mutable and ("core::clone::Clone" in tr or "core::marker::Copy" in tr):
            ctx.viol("copied", p, "a type that writes through a raw pointer can be copied: two of them work on the same memory", a["span"], [])
        elif "core::default::Default" in tr and not all("Vec<" in F.ts(fd["ty"]) or "Option<" in F.ts(fd["ty"]) for v in a["variants"] for fd in v["fields"] if raw(F.ts(fd["ty"]))):
            ctx.viol("made", p, "safe code can make one without a valid pointer", a["span"], [])
        else:
            ctx.ok("holders", p, "fields private, not copied")
        sizes(ctx, F, p, a)
    ctx.floor("holders", n, 5)


def sizes(ctx, F, p, a):
    """the fields that say how large the memory is, or hold what points to it, stay as they were made"""
    fixed = {fd["name"]: F.ts(fd["ty"]) for v in a["variants"] for fd in v["fields"]}
    fixed_types = fixed
    fixed = {n for n, t in fixed.items() if t == "usize" or raw(t) or any(h in t for h in ("RawContiguousBlock", "OwnedRawBuffer", "AudioCtx"))}
    seen = set()
    for f in F.fns:
        if "inst" not in f or f["unsafe"] or not ours(F, f) or f["inst"] in seen:
            continue
        seen.add(f["inst"])
        fl, E = None, None
        body = F.insts[f["inst"]].get("body")
        if not body or p.rsplit("::", 1)[1] not in str(body) and not any(n in str(body) for n in fixed):
            continue
        fl, E = flatten(ctx, f, lambda x, y: False)
        hits = {s[1][1][-1][1] for b in fl.reachable() for s in fl.blocks[b].s if s[0] == "=" and s[1][1]
                and s[1][1][-1][0] == "f" and s[1][1][-1][2:3] == (p,) and s[1][1][-1][1] in fixed}
        for n in sorted(hits):
            bad = [] if fixed_types[n] == "usize" and within(fl, E, p, n) else [
                ("sizes", "what the bounds of raw memory depend on is changed")]
            report(ctx, "sizes", f"{f['path']}: {n}", f, fl, [(x, []) for x in bad], None, "stays within a block")


def within(fl, E, p, n):
    """on every path the field ends below the block size of the context"""
    place = ("f", ("arg", 1), n)
    bs = ("call", "block_size", (("arg", 2),))
    w = Walker(fl, E)

    class Mon(FactMon):
        def stmt(self, st, b, s, env=None):
            facts, x = st
            if s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f" and s[1][1][-1][2:3] == (p,) and s[1][1][-1][1] == n:
                v = canon(E.rvalue(s[2]))
                facts = frozenset(f for f in facts if place not in f[1:])
                if v == ("k", 0) or v[0] == "bin" and v[1] == "Rem" and v[3] == bs or ("Lt", v, bs) in facts:
                    return facts, None
                return facts, v
            return st

        def edge(self, st, b, o, v, other, vals):
            st = super().edge(st, b, o, v, other, vals)
            facts, x = st
            if x is not None and (("Lt", place, bs) in facts or ("Lt", x, bs) in facts):
                return facts, None
            return st

        def term(self, st, b, t, env=None):
            if t[0] == "ret" and st[1] is not None:
                w.viol(("within", str(st[1])[:100]))
                return None
            return st

    w.run(Mon(w), (frozenset(), None), 2)
    return not w.violations


# ------------------------------------------------------------------ unsafe operations inside safe functions
PROVED = {
    # the callers whose arguments are decided by another rule
    ("knaster_graph::processor::AudioProcessor::<F>::new", "knaster_graph::block::RawContiguousBlock"): "bounds.processor",
    ("knaster_graph::processor::AudioProcessor::<F>::run", "knaster_graph::block::RawAggregateBlockRead"): "bounds.processor",
}


def p23_safe(ctx):
    F = ctx.facts()
    danger = {f["path"]: f for f in F.fns if f["unsafe"] and ours(F, f)}
    byinst = {f["inst"]: f for f in F.fns if "inst" in f}
    bypath = {}
    for f in F.fns:
        bypath.setdefault(f["path"], f)
    n = 0
    for f in F.fns:
        if "inst" not in f or not ours(F, f) or f["unsafe"] or not exported(F, f):
            continue
        # through safe helpers that nobody else can call
        todo, seen = [f["inst"]], {f["inst"]}
        while todo:
            i = todo.pop()
            for c, line in F.callees(i)[0]:
                x = F.insts[c]
                g = bypath.get(x.get("p"))
                if g is None or g.get("of_trait"):
                    if g is None and x.get("ws") and c not in seen:     # closures
                        seen.add(c)
                        todo.append(c)
                    continue
                if g["path"] in danger:
                    n += 1
                    judge(ctx, F, f, g, line)
                elif not exported(F, g) and c not in seen:
                    seen.add(c)
                    if not inside(F, g):
                        todo.append(c)
    casts(ctx, F)
    ctx.floor("callers", n, 3)


def inside(F, g):
    """methods of the types that other crates cannot name: what they are given is decided by P05, P17, P28"""
    a = g.get("impl_adt")
    return a is not None and not F.adts.get(a, {}).get("named", True)


def judge(ctx, F, f, g, line):
    key = f"{f['path']}: {g['path']}"
    adt = g.get("impl_adt")
    for (p, a), by in PROVED.items():
        if a == adt and (f["path"] == p):
            ctx.ok("callers", key, by)
            return
    if g["name"] == "run_raw_ptr_inputs":
        empty(ctx, F, f, g, key)
        return
    ctx.viol("callers", key, "a safe public function calls an unsafe one, and nothing shows that it may", where(f), [f"line {line}"])


def empty(ctx, F, f, g, key):
    """run_raw_ptr_inputs(&[]) for a graph without inputs"""
    pol = lambda a, x: x.get("ws", False) and x.get("p") != g["path"]
    fl, E = flatten(ctx, f, pol)
    bad = []
    calls = [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and F.insts[fl.blocks[b].t[1]].get("p") == g["path"]]
    if not calls:
        raise Missing(f"the call in {f['path']}")
    for b in calls:
        t = fl.blocks[b].t
        a = canon(E.op(t[2][1]))
        if not nothing(a, fl, t[2][1]):
            bad.append(("pointers", f"the pointers {f['path']} passes on are not known to be valid"))
    report(ctx, "callers", key, f, fl, [(x, []) for x in bad], None, "no pointers")


def nothing(a, fl, op):
    """an empty slice"""
    if a[0] == "agg" and a[1] in ("array", "slice") and not a[3]:
        return True
    if a[0] == "k" and a[1] in ((), [], "[]", "&[]"):
        return True
    ty = op[-1] if isinstance(op, tuple) else None
    return "; 0]" in repr((a, op))


def casts(ctx, F):
    """no pointer is made of an integer"""
    n = 0
    for x in F.insts:
        if x.get("ws") and x.get("body"):
            n += 1
            if "PointerWithExposedProvenance" in str(x["body"]):
                ctx.viol("integers", x["p"], "a pointer is made of an integer", x["p"], [])
    ctx.floor("integers", n, 500)


# ------------------------------------------------------------------ programs that have to be refused
WHEAD = HEAD.replace("use std::marker::PhantomData;", """use std::marker::PhantomData;
use knaster_core::{Block, BlockRead, VecBlock, StaticBlock, PartialBlock};
use knaster_graph::block::*;
use knaster_graph::dynugen::DynUGen;""")
ANY = "<B: Block<Sample = f32>>(mut b: B)"
PR = "knaster_graph/src/processor.rs"
BL = "knaster_primitives/src/block.rs"


def p23_wit(ctx):
    # E0133: what takes pointers
    S = Set(WHEAD, {"E0133"})
    for key, sig, call, what in [
        ("RawContiguousBlock::new", "(p: *mut f32)", "RawContiguousBlock::new(p, 1, 16)", "a block of any memory without unsafe"),
        ("RawAggregateBlock::new", "(p: &[*mut f32])", "RawAggregateBlock::new(p, 16)", "a block of any memory without unsafe"),
        ("RawAggregateBlockRead::new", "(p: &[*const f32])", "RawAggregateBlockRead::new(p, 16)", "a block of any memory without unsafe"),
        ("AudioProcessor::run_raw_ptr_inputs", "(p: &mut AudioProcessor<f32>, i: &[*const f32])", "p.run_raw_ptr_inputs(i)", "the processor reads any memory without unsafe"),
        ("UGen::set_ar_param_buffer", "<T: UGen>(u: &mut T, c: &mut AudioCtx, p: *const T::Sample)", "u.set_ar_param_buffer(c, 0, p)", "a node reads any memory without unsafe"),
        ("DynUGen::set_ar_param_buffer", "<T: DynUGen<f32>>(u: &mut T, c: &mut AudioCtx, p: *const f32)", "u.set_ar_param_buffer(c, 0, p)", "a node reads any memory without unsafe"),
    ]:
        S.ok(key, sig, "let _ = unsafe { " + call + " };")
        S.no(key, sig, "let _ = " + call + ";", what)
    S.judge(ctx, "unsafe", "p23u", PR)

    # borrows: what is given out keeps its owner where it is
    S = Set(WHEAD, {"E0505", "E0499", "E0502", "E0506", "E0597", "E0515", "E0716"})
    for key, sig, make, use, what in [
        ("channel_as_slice", "<B: BlockRead<Sample = f32>>(b: B)", "b.channel_as_slice(0)", "x[0]", "a channel outlives its block"),
        ("channel_as_slice_mut", ANY, "b.channel_as_slice_mut(0)", "x[0] = 1.0", "a channel outlives its block"),
        ("iter_mut", ANY, "b.iter_mut()", "x.next()", "the channels outlive their block"),
        ("iter_mut channel", ANY, "b.iter_mut().next().unwrap()", "x[0] = 1.0", "a channel outlives its block"),
        ("partial", "<B: Block<Sample = f32>>(b: B)", "b.partial(0, 1)", "x.read(0, 0)", "a part outlives its block"),
        ("partial_mut", ANY, "b.partial_mut(0, 1)", "x.write(1.0, 0, 0)", "a part outlives its block"),
        ("output_block", "(mut b: AudioProcessor<f32>)", "b.output_block()", "Block::read(&*x, 0, 0)", "the output block outlives its processor"),
        ("output_block channel", "(mut b: AudioProcessor<f32>)", "Block::channel_as_slice_mut(b.output_block(), 0)", "x[0] = 1.0", "a channel of the output outlives its processor"),
        ("RawAggregateBlock", "(b: Vec<*mut f32>)", "unsafe { RawAggregateBlock::new(&b, 1) }", "Block::read(&x, 0, 0)", "a block outlives the pointers it is made of"),
        ("RawAggregateBlockRead", "(b: Vec<*const f32>)", "unsafe { RawAggregateBlockRead::new(&b, 1) }", "x.read(0, 0)", "a block outlives the pointers it is made of"),
    ]:
        S.ok(key + " then dropped", sig, f"let mut x = {make}; let _ = {use}; drop(b);")
        S.no(key + " outlives", sig, f"let mut x = {make}; drop(b); let _ = {use};", what)
    for key, sig, make, again, use, what in [
        ("channel_as_slice_mut twice", ANY, "b.channel_as_slice_mut(0)", "b.channel_as_slice_mut(0)", "x[0] = 1.0", "two mutable slices of one channel"),
        ("channel_as_slice_mut and read", ANY, "b.channel_as_slice_mut(0)", "b.channel_as_slice(0)", "x[0] = 1.0", "a channel is read while it is written"),
        ("channel_as_slice and write", ANY, "b.channel_as_slice(0)", "b.write(1.0, 0, 0)", "x[0]", "a sample is written while its channel is read"),
        ("iter_mut twice", ANY, "b.iter_mut()", "b.iter_mut()", "x.next()", "mutable channels of one block twice"),
        ("iter_mut channel and block", ANY, "b.iter_mut().next().unwrap()", "b.channel_as_slice_mut(0)", "x[0] = 1.0", "two mutable slices of one channel"),
        ("partial_mut twice", ANY, "b.partial_mut(0, 1)", "b.partial_mut(0, 1)", "x.write(1.0, 0, 0)", "two mutable parts of one block"),
        ("output_block and run", "(mut b: AudioProcessor<f32>)", "b.output_block()", "b.run_without_inputs()", "Block::read(&*x, 0, 0)", "the output is read while it is made"),
        ("output_block twice", "(mut b: AudioProcessor<f32>)", "b.output_block()", "b.output_block()", "Block::read(&*x, 0, 0)", "the output block twice"),
    ]:
        S.ok(key + ", one after the other", sig, f"{{ let mut x = {make}; let _ = {use}; }} let _ = {again};")
        S.no(key, sig, f"let mut x = {make}; let _ = {again}; let _ = {use};", what)
    S.judge(ctx, "borrow", "p23b", BL)

    # exchange: a block that borrows nothing but works on memory of its owner stays where it is
    S = Set(WHEAD, {"E0277", "E0308"})
    S.ok("output_block read", "(a: &mut AudioProcessor<f32>)", "let _ = Block::read(&*a.output_block(), 0, 0); let _ = Block::channel_as_slice(&*a.output_block(), 0)[0];")
    S.ok("swap of blocks", "(a: &mut VecBlock<f32>, b: &mut VecBlock<f32>)", "std::mem::swap(a, b);")
    S.no("output_block swapped", "(a: &mut AudioProcessor<f32>, b: &mut AudioProcessor<f32>)", "std::mem::swap(a.output_block(), b.output_block());",
         "the output blocks of two processors are exchanged: one of them outlives its memory")
    S.no("output_block taken", "(a: &mut AudioProcessor<f32>, b: RawContiguousBlock<f32>)", "let _ = std::mem::replace(a.output_block(), b);",
         "the output block of a processor is taken out of it")
    S.no("output_block overwritten", "(a: &mut AudioProcessor<f32>, b: &mut AudioProcessor<f32>)", "let x = std::ptr::NonNull::from(a.output_block()); fn sized<T>(_: &mut T) {} sized(b.output_block());",
         "the output block has a known size, so it can be exchanged")
    S.judge(ctx, "exchange", "p23x", PR)

    # iter_mut keeps the channels it has given out, so it relies on what an implementation of Block returns
    S = Set(WHEAD, {"E0200"})
    S.ok("Block used", "<B: Block<Sample = f32>>(mut b: B)", "let _ = b.iter_mut().next();")
    S.no_item("Block implemented by safe code", BLOCK_IMPL, "safe code can implement Block with channels that overlap or move, and iter_mut gives them out at the same time")
    S.judge(ctx, "implement", "p23i", BL)


BLOCK_IMPL = """struct Moving(Vec<f32>);
impl Block for Moving {
    type Sample = f32;
    fn channel_as_slice(&self, _c: usize) -> &[f32] { &self.0 }
    fn channel_as_slice_mut(&mut self, _c: usize) -> &mut [f32] { self.0 = vec![0.0; self.0.len()]; &mut self.0 }
    fn read(&self, _c: usize, f: usize) -> f32 { self.0[f] }
    fn write(&mut self, v: f32, _c: usize, f: usize) { self.0[f] = v; }
    fn channels(&self) -> usize { 2 }
    fn block_size(&self) -> usize { self.0.len() }
}"""


def p23_made(ctx):
    import bounds
    bounds.processor(ctx, ctx.facts())


def p23_ctx(ctx):
    """The block size a task is run with is that of the buffers it works on: nodes are given the context mutably,
    so it has to be compared after the last of them ran."""
    F = ctx.facts()
    fs = [f for f in F.fns if "inst" in f and f["path"].startswith("<knaster_graph::graph_gen::GraphGen") and f["name"] == "process_block"]
    if len(fs) != 1:
        raise Missing("GraphGen::process_block")
    f = fs[0]
    run = "knaster_graph::task::Task::<F>::run"
    if run not in F.fn:
        raise Missing("Task::run")
    fl, E = flatten(ctx, f, lambda a, x: x.get("ws", False) and x.get("p") != run and not x.get("p", "").startswith("<") and "Task" not in x.get("p", "")
                    and not x.get("p", "").endswith("::block_size"))
    w = Walker(fl, E)
    n = [0]

    class Mon(FactMon):
        def relevant(self, f):
            return f[0] == "Eq" and any(x[:2] == ("call", "block_size") for x in f[1:] if isinstance(x, tuple))

        def term(self, st, b, t, env=None):
            facts, x = st
            if t[0] != "call":
                return st
            if F.insts[t[1]].get("p") == run:
                n[0] += 1
                c = next((canon(E.op(a)) for a in t[2] if a[0] != "k" and F.ts(a[2]) == "&mut knaster_core::ugen::AudioCtx"), None)
                want = {("Eq", ("call", "block_size", (c,)), ("f", ("arg", 1), "block_size")), ("Eq", ("f", ("arg", 1), "block_size"), ("call", "block_size", (c,)))}
                if not want & facts:
                    w.viol(("context", "a task may run with a block size that a node before it has put into the context, not that of its buffers"))
                    return None
            if any(a[0] != "k" and F.ts(a[2]) == "&mut knaster_core::ugen::AudioCtx" for a in t[2]):
                return frozenset(), x
            return st

    w.run(Mon(w), (frozenset(), None), 3)
    if not n[0]:
        raise Missing("where the tasks are run")
    report(ctx, "context", "GraphGen::process_block", f, fl, list(w.violations), None, "compared with the graph's before every task")
