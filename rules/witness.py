"""P22 and P21: compile-fail witnesses.

A witness is a function that uses the public API; the compiler of the current tree is the judge. A
`bad` witness must be refused for a type reason (E0271/E0277/E0308) reported inside it, a `good` one
must be accepted: good ones with `claim` state an identity the property requires, the others are the
twins of bad ones (they show that the bad one is refused for the mismatch and not for anything else)
and their failure means that the API the witnesses use is gone (no decision)."""
import build
from facts import Missing

REFUSED = {"E0271", "E0277", "E0308"}


class Set:
    def __init__(self, head, refused=None):
        self.refused = refused or REFUSED
        self.head, self.good, self.bad = head, [], []
        self.n = 0

    def _add(self, to, key, sig, body, extra):
        self.n += 1
        to.append((key, f"#[allow(dead_code)]\nfn w{self.n}{sig} {{ {body} }}", extra))

    def ok(self, key, sig, body, claim=None):
        self._add(self.good, key, sig, body, claim)

    def no(self, key, sig, body, what):
        self._add(self.bad, key, sig, body, what)

    def no_item(self, key, item, what):
        self.bad.append((key, item, what))

    def source(self, part):
        lines = self.head.rstrip().split("\n") + ["fn main() {}"]
        spans = []
        for key, text, x in part:
            a = len(lines) + 1
            lines += text.split("\n")
            spans.append((a, len(lines), key, x, text))
        return "\n".join(lines) + "\n", spans

    def judge(self, ctx, rule, name, where):
        src, spans = self.source(self.good)
        errs = build.witness(name + "_good", src)
        hit, gone, n = {}, None, len(ctx.violations)
        for code, msg, a, b in errs:
            s = next((s for s in spans if a is not None and s[0] <= a <= s[1]), None)
            if s is None:
                raise Missing(f"witness program {name}_good: {code} {msg}")
            hit.setdefault(s[2], []).append((code, msg))
        for a, b, key, claim, text in spans:
            if key not in hit:
                ctx.ok(rule, key + (" (identity)" if claim else " (accepted)"), claim)
                continue
            code, msg = hit[key][0]
            if not claim or code not in self.refused:
                gone = gone or f"witness {key} is not accepted: {code} {msg}"
                continue
            ctx.viol(rule, key, f"{claim}: the compiler says {code} {msg}", where, [text])
        src, spans = self.source(self.bad)
        errs = build.witness(name + "_bad", src)
        hit = {}
        for code, msg, a, b in errs:
            s = next((s for s in spans if a is not None and s[0] <= a <= s[1]), None)
            if s is None or code not in self.refused:
                gone = gone or f"witness program {name}_bad: {code} {msg}"
                if s is None:
                    continue
            hit.setdefault(s[2] + s[4], []).append((code, msg))
        seen = {}
        for a, b, key, what, text in spans:
            if key + text in hit:
                ctx.ok(rule, key + " (refused)", hit[key + text][0][0])
            elif key not in seen:
                seen[key] = 1
                ctx.viol(rule, key, f"compiles: {what}", where, [text])
        if gone and len(ctx.violations) == n:
            raise Missing(gone)
        ctx.states += len(self.good) + len(self.bad)


HEAD = """#![allow(unused)]
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Float, Frame, Size, UGen, UGenFlags, ParameterValue};
use knaster_core::typenum;
use knaster_graph::graph::*;
use knaster_graph::graph_edit::*;
use knaster_graph::processor::*;
use std::marker::PhantomData;
use std::ops::Add;
pub struct N<I, O, F = f32>(PhantomData<(I, O, F)>);
pub trait Is<T> {}
impl<T> Is<T> for T {}
pub fn is<A: Is<B>, B>() {}
pub fn outs<'a, 'b, M: Size, S: Static<Outputs = M>>(_: &SH<'a, 'b, f32, S>) where 'b: 'a {}
pub fn ins<'a, 'b, M: Size, S: Static<Inputs = M>>(_: &SH<'a, 'b, f32, S>) where 'b: 'a {}
impl<I: Size, O: Size, F: Float> UGen for N<I, O, F> {
    type Sample = F;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U0;
    fn process(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, _i: Frame<F, I>) -> Frame<F, O> { loop {} }
    fn param_descriptions() -> knaster_core::numeric_array::NumericArray<&'static str, U0> { loop {} }
    fn param_hints() -> knaster_core::numeric_array::NumericArray<knaster_core::ParameterHint, U0> { loop {} }
    fn param_apply(&mut self, _c: &mut AudioCtx, _i: usize, _v: ParameterValue) {}
}
"""
GE = "knaster_graph/src/graph_edit.rs"


def h(i, o):
    return f"SH<'a, 'b, f32, Handle3<N<U{i}, U{o}>>>"


def p22(ctx):
    S = Set(HEAD)
    L = "<'a, 'b: 'a>"
    combos = [(1, 2), (2, 1), (0, 1), (1, 0), (2, 3), (3, 2), (4, 2), (2, 4), (5, 16), (16, 5)]
    equal = [1, 2, 3, 16]
    # handle connects to handle: outputs o of the left, inputs i of the right
    for m, call in [("to", "a.to(b)"), ("to_feedback", "a.to_feedback(b)"), ("to_replace", "a.to_replace(b)"),
                    ("to_feedback_replace", "a.to_feedback_replace(b)"), ("shr", "a >> b")]:
        for n in equal:
            S.ok(f"{m}", f"{L}(a: {h(7, n)}, b: {h(n, 9)})", f"let r: {h(n, 9)} = {call};")
        for o, i in combos:
            # the other counts are chosen so that a bound on the wrong pair is satisfied
            S.no(f"{m}", f"{L}(a: {h(o, o)}, b: {h(i, i)})", f"let _ = {call};", f"{m} connects {o} outputs to {i} inputs")
            S.no(f"{m}", f"{L}(a: {h(i, o)}, b: {h(i, o)})", f"let _ = {call};", f"{m} connects {o} outputs to {i} inputs")
        # handles made of parts
        pair = "SH<'a, 'b, f32, Stack<Handle3<N<U2, U1>>, Handle3<N<U1, U1>>>>"
        S.ok(f"{m}: stack", f"{L}(a: {h(0, 3)}, b: {pair})", f"let _ = {call};")
        S.ok(f"{m}: stack", f"{L}(a: {pair}, b: {h(2, 0)})", f"let _ = {call};")
        S.no(f"{m}: stack", f"{L}(a: {h(0, 2)}, b: {pair})", f"let _ = {call};", f"{m} connects 2 outputs to a stack with 3 inputs")
        S.no(f"{m}: stack", f"{L}(a: {pair}, b: {h(3, 0)})", f"let _ = {call};", f"{m} connects a stack with 2 outputs to 3 inputs")
        ch = "SH<'a, 'b, f32, ChannelsHandle<U2>>"
        S.ok(f"{m}: channels", f"{L}(a: {ch}, b: {h(2, 0)})", f"let _ = {call};")
        for n in (1, 3):
            S.no(f"{m}: channels", f"{L}(a: {ch}, b: {h(n, 2)})", f"let _ = {call};", f"{m} connects 2 channels to {n} inputs")
        S.no(f"{m}: channels", f"{L}(a: {ch}, b: {ch})", f"let _ = {call};", f"{m} connects to a handle without inputs")
        g = "<'a, 'b: 'a, F: Float, S0: Static, S1: Static>(a: SH<'a, 'b, F, S0>, b: SH<'a, 'b, F, S1>)"
        S.no(f"{m}: any", g, f"let _ = {call};", f"{m} puts no condition on the channel counts of its handles")
    for m, call in [("add", "a + b"), ("sub", "a - b"), ("mul", "a * b"), ("div", "a / b"), ("pow", "a.pow(b)")]:
        for n in equal:
            S.ok(f"{m}", f"{L}(a: {h(7, n)}, b: {h(4, n)})", f"let _ = {call};")
            S.ok(f"{m}: result", f"{L}(a: {h(7, n)}, b: {h(4, n)})", f"let r = {call}; outs::<U{n}, _>(&r); ins::<U0, _>(&r);",
                 f"{m} of handles with {n} outputs has {n} outputs and no inputs")
        for o, i in combos:
            S.no(f"{m}", f"{L}(a: {h(i, o)}, b: {h(o, i)})", f"let _ = {call};", f"{m} combines {o} outputs with {i} outputs")
            S.no(f"{m}", f"{L}(a: {h(3, o)}, b: {h(3, i)})", f"let _ = {call};", f"{m} combines {o} outputs with {i} outputs")
        S.no(f"{m}: any", "<'a, 'b: 'a, F: Float, S0: Static, S1: Static>(a: SH<'a, 'b, F, S0>, b: SH<'a, 'b, F, S1>)",
             f"let _ = {call};", f"{m} puts no condition on the channel counts of its handles")
        ch = "SH<'a, 'b, f32, ChannelsHandle<U2>>"
        S.ok(f"{m}: channels", f"{L}(a: {ch}, b: {h(0, 2)})", f"let _ = {call};")
        S.no(f"{m}: channels", f"{L}(a: {ch}, b: {h(2, 1)})", f"let _ = {call};", f"{m} combines 2 channels with 1 output")
        S.no(f"{m}: channels", f"{L}(a: {h(2, 3)}, b: {ch})", f"let _ = {call};", f"{m} combines 3 outputs with 2 channels")
    for m, sym in [("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")]:
        for n in (1, 2, 5):
            for v in ("2.0f32", "2.0f64", "2usize", "2i32"):
                S.ok(f"{m}: constant", f"{L}(a: {h(3, n)})", f"let r = a {sym} {v}; outs::<U{n}, _>(&r); ins::<U0, _>(&r);",
                     f"{m} of {n} outputs with a constant has {n} outputs and no inputs")
                S.ok(f"{m}: constant", f"{L}(a: {h(3, n)})", f"let r = {v} {sym} a; outs::<U{n}, _>(&r); ins::<U0, _>(&r);",
                     f"{m} of a constant with {n} outputs has {n} outputs and no inputs")
    for m in ("to_graph_out_channels", "to_graph_out_channels_replace"):
        for n in (1, 2, 3):
            arr = "[" + ", ".join(str(k) for k in range(n)) + "]"
            S.ok(m, f"{L}(a: {h(5, n)})", f"a.{m}({arr});")
            for o in (0, 1, 2, 3, 4):
                if o != n:
                    S.no(m, f"{L}(a: {h(n, o)})", f"a.{m}({arr});", f"{m} connects {o} outputs to {n} channels")
        S.ok(m, f"{L}(a: {h(5, 1)})", f"a.{m}(0);")
        S.no(m, f"{L}(a: {h(1, 2)})", f"a.{m}(0);", f"{m} connects 2 outputs to 1 channel")
        S.no(f"{m}: any", "<'a, 'b: 'a, F: Float, S0: Static, M: Size>(a: SH<'a, 'b, F, S0>, c: Channels<M>)",
             f"a.{m}(c);", f"{m} puts no condition on the number of channels")
    S.ok("link", f"{L}(a: {h(1, 1)}, b: {h(3, 1)})", "let _ = a.link(0, b);")
    d = "DH<'a, 'b, f32, DynamicHandle3>"
    S.ok("link (dynamic)", f"{L}(a: {d}, b: {h(3, 1)})", "let _ = a.link(0, b);")
    for n in (0, 2, 3):
        S.no("link", f"{L}(a: {h(1, 1)}, b: {h(1, n)})", "let _ = a.link(0, b);", f"a parameter is linked to {n} outputs")
        S.no("link (dynamic)", f"{L}(a: {d}, b: {h(1, n)})", "let _ = a.link(0, b);", f"a parameter is linked to {n} outputs")
    for n in (1, 2, 3):
        arr = "[" + ", ".join("0" for k in range(n)) + "]"
        S.ok("out", f"{L}(a: {h(5, 4)})", f"let r = a.out({arr}); outs::<U{n}, _>(&r); ins::<U0, _>(&r);",
             f"out with {n} channels gives a handle with {n} outputs and no inputs")
        S.no("out", f"{L}(a: {h(5, 4)})", f"let r: SH<'a, 'b, f32, ChannelsHandle<U4>> = a.out({arr});",
             f"out with {n} channels gives a handle with 4 outputs")
        S.ok("from_inputs", f"{L}(g: &'a GraphEdit<'b, f32>)", f"let r = g.from_inputs({arr}).unwrap(); outs::<U{n}, _>(&r); ins::<U0, _>(&r);",
             f"from_inputs with {n} channels gives a handle with {n} outputs and no inputs")
    S.ok("out", f"{L}(a: {h(5, 4)})", "let r = a.out(3); outs::<U1, _>(&r);", "out with one channel gives a handle with one output")
    S.ok("push", f"{L}(g: &'a GraphEdit<'b, f32>, u: N<U2, U3>)", "let r = g.push(u); outs::<U3, _>(&r); ins::<U2, _>(&r);",
         "the handle of a pushed node has the node's channel counts")
    S.ok("push_with_done_action", f"{L}(g: &'a GraphEdit<'b, f32>, u: N<U2, U3>)",
         "let r = g.push_with_done_action(u, knaster_core::Done::FreeSelf); outs::<U3, _>(&r); ins::<U2, _>(&r);",
         "the handle of a pushed node has the node's channel counts")
    S.no("push: sample type", f"{L}(g: &'a GraphEdit<'b, f32>, u: N<U2, U3, f64>)", "let r = g.push(u);", "a node for f64 is pushed to a graph of f32")
    S.ok("push (graph)", "(g: &mut Graph<f64>, u: N<U2, U3, f64>)", "g.edit(|g| { g.push(u); });")
    S.ok("subgraph", f"{L}(g: &'a GraphEdit<'b, f32>, o: GraphOptions)",
         "let (r, _) = g.subgraph::<U2, U3>(o, |_| {}); outs::<U3, _>(&r); ins::<U2, _>(&r);",
         "the handle of a subgraph has the subgraph's channel counts")
    S.ok("stack", f"{L}(a: {h(1, 4)}, b: {h(2, 3)})", "let r = a.stack(b); outs::<U7, _>(&r); ins::<U3, _>(&r);",
         "a stack has the channels of both its parts")
    S.ok("stack", f"{L}(a: {h(1, 4)}, b: {h(2, 3)})", "let r = a | b; outs::<U7, _>(&r); ins::<U3, _>(&r);",
         "a stack has the channels of both its parts")
    # for every node type: the handle's counts are the node's
    S.ok("Handle3", "<U: UGen>()", "is::<<Handle3<U> as Static>::Outputs, U::Outputs>(); is::<<Handle3<U> as Static>::Inputs, U::Inputs>();",
         "a node handle has the channel counts of its node")
    S.ok("ChannelsHandle", "<O: Size>()", "is::<<ChannelsHandle<O> as Static>::Outputs, O>(); is::<<ChannelsHandle<O> as Static>::Inputs, U0>();",
         "a handle to output channels has those outputs and no inputs")
    S.ok("Stack", "<A: Static, B: Static, I: Size, O: Size>() where A::Inputs: Add<B::Inputs, Output = I>, A::Outputs: Add<B::Outputs, Output = O>",
         "is::<<Stack<A, B> as Static>::Inputs, I>(); is::<<Stack<A, B> as Static>::Outputs, O>();",
         "a stack has the channels of both its parts")
    S.ok("process", "<U: UGen>(u: &mut U, c: &mut AudioCtx, f: &mut UGenFlags, i: Frame<U::Sample, U::Inputs>) -> Frame<U::Sample, U::Outputs>",
         "u.process(c, f, i)", "a node takes a frame with its inputs and returns one with its outputs")
    S.ok("Frame", "()", "let f: Frame<f32, U2> = [0., 0.].into();")
    for n in (0, 1, 3):
        S.no("Frame", "()", f"let f: Frame<f32, U2> = [0f32; {n}].into();", f"an array of {n} samples becomes a frame of 2")
    S.no("Frame", "(f: Frame<f32, U1>)", "let g: Frame<f32, U2> = f;", "frames of different sizes are interchangeable")
    for o, k in ((2, 1), (1, 2), (0, 1), (3, 2)):
        S.no_item("process", f"""pub struct B{o}{k};
impl UGen for B{o}{k} {{
    type Sample = f32;
    type Inputs = U1;
    type Outputs = U{o};
    type Parameters = U0;
    fn process(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, _i: Frame<f32, U1>) -> Frame<f32, U{o}> {{ [0f32; {k}].into() }}
    fn param_descriptions() -> knaster_core::numeric_array::NumericArray<&'static str, U0> {{ loop {{}} }}
    fn param_hints() -> knaster_core::numeric_array::NumericArray<knaster_core::ParameterHint, U0> {{ loop {{}} }}
    fn param_apply(&mut self, _c: &mut AudioCtx, _i: usize, _v: ParameterValue) {{}}
}}""", f"a node with {o} outputs returns {k} samples")
    S.judge(ctx, "types", "p22", GE)
    ctx.floor("types", len(S.good), 100)
    ctx.floor("types", len(S.bad), 150)


def p22_wrappers(ctx):
    """Wrapping keeps the channel counts of the wrapped node."""
    import wrap
    F = ctx.facts()
    n = 0
    for w in wrap.wrappers(F, strict=False):
        for a in ("Sample", "Inputs", "Outputs"):
            want = f"<{w.T} as knaster_core::ugen::UGen>::{a}"
            if w.name == "WrArParamToInput" and a == "Inputs":
                want = f"<{want} as core::ops::arith::Add<typenum::bit::B1>>::Output"
            n += 1
            if w.types.get(a) == want:
                ctx.ok("wrappers", f"{w.name}.{a}", want)
            else:
                ctx.viol("wrappers", f"{w.name}.{a}", f"{w.path}: {a} is {w.types.get(a)}, not that of the wrapped node", w.path, [])
    gg = [i for i in F.impls if (i.get("trait") or "").endswith("ugen::UGen") and (i.get("adt") or "").endswith("::GraphGen")]
    if len(gg) != 1:
        raise Missing("UGen implementation of GraphGen")
    args = gg[0]["self"].split("<", 1)[1][:-1].split(", ")
    types = {x[0]: x[3] for x in gg[0]["items"]}
    for a, want in zip(("Sample", "Inputs", "Outputs"), args):
        n += 1
        if types.get(a) == want:
            ctx.ok("wrappers", f"GraphGen.{a}", want)
        else:
            ctx.viol("wrappers", f"GraphGen.{a}", f"GraphGen: {a} is {types.get(a)}, not the {want} it was created with", gg[0]["adt"], [])
    ctx.floor("wrappers", n, 36)


RC = """
use knaster_graph::handle::*;
use knaster_core::log::*;
use knaster_core_dsp::wrappers_core::*;
use knaster_graph::block::*;
use std::rc::Rc;
use std::cell::Cell;
pub fn snd<T: Send>() {}
pub fn snt<T: Send>(_: T) {}
pub fn syn<T: Sync>() {}
pub struct R(Rc<Cell<u32>>);
impl UGen for R {
    type Sample = f32;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, _i: Frame<f32, U0>) -> Frame<f32, U1> { loop {} }
    fn param_descriptions() -> knaster_core::numeric_array::NumericArray<&'static str, U0> { loop {} }
    fn param_hints() -> knaster_core::numeric_array::NumericArray<knaster_core::ParameterHint, U0> { loop {} }
    fn param_apply(&mut self, _c: &mut AudioCtx, _i: usize, _v: ParameterValue) {}
}
"""


def p21(ctx):
    S = Set(HEAD + RC)
    what = "a node that may not be sent to another thread is given to a graph, which sends it"
    L = "<'a, 'b: 'a>"
    for m, call in [("GraphEdit::push", "let _ = g.push({});"),
                    ("GraphEdit::push_with_done_action", "let _ = g.push_with_done_action({}, knaster_core::Done::FreeSelf);")]:
        S.ok(m, f"{L}(g: &'a GraphEdit<'b, f32>, u: N<U0, U1>)", call.format("u"))
        S.no(m, f"{L}(g: &'a GraphEdit<'b, f32>, u: R)", call.format("u"), what)
        for w in ("u.wr_mul(2.)", "u.wr_add(2.)", "u.wr_sub(2.)", "u.wr_v_sub_gen(2.)", "u.wr_div(2.)", "u.wr_v_div_gen(2.)", "u.wr_powf(2.)", "u.wr_powi(2)",
                  "u.wr(|x| x)", "u.ar_params()", "u.smooth_params()", "u.precise_timing::<4>()"):
            S.ok(f"{m}: {w}", f"{L}(g: &'a GraphEdit<'b, f32>, u: N<U0, U1>)", call.format(w))
            S.no(f"{m}: {w}", f"{L}(g: &'a GraphEdit<'b, f32>, u: R)", call.format(w), what)
        S.no(f"{m}: captured", f"{L}(g: &'a GraphEdit<'b, f32>, u: N<U0, U1>, r: Rc<Cell<f32>>)", call.format("u.wr(move |x| x * r.get())"), what)
        S.ok(f"{m}: captured", f"{L}(g: &'a GraphEdit<'b, f32>, u: N<U0, U1>, r: f32)", call.format("u.wr(move |x| x * r)"))
        S.no(f"{m}: any", "<'a, 'b: 'a, U: UGen<Sample = f32, Parameters = U0> + 'static>(g: &'a GraphEdit<'b, f32>, u: U)", call.format("u"), what)
        S.no(f"{m}: borrowed", f"{L}(g: &'a GraphEdit<'b, f32>, u: N<U0, U1>, r: &'a Cell<f32>)", call.format("u.wr(move |x| x * r.get())"), what)
    S.no("Graph::push", "(g: &mut Graph<f32>, u: R)", "let _ = g.push(u);", what)
    S.ok("Graph::push", "(g: &mut Graph<f32>, u: N<U0, U1>)", "let _ = g.push(u);")
    for io, args, ret in [("U0, U1", "", "r.get()"), ("U1, U0", ", x: f32", "r.set(x)"), ("U1, U1", ", x: [f32; 1]", "[x[0] + r.get()]"),
                          ("U2, U3", ", x: [f32; 2]", "[x[0] + r.get(); 3]"), ("U8, U8", ", x: [f32; 8]", "x.map(|v| v + r.get())")]:
        cl = f"move |_c: &mut AudioCtx, _f: &mut UGenFlags{args}|"
        S.no(f"ugen closure {io}", "(r: Rc<Cell<f32>>)",
             f"let _: knaster_core_dsp::closure::UGenClosure<f32, {io}> = knaster_core_dsp::closure::ugen({cl} {ret});", "a closure that may not be sent becomes a node that may")
        S.ok(f"ugen closure {io}", "(r: Cell<f32>)",
             f"let _: knaster_core_dsp::closure::UGenClosure<f32, {io}> = knaster_core_dsp::closure::ugen({cl} {ret});")
    # contents decide
    for w in ("u.wr_mul(2.)", "u.wr_add(2.)", "u.wr_sub(2.)", "u.wr_v_sub_gen(2.)", "u.wr_div(2.)", "u.wr_v_div_gen(2.)", "u.wr_powf(2.)", "u.wr_powi(2)",
              "u.ar_params()", "u.smooth_params()", "u.precise_timing::<4>()", "u.wr(|x| x)"):
        S.ok("Send: " + w, "(u: N<U0, U1>)", f"snt({w});", "a wrapper of a node that may be sent may be sent")
        S.no("Send: " + w, "(u: R)", f"snt({w});", "a wrapper may be sent although the node in it may not")
    S.no("Send: WrDone", "()", "snd::<knaster_graph::wrappers_graph::done::WrDone<R>>();", "a wrapper may be sent although the node in it may not")
    # what the two sides hold
    for t in ("AudioProcessor<f32>", "AudioProcessor<f64>", "Graph<f32>", "Graph<f64>", "AnyHandle", "Handle<N<U0, U1>>", "Parameter", "ParameterValue",
              "knaster_graph::SchedulingEvent", "knaster_graph::SchedulingToken", "knaster_graph::Time", "SchedulingChannelSender", "knaster_graph::SharedFrameClock",
              "ArLogMessage", "ArLogSender", "ArLogReceiver<U1>", "NodeId"):
        S.ok("Send: " + t, "()", f"snd::<{t}>();", f"{t} may be sent to another thread")
    for t in ("Graph<f32>", "AnyHandle", "Parameter", "SchedulingChannelSender", "knaster_graph::SharedFrameClock"):
        S.ok("Sync: " + t, "()", f"syn::<{t}>();", f"{t} may be used from several threads")
    for t in ("RawContiguousBlock<f32>", "RawAggregateBlock<'static, f32>", "RawAggregateBlockRead<'static, f32>"):
        S.no("Send: " + t, "()", f"snd::<{t}>();", f"{t} points into memory it does not own and may be sent to another thread")
        S.no("Sync: " + t, "()", f"syn::<{t}>();", f"{t} points into memory it does not own and may be shared between threads")
    for t in ("AudioCtx", "ArLogSender"):
        S.no("Sync: " + t, "()", f"syn::<{t}>();", f"{t} may be shared between threads")
    S.judge(ctx, "types", "p21", "knaster_graph/src/graph_edit.rs")
    ctx.floor("types", len(S.good), 55)
    ctx.floor("types", len(S.bad), 55)


SHARED = {"knaster_graph::graph::Graph": "&Graph gives no access to the nodes, whose cell is the reason it is not Sync by itself",
          "knaster_graph::processor::AudioProcessor": "everything that touches its contents takes &mut self",
          "knaster_graph::audio_backend::cpal::CpalBackend": "the stream is only kept alive",
          "knaster_graph::audio_backend::jack::JackProcess": "jack calls it with &mut from one thread"}
SENT = set(SHARED) | {"knaster_core_dsp::wrappers_core::audio_rate::WrArParams", "knaster_graph::task::Task", "knaster_graph::task::OutputTask",
                      "knaster_graph::graph_gen::GraphGen"}


def p21_impls(ctx):
    """Every manual Send / Sync implementation: what is asserted, and on which condition."""
    F = ctx.facts()
    n = 0
    for i in F.impls:
        t = (i.get("trait") or "").split("::")[-1]
        if i.get("trait") not in ("core::marker::Send", "core::marker::Sync") or not i.get("adt", "").startswith("knaster") or i["negative"]:
            continue
        n += 1
        a = F.adts[i["adt"]]
        name = i["adt"].split("::")[-1]
        where = ":".join(map(str, i["span"]))
        bad = []
        if t == "Sync" and i["adt"] not in SHARED:
            bad.append("asserts that it can be shared between threads")
        if t == "Send" and a.get("pub") and i["adt"] not in SENT:
            bad.append("asserts that it can be sent to another thread")
        held = [F.ts(f["ty"]) for v in a["variants"] for f in v["fields"]]
        held = [h for h in held if not h.startswith("core::marker::PhantomData<")]
        for p in params_of(i["self"]):
            if any(mentions(h, p) for h in held) and f"{p}: std::marker::Send" not in i["bounds"]:
                bad.append(f"is {t} for every {p}, also one that may not be sent to another thread")
        for b in bad:
            ctx.viol("impls", f"{name}: {t}", f"{i['adt']} {b}", where, [])
        if not bad:
            ctx.ok("impls", f"{name}: {t}", SHARED.get(i["adt"]) if t == "Sync" else "conditional on its type parameters")
    ctx.floor("impls", n, 14)
    m = 0
    for f in F.fns:
        if f["crate"] != "knaster_graph" or not f["pub"] or f.get("of_trait") or \
                f.get("impl_adt", "").split("::")[-1] not in ("Graph", "GraphEdit", "AudioProcessor"):
            continue
        for p in f["inputs"]:
            if f"{p}: knaster_core::UGen" not in f["bounds"]:
                continue
            m += 1
            if f"{p}: std::marker::Send" in f["bounds"]:
                ctx.ok("impls", f["path"].split("::")[-2] + "::" + f["name"], "takes only nodes that may be sent")
            else:
                ctx.viol("impls", f["name"], f"{f['path']} takes a node that need not be sendable to another thread", ":".join(map(str, f["span"])), [])
    ctx.floor("impls", m, 3)


def params_of(s):
    if "<" not in s:
        return []
    return [x.strip() for x in s.split("<", 1)[1][:-1].split(",") if not x.strip().startswith("'") and x.strip().isidentifier()]


def mentions(t, p):
    import re
    return re.search(r"(?<![\w:])" + re.escape(p) + r"(?!\w)", t) is not None
