"""Real-time safety of everything the audio thread can execute: no heap traffic (P01), no waiting (P02).

Both are closed-world call-graph questions: the fact base contains a body for every function down to
foreign symbols, so the set of foreign symbols / dynamic targets reachable from the audio entry
points is exact up to class-hierarchy resolution of trait calls."""
from collections import defaultdict
from facts import Missing
from flat import Flat
from expr import Exprs, show
from walk import Walker, Monitor
from reach import Reach, ALLOC

AUDIO_UGEN = ("process", "process_block", "param_apply", "set_ar_param_buffer", "set_delay_within_block_for_param")

# external functions whose only heap effect is growth of their first argument's container
GROW = ("push_back", "push_front", "push", "push_back_mut", "push_mut")
POP = ("pop_front", "pop_back", "pop")

P01_EXCEPT = {
    # dropped type (peeled) -> reason
    "rtrb::PushError<knaster_graph::task::TaskData":
        "return ring full: the documented last resort, reported through the audio-thread logger; P05 decides that "
        "every replaced schedule is offered to the ring first",
    "core::result::Result<(), rtrb::PushError<knaster_graph::task::TaskData":
        "the same, not yet taken apart",
    "alloc::rcs::arc::Arc<knaster_graph::graph::OwnedRawBuffer":
        "only a reference count: the control thread keeps a reference until this one is gone (decided by P03)",
}
MATH = {"tanf", "tan", "sinf", "cosf", "expf", "exp", "sin", "cos", "log", "logf", "pow", "powf", "tanhf", "tanh",
        "sinhf", "coshf", "sinh", "cosh", "atanf", "atan", "atan2", "atan2f", "asinf", "acosf", "asin", "acos",
        "expm1", "expm1f", "log1p", "log1pf", "cbrt", "cbrtf", "hypot", "hypotf", "fma", "fmaf", "fmod", "fmodf",
        "exp2", "exp2f", "log2", "log2f", "log10", "log10f", "fdim", "fdimf", "tgamma", "lgamma"}


def audio_roots(F):
    roots = []
    for f in F.fns:
        if "inst" not in f:
            continue
        a = f.get("impl_adt", "")
        if a.endswith("::AudioProcessor") and f["name"].startswith("run") and "impl_trait" not in f:
            roots.append(f["inst"])
        if f.get("tm", "").endswith("UGen::" + f["name"]) and f["name"] in AUDIO_UGEN:
            roots.append(f["inst"])
        elif f["path"] in [f"knaster_core::ugen::UGen::{n}" for n in AUDIO_UGEN]:
            roots.append(f["inst"])
    n_run = sum(1 for r in roots if "AudioProcessor" in F.name(r))
    # backend callbacks: workspace functions that call AudioProcessor::run*
    runs = {r for r in roots if "AudioProcessor" in F.name(r)}
    for i, x in enumerate(F.insts):
        if not x.get("ws") or i in runs or "body" not in x:
            continue
        if any(c in runs for c, _ in F.callees(i)[0]) and "AudioProcessor" not in F.name(i):
            roots.append(i)
    return roots, n_run


def is_diverge(F):
    return lambda i: F.insts[i].get("leaf") == "diverge" or F.insts[i]["k"] == "diverge"


HOST = ("jack", "cpal", "jack_sys")


def reach_set(F):
    R = Reach(F)
    roots, n = audio_roots(F)
    dv = is_diverge(F)
    par = R.forward(roots, cut=lambda i: dv(i) or F.insts[i].get("crate") in HOST)
    return R, roots, n, par


def callsites(F, fl, target):
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and t[1] == target:
            yield b, t
        elif t[0] == "drop" and t[3] == target:
            yield b, t


def cmp_lt(E, o, v):
    """If branch operand o taken with value v implies a < b (or a != b): yields (a, b)."""
    e = E.op(o)
    neg = False
    while e[0] == "un" and e[1] == "Not":
        e, neg = e[2], not neg
    if e[0] != "bin" or v not in (0, 1):
        return None
    t = bool(v) != neg
    a, b = e[2], e[3]
    op = e[1]
    if op == "Lt" and t or op == "Ge" and not t:
        return a, b
    if op == "Gt" and t or op == "Le" and not t:
        return b, a
    if op == "Ne" and t or op == "Eq" and not t:
        return a, b
    return None


def noSite(e):
    """Expression without call-site identities (two reads of the same place compare equal)."""
    if isinstance(e, tuple):
        if e and e[0] == "call":
            return ("call", e[1], tuple(noSite(a) for a in e[2]))
        return tuple(noSite(x) for x in e)
    return e


class HeapMon(Monitor):
    """Tracks containers known to have room and reports undischarged heap operations."""

    def __init__(self, w, sites):
        super().__init__(w)
        self.sites = sites     # target inst -> 'grow' | 'drop' | 'log'
        self.bad = {}

    def cont(self, o):
        e = self.w.E.op(o)
        while e[0] in ("&", "*"):
            e = e[1]
        return noSite(e)

    def edge(self, st, b, o, v, other, vals):
        if v in (0, 1):
            ab = cmp_lt(self.w.E, o, v)
            if ab:
                a, c = ab
                if a[0] == "call" and c[0] == "call" and a[1].endswith("::len") and c[1].endswith("::capacity"):
                    x, y = noSite(a[2][0]), noSite(c[2][0])
                    if x == y:
                        while x[0] in ("&", "*"):
                            x = x[1]
                        return st | {("room", x)}
            e = self.w.E.op(o)
            if e[0] == "discr" and v == 1:
                return self.popped(st, e[1])
        return st

    def popped(self, st, e):
        for (k, c) in list(st):
            if k == "popped" and c[0] == noSite(e):
                st = st | {("room", c[1])}
        return st

    def term(self, st, b, t, env):
        F = self.w.F
        if t[0] == "call":
            x = F.insts[t[1]]
            p = x.get("p", "")
            last = p.split("::")[-1]
            if t[1] in self.sites and self.sites[t[1]] == "grow":
                c = self.cont(t[2][0])
                if ("room", c) in st:
                    st = st - {("room", c)}
                else:
                    self.bad.setdefault(t[1], (b, t[5], f"`{last}` on {show(c)} without a length-below-capacity check on this path"))
            elif last in POP and x.get("crate") in ("alloc", "smallvec"):
                c = self.cont(t[2][0])
                res = noSite(self.w.E.call(t, (b,)))
                st = st | {("popped", (res, c))}
            elif last in ("expect", "unwrap") and t[2]:
                st = self.popped(st, self.w.E.op(t[2][0]))
            elif t[1] in self.sites and self.sites[t[1]] == "log":
                if not any(v == "V:Log" for k, v in env.items()):
                    self.bad.setdefault(t[1], (b, t[5], "logging facade called outside the non-real-time logger variant"))
            elif t[1] in self.sites and self.sites[t[1]] != "drop":
                self.bad.setdefault(t[1], (b, t[5], None))
        if t[0] == "drop" and t[3] in self.sites:
            v = self.w.get(env, t[1])
            if isinstance(v, str) and harmless(F, F.insts[t[3]].get("t"), v[2:]):
                pass
            else:
                self.bad.setdefault(t[3], (b, t[4], None))
        return st


def harmless(F, ty, variant):
    """The named variant of enum type ty owns nothing."""
    if ty is None:
        return False
    a = F.adts.get(F.types[ty].get("p", ""))
    if not a:
        return variant in ("None",)
    for v in a["variants"]:
        if v["name"] == variant:
            return all(F.types[f["ty"]]["k"] in ("usize", "uint", "int", "float", "bool", "prim", "u64", "ptr", "ptrmut", "ref")
                       or F.ts(f["ty"]) in ("usize", "u64", "u32", "u16", "u8", "i32", "bool", "f32", "f64") for f in v["fields"])
    return False


def frontier(F, R, par, sinks):
    """Edges workspace function -> external callee from which a sink is reachable through external code."""
    rev = defaultdict(list)
    for i in par:
        if R.ws(i) and i not in sinks:
            continue
        for n, _ in R.targets(i):
            if n in par:
                rev[n].append(i)
    nxt = {s: None for s in sinks}
    q = list(sinks)
    while q:
        i = q.pop(0)
        for p in rev[i]:
            if p not in nxt:
                nxt[p] = i
                q.append(p)
    out = []
    for i in par:
        if not R.ws(i):
            continue
        for n, l in R.targets(i):
            if n in nxt and F.insts[n]["k"] not in ("dyn", "unres"):
                out.append((i, n, l, nxt))
    return out


def hop_chain(F, n, nxt):
    ch = []
    while n is not None:
        ch.append(F.name(n))
        n = nxt[n]
    return ch


def keep_locals(fl, sites):
    k = {1}
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "drop" and t[3] in sites:
            k.add(t[1][0])
    return k


def discharge(F, R, par, i, sites, depth=0):
    """Path check of the frontier sites in function i (then, if needed, inlined into its callers)."""
    fl = Flat(F, i, policy=lambda f, x: False)
    E = Exprs(fl)
    w = Walker(fl, E, keep=keep_locals(fl, sites))
    m = HeapMon(w, sites)
    w.run(m, frozenset())
    bad = dict(m.bad)
    states = w.nstates
    if bad and depth < 2:
        callers = [c for c in par if R.ws(c) and "body" in F.insts[c] and any(k == i for k, _ in F.callees(c)[0])]
        if callers and any(s == "grow" for s in sites.values()):
            still = {}
            for c in callers:
                fl2 = Flat(F, c, policy=lambda f, x: x["id"] == i)
                w2 = Walker(fl2, Exprs(fl2), keep=keep_locals(fl2, sites))
                m2 = HeapMon(w2, sites)
                w2.run(m2, frozenset())
                states += w2.nstates
                for k, v in m2.bad.items():
                    still[k] = v
            bad = {k: v for k, v in bad.items() if k in still or sites[k] != "grow"}
    return bad, states


def chain_text(F, R, par, i):
    return [f"{n}" + (f" (called at line {l})" if l else "") for n, l in R.chain(par, i) if n][:14]


def p01(ctx):
    F = ctx.facts()
    R, roots, n_run, par = reach_set(F)
    ctx.floor("audio-entry-points", n_run, 3)
    ctx.floor("audio-entry-points(ugen methods)", len(roots), 80)
    ws = [i for i in par if R.ws(i)]
    ctx.floor("audio-reachable-workspace-functions", len(ws), 300)
    sinks = [i for i in par if F.insts[i].get("p", "").split("::")[-1] in ALLOC]
    byfn = defaultdict(dict)
    edges = frontier(F, R, par, sinks)
    for i, n, l, nxt in edges:
        x = F.insts[n]
        last = x.get("p", "").split("::")[-1]
        kind = "drop" if x["k"] == "drop" else "grow" if last in GROW and x.get("crate") == "alloc" else "call"
        byfn[i][n] = kind
    nxt = edges[0][3] if edges else {}
    for i in ws:
        if i not in byfn:
            ctx.ok("no-heap", F.name(i))
    for i, sites in byfn.items():
        bad, st = discharge(F, R, par, i, sites)
        ctx.states += st
        for n, kind in sites.items():
            nm = F.name(n)
            inst = f"{F.name(i)} -> {nm}"
            ty = nm[5:-1] if kind == "drop" else ""
            if nm.startswith("core::mem::drop") and F.insts[n].get("a"):
                ty = ",".join(F.ts(a) for a in F.insts[n]["a"] if isinstance(a, int))
            if n not in bad:
                ctx.ok("no-heap", inst, "discharged on every path (capacity checked, or nothing owned on this path)")
                continue
            if kind == "drop" and owns_nothing(ctx, F, i, n):
                ctx.ok("no-heap", inst, "nothing owned: the variant dropped is known on every path (iterators and closures followed)")
                continue
            exc = next((r for k, r in P01_EXCEPT.items() if ty.startswith(k)), None)
            if exc:
                ctx.ok("no-heap", inst, "listed exception: " + exc)
                continue
            if F.name(i).startswith("<knaster_graph::graph::OwnedRawBuffer<F> as core::ops::drop::Drop>"):
                ctx.ok("no-heap", inst, "reached only through the buffer reference count (decided by P03)")
                continue
            b, line, why = bad[n]
            key = nm if kind == "drop" else inst
            ctx.viol("no-heap", key, f"heap operation reachable on the audio thread: {F.name(i)} "
                     f"{'drops' if kind == 'drop' else 'calls'} {ty or nm}" + (f" ({why})" if why else ""),
                     where=loc(F, i, line),
                     trace=["audio path: " + s for s in chain_text(F, R, par, i)] + ["reaches: " + " > ".join(hop_chain(F, n, nxt))])


def owns_nothing(ctx, F, i, n):
    """Every drop n in function i, its iterators and closures inlined, is of a variant that owns nothing."""
    from iters import ITER
    from edits import FactMon, canon
    from graph import flatten
    from expr import walk
    if F.insts[n].get("t") is None or F.types[F.insts[n]["t"]].get("p", "") not in F.adts:
        return False
    fl, E = flatten(ctx, {"path": F.name(i), "inst": i}, ITER)
    sites = [b for b in fl.reachable() if fl.blocks[b].t[0] == "drop" and fl.blocks[b].t[3] == n]

    class M(FactMon):
        def without(self, st, es):
            """Facts about something that may be another value now."""
            return frozenset(f for f in st[0] if not any(e in list(walk(f[1])) for e in es)), st[1]

        def stmt(self, st, b, s):
            return self.without(st, [canon(E.place(s[1]))]) if s[0] == "=" and s[1][1] else st

        def term(self, st, b, t, env):
            if b in sites:
                x = canon(E.place(t[1]))
                v = [f[2] for f in st[0] if f[0] == "is" and f[1] == x]
                if not v or not all(harmless(F, F.insts[n]["t"], y) for y in v):
                    self.w.viol(("drop", F.name(n)))
                    return None
            if t[0] == "call":
                if F.name(t[1]).split("::")[-1].split("<")[0] in ("next", "next_back"):
                    return frozenset(), st[1]
                return self.without(st, [canon(E.op(a)) for a in t[2] if a[0] != "k"])
            return st

    w = Walker(fl, E)
    vs = list(w.run(M(w), (frozenset(), None)))
    ctx.states += w.nstates
    return bool(sites) and not vs


def loc(F, i, line):
    sp = F.insts[i].get("span")
    return f"{sp[0].split('/ws/')[-1]}:{line or sp[1]}" if sp else F.name(i)


def p02(ctx):
    F = ctx.facts()
    R, roots, n_run, par = reach_set(F)
    ctx.floor("audio-entry-points", n_run, 3)
    sinks, kinds = [], {}
    for i in par:
        x = F.insts[i]
        p = x.get("p", "")
        last = p.split("::")[-1]
        if x["k"] == "foreign" or x.get("leaf") == "foreign":
            if last in ALLOC or "no_alloc_shim" in last or last in MATH:
                ctx.ok("foreign-symbols", p)
                continue
            sinks.append(i)
            kinds[i] = f"foreign function {p}"
        elif x["k"] == "dyn" and p.startswith("log::"):
            sinks.append(i)
            kinds[i] = "logging facade (arbitrary logger)"
        elif last in ("spin_loop", "yield_now", "park", "park_timeout", "sleep") and x.get("crate") in ("core", "std"):
            sinks.append(i)
            kinds[i] = f"busy wait {p}"
        elif p in ("core::core_arch::x86::sse2::_mm_pause",):
            sinks.append(i)
            kinds[i] = f"busy wait {p}"
    edges = frontier(F, R, par, sinks)
    byfn = defaultdict(dict)
    for i, n, l, nxt in edges:
        byfn[i][n] = "log" if F.insts[n].get("crate") == "log" else "drop" if F.insts[n]["k"] == "drop" else "call"
    for i in (i for i in par if R.ws(i)):
        if i not in byfn:
            ctx.ok("no-blocking-call", F.name(i))
    for i, sites in byfn.items():
        bad, st = discharge(F, R, par, i, sites)
        ctx.states += st
        for n in sites:
            if n not in bad:
                ctx.ok("no-blocking-call", f"{F.name(i)} -> {F.name(n)}", "only with the non-real-time logger variant")
                continue
            ch = hop_chain(F, n, edges[0][3])
            end = ch[-1]
            ctx.viol("no-blocking-call", f"{F.name(i)} -> {F.name(n)}",
                     f"the audio thread can reach {end} (a lock, wait, system call or arbitrary logger): "
                     f"{F.name(i)} -> {F.name(n)}", where=loc(F, i, bad[n][1]),
                     trace=["audio path: " + s for s in chain_text(F, R, par, i)] + ["reaches: " + " > ".join(ch)])
    # the logging facade is only used by the non-real-time logger, which no audio processor is built with
    for i in par:
        if R.ws(i) and "body" in F.insts[i]:
            spin(ctx, F, i)


ATOMIC_READ = ("load", "compare_exchange", "compare_exchange_weak", "swap", "fetch_or", "fetch_and", "fetch_add")
RING_STATE = ("is_full", "is_empty", "slots", "is_abandoned", "push", "write_chunk", "write_chunk_uninit", "read_chunk",
              "push_entire_slice")


def spin(ctx, F, i):
    """Loops of function i that can only be left when another thread changes shared state."""
    fl = Flat(F, i, policy=lambda f, x: x.get("ws", False), depth=4)
    E = Exprs(fl)
    for scc in sccs(fl):
        progress, waits = False, None
        for b in scc:
            blk = fl.blocks[b]
            outs = fl.succ(b)
            if not any(s not in scc for s in outs):
                continue
            if all(fl.blocks[s].t[0] in ("unwind", "unreach") for s in outs if s not in scc):
                continue
            t = blk.t
            if t[0] != "switch":
                if t[0] in ("assert", "call"):
                    continue
                progress = True
                continue
            cond = noSite(E.op(t[1]))
            if waits_on(E, E.op(t[1])):
                waits = t[4] if len(t) > 4 else None
            else:
                progress = True
        if waits is not None and not progress:
            ctx.viol("no-spin", F.name(i), "a loop on the audio thread is left only when another thread changes shared state",
                     where=loc(F, i, waits))
            return
    ctx.ok("no-spin", F.name(i))


def waits_on(E, e):
    from expr import walk
    hit = False
    for x in walk(e):
        if x[0] == "call":
            p = x[1]
            last = p.split("::")[-1]
            if "sync::atomic" in p and last in ATOMIC_READ:
                hit = True
            elif p.startswith("rtrb::") and last in RING_STATE:
                hit = True
            elif last in ("next", "pop", "pop_front"):
                return False
    return hit


def sccs(fl):
    reach = sorted(fl.reachable())
    idx, low, on, st, out = {}, {}, set(), [], []
    n = [0]
    for root in reach:
        if root in idx:
            continue
        work = [(root, iter(fl.succ(root)))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(fl.succ(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = set()
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.add(w)
                    if w == v:
                        break
                if len(c) > 1 or v in fl.succ(v):
                    out.append(c)
    return out
