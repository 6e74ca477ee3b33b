"""P19: every node is initialised once, with the sample rate and block size of its graph, before the audio thread can run it."""
from wrap import *
from send import getf, fields_of, go

GRAPH = "knaster_graph::graph::Graph"
NODE = "knaster_graph::node::Node"


def rates(F, adt):
    """(field of the sample rate, field of the block size)."""
    a = F.adts.get(adt)
    if a is None:
        raise Missing(adt)
    fs = [(f["name"], F.ts(f["ty"])) for f in a["variants"][0]["fields"]]
    sr = [n for n, t in fs if t == "u32" and "rate" in n]
    bs = [n for n, t in fs if t == "usize" and "block" in n]
    if len(sr) != 1 or len(bs) != 1:
        raise Missing(f"sample rate and block size of {adt}")
    return sr[0], bs[0]


def is_init(F, t):
    """A call that initialises a node."""
    x = F.insts[t[1]]
    return last(F, t[1]) == "init" and ("UGen" in (t[6] or x.get("p") or "") or (x.get("p") or "").startswith(NODE)) and len(t[2]) == 3


def bodies(F, crate="knaster"):
    for f in F.fns:
        if "inst" in f and "body" in F.insts[f["inst"]] and f["path"].lstrip("<").startswith(crate):
            yield f


def calls_of(F, f):
    fl = Flat(F, f["inst"], lambda a, b: False)
    return [(b, fl.blocks[b].t) for b in fl.reachable() if fl.blocks[b].t[0] == "call"]


def p19_push(ctx):
    """A node becomes part of a graph only where it is initialised, once, before, with the values of that graph."""
    F, g = anchors(ctx)
    sr, bs = rates(F, GRAPH)
    nodes = fld(A1, g.f["nodes"])
    inserts = lambda fl: [b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and last(F, fl.blocks[b].t[1]) in (
        "insert", "insert_with_key", "try_insert_with_key") and "SlotMap" in (F.insts[fl.blocks[b].t[1]].get("p") or "")]
    owners = []
    for f in bodies(F, "knaster_graph"):
        if any(last(F, t[1]) in ("insert", "insert_with_key", "try_insert_with_key") and "SlotMap" in (F.insts[t[1]].get("p") or "") for b, t in calls_of(F, f)):
            owners.append(f)
    ctx.floor("push", len(owners), 1)
    for f in owners:
        fl, E = flatten(ctx, f, lambda h, x: ITER(h, x) and not x.get("p", "").endswith(("DynUGen<F>>::init", "UGenEnum::<F>::init", "UGen::init")))
        ins = set(inserts(fl))
        bad = []

        class M(Monitor):
            """how often the node has been initialised, whether it was inserted"""

            def term(self, st, b, t, env):
                n, put = st
                if t[0] == "call" and is_init(F, t):
                    a = [canon(E.op(x)) for x in t[2]]
                    if a[1] != fld(A1, sr) or a[2] != fld(A1, bs):
                        self.w.viol(("values", "a node is initialised with other values than those of its graph"))
                        return None
                    if put:
                        self.w.viol(("late", "a node is initialised after it became part of the graph"))
                        return None
                    self.seen.add(a[0])
                    return (min(n + 1, 2), put)
                if b in ins:
                    a = [canon(E.op(x)) for x in t[2]]
                    if a[0] != nodes:
                        self.w.viol(("where", "a node is put elsewhere than into the nodes of the graph"))
                        return None
                    if n != 1:
                        self.w.viol(("once", "a node becomes part of the graph without being initialised once"))
                        return None
                    if not all(any(x == a[1] for x in walk(s)) for s in self.seen):
                        self.w.viol(("which", "another node is initialised than the one added"))
                        return None
                    return (n, True)
                return st

            def edge(self, st, b, o, v, other, vals):
                # only a node that is not on the audio thread can be initialised, which a new one never is
                if not other and canon(self.w.E.op(o))[0] == "discr":
                    names = [x[2] for x in FactMon(self.w).edge((frozenset(), None), b, o, v, other, vals)[0] if x[0] == "is"]
                    if "Live" in names:
                        return None
                return st
        w = Walker(fl, E)
        m = M(w)
        m.seen = set()
        vs = list(w.run(m, (0, False)))
        report(ctx, "push", f["name"], f, fl, vs, w, "initialised once, with the graph's values, then inserted")
    # a new node is not on the audio thread
    f = getf(F, "knaster_graph::node::Node::<F>::new")
    fl, E = flatten(ctx, f, lambda h, x: False)
    made = [dict(E.rvalue(s[2])[3]) for b in fl.reachable() for s in fl.blocks[b].s if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == NODE]
    uf = fields_of(F, NODE, {"u": lambda t: "NodeUGen" in t})["u"]
    ok = len(made) == 1 and canon(made[0][uf])[0] == "agg" and canon(made[0][uf])[2] == "Local"
    if ok:
        ctx.ok("push", f["path"], "a new node holds its unit generator")
    else:
        ctx.viol("push", "Node.new", f"{f['path']}: a new node does not hold its unit generator", where=loc(F, f["inst"], None))


def p19_only(ctx):
    """Nothing else initialises nodes: only the place that adds them, and nodes that pass it on to what they are made of."""
    F, g = anchors(ctx)
    n = 0
    passed = {}
    for f in bodies(F):
        cs = [(b, t) for b, t in calls_of(F, f) if last(F, t[1]) == "init" and (F.insts[t[1]].get("p") or "").lstrip("<").startswith(("knaster", "T as knaster")) or t[6] and t[6].endswith(("UGen::init",))]
        if not cs:
            continue
        if f["name"] == "init":
            passed[f["path"]] = f
            continue
        ins = any(last(F, t[1]).startswith(("insert", "try_insert")) and "SlotMap" in (F.insts[t[1]].get("p") or "") for b, t in calls_of(F, f))
        n += 1
        if ins or helper_of_push(F, f):
            ctx.ok("only", f["path"], "where nodes are added")
        else:
            ctx.viol("only", f["path"], f"{f['path']}: nodes are initialised here although none is added", where=loc(F, f["inst"], None))
    ctx.floor("only", n, 1)
    # an enumeration of unit generators has places that hold none
    hollow = {v["name"] for p, a in F.adts.items() if p.endswith("::UGenEnum") for v in a["variants"] if all(F.ts(x["ty"]) in ("usize", "u32", "u64", "u16") for x in v["fields"])}
    # passing it on: once on every path, with the same values
    for p, f in sorted(passed.items()):
        def at(facts, eff, v, var, fl):
            cs = [x for x in eff if x[0] == "call"]
            by = {}
            for c in cs:
                by.setdefault(c[2][0], []).append(c)
            if not cs:
                if any(q[0] == "is" and q[2] in hollow for q in facts) or any(q[0] == "is" and q[2] == "Live" or q[0] == "isnot" and q[2] == "Local" for q in facts):
                    return None
                return "dropped", "what the node is made of is not initialised"
            if any(len(x) != 1 for x in by.values()):
                return "twice", "a part of the node is initialised twice"
            for c in cs:
                if any(x not in (A2, A3) for x in c[2][1:]) or len(c[2]) > 1 and c[2][1] != A2:
                    return "values", "a part of the node is initialised with other values"
        n += go(ctx, "pass", p.replace("knaster_", ""), f, at, ("init",), lambda h, x: False, "passed on once, same values")
    ctx.floor("pass", len(passed), 20)


def helper_of_push(F, f):
    """Every caller of f adds nodes."""
    callers = []
    for h in bodies(F, "knaster_graph"):
        for b, t in calls_of(F, h):
            if F.insts[t[1]].get("p") == f["path"]:
                callers.append(h)
    return bool(callers) and all(any(last(F, t[1]).startswith(("insert", "try_insert")) and "SlotMap" in (F.insts[t[1]].get("p") or "") for b, t in calls_of(F, h)) for h in callers)


def p19_values(ctx):
    """One sample rate and one block size: from the options of the processor to every graph, its audio side and the context nodes are run with."""
    F, g = anchors(ctx)
    gen = [a for a in F.adts if a.endswith("::GraphGen")][0]
    PROC, CTX = "knaster_graph::processor::AudioProcessor", "knaster_core::ugen::AudioCtx"
    fixed = {a: rates(F, a) for a in (GRAPH, gen, PROC, CTX)}
    # never changed afterwards
    n = 0
    for f in bodies(F):
        fl = Flat(F, f["inst"], lambda a, b: False)
        for b in fl.reachable():
            for s in fl.blocks[b].s:
                if s[0] != "=":
                    continue
                ws = [x for x in s[1][1] if x[0] == "f" and len(x) > 2 and x[2] in fixed and x[1] in fixed[x[2]]]
                if ws or s[2][0] in ("refmut",) and any(x[0] == "f" and len(x) > 2 and x[2] in fixed and x[1] in fixed[x[2]] for x in s[2][1][1][-1:]):
                    ctx.viol("values", f"{f['path']} changes", f"{f['path']}: the sample rate or block size is changed after nodes were initialised with it", where=loc(F, f["inst"], None))
                if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in fixed:
                    n += 1
                    made_in(ctx, F, f, s, s[2][1][1], fixed)
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "call":
                ws = [x for x in t[3][1] if x[0] == "f" and len(x) > 2 and x[2] in fixed and x[1] in fixed[x[2]]]
                if ws:
                    ctx.viol("values", f"{f['path']} changes", f"{f['path']}: the sample rate or block size is changed after nodes were initialised with it", where=loc(F, f["inst"], None))
    ctx.floor("values", n, 4)
    # what is passed to Graph::new and AudioCtx::new
    new = getf(F, "knaster_graph::graph::Graph::<F>::new")
    nctx = getf(F, "knaster_core::ugen::AudioCtx::new")
    pos = {x["path"]: (pos_of(F, x, "u32"), pos_of(F, x, "usize")) for x in (new, nctx)}
    OPT = "knaster_graph::processor::AudioProcessorOptions"
    orate = rates(F, OPT)
    m = 0
    for f in bodies(F):
        for b, t in calls_of(F, f):
            p = F.insts[t[1]].get("p")
            if p not in pos:
                continue
            m += 1
            fl = Flat(F, f["inst"], lambda a, b: False)
            E = Exprs(fl)
            a = [canon(E.op(x)) for x in t[2]]
            i, j = pos[p]
            owner = [k for k in (GRAPH, PROC) if f["path"].startswith((k + "::", "<" + k))]
            src = fixed[GRAPH] if owner == [GRAPH] else orate
            if not owner or a[i] != fld(A1, src[0]) or a[j] != fld(A1, src[1]):
                ctx.viol("values", f"{f['path']} passes", f"{f['path']}: a graph or context is made with other values than those of the processor or graph it belongs to", where=loc(F, f["inst"], None))
            else:
                ctx.ok("values", f["path"], "passes on its own values")
    ctx.floor("values-passed", m, 4)


def pos_of(F, f, ty):
    """The position of the one argument of a type."""
    ps = [i for i, t in enumerate(f["inputs"]) if t == ty]
    if len(ps) != 1:
        raise Missing(f"the {ty} argument of {f['path']}")
    return ps[0]


def made_in(ctx, F, f, s, adt, fixed):
    """A graph, its audio side, the processor or a context is made with the values given."""
    fl = Flat(F, f["inst"], lambda a, b: False)
    E = Exprs(fl)
    want = {}
    d = {}
    for b in fl.reachable():
        for x in fl.blocks[b].s:
            if x[0] == "=" and x[2][0] == "agg" and x[2][1][0] == "adt" and x[2][1][1] == adt:
                d = {k: canon(v) for k, v in E.rvalue(x[2])[3]}
    sr, bs = fixed[adt]
    ins = f["inputs"]
    u, z = [i + 1 for i, t in enumerate(ins) if t == "u32"], [i + 1 for i, t in enumerate(ins) if t == "usize"]
    opt = [i + 1 for i, t in enumerate(ins) if t.endswith("AudioProcessorOptions")]
    good = False
    if len(u) == 1 and len(z) == 1:
        good = d[sr] == ("arg", u[0]) and d[bs] == ("arg", z[0])
        # through another structure made of the same values (a graph made first)
        good = good or all(x[0] == "f" for x in (d[sr], d[bs])) and "Graph" in adt and d[sr][2] == fixed[GRAPH][0] and d[bs][2] == fixed[GRAPH][1]
    elif opt:
        o = rates(F, "knaster_graph::processor::AudioProcessorOptions")
        good = d[sr] == fld(("arg", opt[0]), o[0]) and d[bs] == fld(("arg", opt[0]), o[1])
    if good:
        ctx.ok("values", f"{f['path']} makes {adt.split('::')[-1]}", "the values given")
    else:
        ctx.viol("values", f"{f['path']} makes {adt.split('::')[-1]}", f"{f['path']}: the {adt.split('::')[-1]} does not have the sample rate and block size given", where=loc(F, f["inst"], None))
