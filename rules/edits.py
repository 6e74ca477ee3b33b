"""P07: argument validation of edit operations. P08: cycle checks."""
from gcom import *
from graph import anchors, flatten, trace
from rt import loc
from walk import Walker, Monitor
from facts import Missing

ACCESS = {"index", "index_mut", "get", "get_mut", "insert", "remove", "contains_key", "get_disjoint_mut", "entry"}


def canon(e, memo=None):
    """Casts, references, dereferences and call sites removed: two expressions with the same canonical
    form denote the same value."""
    k = e[0]
    if k in ("&", "*"):
        return canon(e[1])
    if k == "cast":
        return canon(e[2])
    if k in ("f", "v"):
        return (k, canon(e[1]), e[2])
    if k in ("discr", "branch", "overflow"):
        return (k, canon(e[1]))
    if k == "[]":
        return (k, canon(e[1]), canon(e[2]))
    if k == "call":
        last = e[1].split("::")[-1]
        if last in ("deref", "deref_mut", "get_unchecked", "clone", "borrow", "as_ref", "as_mut", "key", "copied", "cloned") and e[2]:
            a = canon(e[2][0])
            if last != "key":
                return a
        if e[1].endswith("UnsafeCell<T>>::get") or e[1].endswith("UnsafeCell::<T>::get"):
            return canon(e[2][0])
        if last == "index_mut":
            last = "index"
        return ("call", last, tuple(canon(a) for a in e[2]))
    if k == "bin":
        return (k, e[1], canon(e[2]), canon(e[3]))
    if k == "un":
        return (k, e[1], canon(e[2]))
    if k == "agg":
        return (k, e[1], e[2], tuple((n, canon(v)) for n, v in e[3]))
    if k == "phi":
        out = []
        for x in e[1]:
            c = canon(x)
            if c not in out:
                out.append(c)
        return out[0] if len(out) == 1 else ("phi", tuple(out))
    if k == "repeat":
        return (k, canon(e[1]))
    return e


def cwalk(e):
    """walk() for canonical expressions (same shapes)."""
    return walk(e)


def alts(e):
    """Alternatives of a value (phi distributed over casts and references only)."""
    k = e[0]
    if k == "phi":
        return [y for x in e[1] for y in alts(x)]
    if k in ("&", "*"):
        return alts(e[1])
    if k == "cast":
        return alts(e[2])
    return [e]


def has_arg(e, lo=2):
    return any(x[0] == "arg" and x[1] >= lo for x in walk(e))


NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
EQF = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}


def atoms(e, truth):
    """Canonical facts that hold when the boolean expression e is `truth`."""
    k = e[0]
    if k == "un" and e[1] == "Not":
        return atoms(e[2], not truth)
    if k == "phi":
        rest = [x for x in e[1] if not (x[0] == "k" and isinstance(x[1], bool) and x[1] != truth)]
        if len(rest) == 1:
            return atoms(rest[0], truth)
        return []
    op = a = b = None
    if k == "bin" and e[1] in NEG:
        op, a, b = e[1], e[2], e[3]
    elif k == "bin" and e[1] in ("BitAnd",) and truth:
        return atoms(e[2], True) + atoms(e[3], True)
    elif k == "bin" and e[1] in ("BitOr",) and not truth:
        return atoms(e[2], False) + atoms(e[3], False)
    elif k == "call":
        last = e[1].split("::")[-1]
        if last in EQF and len(e[2]) == 2:
            op, a, b = EQF[last], e[2][0], e[2][1]
        elif last in ("contains_key", "contains") and len(e[2]) == 2:
            return [("has" if truth else "nothas", canon(e[2][0]), canon(e[2][1]))]
        elif last in ("is_some", "is_ok", "is_none", "is_err") and e[2]:
            want = {"is_some": "Some", "is_ok": "Ok", "is_none": "None", "is_err": "Err"}[last]
            if not truth:
                want = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}[want]
            return variant_atoms(e[2][0], want)
        elif last in ("is_some_and", "is_ok_and") and truth:
            return variant_atoms(e[2][0], "Some" if last == "is_some_and" else "Ok")
        else:
            return [("true" if truth else "false", canon(e))]
    elif k == "f":
        return [("true" if truth else "false", canon(e))]
    if op:
        if not truth:
            op = NEG[op]
        ca, cb = canon(a), canon(b)
        if op in ("Gt", "Ge"):
            ca, cb = cb, ca
            op = {"Gt": "Lt", "Ge": "Le"}[op]
        out = [(op, ca, cb)]
        if op in ("Eq", "Ne"):
            # x == Variant, by discriminants or as values
            for x, y in ((ca, cb), (cb, ca)):
                if x[0] == y[0] == "discr":
                    x, y = x[1], y[1]
                if y[0] == "agg" and y[2] and not y[3] and x[0] != "agg":
                    out += variant_atoms(x, y[2]) if op == "Eq" else [("isnot", x, y[2])]
        return out
    return []


INV = {"ok_or": {"Ok": "Some", "Err": "None"}, "ok_or_else": {"Ok": "Some", "Err": "None"}, "map_err": {"Ok": "Ok", "Err": "Err"},
       "ok": {"Some": "Ok", "None": "Err"}, "map": {"Some": "Some", "None": "None", "Ok": "Ok", "Err": "Err"},
       "filter": {"Some": "Some"}, "and_then": {"Some": "Some", "Ok": "Ok"}, "copied": {"Some": "Some", "None": "None"},
       "as_ref": {"Some": "Some", "None": "None", "Ok": "Ok", "Err": "Err"}}


def variant_atoms(e, name):
    """Facts that hold when e has the enum variant `name`."""
    out = []
    c = canon(e)
    for _ in range(12):
        out.append(("is", c, name))
        if c[0] == "branch":
            inv = {"Continue": ("Ok", "Some"), "Break": ("Err", "None")}.get(name, (name,))
            c = c[1]
            if c[0] != "call":
                out.append(("is", c, inv[-1]))
            opt = c[0] == "call" and c[1] not in ("ok_or", "ok_or_else", "map_err") and c[1] in ("get", "get_mut", "ok", "find", "position")
            name = inv[-1] if opt else inv[0]
            continue
        if c[0] == "call" and c[1] in INV and name in INV[c[1]] and c[2]:
            name, c = INV[c[1]][name], c[2][0]
            continue
        break
    for c, name in ((f[1], f[2]) for f in list(out)):
        if c[0] == "call" and name == "Some":
            if c[1] in ("get", "get_mut") and len(c[2]) == 2:
                out.append(("has", c[2][0], c[2][1]))
    return out


class FactMon(Monitor):
    """Collects canonical facts along a path; state = (facts, extra)."""

    def relevant(self, f):
        return True

    def edge(self, st, b, o, v, other, vals):
        facts, extra = st
        e = self.w.E.op(o)
        new = []
        if e[0] == "discr":
            tab = self.w._discr_table(o)
            d = dict(tab) if tab else {}
            if v is not None and v in d:
                new = variant_atoms(e[1], d[v])
            elif v is None and other:
                new = [("isnot", canon(e[1]), d[x]) for x in vals if x in d]
        elif e[0] == "phi" and all(x[0] == "discr" for x in e[1]):
            pass
        elif e[0] in ("bin", "un") and (vx := variant(self.w, o, v))[1]:
            new = variant_atoms(*vx)
        elif self.w.F.types[o[2]]["k"] == "bool" and v in (0, 1):
            new = atoms(e, bool(v))
        elif v is not None and not other:
            new = [("Eq", canon(e), ("k", v))]
        new = [f for f in new if self.relevant(f)]
        if new:
            facts = facts | frozenset(new)
        return facts, extra


# ------------------------------------------------------------------ P07
class Req:
    """A requirement of one mutation: text, key, and the predicate over facts that satisfies it."""

    def __init__(self, key, text, pred, live):
        self.key, self.text, self.pred, self.live = key, text, pred, live  # live: (base, variant) pairs

    def alive(self, fs):
        return not any(f[0] == "is" and f[1] == b and f[2] != v for b, v in self.live for f in fs)


class Validation:
    def __init__(self, g, fl, E):
        self.g, self.fl, self.E, self.F = g, fl, E, g.F
        nid = fields_by_type(g.F, "graph::NodeId", {
            "key": (lambda t: t.endswith("NodeKey"), "key"), "graph": (lambda t: t.endswith("u64") or t.endswith("GraphId"), "graph")})
        self.kf, self.gf = nid["key"], nid["graph"]

    def trusted(self, e):
        """The value was read from one of the graph's own containers, or made by this operation."""
        return bool(roles(self.g, e)) or not has_arg(e)

    def key_reqs(self, k, what, structural=True):
        """Requirements for the node key expression k to be used."""
        out = []
        for a in alts(k):
            if a[0] == "call" and a[1].split("::")[-1] in ("into", "from", "clone") and a[2]:
                out += self.key_reqs(a[2][0], what, structural)
                continue
            if a[0] == "agg" and a[2] == "Node":
                out += self.key_reqs(a[3][0][1], what, structural)
                continue
            if a[0] == "v":
                out += self.key_reqs(a[1], what, structural)
                continue
            if self.trusted(a):
                continue
            if a[0] == "call" and a[1].split("::")[-1] in ("insert",):
                continue  # key of a node created by this operation
            c = canon(a)
            bare = not (c[0] == "f" and c[2] == self.kf)
            cont = {self.g.f[r] for r in (("in_edges", "par_edges") if structural and not bare else ("in_edges", "par_edges", "nodes", "mortality"))}
            if c[0] == "f" and c[2] == self.kf:
                x = c[1]
                gr = ("f", x, self.gf)
                out.append(Req(f"{what}: node of another graph", f"without checking that the {what} belongs to this graph",
                               lambda fs, gr=gr: any(f[0] == "Eq" and ((f[1] == gr and self.selfgid(f[2])) or (f[2] == gr and self.selfgid(f[1]))) for f in fs),
                               self.live(a)))
            out.append(Req(f"{what}: unknown or freed node", f"without checking that the {what} is a live node of this graph",
                           lambda fs, c=c: any(f[0] == "has" and f[2] == c and any(x[0] == "f" and x[2] in cont for x in walk(f[1])) for f in fs),
                           self.live(a)))
        return out

    def selfgid(self, c):
        return c[0] == "f" and c[2] == self.g.f["gid"] and not has_arg(c)

    def live(self, a):
        """Variants this alternative presupposes: skipped on paths that know another variant."""
        return tuple((x[1], x[2]) for x in walk(canon(a)) if x[0] == "v")

    def below(self, ch, what, ok):
        """ch < a bound accepted by ok(bound expression)."""
        out = []
        for a in alts(ch):
            if self.trusted(a):
                continue
            if any(x[0] == "call" and x[1].split("::")[-1] in ("position", "find", "enumerate", "find_map") for x in walk(a)):
                continue  # an index found by searching the node's own table
            c = canon(a)
            out.append(Req(f"{what} out of range", f"without checking that the {what} exists",
                           lambda fs, c=c: any((f[0] == "Lt" and f[1] == c and ok(f[2])) for f in fs), self.live(a)))
        return out

    def node_field(self, names, key):
        """bound = <one of names> of nodes[key], or the length of in_edges[key] for inputs"""
        ck = [canon(a) for a in alts(key)]

        def ok(b):
            if any(x in ck for x in walk(b)):
                if any(x[0] == "f" and x[2] in names for x in walk(b)) and any(x[0] == "f" and x[2] == self.g.f["nodes"] for x in walk(b)):
                    return True
                if "inputs" in names and any(x[0] == "call" and x[1] == "len" for x in walk(b)) \
                        and any(x[0] == "f" and x[2] == self.g.f["in_edges"] for x in walk(b)):
                    return True
            return False
        return ok

    def place_reqs(self, e):
        """Requirements from the keys and indices of the accessed place."""
        out, key = [], None
        chain = list(chain_roots(e))
        role = roles(self.g, e)
        for x in chain:
            if x[0] == "call" and x[1].split("::")[-1] in ACCESS and len(x[2]) >= 2 and roles(self.g, x[2][0]):
                key = x[2][1]
                out += self.key_reqs(key, "sink" if role & STRUCT else "node", bool(role & STRUCT))
        for x in chain:
            if x[0] == "[]" and has_arg(x[2]):
                if "out_edges" in role:
                    out += self.below(x[2], "graph output", lambda b: any(y[0] == "f" and (y[2] == self.g.f["out_edges"] or y[2] == "num_outputs") for y in walk(b)))
                elif "in_edges" in role and key is not None:
                    out += self.below(x[2], "input channel", self.node_field(("inputs",), key))
        return out

    def value_reqs(self, v, key=None):
        """Requirements from edges stored in a container (key: the sink of a parameter edge)."""
        out = []
        for x in walk(v):
            if x[0] != "agg" or not x[1].split("::")[-1] in ("Edge", "ParameterEdge", "SchedulingEvent"):
                continue
            f = dict(x[3])
            name = x[1].split("::")[-1]
            if name == "SchedulingEvent":
                out += self.key_reqs(f["node_key"], "node", structural=False)
                out += self.below(f["parameter"], "parameter", self.node_field(("parameters",), f["node_key"]))
                continue
            src = f["source"]
            out += self.key_reqs(src, "source")
            for a in alts(src):
                isg = a[0] == "agg" and a[2] == "Graph"
                if isg:
                    out += self.below(f["channel_in_source"], "graph input", lambda b: b[0] == "f" and b[2] == "num_inputs")
                else:
                    ks = [y for y in key_leaves(a) if not self.trusted(y)]
                    for y in ks:
                        rs = self.below(f["channel_in_source"], "output channel", self.node_field(("outputs",), y))
                        lv = self.live(a)
                        for r in rs:
                            r.live = r.live + lv
                        out += rs
            if name == "ParameterEdge" and key is not None:
                out += self.below(f["parameter_index"], "parameter", self.node_field(("parameters",), key))
        return out


    def arg_reqs(self, f, structural):
        """Requirements of a successful return: every node and channel argument has been checked."""
        out, seen = [], set()
        fl, E = self.fl, self.E
        for b in fl.reachable():
            blk = fl.blocks[b]
            es = [E.op(blk.t[1])] if blk.t[0] == "switch" else [E.op(a) for a in blk.t[2]] if blk.t[0] == "call" else []
            for e in es:
                for x in walk(e):
                    if x[0] == "f" and x[2] in (self.kf, self.gf) and x not in seen and has_arg(x[1]) and not roles(self.g, x):
                        seen.add(x)
                        out += self.key_reqs(("f", x[1], self.kf), "node", structural)
        for i, t in enumerate(f["inputs"]):
            if t == "u16":
                c = ("arg", i + 1)
                out.append(Req(f"channel argument {i} out of range", "without checking a channel argument",
                               lambda fs, c=c: any(x[0] == "Lt" and x[1] == c and not has_consts(x[2]) for x in fs), ()))
        return out


def has_consts(b):
    return b[0] == "k"


def key_leaves(a):
    k = a[0]
    if k == "call" and a[1].split("::")[-1] in ("into", "from", "clone") and a[2]:
        return [y for x in alts(a[2][0]) for y in key_leaves(x)]
    if k == "agg" and a[2] == "Node":
        return [y for x in alts(a[3][0][1]) for y in key_leaves(x)]
    return [a]


class ValMon(FactMon):
    def __init__(self, w, reqs, evs, iserr):
        super().__init__(w)
        self.reqs, self.evs, self.iserr = reqs, evs, iserr
        self.all = [r for l in reqs.values() for r in l]
        self.bases = {b for r in self.all for b, _ in r.live}
        self.rel = {}

    def relevant(self, f):
        if f not in self.rel:
            self.rel[f] = f[1] in self.bases if f[0] == "is" else any(r.pred((f,)) for r in self.all)
        return self.rel[f]

    def check(self, st, at):
        facts, ext = st
        for r in self.reqs.get(at, ()):
            if r.alive(facts) and not r.pred(facts):
                self.w.viol((r.key, r.text))
        return facts, ext

    def stmt(self, st, b, s):
        for ev in self.evs.get(b, ()):
            if ev[0] != "t" and self.w.fl.blocks[b].s[ev[0]] is s:
                st = self.check(st, (b, ev[0]))
                x = structural(ev)
                if x:
                    st = st[0], st[1] | {x}
        return st

    def term(self, st, b, t, env):
        if (b, "t") in self.reqs:
            st = self.check(st, (b, "t"))
        for ev in self.evs.get(b, ()):
            if ev[0] == "t":
                x = structural(ev)
                if x:
                    st = st[0], st[1] | {x}
        if t[0] == "ret":
            v = self.w.variant_of_return(env)
            if v == "Ok" or not self.iserr and st[1]:
                self.check(st, "ret")
            if self.iserr and st[1]:
                if v != "Ok":
                    self.w.viol(("error after edit", "and then return an error, after having edited " + ", ".join(sorted(st[1]))))
            return None
        return st


def short(f):
    return f["impl_adt"].split("::")[-1] + "::" + f["name"] if "impl_adt" in f else f["name"]


def p07(ctx):
    F, g = anchors(ctx)
    n = nreq = 0
    ge = [f for f in F.fns if f.get("impl_adt", "").endswith("::GraphEdit") and "impl_trait" not in f and "inst" in f]
    for f in g.entries() + ge:
        if len(f["inputs"]) < 2 or f["name"] == "commit_changes":
            continue
        fl, E = flatten(ctx, f)
        V = Validation(g, fl, E)
        evs = events(g, fl, E)
        reqs = {}
        for b, l in evs.items():
            for ev in l:
                if ev[1] == "dirty":
                    continue
                d = ev[2]
                rs = V.place_reqs(d[1])
                vals = [d[2]] if ev[1] == "write" else list(d[2])
                key = None
                for x in chain_roots(d[1]):
                    if x[0] == "call" and x[1].split("::")[-1] in ACCESS and len(x[2]) >= 2 and roles(g, x[2][0]):
                        key = x[2][1]
                if ev[1] in ("insert", "remove") and len(vals) >= 1 and "nodes" not in d[0]:
                    rs += V.key_reqs(vals[0], "node", ev[1] != "remove")
                for v in vals:
                    rs += V.value_reqs(v, key)
                if rs:
                    reqs.setdefault((b, ev[0]), []).extend(rs)
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "call":
                for a in t[2]:
                    v = E.op(a)
                    if v[0] == "agg" and v[1].endswith("::SchedulingEvent"):
                        reqs.setdefault((b, "t"), []).extend(V.value_reqs(v))
        if not reqs and not any(structural(e) for l in evs.values() for e in l):
            continue
        if any(structural(e) for l in evs.values() for e in l):
            adds = any(y[0] == "agg" and y[1].split("::")[-1] in ("Edge", "ParameterEdge") for l in evs.values() for ev in l
                       if ev[1] != "dirty" for v in (ev[2][2:] if ev[1] == "write" else ev[2][2]) if isinstance(v, tuple) for y in walk(v))
            reqs["ret"] = V.arg_reqs(f, adds)
        n += 1
        keys = {r.key for l in reqs.values() for r in l}
        nreq += sum(len(l) for l in reqs.values())
        iserr = "Result<" in f["output"]
        w = Walker(fl, E)
        vs = w.run(ValMon(w, reqs, evs, iserr), (frozenset(), frozenset()), max_viol=200)
        ctx.states += w.nstates
        done = set()
        for (k, msg), path in vs:
            if k in done:
                continue
            done.add(k)
            ctx.viol("edit-arguments-checked", f"{short(f)}: {k}", f"{f['path']} can edit the graph {msg}",
                     where=loc(F, f["inst"], None), trace=trace(fl, path))
        for k in keys - done:
            ctx.ok("edit-arguments-checked", f"{short(f)}: {k}")
        if iserr and not any(k == "error after edit" for k in done):
            ctx.ok("no-edit-before-error", short(f))
    ctx.floor("edit-arguments-checked", n, 10)
    ctx.notes.append(f"P07: {n} editing operations, {nreq} argument requirements")
