"""P09: removing a node or an endpoint removes exactly its connections."""
from foreach import *
from effects import summarise
from flat import Flat
from expr import Exprs
from signals import peel
import signals

TABLES = ("in_edges", "out_edges", "par_edges")
NAME = {"in_edges": "signal inputs", "out_edges": "graph outputs", "par_edges": "parameter connections"}
REMOVE = {"clear", "truncate", "drain", "remove", "swap_remove", "pop", "retain", "retain_mut", "take", "replace", "swap", "insert", "push", "extend",
          "append", "dedup_by_key", "fill", "rotate_left", "rotate_right", "reverse"}


def subst(c, ups, me):
    """Captured variables of closure argument `me` replaced by their values."""
    if not isinstance(c, tuple):
        return c
    if c and c[0] == "f" and c[1] == me and c[2] in ups:
        return ups[c[2]]
    return tuple(subst(x, ups, me) if isinstance(x, tuple) else x for x in c)


def inner_key(e):
    """Key or source expression with the newtype and Node wrappers removed."""
    for _ in range(8):
        if e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Node":
            e = e[1][1]
        elif e[0] == "f" and e[2] == "0" and e[1][0] == "f":
            e = e[1]
        elif e[0] == "call" and e[1] in ("into", "from", "key") and len(e[2]) == 1:
            e = e[2][0]
        elif e[0] == "agg" and e[2] == "Node" and len(e[3]) == 1:
            e = e[3][0][1]
        else:
            return e
    return e


def ends(e, el, field):
    """e is `field` of the connection in element el (canonical; el may be the connection or an Option of it)."""
    e = inner_key(e)
    if e[0] == "phi":
        z = [x for x in e[1] if x != ("never",)]
        return bool(z) and all(ends(x, el, field) for x in z)
    if not (e[0] == "f" and e[2] == field):
        return False
    x = e[1]
    for _ in range(6):
        if x in el:
            return True
        if x[0] == "f" and x[2] == "0" and x[1][0] == "v" and x[1][2] == "Some":
            x = x[1][1]
        elif x[0] == "phi":
            z = [y for y in x[1] if y != ("never",)]
            if len(z) != 1:
                return False
            x = z[0]
        elif x[0] == "call" and x[1] in ("unwrap", "expect", "unwrap_unchecked") and x[2]:
            x = x[2][0]
        else:
            return False
    return False


def from_arg(e, n, deep=0):
    """e is argument n, possibly converted (into, Node(..), its key)."""
    e = inner_key(e)
    if e == ("arg", n):
        return True
    if deep > 4:
        return False
    if e[0] == "phi":
        z = [x for x in e[1] if x != ("never",)]
        # converting a source: Node(its key) or Graph
        return bool(z) and any(from_arg(x, n, deep + 1) for x in z) and all(from_arg(x, n, deep + 1) or x[0] == "agg" and x[2] == "Graph" for x in z)
    if e[0] == "f" and e[2] in ("key", "0"):
        return from_arg(e[1], n, deep + 1)
    if e[0] == "v":
        return from_arg(e[1], n, deep + 1)
    return False


class Pred:
    """Which connections have to go: source is argument s and, if c is given, channel_in_source is argument c."""

    def __init__(self, s, c=None):
        self.s, self.c = s, c
        self.conj = {"source"} | ({"channel"} if c else set())

    def rel(self, f, el):
        """(conjunct, holds) that fact f states about the connection in element el."""
        if f[0] in ("Eq", "Ne"):
            for x, y in ((f[1], f[2]), (f[2], f[1])):
                if ends(x, el, "source") and from_arg(y, self.s):
                    return "source", f[0] == "Eq"
                if self.c and ends(x, el, "channel_in_source") and y == ("arg", self.c):
                    return "channel", f[0] == "Eq"
        if f[0] == "is" and f[2] == "Graph" and ends(f[1], el, "source") and self.c is None:
            return "source", False
        if f[0] == "is" and f[2] == "None" and (f[1] in el):
            return "present", False
        return None

    def state(self, facts, el):
        """True: has to go; False: has to stay; None: not known."""
        r = [x for x in (self.rel(f, el) for f in facts) if x]
        if any(not v for _, v in r):
            return False
        return True if {k for k, _ in r} >= self.conj else None


def is_none(e):
    return e[0] == "agg" and e[2] == "None"


class Purge(ForEach):
    def __init__(self, *a, at_ret=None, **kw):
        super().__init__(*a, **kw)
        self.at_ret = at_ret

    def term(self, st, b, t, env):
        if t[0] == "ret":
            r = self.at_ret(st, self.w.variant_of_return(env))
            for x in r or ():
                self.w.viol(x)
            return None
        return super().term(st, b, t, env)


def purge(ctx, f, rule, pred, mode, floors):
    """Every connection that matches pred is removed, and no other. mode: 'free' (when the node is put on the list of
    nodes to free) or 'ok' (when the operation succeeds)."""
    F, g = anchors(ctx)
    nokey = lambda f, x: ITER(f, x) and not ("NodeKeyOrGraph" in x.get("p", "") and x.get("p", "").endswith("PartialEq>::eq"))
    fl, E = flatten(ctx, f, nokey)
    S = Sites(g, fl, E)
    loops, inner, outer, inners, flat = {}, {}, {}, {}, set()
    retains = {}
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and t[2] and last(F, t[1]) in ("retain", "retain_mut") and roles(g, E.op(t[2][0])) == {"par_edges"}:
            retains[b] = t

    def lvl(s):
        """'table' when the site runs over a whole table, 'node' when over the entries of one node."""
        base = s.base
        if not s.roles or len(s.roles) != 1 or not s.roles & set(TABLES):
            return None
        r = next(iter(s.roles))
        if r == "out_edges":
            return "entries"
        if s.flat is not None and canon(strip(s.flat)) == ("f", ("arg", 1), g.f[r]):
            return "flat"
        x = canon(base)
        return "table" if x == ("f", ("arg", 1), g.f[r]) else "entries"

    for b, s in S.at.items():
        k = lvl(s)
        if k is None:
            continue
        r = next(iter(s.roles))
        if k == "table":
            outer[b] = r
        else:
            inners[b] = r
            if k == "flat":
                flat.add(b)
    for b, r in outer.items():
        loops[b] = r
    for b, r in inners.items():
        loops[b] = r + " entry" if r != "out_edges" and b not in flat else r
    els = {b: elems(S, E, b) for b in loops}

    def site_of(e):
        b = S.elem_of(e)
        return b if b in inners else None

    def whole(e, b):
        """e is the element of site b itself, not a part of it."""
        return canon(e) in els[b]

    n = {"cleared": 0, "retained": 0}

    def event(st, b, what, x):
        facts, (op, done) = st
        if what == "stmt":
            if x[0] != "=" or not x[1][1]:
                return None
            p = E.place(x[1])
            r = roles(g, p)
            if not r & set(TABLES):
                return None
            v = E.rvalue(x[2])
            s = site_of(p)
            if s is not None and whole(p, s) and is_none(peel(v)):
                return clear(facts, s)
            return [("bad", "other write", f"a connection is changed in another way than being removed ({'/'.join(sorted(r))})")]
        t = x
        ln = last(F, t[1])
        if b in retains:
            s = next((y for y in outer if outer[y] == "par_edges" and S.elem_of(E.op(t[2][0])) == y), None)
            if s is None:
                return [("bad", "part", "the parameter connections of only some nodes are looked at")]
            return [("do", s)]
        if not t[2]:
            return None
        e = E.op(t[2][0])
        if t[2][0][0] == "k":
            return None
        r = roles(g, e)
        if r and ln in ("take", "replace") and r & set(TABLES):
            s = site_of(e)
            if s is not None and whole(e, s) and (ln == "take" or is_none(peel(E.op(t[2][1])))):
                return clear(facts, s)
        if F.types[t[2][0][2]]["k"] in ("refmut", "ptrmut") and ln in REMOVE and not F.insts[t[1]].get("ws"):
            if mode == "free" and ln == "remove" and canon(e) in (("f", ("arg", 1), g.f["in_edges"]), ("f", ("arg", 1), g.f["par_edges"])):
                if canon(E.op(t[2][1])) != ("arg", pred.s):
                    return [("bad", "other node", "the connections of a node other than the one that is freed are removed")]
                return [("own", "own " + next(iter(r)))]
            if mode == "free" and ln == "push" and r == {"pending_nodes"}:
                v = E.op(t[2][1])
                return [("own", "pushed")]
            if r & set(TABLES):
                return [("bad", "other write", f"a connection is changed in another way than being removed ({'/'.join(sorted(r))}.{ln})")]
        return None

    def clear(facts, s):
        n["cleared"] += 1
        if pred.state(facts, els[s]) is not True:
            return [("bad", "too much", f"a connection ({NAME[inners[s]]}) is removed that is not one of those to remove")]
        return [("do", s)]

    def exempt(st, b):
        facts, (op, done) = st
        if b in outer:
            return outer[b] != "par_edges" and any(inners[i] == outer[b] and loops[i] in done for i in inners)
        return pred.state(facts, els[b]) is False or loops[b] == "par_edges entry" and False

    def at_ret(st, variant_):
        facts, (op, done) = st
        if mode == "ok":
            if variant_ == "Err":
                return None
            need = set(TABLES)
            if any(f[0] == "is" and f[2] == "Graph" and from_arg(f[1], pred.s) for f in facts):
                need.discard("par_edges")
        else:
            if "pushed" not in done:
                return None
            need = set(TABLES) | {"own in_edges", "own par_edges"}
        out = []
        for k in sorted(need - done):
            if k.startswith("own"):
                out.append((k, f"a freed node keeps its {NAME[k[4:]]}"))
            else:
                out.append((k + " partial", f"not all {NAME[k]} of the graph are looked at"))
        return out

    class M(Purge):
        def apply(self, st, evs):
            own = [e[1] for e in evs or () if e[0] == "own"]
            st = super().apply(st, [e for e in evs or () if e[0] != "own"])
            if st is not None and own:
                st = st[0], (st[1][0], st[1][1] | set(own))
            return st

    w = Walker(fl, E)
    inn = {b: [loops[i] for i in inners if inners[i] == r] for b, r in outer.items()}
    allel = set().union(*els.values()) if els else set()
    m = M(w, S, loops, event, exempt, [], lambda k: f"a connection that has to go ({NAME[k.split()[0]]}) is kept",
          lambda k: "", once=False, inner=inn, at_ret=at_ret,
          keep=lambda q: any(x in allel for z in q[1:] if isinstance(z, tuple) for x in walk(z)) or q[0] == "is" and q[2] == "Graph")
    vs = w.run(m, ForEach.INIT)
    ctx.states += w.nstates
    bad = 0
    done = set()
    for (k, msg), path in vs:
        if k not in done:
            done.add(k)
            bad += 1
            ctx.viol(rule, f"{f['name']}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    for b, t in retains.items():
        bad += retained(ctx, F, g, f, fl, E, S, b, pred, rule, next((y for y in outer if S.elem_of(E.op(t[2][0])) == y), None))
        n["retained"] += 1
    if not bad:
        ctx.ok(rule, f["path"], f"{w.nstates} path states; {n}")
        for k, least in floors.items():
            ctx.floor(rule + "-" + k, n[k], least)


def elems(S, E, b):
    s = S.at[b]
    out = set()
    if s.call is not None and s.idx is None:
        c = canon(E.place(s.call[3]))
        out |= {("f", ("v", c, "Some"), "0")}
        if "enumerate" in repr(s.it):
            out |= {("f", ("f", ("v", c, "Some"), "0"), "1")}
    if s.idx is not None:
        out |= {("[]", canon(s.base), canon(s.idx)), ("call", "index", (canon(s.base), canon(s.idx)))}
    return out


def retained(ctx, F, g, f, fl, E, S, b, pred, rule, site):
    """The closure of retain keeps exactly the connections that do not match, and disables the parameters of the others."""
    t = fl.blocks[b].t
    cl = peel(E.op(t[2][1]))
    inst = closure_inst(F, cl[1][8:]) if cl[0] == "agg" and cl[1].startswith("closure:") else None
    if inst is None:
        raise Missing("the closure deciding which parameter connections stay")
    cf = Flat(F, inst, lambda f, x: ITER(f, x) and not x.get("p", "").endswith("PartialEq>::eq"))
    cE = Exprs(cf)
    ups = {n: canon(v) for n, v in cl[3]}
    me, el = ("arg", 1), {("arg", 2)}
    key = {("f", x, "0") for x in elems(S, E, site)} if site is not None else set()

    def at(facts, eff, v, var):
        fs = {subst(q, ups, me) for q in facts}
        v = subst(v, ups, me)
        while v[0] == "un" and v[1] == "Not" and v[2][0] == "k" and isinstance(v[2][1], bool):
            v = ("k", not v[2][1])
        if v[0] == "k" and isinstance(v[1], bool):
            cases = [(v[1], fs)]
        elif v[0] == "phi" and all(x[0] == "k" or x == v for x in v[1]):
            raise Missing("what the closure of retain returns")
        else:
            cases = [(tr, fs | set(atoms(v, tr))) for tr in (True, False)]
        pushed = [x for x in eff if x[0] == "call" and x[1] == "push"]
        for keep, q in cases:
            if any(("Ne", z[1], z[2]) in q or ("Ne", z[2], z[1]) in q for z in q if z[0] == "Eq"):
                continue
            s = pred.state(q, el)
            if keep and s is not False:
                return "par_edges skipped", "a connection that has to go (parameter connections) is kept"
            if not keep and s is not True:
                return "too much", "a connection (parameter connections) is removed that is not one of those to remove"
            if keep and pushed:
                return "disabled", "a parameter whose connection stays is disconnected"
            if not keep:
                if len(pushed) != 1:
                    return "not disabled", "the node is not told that the connection to its parameter has gone"
                a = subst(pushed[0][2], ups, me)
                to, d = a[0], dict(a[1][3]) if a[1][0] == "agg" else {}
                if not (to[0] == "f" and to[2] == g.f["ar_off"]) or d.get("0") not in key or d.get("1") != ("f", ("arg", 2), "parameter_index"):
                    return "not disabled", "another parameter than the one that was connected is disconnected"
        return None

    vs = summarise(ctx, cf, cE, lambda t: last(F, t[1]) if last(F, t[1]) == "push" else None, at)
    for (k, msg), path in vs:
        ctx.viol(rule, f"{f['name']}: {k}", f"{f['path']}: {msg}", where=loc(F, inst, None), trace=trace(cf, path))
    return len(vs)


def p09_free(ctx):
    F, g = anchors(ctx)
    purge(ctx, freeing(ctx, F, g), "free-node", Pred(2), "free", {"cleared": 2, "retained": 1})


def p09_output(ctx):
    F, g = anchors(ctx)
    purge(ctx, g.m("disconnect_output_from_source"), "disconnect-output", Pred(2, 3), "ok", {"cleared": 2, "retained": 1})


def freeing(ctx, F, g):
    fs = []
    for f in g.methods.values():
        if f["name"] in ("commit_changes", "new"):
            continue
        fl, E = flatten(ctx, f, lambda f, x: False)
        if any(ev[0] == "t" and ev[1] == "push" and ev[2][0] == {"pending_nodes"} for l in events(g, fl, E).values() for ev in l):
            fs.append(f)
    if len(fs) != 1:
        raise Missing("the function that removes a node from the graph")
    return fs[0]


def collapsing(ctx, F, g, free):
    """The function that decides whether a node that lost a connection has to go: frees the node it is given, without a result."""
    out = []
    for f in g.methods.values():
        fl, E = flatten(ctx, f, lambda f, x: False)
        if fl.nargs != 2 or F.types[fl.ltypes[fl.retlocal]]["s"] != "()":
            continue
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "call" and F.insts[t[1]].get("p") == free["path"] and canon(E.op(t[2][1])) == ("arg", 2):
                out.append((f, fl))
                break
    names = {f["path"] for f, _ in out}
    called = {F.insts[fl.blocks[b].t[1]].get("p") for _, fl in out for b in fl.reachable() if fl.blocks[b].t[0] == "call"}
    top = [f for f, _ in out if f["path"] not in called]
    if len(top) != 1:
        raise Missing("the function that removes a node that lost its connections")
    return top[0]


def opaque(*paths):
    return lambda f, x: x.get("p", "") not in paths and ITER(f, x)


def math_flag(ctx, F, g):
    """Name of the node field that marks the summing nodes the graph adds by itself."""
    out = set()
    for f in g.methods.values():
        fl, E = flatten(ctx, f, lambda f, x: False)
        if not F.types[fl.ltypes[fl.retlocal]]["s"].split("::")[-1] == "NodeKey":
            continue
        for b in fl.reachable():
            for s in fl.blocks[b].s:
                if s[0] == "=" and s[1][1] and E.rvalue(s[2]) == ("k", True):
                    el = s[1][1][-1]
                    if el[0] == "f" and el[2].endswith("::Node"):
                        out.add(el[1])
    if len(out) != 1:
        raise Missing("the mark of summing nodes")
    return next(iter(out))


def p09_input(ctx):
    """Disconnecting an input takes the connection of exactly that input of exactly that sink."""
    F, g = anchors(ctx)
    f = g.m("disconnect_input_to_sink")
    free = freeing(ctx, F, g)
    ev = collapsing(ctx, F, g, free)
    fl, E = flatten(ctx, f, opaque(free["path"], ev["path"]))
    KEYED = {"index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut", "iter", "iter_mut", "len", "contains_key", "deref", "deref_mut", "as_ref",
             "as_mut", "is_some", "is_none", "as_mut_slice", "as_slice", "get_disjoint_mut", "into_iter", "next", "next_back"}

    def entry(e):
        """'in_edges'/'out_edges' when e is the connection slot named by the arguments; 'other' for another slot; None if none of the tables."""
        r = roles(g, e)
        if not r & set(TABLES):
            return None
        c = canon(e)
        for _ in range(6):
            if c[0] == "f" and c[2] == "0" and c[1][0] == "v" and c[1][2] in ("Some", "Ok", "Continue"):
                c = c[1][1]
            elif c[0] == "branch":
                c = c[1]
            elif c[0] == "call" and c[1] in ("unwrap", "expect", "ok_or", "ok_or_else"):
                c = c[2][0]
            else:
                break
        if c[0] == "[]":
            base, i = c[1], c[2]
        elif c[0] == "call" and c[1] in ("index", "get", "get_mut", "get_unchecked", "get_unchecked_mut") and len(c[2]) == 2:
            base, i = c[2]
        else:
            return "other"
        if i != ("arg", 2):
            return "other"
        if r == {"out_edges"}:
            return "out_edges"
        if r == {"in_edges"}:
            k = [x for x in walk(base) if x[0] == "call" and x[1] in ("index", "get", "get_mut", "get_unchecked", "get_unchecked_mut") and len(x[2]) == 2]
            if len(k) == 1 and sink(k[0][2][1]):
                return "in_edges"
        return "other"

    def sink(e):
        e = inner_key(e)
        for _ in range(6):
            if e[0] == "f" and e[2] in ("key", "0"):
                e = inner_key(e[1])
            elif e[0] == "v":
                e = inner_key(e[1])
            else:
                break
        return e == ("arg", 3)

    n = [0]

    def want(t):
        ln = last(F, t[1])
        if F.insts[t[1]].get("p") in (ev["path"], free["path"]):
            return "evaluate" if F.insts[t[1]]["p"] == ev["path"] else "free"
        if t[2] and t[2][0][0] != "k" and F.types[t[2][0][2]]["k"] in ("refmut", "ptrmut"):
            k = entry(E.op(t[2][0]))
            if k and not (ln in KEYED and not (ln == "take")):
                return f"{ln}:{k}"
        return None

    def at(facts, eff, v, var):
        sinks = {q[2] for q in facts if q[0] == "is" and sink(q[1]) and q[2] in ("Node", "Graph")}
        for x in eff:
            if x[0] == "write":
                e = x[1]
                k = entry(e)
                if k is None:
                    continue
                if k == "other" or not is_none(peel(x[2])):
                    return "other write", "another connection than the one of the given input is changed"
            if x[0] == "call" and ":" in x[1]:
                ln, k = x[1].split(":")
                if k == "other":
                    return "other write", "another connection than the one of the given input is changed"
                if not (ln == "take" or ln == "replace" and is_none(x[2][1])):
                    return "other write", "the connection of the given input is changed in another way than being removed"
        if var == "Err":
            return None
        n[0] += 1
        did = {x[1].split(":")[1] for x in eff if x[0] == "call" and ":" in x[1]} | {entry(x[1]) for x in eff if x[0] == "write"}
        want = {"Node": "in_edges", "Graph": "out_edges"}
        if len(sinks) == 1 and want[next(iter(sinks))] not in did:
            # nothing there to remove
            if any(q[0] == "is" and q[2] == "None" and entry(q[1]) == want[next(iter(sinks))] for q in facts):
                return None
            return "kept", "the operation succeeds without removing the connection"
        if not sinks and not did:
            return "kept", "the operation succeeds without removing the connection"
        return None

    vs = summarise(ctx, fl, E, want, at)
    done = set()
    for (k, msg), path in vs:
        if k not in done:
            done.add(k)
            ctx.viol("disconnect-input", f"{f['name']}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("disconnect-input", f["path"], f"{n[0]} ways to succeed")
        ctx.floor("disconnect-input", n[0], 2)


def p09_collapse(ctx):
    """A summing node that is left with one input is bypassed: exactly the connections from it are replaced by that input."""
    F, g = anchors(ctx)
    free = freeing(ctx, F, g)
    f = collapsing(ctx, F, g, free)
    pred = Pred(2)
    base = opaque(free["path"])
    fl, E = flatten(ctx, f, lambda a, x: base(a, x) and not ("NodeKeyOrGraph" in x.get("p", "") and x.get("p", "").endswith("PartialEq>::eq")))
    S = Sites(g, fl, E)
    loops, outer, inners = {}, {}, {}
    for b, s in S.at.items():
        if not s.roles or len(s.roles) != 1 or not s.roles & set(TABLES):
            continue
        r = next(iter(s.roles))
        if r != "out_edges" and canon(s.base) == ("f", ("arg", 1), g.f[r]):
            outer[b], loops[b] = r, r
        else:
            inners[b] = r
            loops[b] = r + " entry" if r != "out_edges" else r
    els = {b: elems(S, E, b) for b in loops}
    math = math_flag(ctx, F, g)

    def own_input(c):
        """i when c is input i of the node itself."""
        if c[0] == "[]":
            b0, i = c[1], c[2]
        elif c[0] == "call" and c[1] in ("index", "get", "get_unchecked") and len(c[2]) == 2:
            b0, i = c[2]
        else:
            return None
        if i[0] != "k" or not isinstance(i[1], int):
            return None
        k = [x for x in walk(b0) if x[0] == "call" and x[1] in ("index", "get", "get_mut") and len(x[2]) == 2]
        if len(k) == 1 and k[0][2] == (("f", ("arg", 1), g.f["in_edges"]), ("arg", 2)):
            return i[1]
        return None

    def sub_input(c):
        for _ in range(4):
            i = own_input(c)
            if i is not None:
                return i
            if c[0] == "f" and c[2] == "0" and c[1][0] == "v" and c[1][2] == "Some":
                c = c[1][1]
            elif c[0] == "call" and c[1] in ("unwrap", "expect", "unwrap_unchecked"):
                c = c[2][0]
            else:
                return None
        return None

    def remains(v):
        """Inputs of the node whose connection v may be."""
        v = peel(v)
        if v[0] == "agg" and v[2] == "Some":
            v = canon(v[3][0][1])
        z = [x for x in (v[1] if v[0] == "phi" else (v,)) if x != ("never",)]
        k = {sub_input(canon(x)) for x in z}
        return k if None not in k and k else None

    def state(facts):
        """input -> 'Some'/'None' as known from facts."""
        d = {}
        for q in facts:
            if q[0] == "is" and q[2] in ("Some", "None"):
                i = own_input(q[1])
                if i is not None:
                    d[i] = q[2]
        return d

    n = {"replaced": 0, "parameters": 0, "freed": 0}

    def site_of(e):
        b = S.elem_of(e)
        return b if b in inners else None

    def others(facts):
        """No other reason to free the node is known to hold."""
        return [q for q in facts if q[0] == "true" and q[1][0] == "f" and q[1][2] != math]

    def single(facts):
        return sorted(state(facts).values()) == ["None", "Some"]

    def event(st, b, what, x):
        facts, (op, done) = st
        if what == "stmt":
            if x[0] != "=" or not x[1][1]:
                return None
            p = E.place(x[1])
            r = roles(g, p)
            if not r & set(TABLES):
                return None
            v = canon(E.rvalue(x[2]))
            c = canon(p)
            if r == {"par_edges"} and c[0] == "f" and c[2] in ("source", "channel_in_source"):
                s = site_of(p[1])
                if s is None or c[1] not in els[s] or pred.state(facts, els[s]) is not True:
                    return [("bad", "too much", "a connection that does not come from the removed node is changed")]
                q = field_of_remaining(v, c[2])
                if q is None:
                    return [("bad", "wrong input", f"the {c[2]} of a parameter connection is not that of the input that is left")]
                n["parameters"] += 1
                return [("half", s, c[2])]
            s = site_of(p)
            if s is None or inners[s] == "par_edges" or c not in els[s] and ("f", ("v", c, "Some"), "0") not in els[s] and not whole(c, els[s]):
                return [("bad", "other write", f"a connection is changed in another way ({'/'.join(sorted(r))})")]
            if not single(facts):
                return [("bad", "two inputs", "connections are replaced although the node does not have exactly one input left")]
            if pred.state(facts, {c} | els[s]) is not True:
                return [("bad", "too much", "a connection that does not come from the removed node is replaced")]
            if remains(v) is None or not {i for i, k in state(facts).items() if k == "Some"} <= remains(v):
                return [("bad", "wrong input", "a connection is replaced by something else than the input that is left")]
            n["replaced"] += 1
            return [("do", s)]
        t = x
        ln = last(F, t[1])
        if F.insts[t[1]].get("p") == free["path"]:
            if canon(E.op(t[2][1])) != ("arg", 2):
                return [("bad", "other node", "another node than the one that lost its connections is freed")]
            n["freed"] += 1
            d = state(facts)
            if any(q[0] == "true" and q[1][0] == "f" and q[1][2] == math for q in facts) and not others(facts):
                if len(d) < 2 or set(d.values()) == {"Some"}:
                    return [("bad", "two inputs", "a summing node is freed without being down to at most one input")]
            if single(facts):
                need = {"in_edges", "out_edges", "par_edges"}
                if any(q[0] == "is" and q[2] == "Graph" and field_of_remaining(q[1], "source") is not None for q in facts):
                    need.discard("par_edges")
                for k in sorted(need - done):
                    return [("bad", k + " partial", f"a summing node is removed before all {NAME[k]} from it are replaced")]
            return None
        if not t[2] or t[2][0][0] == "k":
            return None
        e = E.op(t[2][0])
        if F.types[t[2][0][2]]["k"] in ("refmut", "ptrmut") and ln in REMOVE and roles(g, e) & set(TABLES) and not F.insts[t[1]].get("ws"):
            return [("bad", "other write", f"a connection is changed in another way ({'/'.join(sorted(roles(g, e)))}.{ln})")]
        return None

    def whole(c, el):
        """c is the connection in an element (the Option or its content)."""
        for _ in range(4):
            if c in el:
                return True
            if c[0] == "f" and c[2] == "0" and c[1][0] == "v" and c[1][2] == "Some":
                c = c[1][1]
            elif c[0] == "call" and c[1] in ("unwrap", "expect", "unwrap_unchecked", "as_mut", "as_ref"):
                c = c[2][0]
            else:
                return False
        return False

    def field_of_remaining(v, name):
        v = inner_key(v)
        z = [x for x in (v[1] if v[0] == "phi" else (v,)) if x != ("never",)]
        out = set()
        for x in z:
            x = inner_key(x)
            if not (x[0] == "f" and x[2] == name):
                return None
            k = remains(x[1])
            if k is None:
                return None
            out |= k
        return out

    def exempt(st, b):
        facts, (op, done) = st
        if b in outer:
            return any(inners[i] == outer[b] and loops[i] in done for i in inners)
        return pred.state(facts, els[b]) is False

    class M(Purge):
        def apply(self, st, evs):
            for e in evs or ():
                if e[0] == "half":
                    facts, (op, done) = st
                    done = done | {("half", e[1], e[2])}
                    if {("half", e[1], "source"), ("half", e[1], "channel_in_source")} <= done:
                        done = done - {("half", e[1], "source"), ("half", e[1], "channel_in_source")}
                        st = facts, (op, done)
                        st = super().apply(st, [("do", e[1])])
                    else:
                        st = facts, (op, done)
                else:
                    st = super().apply(st, [e])
                if st is None:
                    return None
            return st

    inn = {b: [loops[i] for i in inners if inners[i] == r] for b, r in outer.items()}
    allel = set().union(*els.values()) if els else set()
    w = Walker(fl, E)
    keep = lambda q: any(x in allel for z in q[1:] if isinstance(z, tuple) for x in walk(z)) or q[0] == "is" and (own_input(q[1]) is not None or q[2] == "Graph") or \
        q[0] == "true" and q[1][0] == "f" and roles(g, q[1]) == {"nodes"}
    m = M(w, S, loops, event, exempt, [], lambda k: f"a connection from the removed node ({NAME[k.split()[0]]}) is not replaced",
          lambda k: "", once=False, inner=inn, at_ret=lambda st, v: None, keep=keep)
    vs = w.run(m, ForEach.INIT)
    ctx.states += w.nstates
    done = set()
    for (k, msg), path in vs:
        if k not in done:
            done.add(k)
            ctx.viol("bypass", f"{f['name']}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("bypass", f["path"], f"{w.nstates} path states; {n}")
        for k, least in (("replaced", 2), ("parameters", 2), ("freed", 2)):
            ctx.floor("bypass-" + k, n[k], least)
