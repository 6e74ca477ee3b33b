"""P08: no edit creates a cycle without a feedback node."""
from iters import *
from graph import anchors, flatten, trace
from edits import canon, alts, atoms, variant_atoms, key_leaves, short
from rt import loc
from walk import Walker, Monitor
from facts import Missing

EDGE_ROLES = ("in_edges", "par_edges")


def popsite(F, t):
    return t[0] == "call" and last(F, t[1]) in ("pop", "pop_front", "pop_back") and len(t[2]) >= 1


def keyish(e):
    """Canonical key: newtype fields of the key type removed."""
    c = canon(e)
    while c[0] == "f" and c[2] == "0" and c[1][0] == "f" and c[1][2] in ("0",):
        c = c[1]
    return c


def src_of(g, e, sites=None):
    """(role, key expression, site) when e is the source node of an element of in_edges[key]/par_edges[key]."""
    a = e
    for _ in range(12):
        if a[0] in ("&", "*"):
            a = a[1]
        elif a[0] == "f" and a[2] == "0" and a[1][0] == "v" and a[1][2] == "Node":
            a = a[1][1]
        elif a[0] == "call" and a[1].split("::")[-1] in ("into", "clone", "from", "key") and a[2]:
            a = a[2][0]
        else:
            break
    if not (a[0] == "f" and a[2] == "source"):
        return None
    r = roles(g, a)
    if len(r) != 1 or not r <= set(EDGE_ROLES):
        return None
    return next(iter(r)), access_key(g, a), (sites.elem_of(a) if sites else None)


def strip_zero(x):
    while x[0] == "f" and x[2] == "0" and x[1][0] != "v":
        x = x[1]
    return x


def path_key(p):
    return p[0], tuple(q for q in p[1] if q != "0")


class Search(Monitor):
    """state = (found, exhausted, compared, scanned roles, pending site, done sites)

    at_push: the nodes are compared with the one searched for before they are put on the stack, not when they are taken from it."""

    def __init__(self, w, S, info, at_push=False):
        super().__init__(w)
        self.at_push, self.pairs = at_push, set()
        self.S, self.g, self.info = S, S.g, info
        self.E = w.E

    INIT = (False, False, None, frozenset(), None)

    def is_cur(self, e):
        c = keyish(e)
        while c[0] == "f" and c[2] == "0" and c != self.info["cur"] and c[1][0] != "v":
            c = c[1]
        return c == self.info["cur"]

    def term(self, st, b, t, env):
        found, exh, comp, scanned, pend = st
        F, g = self.w.F, self.g
        if t[0] == "call" and t[2]:
            ln = last(F, t[1])
            if b == self.info["pop"]:
                if self.at_push and comp is None and not exh:
                    self.w.viol(("uncompared", "the search starts without comparing the node it starts from with the node searched for"))
                    return None
                if isinstance(comp, tuple):
                    self.pairs.add(comp)
                    return found, exh, True, frozenset(), None
                if comp is not None and (comp is False):
                    self.w.viol(("uncompared", "a node is expanded without being compared with the node searched for"))
                    return None
                if scanned is not None and comp is not None and comp != "seen":
                    for r in EDGE_ROLES:
                        if r not in scanned:
                            self.w.viol(("unexpanded " + r, "the search does not follow " + ("signal" if r == "in_edges" else "parameter") + " connections of every node it reaches"))
                            return None
                return found, exh, True if self.at_push else None, frozenset(), None
            if canon(self.E.op(t[2][0])) == self.info["W"]:
                if ln in ("push", "push_back", "push_front", "insert"):
                    v = src_of(g, self.E.op(t[2][-1]), self.S)
                    if v and v[2] is not None and pend == (("compared", v[2]) if self.at_push else v[2]):
                        pend = None
                elif self.at_push and ln in ("extend", "extend_from_slice", "append"):
                    self.w.viol(("uncompared", "nodes are put on the stack without being compared with the node searched for"))
                    return None
                elif ln in ("extend", "extend_from_slice", "append"):
                    it = self.E.op(t[2][1])
                    e = iter_chain(it)
                    r = roles(g, e)
                    k = access_key(g, e)
                    if len(r) == 1 and k is not None and self.is_cur(k) and closures_yield_sources(F, closures_in(it)):
                        scanned = scanned | r
                elif ln in ("clear", "truncate", "drain", "retain"):
                    self.w.viol(("dropped", "nodes still to be visited are dropped from the search"))
                    return None
        if t[0] == "ret":
            v = env.get((self.w.fl.retlocal, ()))
            if found and v != 1:
                self.w.viol(("found", "the search can return false after finding the node"))
            elif not found and v != 0:
                self.w.viol(("unfound", "the search can return true without having found the node"))
            elif not found and not exh:
                self.w.viol(("early", "the search can end before everything reachable has been visited"))
            return None
        return found, exh, comp, scanned, pend

    def edge(self, st, b, o, v, other, vals):
        found, exh, comp, scanned, pend = st
        g, S = self.g, self.S
        e = self.E.op(o)
        oc = S.outcome(self.w, b, o, v, other)
        if oc:
            s, name = oc
            if s.roles and s.roles <= set(EDGE_ROLES):
                if pend is not None:
                    pend = pend[1] if isinstance(pend, tuple) else pend
                    self.w.viol(("skipped " + "/".join(sorted(S.at[pend].roles)), "the search can pass over a connection without following it"))
                    return None
                if name == "Some":
                    return found, exh, comp, scanned, s.b
                if name == "None":
                    if not s.odd and s.key is not None and self.is_cur(s.key):
                        scanned = scanned | s.roles
                    return found, exh, comp, scanned, None
            return st
        neg = False
        while e[0] == "un" and e[1] == "Not":
            e, neg = e[2], not neg
        x, name = variant(self.w, o, v)
        if x is not None:
            if x[0] == "call" and x[3] == self.info["pop"]:
                if name == "None" or (other and name is None):
                    return found, True, None, frozenset(), None
                return found, False, self.at_push, frozenset(), None
            r = roles(g, x)
            if name in ("None",) and r <= set(EDGE_ROLES) and r:
                if x[0] == "call" and x[1].split("::")[-1] in ("get", "get_mut") and len(x[2]) > 1 and self.is_cur(x[2][1]):
                    return found, exh, comp, scanned | r, pend
                if pend is not None and S.elem_of(x) == pend:
                    return found, exh, comp, scanned, None
            if pend is not None and S.elem_of(x) == pend and x[0] == "f" and x[2] == "source" and name not in ("Node",):
                return found, exh, comp, scanned, None
            return st
        if v in (0, 1) and self.w.F.types[o[2]]["k"] == "bool":
            tr = bool(v) != neg
            for a in atoms(e, tr):
                if a[0] in ("Eq", "Ne") and self.at_push:
                    ab = (e[2], e[3]) if e[0] == "bin" else e[2] if e[0] == "call" and len(e[2]) == 2 else ()
                    for x, y in ((ab[0], ab[1]), (ab[1], ab[0])) if len(ab) == 2 else ():
                        q = arg_path(strip_zero(keyish(y)))
                        while x[0] in ("&", "*") or x[0] == "f" and x[2] == "0" and x[1][0] != "v":
                            x = x[1]
                        z = src_of(g, x, S)
                        if q and comp is None and arg_path(strip_zero(keyish(x))):
                            pr = frozenset(path_key(arg_path(strip_zero(keyish(u)))) for u in (x, y))
                            return (True if a[0] == "Eq" else found), exh, ("start", pr), scanned, pend
                        if q and z and z[2] is not None and z[2] == pend:
                            self.info["target"].add(path_key(q))
                            return (True if a[0] == "Eq" else found), exh, comp, scanned, ("compared", pend)
                if a[0] in ("Eq", "Ne") and not self.at_push and self.info["cmp"](a[1], a[2]):
                    return (True if a[0] == "Eq" else found), exh, True, scanned, pend
            if e[0] == "call" and e[1].split("::")[-1] in ("insert", "contains") and len(e[2]) == 2:
                seen = tr if e[1].split("::")[-1] == "contains" else not tr
                if seen and self.is_cur(e[2][1]):
                    return found, exh, ("seen" if comp else comp), scanned, pend
                if seen and pend is not None and (src_of(g, e[2][1], S) or (0, 0, 0))[2] == (pend[1] if isinstance(pend, tuple) else pend):
                    return found, exh, comp, scanned, None
        return st


def closures_yield_sources(F, cls):
    """Every adaptor keeps every element and what is yielded is the source of the element."""
    got = False
    for name, cl, fn in cls:
        if name in ("map", "filter_map"):
            if cl is None:
                return False
            i = closure_inst(F, cl[1][len("closure:"):])
            if i is None:
                return False
            from flat import Flat
            fl = Flat(F, i, FULL)
            E = Exprs(fl)
            ok = [True]

            class M(Monitor):
                def edge(self, st, b, o, v, other, vals):
                    x, n = variant(self.w, o, v)
                    if n in ("Graph", "None"):
                        return True
                    return st

                def term(self, st, b, t, env):
                    if t[0] == "ret":
                        v = env.get((fl.retlocal, ()))
                        if v == "V:None" and not st:
                            ok[0] = False
                    return st
            Walker(fl, E).run(M(Walker(fl, E)), False) if False else None
            w = Walker(fl, E)
            w.run(M(w), False)
            for a in alts(E.local(fl.retlocal)):
                if a[0] == "agg" and a[2] == "None":
                    continue
                if a[0] == "agg" and a[2] == "Some":
                    a = a[3][0][1]
                for x in alts(a):
                    while x[0] == "f" and x[2] == "0" and x[1][0] == "v" and x[1][2] == "Node":
                        x = x[1][1]
                    if not (x[0] == "f" and x[2] == "source"):
                        ok[0] = False
            if not ok[0]:
                return False
            got = True
        elif name in ("iter", "flatten", "copied", "cloned"):
            pass
        else:
            return False
    return got


def arg_path(c):
    """(argument index, projection) when canonical c is a field path of an argument."""
    proj = []
    while c[0] == "f":
        proj.insert(0, c[2])
        c = c[1]
    return (c[1], tuple(proj)) if c[0] == "arg" else None


def find_search(ctx, F, g):
    """The reachability search: instance -> info."""
    out = {}
    for f in g.methods.values():
        if f["output"] != "bool":
            continue
        fl, E = flatten(ctx, f, ITER)
        pops = [(b, fl.blocks[b].t) for b in fl.reachable() if popsite(F, fl.blocks[b].t)]
        if len(pops) != 1:
            continue
        b, t = pops[0]
        W = canon(E.op(t[2][0]))
        out[f["inst"]] = (f, fl, E, b, t, W)
    return out


def verify_search(ctx, F, g, f, fl, E, b, t, W):
    """Check the search; returns (cmp arg path, seed arg path) or None."""
    cur = canon(("f", ("v", E.place(t[3]), "Some"), "0"))
    # the node searched for: compared with the current node
    target = set()

    def cmp_(a, c):
        for x, y in ((a, c), (c, a)):
            x, y2 = strip0(x, cur), y
            if x == cur:
                p = arg_path(strip0(y2, None))
                if p:
                    target.add((p[0], tuple(q for q in p[1] if q != "0")))
                    return True
        return False

    def strip0(x, upto):
        while x[0] == "f" and x[2] == "0" and x != upto and x[1][0] != "v":
            x = x[1]
        return x
    S = Sites(g, fl, E)
    info = {"pop": b, "W": W, "cur": cur, "cmp": cmp_, "target": target}
    w = Walker(fl, E)
    m = Search(w, S, info)
    vs = w.run(m, Search.INIT)
    if not target:
        m2 = Search(w, S, info, True)
        vs = w.run(m2, Search.INIT)
        m = m2
    ctx.states += w.nstates
    for (k, msg), path in vs:
        ctx.viol("cycle-search-complete", f"{f['name']}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    # the seed: what the worklist starts with
    seeds = set()
    for bb in fl.reachable():
        blk = fl.blocks[bb]
        tt = blk.t
        if tt[0] == "call" and tt[2] and canon(E.op(tt[2][0])) == W and last(F, tt[1]) in ("push", "push_back"):
            p = arg_path(canon(E.op(tt[2][-1])))
            if p:
                seeds.add(p)
        for s in blk.s:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "array":
                e = canon(E.place(s[1]))
                if any(x in list(walk(W)) for x in walk(e) if x[0] == "call"):
                    for o in s[2][2]:
                        p = arg_path(canon(E.op(o)))
                        if p:
                            seeds.add(p)
    if len(target) != 1 or len(seeds) != 1:
        raise Missing(f"what {f['name']} searches for ({target}) and from ({seeds})")
    if m.at_push and m.pairs != {("start", frozenset(target) | frozenset(seeds))}:
        ctx.viol("cycle-search-complete", f"{f['name']}: start", f"{f['path']}: the node the search starts from is not compared with the node searched for",
                 where=loc(F, f["inst"], None))
        vs = True
    if not vs:
        ctx.ok("cycle-search-complete", f["path"], f"{w.nstates} path states; follows signal and parameter connections of every node reached")
    return next(iter(target)), next(iter(seeds))


class Written(Monitor):
    """state = (definitions selected for multi-definition locals, edges written, searches known negative)"""

    def __init__(self, w, g, fl, P, multi, searches):
        super().__init__(w)
        self.g, self.fl, self.P, self.multi, self.searches = g, fl, P, multi, searches
        self.evb = {}
        self.defidx = {}
        for l in multi:
            for i, d in enumerate(fl.defs()[l]):
                if d[0] == ():
                    self.defidx.setdefault((d[3], l), []).append((i, d[2]))
        self.pairs = 0

    def dest(self, sel, b, l, pay):
        for i, p in self.defidx.get((b, l), ()):
            if p is pay:
                return frozenset([x for x in sel if x[0] != l] + [(l, i)])
        return sel

    def stmt(self, st, b, s):
        sel, edges, neg = st
        if s[0] == "=":
            for kind in self.evb.get(b, ()):
                if kind == id(s):
                    self.P.select(sel)
                    edges = edges | self.edges_of(self.P.place(s[1]), [self.P.rvalue(s[2])])
            if s[1][1] == () and s[1][0] in self.multi:
                sel = self.dest(sel, b, s[1][0], s[2])
        return sel, edges, neg

    def edges_of(self, place, vals):
        g = self.g
        r = roles(g, place)
        if not r & set(EDGE_ROLES):
            return frozenset()
        k = access_key(g, place)
        if k is None:
            return frozenset()
        out = set()
        for v in vals:
            for x in walk(v):
                if x[0] == "agg" and x[1].split("::")[-1] in ("Edge", "ParameterEdge"):
                    src = dict(x[3])["source"]
                    fbk = None
                elif x[0] == "agg" and x[2] == "Some" and x[3] and roles(g, x[3][0][1]):
                    src = ("f", x[3][0][1], "source")
                elif roles(g, x) and x is v:
                    src = ("f", ("f", ("v", x, "Some"), "0"), "source")
                else:
                    continue
                for a in alts(src):
                    if a[0] == "agg" and a[2] == "Graph":
                        continue
                    for y in key_leaves(a):
                        for kk in alts(k):
                            for kl in key_leaves(kk):
                                out.add((self.node(y), self.node(kl)))
        return frozenset(out)

    def node(self, e):
        """Identity of a node: fresh (made here), old source read from the graph, or argument-derived key."""
        while e[0] in ("&", "*"):
            e = e[1]
        for _ in range(8):
            if e[0] == "call" and e[1].split("::")[-1] in ("into", "from", "clone", "key") and e[2]:
                e = e[2][0]
            elif e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Node":
                e = e[1][1]
            elif e[0] in ("&", "*"):
                e = e[1]
            else:
                break
        for x in chain_roots(e):
            if x[0] == "call" and x[1].split("::")[-1] in ("insert", "insert_with_key") and roles(self.g, x[2][0]) == {"nodes"}:
                return ("fresh", x[3])
        if roles(self.g, e) & {"in_edges", "par_edges", "out_edges"}:
            k = access_key(self.g, e)
            return ("old", canon(k) if k is not None and roles(self.g, e) <= set(EDGE_ROLES) else None)
        return ("arg", canon(e))

    def term(self, st, b, t, env):
        sel, edges, neg = st
        if t[0] == "call":
            if "t" in self.evb.get(b, ()):
                self.P.select(sel)
                edges = edges | self.edges_of(self.P.op(t[2][0]), [self.P.op(a) for a in t[2][1:]])
            if t[3][1] == () and t[3][0] in self.multi:
                sel = self.dest(sel, b, t[3][0], t)
        if t[0] == "ret":
            succ = {}
            for s, k in edges:
                succ.setdefault(s, set()).add(k)
            for s in list(succ):
                if s[0] == "fresh":
                    continue
                seen, todo = set(), [s]
                while todo:
                    x = todo.pop()
                    for y in succ.get(x, ()):
                        if y not in seen:
                            seen.add(y)
                            if y[0] == "fresh":
                                todo.append(y)
                for y in seen:
                    if y[0] != "arg":
                        continue
                    self.pairs += 1
                    if s[0] == "old":
                        if s[1] != y[1]:
                            self.w.viol(("moved edge", "an existing connection is moved to another node without checking for a cycle"))
                    elif (y[1], s[1]) not in neg:
                        self.w.viol(("unchecked", "a connection is made without establishing that its sink does not already lead to its source"))
            return None
        return sel, edges, neg

    def edge(self, st, b, o, v, other, vals):
        sel, edges, neg = st
        e = self.w.E.op(o)
        inv = False
        while e[0] == "un" and e[1] == "Not":
            e, inv = e[2], not inv
        if e[0] == "call" and v in (0, 1) and (bool(v) != inv) is False and e[1] in self.searches:
            c, s = self.searches[e[1]]
            self.P.select(sel)

            def arg(p):
                x = e[2][p[0] - 1]
                for f in p[1]:
                    x = ("f", x, f)
                return self.node(x)
            a, z = arg(c), arg(s)
            if a[0] == "arg" and z[0] == "arg":
                neg = neg | {(a[1], z[1])}
        return sel, edges, neg


def p08(ctx):
    F, g = anchors(ctx)
    found = find_search(ctx, F, g)
    ctx.floor("cycle-search-complete", len(found), 1)
    searches, insts = {}, set()
    for inst, x in found.items():
        searches[F.insts[inst]["p"]] = verify_search(ctx, F, g, *x)
        insts.add(inst)
    pol = lambda f, x: (x.get("ws", False) or x["k"] == "shim") and x["id"] not in insts
    _pols.setdefault(id(F), pol)
    pol = _pols[id(F)]
    ge = [f for f in F.fns if f.get("impl_adt", "").endswith("::GraphEdit") and "impl_trait" not in f and "inst" in f]
    n = 0
    for f in g.entries() + ge:
        if f["name"] == "commit_changes":
            continue
        fl, E = flatten(ctx, f, pol)
        evs = events(g, fl, E)
        adds = {}
        for b, l in evs.items():
            for ev in l:
                if ev[1] == "dirty" or not ev[2][0] & set(EDGE_ROLES):
                    continue
                if ev[0] == "t":
                    if ev[1] in ("push", "insert", "push_mut", "extend", "append", "replace", "swap", "get_or_insert"):
                        adds.setdefault(b, set()).add("t")
                else:
                    adds.setdefault(b, set()).add(id(fl.blocks[b].s[ev[0]]))
        if not adds:
            continue
        P = PathExprs(fl)
        multi = multi_locals(fl, E, lambda t: "NodeKey" in t or "Edge" in t or "NodeId" in t)
        w = Walker(fl, E)
        m = Written(w, g, fl, P, multi, searches)
        m.evb = adds
        vs = w.run(m, (frozenset(), frozenset(), frozenset()))
        ctx.states += w.nstates
        done = set()
        for (k, msg), path in vs:
            if k not in done:
                done.add(k)
                ctx.viol("connection-checked-for-cycles", f"{short(f)}: {k}", f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
        if m.pairs:
            n += 1
        if not vs:
            ctx.ok("connection-checked-for-cycles", short(f), f"{m.pairs} source/sink pairs on {w.nstates} path states")
    ctx.floor("connection-checked-for-cycles", n, 4)


_pols = {}
