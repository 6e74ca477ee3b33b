"""P10: processing order and buffer assignment."""
from iters import *
from graph import anchors, flatten, trace
from edits import canon, alts, atoms, variant_atoms, key_leaves
from cycles import src_of, keyish, EDGE_ROLES
from rt import loc
from walk import Walker, Monitor
from facts import Missing
from collections import namedtuple


def vid(g, e):
    """Identity of a collection: role of a graph container, or the call that created it."""
    while e[0] in ("&", "*") or (e[0] == "call" and e[2] and e[1].split("::")[-1] in (
            "deref", "deref_mut", "as_slice", "iter", "into_iter", "drain", "as_mut_slice", "copied", "cloned", "by_ref", "as_ref", "as_mut",
            "clone", "to_vec", "enumerate")):
        e = e[1] if e[0] in ("&", "*") else e[2][0]
    r = roles(g, e)
    if len(r) == 1 and e[0] == "f":
        return ("role", next(iter(r)))
    if e[0] == "call":
        return ("new", e[3])
    return ("?", canon(e))


HEADS = {"last", "last_mut", "peek"}
SHUFFLE = {"insert", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "swap", "retain", "retain_mut", "dedup", "truncate",
           "drain", "remove", "swap_remove", "pop", "rotate_left", "rotate_right", "fill", "split_off", "push_front", "resize"}
St = namedtuple("St", "cleared empty head scanned pushed marked tested pend roots nodes_done unflushed popped copy copied carry")


class Order(Monitor):
    def __init__(self, w, g, fl, E, S):
        super().__init__(w)
        self.g, self.E, self.S, self.F = g, E, S, g.F
        fl_ = fl
        self.W = None
        for b in fl_.reachable():
            t = fl_.blocks[b].t
            if t[0] == "call" and t[2] and last(self.F, t[1]) == "pop":
                i = vid(g, E.op(t[2][0]))
                if self.W not in (None, i):
                    raise Missing("a single stack of nodes to process")
                self.W = i
        if self.W is None:
            raise Missing("the stack of nodes to process in the computation of the processing order")
        self.visited = None
        self.heads = 0
        self.emits = 0

    INIT = St(False, True, None, frozenset(), frozenset(), frozenset(), frozenset(), None, frozenset(), False, (), False, None, frozenset(), None)

    def v(self, k, msg):
        self.w.viol((k, msg))
        return None

    def vis(self, e):
        i = vid(self.g, e)
        if self.visited is None:
            self.visited = i
        return i == self.visited

    def stmt(self, st, b, s):
        """The source of the connection being looked at, kept for later as one of several possible values."""
        if s[0] == "=" and st.pend is not None:
            r = s[2]
            o = r[1] if r[0] == "use" else r[2][0] if r[0] == "agg" and r[1][0] == "adt" and len(r[2]) == 1 else None
            if o is not None and o[0] != "k":
                x = self.E.op(o)
                z = src_of(self.g, x, self.S)
                if z is not None and z[2] == st.pend:
                    return st._replace(carry=x)
        return st

    def val(self, st, x):
        """x, or the one of its possible values that was set last."""
        if st.carry is not None:
            y = strip_key(x)
            if y[0] == "phi" and keyish(st.carry) in {keyish(a) for a in alts(y)}:
                return st.carry
        return x

    def flush(self, st, src, i):
        """The contents of src are appended to i."""
        if i == ("role", "order"):
            if not st.cleared:
                return self.v("uncleared", "the processing order is added to without having been cleared")
            if src in st.unflushed:
                if st.unflushed[0] != src:
                    return self.v("misordered", "nodes found later are placed before nodes found earlier")
                return st._replace(unflushed=st.unflushed[1:])
            return st
        if src in st.unflushed:
            uf = tuple(i if x == src else x for x in st.unflushed)
            if uf.count(i) > 1:
                first = uf.index(i)
                if any(x != i for x in uf[first:]):
                    return self.v("misordered", "nodes found later are placed before nodes found earlier")
                uf = uf[:first + 1]
            return st._replace(unflushed=uf)
        return st

    def settle(self, st):
        """Before a new node is looked at: what was pushed has been marked visited, and nothing else has."""
        if st.pushed != st.marked:
            if st.pushed - st.marked:
                return self.v("unmarked", "a node is put on the stack without being marked as visited")
            return self.v("lost", "a node is marked as visited without being put on the stack, so it (and what it depends on) may not run")
        if st.popped:
            return self.v("dropped", "a node is taken from the stack without being added to the order")
        return st

    def term(self, st, b, t, env):
        g, E, F = self.g, self.E, self.F
        if t[0] == "call" and t[2]:
            ln = last(F, t[1])
            a0 = E.op(t[2][0])
            i = vid(g, a0)
            if i == ("role", "order"):
                if ln == "clear":
                    return st._replace(cleared=True)
                if ln in SHUFFLE:
                    return self.v("shuffled", "the processing order is rearranged after it was computed")
            if i == self.W and ln in HEADS:
                st = self.settle(st)
                if st is None:
                    return None
                self.heads += 1
                return st._replace(head=b, scanned=frozenset(), pushed=frozenset(), marked=frozenset(), tested=frozenset(), pend=None, carry=None)
            if i == self.W and ln == "pop":
                if st.head is None or st.pushed or not set(EDGE_ROLES) <= st.scanned:
                    miss = [r for r in EDGE_ROLES if r not in st.scanned]
                    what = "it put another node on the stack" if st.pushed else "the sources of all its " + (
                        "signal" if "in_edges" in miss else "parameter") + " connections have been ordered"
                    return self.v("early " + ("pushed" if st.pushed else "/".join(miss)), f"a node can be added to the processing order before {what}")
                if st.popped == "emitted":
                    return st._replace(popped=False, head=None)
                return st._replace(popped=True, head=None)
            if i == self.W and ln in ("push", "extend", "insert", "append", "clear", "truncate", "swap", "remove", "swap_remove"):
                if ln != "push":
                    return self.v("stack", f"the stack of nodes to process is changed with {ln}")
                x = self.val(st, E.op(t[2][1]))
                s = src_of(g, x, self.S)
                k = keyish(x)
                if k not in st.tested:
                    return self.v("revisit", "a node is put on the stack without testing that it has not been visited")
                if s is not None:
                    if st.head is None or s[2] != st.pend or s[2] is None or not self.is_head(self.S.at[s[2]].key):
                        return self.v("foreign", "a node is put on the stack that is not a source of the node being looked at")
                    if st.pushed:
                        return self.v("siblings", "several sources of a node are put on the stack at once, so that one can run before a node it depends on")
                    return st._replace(pushed=st.pushed | {k}, pend=None, empty=False)
                if st.empty is not True:
                    return self.v("interleaved", "a search starts while another one has not finished")
                return st._replace(pushed=frozenset({k}), marked=st.marked & {k}, empty=False, head=None, roots=self.discharge(st.roots, x))
            if ln == "push" and st.popped and i != self.W:
                if any(x[0] == "call" and x[1].split("::")[-1] == "pop" and vid(g, x[2][0]) == self.W for x in walk(E.op(t[2][1]))):
                    self.emits += 1
                    uf = st.unflushed if i in st.unflushed or i == ("role", "order") else st.unflushed + (i,)
                    return st._replace(popped=False, unflushed=uf)
            if ln == "push" and i != self.W and (st.popped is True or not st.popped and st.head is not None) and self.the_head(E.op(t[2][1])):
                self.emits += 1
                uf = st.unflushed if i in st.unflushed or i == ("role", "order") else st.unflushed + (i,)
                return st._replace(popped=False if st.popped else "emitted", unflushed=uf)
            if ln == "push" and i != self.W and (self.the_head(E.op(t[2][1])) or any(
                    x[0] == "call" and x[1].split("::")[-1] == "pop" and vid(g, x[2][0]) == self.W for x in walk(E.op(t[2][1])))):
                return self.v("twice", "a node can be added to the processing order twice")
            if ln == "push" and i != self.W and st.copy is not None:
                cs = self.S.at[st.copy]
                if self.S.elem_of(E.op(t[2][1])) == st.copy:
                    if i == ("role", "order") and not st.cleared:
                        return self.v("uncleared", "the processing order is added to without having been cleared")
                    return st._replace(copy=None, copied=st.copied | {(st.copy, i)})
            if ln in ("extend", "append", "extend_from_slice") and len(t[2]) > 1:
                src = vid(g, E.op(t[2][1]))
                return self.flush(st, src, i)
            if i in st.unflushed and ln in SHUFFLE and ln not in ("drain",):
                return self.v("shuffled", "the processing order is rearranged after it was computed")
            if ln == "insert" and len(t[2]) == 2 and "hash" in F.insts[t[1]].get("p", "") and self.vis(a0):
                k = keyish(self.val(st, E.op(t[2][1])))
                return st._replace(marked=st.marked | {k})
        if t[0] == "ret":
            st = self.settle(st)
            if st is None:
                return None
            if st.unflushed:
                return self.v("unflushed", "nodes that were ordered are not added to the processing order")
            if not st.nodes_done:
                return self.v("partial", "the processing order is computed without looking at every node of the graph")
            return None
        return st

    def pending(self, e):
        """A collection made from the nodes waiting to be freed."""
        for _ in range(24):
            if e[0] in ("&", "*"):
                e = e[1]
            elif e[0] == "f" and e[2] == self.g.f["pending_nodes"]:
                return True
            elif e[0] == "call" and e[2] and e[1].split("::")[-1] in ("collect", "map", "iter", "into_iter", "deref", "copied", "cloned", "filter", "from_iter"):
                e = e[2][0]
            elif e[0] == "agg" and e[1].startswith("core::iter::adapters::") and e[3]:
                e = e[3][0][1]
            else:
                return False
        return False

    def the_head(self, x):
        """x is the node on top of the stack itself (not something found through it)."""
        for y in chain_roots(x):
            if y[0] == "call":
                l = y[1].split("::")[-1]
                if l in HEADS:
                    return vid(self.g, y[2][0]) == self.W
                if l not in ("unwrap", "expect", "copied", "cloned", "clone"):
                    return False
            elif y[0] in ("[]", "phi"):
                return False
        return False

    def is_head(self, k):
        if k is None:
            return False
        return any(x[0] == "call" and x[1].split("::")[-1] in HEADS and vid(self.g, x[2][0]) == self.W for x in walk(k))

    def discharge(self, roots, x):
        s = self.S.elem_of(x)
        return frozenset(r for r in roots if r != s) if s is not None else roots

    def edge(self, st, b, o, v, other, vals):
        g, S = self.g, self.S
        e = self.E.op(o)
        oc = S.outcome(self.w, b, o, v, other)
        if oc:
            s, name = oc
            if s.roles and s.roles <= set(EDGE_ROLES) and self.is_head(s.key):
                if st.pend is not None:
                    return self.v("skipped " + "/".join(sorted(S.at[st.pend].roles)), "a connection can be passed over without ordering its source first")
                if name == "Some":
                    return st._replace(pend=s.b)
                if not s.odd:
                    st = st._replace(scanned=st.scanned | s.roles)
                return st._replace(pend=None)
            src = vid(g, s.base) if s.base[0] == "call" else None
            if src in st.unflushed and not any(x[0] == "call" and x[1].split("::")[-1] == "rev" for x in chain_roots(s.it)) \
                    and (s.call is None or last(self.F, s.call[1]) == "next"):
                if st.copy == s.b:
                    return self.v("skipped copy", "a node that was ordered can be left out of the processing order")
                if name == "Some":
                    return st._replace(copy=s.b)
                dst = {i for b_, i in st.copied if b_ == s.b}
                st = st._replace(copied=frozenset(x for x in st.copied if x[0] != s.b))
                if s.odd:
                    return st
                for i in dst:
                    st = self.flush(st, src, i)
                if not dst:
                    st = st._replace(unflushed=tuple(x for x in st.unflushed if x != src))  # empty
                return st
            if s.roles == {"nodes"}:
                if s.b in st.roots:
                    return self.v("skipped node", "a node of the graph can be left out of the processing order")
                if name == "Some":
                    return st._replace(roots=st.roots | {s.b}, tested=frozenset())
                return st._replace(roots=st.roots - {s.b}, nodes_done=st.nodes_done or not s.odd)
            return st
        neg = False
        while e[0] == "un" and e[1] == "Not":
            e, neg = e[2], not neg
        x, name = variant(self.w, o, v)
        if x is not None:
            if x[0] == "call" and x[1].split("::")[-1] in HEADS and vid(g, x[2][0]) == self.W:
                return st._replace(empty=(name != "Some") or st.empty) if name != "Some" else st
            if st.pend is not None:
                el = S.elem_of(x)
                if el == st.pend and name == "None":
                    return st._replace(pend=None)
                if el == st.pend and x[0] == "f" and x[2] == "source" and name not in ("Node",):
                    return st._replace(pend=None)
            return st
        if v in (0, 1) and self.w.F.types[o[2]]["k"] == "bool":
            tr = bool(v) != neg
            if e[0] == "call":
                ln = e[1].split("::")[-1]
                if ln == "is_empty" and vid(g, e[2][0]) == self.W:
                    return st._replace(empty=tr)
                if ln == "contains" and len(e[2]) == 2 and self.pending(e[2][0]):
                    return st._replace(roots=self.discharge(st.roots, strip_key(e[2][1]))) if tr else st
                if ln in ("contains", "insert") and len(e[2]) == 2 and self.vis(e[2][0]):
                    seen = tr if ln == "contains" else not tr
                    k = keyish(e[2][1])
                    if seen:
                        if ln == "insert":
                            st = st._replace(marked=st.marked - {k} if k not in st.pushed else st.marked)
                        s = src_of(g, e[2][1], S)
                        if s and s[2] is not None and s[2] == st.pend:
                            return st._replace(pend=None)
                        return st._replace(roots=self.discharge(st.roots, e[2][1]))
                    return st._replace(tested=st.tested | {k})
                if ln in ("contains_key",) and "nodes" in roles(g, e[2][0]):
                    return st
            for a in atoms(e, tr):
                if a[0] == "Eq":
                    for x, y in ((a[1], a[2]), (a[2], a[1])):
                        if any(z[0] == "f" and z[2] == g.f["pending_nodes"] for z in walk(x)):
                            ee = [z for z in e[2]] if e[0] == "call" else [e[2], e[3]] if e[0] == "bin" else []
                            for z in ee:
                                st = st._replace(roots=self.discharge(st.roots, strip_key(z)))
        return st


def strip_key(z):
    while z[0] in ("&", "*"):
        z = z[1]
    return z


def p10_order(ctx):
    F, g = anchors(ctx)
    f = g.m("calculate_node_order")
    fl, E = flatten(ctx, f, ITER)
    S = Sites(g, fl, E)
    w = Walker(fl, E)
    m = Order(w, g, fl, E, S)
    vs = w.run(m, Order.INIT)
    ctx.states += w.nstates
    ctx.floor("order-heads", m.heads, 1)
    ctx.floor("order-emits", m.emits, 1)
    for (k, msg), path in vs:
        ctx.viol("nodes-run-after-their-inputs", k, f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("nodes-run-after-their-inputs", f["path"], f"{w.nstates} path states")


# ---------------------------------------------------------------- buffer assignment
_pol = {}


def alloc_policy(F):
    """ITER, with the buffer allocator's own methods left as calls."""
    if id(F) not in _pol:
        _pol[id(F)] = lambda f, x: ITER(f, x) and not is_alloc(x)
    return _pol[id(F)]


def is_alloc(x):
    return "::BufferAllocator" in x.get("p", "") and "{closure" not in x.get("p", "")


def alloc_calls(F, fl):
    """Calls of the allocator's methods by what they do (recognised from signatures and effects)."""
    out = {}
    for b in fl.reachable():
        t = fl.blocks[b].t
        if t[0] == "call" and t[2] and is_alloc(F.insts[t[1]]):
            out[b] = last(F, t[1])
    return out


BSt = namedtuple("BSt", "reset counted bad ok done entered got stored retp alloc_done finished swapped")


class Buffers(Monitor):
    ALL = frozenset(("in_edges", "par_edges", "out_edges"))

    def __init__(self, w, g, fl, E, S, calls):
        super().__init__(w)
        self.g, self.E, self.S, self.F, self.calls = g, E, S, g.F, calls
        gets = [b for b, n in calls.items() if n == "get_block"]
        if not gets:
            raise Missing("calls of BufferAllocator::get_block")
        self.dep = None
        self.order = set()
        for b in gets:
            a = [E.op(x) for x in fl.blocks[b].t[2]]
            d = a[3]
            while d[0] == "cast":
                d = d[2]
            if d[0] == "f" and roles(g, d) == {"nodes"}:
                self.dep = d[2]
            k = access_key(g, d)
            s = S.elem_of(k) if k is not None else None
            if s is None or S.at[s].roles != {"order"}:
                raise Missing("the loop over the processing order in the buffer assignment")
            self.order.add(s)
        self.n = {"inc": 0, "ret": 0, "get": 0}

    INIT = BSt(False, frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), False, False, frozenset(), False, False, False)

    def v(self, k, msg):
        self.w.viol((k, msg))
        return None

    def owner(self, s):
        if s.outer is not None and s.outer in self.S.at:
            return s.outer
        return self.S.elem_of(s.key) if s.key is not None else None

    def stmt(self, st, b, s):
        g, E = self.g, self.E
        if s[0] != "=" or not s[1][1] or s[1][1][-1][0] != "f":
            return st
        n = s[1][1][-1][1]
        if n == self.dep:
            e = E.place(s[1])
            if roles(g, e) != {"nodes"}:
                return st
            v = E.rvalue(s[2])
            k = access_key(g, e)
            if v == ("k", 0):
                si = self.S.elem_of(e if k is None else k)
                if si is not None and self.S.at[si].roles & {"nodes", "order"}:
                    return st._replace(entered=st.entered - {("reset", si)})
                return self.v("reset", "the number of readers of a node is reset after it was counted") if st.counted else st
            if v[0] == "bin" and v[1] == "Add" and canon(v[2]) == canon(e) and v[3] == ("k", 1) and k is not None:
                r = self.source(k)
                if r:
                    if not st.reset:
                        return self.v("unreset", "readers of a node are counted without the count having been reset for every node")
                    self.n["inc"] += 1
                    return st._replace(entered=st.entered - {("inc", r[2])})
                return st
            return self.v("dependents", "the number of readers of a node is set to something other than the number of its connections")
        e = E.place(s[1])
        if roles(g, e) == {"nodes"} and "node_output" == n:
            v = E.rvalue(s[2])
            if v[0] == "agg" and v[2] == "Offset":
                c = v[3][0][1]
                if c[0] == "call" and c[3] in self.calls and self.calls[c[3]] == "get_block":
                    k = access_key(g, e)
                    if k is not None and self.S.elem_of(k) in self.order:
                        return st._replace(stored=True)
                return self.v("offset", "a node is given a buffer other than the one assigned to it")
        return st

    def source(self, k):
        """src_of, for graph outputs too."""
        r = src_of(self.g, k, self.S)
        if r:
            return r
        a = k
        for _ in range(8):
            if a[0] in ("&", "*"):
                a = a[1]
            elif a[0] == "f" and a[2] == "0" and a[1][0] == "v" and a[1][2] == "Node":
                a = a[1][1]
            else:
                break
        if a[0] == "f" and a[2] == "source" and roles(self.g, a) == {"out_edges"}:
            return "out_edges", None, self.S.elem_of(a)
        return None

    def term(self, st, b, t, env):
        g, E = self.g, self.E
        c = self.calls.get(b)
        if c == "get_block":
            a = [E.op(x) for x in t[2]]
            missing = self.ALL - st.counted
            if "areset" not in st.entered:
                return self.v("not reset", "buffers are assigned without forgetting the assignments of an earlier schedule")
            if not st.reset:
                return self.v("unreset", "buffers are assigned from reader counts of an earlier schedule")
            if missing:
                r = sorted(missing)[0]
                return self.v("uncounted " + r, "buffers are assigned before all readers of a node have been counted (" + {
                    "in_edges": "signal connections", "par_edges": "parameter connections", "out_edges": "graph outputs"}[r] + ")")
            self.n["get"] += 1
            for x, want, what in ((a[1], "outputs", "number of outputs"), (a[3], self.dep, "number of readers")):
                while x[0] == "cast":
                    x = x[2]
                k = access_key(g, x)
                if not (x[0] == "f" and x[2] == want and roles(g, x) == {"nodes"} and k is not None and self.S.elem_of(k) in self.order):
                    return self.v("request", f"a buffer is requested for something other than the {what} of the node being looked at")
            x = a[2]
            while x[0] == "cast":
                x = x[2]
            if not (x[0] == "f" and x[2] == "block_size" and canon(x[1]) == ("arg", 1)):
                return self.v("request", "a buffer is requested for something other than the block size of the graph")
            return st._replace(got=True)
        if c == "return_block":
            a = canon(E.op(t[2][1]))
            ok = a[0] == "f" and a[2] == "0" and a[1][0] == "v" and a[1][2] == "Offset" and a[1][1][0] == "f" and a[1][1][2] == "node_output"
            raw = strip_key(E.op(t[2][1]))
            k = access_key(g, raw) if ok else None
            r = self.source(k) if k is not None else None
            if not r or r[0] not in EDGE_ROLES or r[2] is None or self.owner(self.S.at[r[2]]) not in self.order:
                return self.v("returned", "a buffer is given back that is not an input of the node being looked at")
            if not st.got:
                return self.v("early return", "the buffers a node reads are given back before the node got its own, so it can write over its inputs")
            if r[2] not in st.retp:
                return self.v("returned twice", "a buffer can be given back more than once for one connection")
            self.n["ret"] += 1
            return st._replace(retp=st.retp - {r[2]})
        if c == "finished_assigning_make_allocation":
            if not st.alloc_done:
                return self.v("early finish", "memory is allocated before all buffers have been assigned")
            return st._replace(finished=True)
        if c == "offset_to_ptr":
            if not st.finished:
                return self.v("early pointer", "buffers are turned into pointers before the memory has been allocated")
        if c == "reset":
            if "areset" not in st.entered:
                st = st._replace(entered=st.entered | {"areset"})
            if st.got or st.stored:
                return self.v("late reset", "the allocator is reset after buffers have been assigned")
        if t[0] == "ret":
            if not st.finished:
                return self.v("unfinished", "buffers are assigned without making sure that enough memory is allocated")
            if not st.swapped:
                return self.v("unswapped", "a node's buffer may not have been turned into a pointer")
            return None
        return st

    def edge(self, st, b, o, v, other, vals):
        g, S = self.g, self.S
        e = self.E.op(o)
        oc = S.outcome(self.w, b, o, v, other)
        if oc:
            s, name = oc
            r = next(iter(s.roles)) if len(s.roles) == 1 else None
            if r is None:
                return st
            ow = self.owner(s)
            if r in EDGE_ROLES and ow is not None or r == "out_edges":
                # edges of one node (or the graph outputs)
                left = ("inc", s.b) in st.entered
                bad = st.bad | {s.b} if left else st.bad
                ent = st.entered - {("inc", s.b)}
                if name == "Some":
                    return st._replace(entered=ent | {("inc", s.b)}, bad=bad, retp=st.retp | {s.b})
                done, cnt = st.done, st.counted
                if s.b not in bad and not s.odd and st.reset:
                    if r == "out_edges":
                        cnt = cnt | {"out_edges"}
                    else:
                        done = done | {(ow, r)}
                return st._replace(entered=ent, bad=bad - {s.b}, done=done, counted=cnt, retp=st.retp - {s.b})
            # loops over nodes
            if s.b in self.order:
                if ("order", s.b) in st.entered and not (st.got and st.stored):
                    return self.v("unassigned", "a node in the processing order can be left without a buffer of its own")
                ent = st.entered - {("order", s.b)}
                if name == "Some":
                    return st._replace(entered=ent | {("order", s.b)}, got=False, stored=False)
                if s.odd:
                    return self.v("unassigned", "a node in the processing order can be left without a buffer of its own")
                return st._replace(entered=ent, alloc_done=True)
            was = ("own", s.b) in st.entered
            ok = st.ok
            if not was:
                ok = frozenset(x for x in ok if x[0] != s.b) | {(s.b, q) for q in EDGE_ROLES}
            else:
                ok = frozenset(x for x in ok if x[0] != s.b or x in st.done)
            done = frozenset(x for x in st.done if x[0] != s.b)
            ent = st.entered - {("own", s.b)}
            rbad = ("reset", s.b) in ent
            ent = ent - {("reset", s.b)}
            bad = st.bad | {s.b} if rbad else st.bad
            swp = st.swapped
            if name == "Some":
                return st._replace(entered=ent | {("own", s.b), ("reset", s.b)}, ok=ok, done=done, bad=bad)
            cnt = st.counted
            if not s.odd:
                cnt = cnt | {q for x, q in ok if x == s.b and (r in ("nodes", "order") or r == q)} if was or r in EDGE_ROLES or r == "nodes" else cnt
                if st.finished and r in ("order", "nodes"):
                    swp = True
            rs = st.reset or (r == "nodes" and not s.odd and s.b not in bad)
            return st._replace(entered=ent, ok=frozenset(x for x in ok if x[0] != s.b), done=done, bad=bad - {s.b}, counted=cnt, reset=rs, swapped=swp)
        neg = False
        while e[0] == "un" and e[1] == "Not":
            e, neg = e[2], not neg
        x, name = variant(self.w, o, v)
        if x is not None:
            el = S.elem_of(x)
            if el is not None and ("inc", el) in st.entered:
                if name == "None" or x[0] == "f" and x[2] == "source" and name != "Node":
                    return st._replace(entered=st.entered - {("inc", el)})
        return st


def p10_buffers(ctx):
    F, g = anchors(ctx)
    f = g.m("allocate_node_buffers")
    fl, E = flatten(ctx, f, alloc_policy(F))
    S = Sites(g, fl, E)
    w = Walker(fl, E)
    m = Buffers(w, g, fl, E, S, alloc_calls(F, fl))
    vs = w.run(m, Buffers.INIT)
    ctx.states += w.nstates
    for k, n in m.n.items():
        ctx.floor("buffer-" + k, n, 2 if k != "get" else 1)
    for (k, msg), path in vs:
        ctx.viol("buffers-not-shared", k, f"{f['path']}: {msg}", where=loc(F, f["inst"], None), trace=trace(fl, path))
    if not vs:
        ctx.ok("buffers-not-shared", f["path"], f"{w.nstates} path states")


# ---------------------------------------------------------------- the allocator itself
def p10_allocator(ctx):
    from effects import summarise
    F, g = anchors(ctx)
    ms = {f["name"]: f for f in F.fns if f.get("impl_adt", "").endswith("::BufferAllocator") and "impl_trait" not in f and "inst" in f}
    need = ("get_block", "return_block", "reset", "finished_assigning_make_allocation", "offset_to_ptr", "empty_channel")
    for n in need:
        if n not in ms:
            raise Missing(f"BufferAllocator::{n}")
    fd = fields_by_type(F, "buffer_allocator::BufferAllocator", {
        "buf": (lambda t: "OwnedRawBuffer" in t, "buffer"), "next": (lambda t: False, "next_free_pos"),
        "blocks": (lambda t: "AllocatedBlock" in t, "allocated_blocks"), "free": (lambda t: "Vec<usize" in t, "return_order"),
        "size": (lambda t: False, "virtual_allocation_size")})
    fb = {x: x for x in ("start_offset", "len", "outstanding_borrows")}
    me = ("arg", 1)
    NEXT, SIZE, BLOCKS, FREE = (("f", me, fd[k]) for k in ("next", "size", "blocks", "free"))
    wanted = {"push", "remove", "swap_remove", "clear", "truncate", "pop", "insert", "retain", "drain", "push_back", "replace", "swap"}

    def calls(t):
        l = last(F, t[1])
        return l if l in wanted else None

    def run(name, check):
        fl, E = flatten(ctx, ms[name], ITER)
        vs = summarise(ctx, fl, E, calls, check, purge=False)
        done = set()
        for (k, msg), path in vs:
            if k not in done:
                done.add(k)
                ctx.viol("allocator", f"{name}: {k}", f"{ms[name]['path']}: {msg}", where=loc(F, ms[name]["inst"], None), trace=trace(fl, path))
        if not done:
            ctx.ok("allocator", ms[name]["path"])

    def blockread(e, field):
        """index i when e is allocated_blocks[i].field"""
        if e[0] == "f" and e[2] == field and e[1][0] == "call" and e[1][1] in ("index", "get", "get_mut") and e[1][2][0] == BLOCKS:
            return e[1][2][1]
        if e[0] == "f" and e[2] == field and e[1][0] == "[]" and e[1][1] == BLOCKS:
            return e[1][2]
        return None

    def product(e, a, c):
        return e[0] == "bin" and e[1] in ("Mul",) and {e[2], e[3]} == {a, c}

    def fresh(facts, eff, n, bs, borrows):
        """The effects of taking a new block of n*bs samples at the end."""
        pushed = [x[2][1] for x in eff if x[0] == "call" and x[1] == "push" and x[2][0] == BLOCKS]
        if len(pushed) != 1 or pushed[0][0] != "agg":
            return "new", "a new block is handed out without being recorded"
        f = dict(pushed[0][3])
        if f.get("start_offset") != NEXT:
            return "new start", "a new block does not start at the first free position"
        if not product(f.get("len"), n, bs):
            return "new length", "a new block is recorded with a length other than the number of channels times the block size"
        if f.get("outstanding_borrows") != borrows:
            return "new borrows", "a new block is recorded with the wrong number of readers"
        adv = [x[2] for x in eff if x[0] == "write" and x[1] == NEXT]
        if not any(v[0] == "bin" and v[1] == "Add" and v[2] == NEXT and product(v[3], n, bs) for v in adv):
            return "not advanced", "the first free position is not moved past a new block, so the next block overlaps it"
        end = [v for v in adv if v[0] == "bin"]
        grown = [x[2] for x in eff if x[0] == "write" and x[1] == SIZE]
        ok = any(v in end or v == NEXT or (v[0] == "call" and v[1] == "max" and any(z in end for z in v[2])) for v in grown)
        if not ok:
            ok = any(f[0] == "Le" and f[1] in end and f[2] == SIZE for f in facts)
        if not ok:
            return "size", "the amount of memory needed is not updated when a block is added at the end"
        return None

    def get_block(facts, eff, v, var):
        n, bs, br = ("arg", 2), ("arg", 3), ("arg", 4)
        zero = ("Eq", n, ("k", 0)) in facts or ("Eq", ("k", 0), n) in facts
        if zero:
            return None
        out = [x for x in eff if x[0] == "write" and blockread(x[1], fb["outstanding_borrows"]) is not None]
        i = blockread(v, fb["start_offset"])
        if i is not None:
            big = any(f[0] in ("Le",) and product(f[1], n, bs) and blockread(f[2], "len") == i for f in facts) \
                or any(f[0] == "Eq" and any(product(f[a], n, bs) and blockread(f[3 - a], "len") == i for a in (1, 2)) for f in facts)
            if not big:
                return "too small", "a block can be reused that is smaller than what was asked for"
            if not any(blockread(x[1], "outstanding_borrows") == i and x[2] == br for x in out):
                return "reuse borrows", "a reused block is not given the number of readers of its new owner"
            rem = [x for x in eff if x[0] == "call" and x[1] in ("remove", "swap_remove", "pop") and x[2][0] == FREE]
            isfree = any(y[0] == "call" and y[1] in ("index", "get", "pop", "remove", "swap_remove", "next", "next_back") and FREE in list(walk(y)) for y in walk(i))
            if not isfree:
                return "not free", "a block is reused that has not been given back"
            ri = next((y[2][1] for y in walk(i) if y[0] == "call" and y[1] == "index" and y[2][0] == FREE), None)
            popped = any(y[0] == "call" and y[1] == "pop" and FREE in list(walk(y)) for y in walk(i))
            if not rem or (ri is not None and not popped and not any(x[1] != "pop" and x[2][1] == ri for x in rem)):
                return "still free", "a reused block stays in the list of free blocks, so it can be handed out again"
            return None
        return fresh(facts, eff, n, bs, br) or (None if v == NEXT else ("offset", "the offset returned is not that of the block taken"))

    def return_block(facts, eff, v, var):
        w = [x for x in eff if x[0] == "write"]
        p = [x for x in eff if x[0] == "call" and x[1] in ("push", "push_back", "insert") and x[2][0] == FREE]
        for x in w:
            if not (x[1][0] == "f" and x[1][2] == "outstanding_borrows"):
                return "other write", "giving back a block changes something other than its number of readers"
            blk = x[1][1]
            if not any(f[0] == "Eq" and {("f", blk, "start_offset"), ("arg", 2)} == {f[1], f[2]} for f in facts) and not (
                    counter(blk) and any(f[0] == "Eq" and ("arg", 2) in f[1:] and any(
                        y[0] == "f" and y[2] == "start_offset" and any(z[0] == "call" and z[1] == "next" for z in walk(y)) and BLOCKS in list(walk(y))
                        for q in f[1:] for y in walk(q)) for f in facts)):
                return "wrong block", "giving back a block changes a block that is not known to be the one given back"
            if not (x[2][0] == "bin" and x[2][1] == "Sub" and x[2][2] == x[1] and x[2][3] == ("k", 1)
                    or x[2][0] == "call" and x[2][1] in ("saturating_sub", "wrapping_sub") and x[2][2] == (x[1], ("k", 1))):
                return "decrement", "giving back a block does not count down its number of readers by one"
        if p:
            if not w:
                return "free", "a block becomes free without its number of readers being counted down"
            if not any(f[0] == "Eq" and {f[1], f[2]} == {w[0][1], ("k", 0)} for f in facts):
                return "free", "a block becomes free although not everything that reads it has given it back"
            i = p[0][2][-1]
            blk = w[0][1][1]
            if not same_elem(i, blk):
                return "free index", "the block put on the list of free blocks is not the one given back"
        return None

    def counter(blk):
        """blk is the element of the list of blocks that a counter starting at 0 and advancing by one points at."""
        for y in walk(blk):
            if y[0] == "call" and y[1] in ("index", "index_mut", "get", "get_mut") and y[2][0] == BLOCKS and y[2][1][0] == "phi":
                a = set(y[2][1][1])
                if len(a) == 2 and ("k", 0) in a and any(z[0] == "bin" and z[1] in ("Add", "AddUnchecked") and z[3] == ("k", 1) for z in a):
                    return True
        return False

    def same_elem(i, blk):
        """i is the index of the element blk."""
        for y in walk(blk):
            if y[0] == "call" and y[1] == "index" and y[2][0] == BLOCKS and y[2][1] == i or y[0] == "[]" and y[1] == BLOCKS and y[2] == i:
                return True
        nx = [y for y in walk(i) if y[0] == "call" and y[1] in ("next", "position", "next_back")]
        nb = [y for y in walk(blk) if y[0] == "call" and y[1] in ("next", "position", "next_back")]
        return bool(nx) and nx[0] in nb and i[0] == "f" or any(y[0] == "f" and y[2] == "count" and any(z in list(walk(y)) for b_ in nb for z in walk(b_) if z[0] == "call" and z[1] in ("enumerate",)) for y in walk(i))

    def reset(facts, eff, v, var):
        if not any(x[0] == "write" and x[1] == NEXT and x[2] == ("k", 0) for x in eff):
            return "position", "resetting does not start again at the beginning of the memory"
        for c, w in ((BLOCKS, "blocks"), (FREE, "free blocks")):
            if not any(x[0] == "call" and x[1] in ("clear", "truncate") and x[2][0] == c for x in eff) and not any(x[0] == "write" and x[1] == c for x in eff):
                return w, f"resetting keeps the list of {w} of an earlier schedule"
        r = fresh(facts, eff, ("k", 1), ("arg", 2), ("k", (1 << 64) - 1))
        reused = [x for x in eff if x[0] == "write" and blockread(x[1], "outstanding_borrows") is not None]
        if r and not reused:
            return "silence", "resetting does not set aside a channel of silence that nothing else uses"
        return None

    def finished(facts, eff, v, var):
        cap = [f for f in facts if f[0] in ("Le", "Lt", "Eq") and any(x == SIZE for q in f[1:] for x in walk(q))]
        buf = ("f", me, fd["buf"])
        repl = [x for x in eff if (x[0] == "call" and x[1] in ("replace", "swap") and buf in x[2]) or (x[0] == "write" and x[1] == buf)]
        if not repl:
            if not any(f[0] in ("Le", "Lt") and f[1] == SIZE and any(x[0] == "call" and x[1] == "len" for x in walk(f[2])) and buf in list(walk(f[2])) for f in facts):
                return "kept", "the memory is kept although it may be too small"
            return None
        nb = next(y for y in repl[0][2][::-1] if y != buf or repl[0][2].count(buf) > 1) if repl[0][0] == "call" else repl[0][2]
        if not any(x == SIZE for x in walk(nb)) and nb[0] != "result":
            return "size", "the new memory does not have the size that is needed"
        return None

    buf = ("f", me, fd["buf"])

    def offset(e, at):
        """e is the memory's start plus `at`."""
        return any(y[0] == "call" and y[1] == "add" and len(y[2]) == 2 and buf in list(walk(y[2][0])) and y[2][1] == at for y in walk(e)) \
            and not any(y[0] == "call" and y[1] in ("sub", "offset", "wrapping_add", "byte_add") for y in walk(e)) \
            and sum(1 for y in walk(e) if y[0] == "call" and y[1] == "add") == 1

    def offset_to_ptr(facts, eff, v, var):
        if v[0] == "agg" and v[2] == "None" or var == "None":
            return None
        return None if offset(v, ("arg", 2)) else ("pointer", "the pointer made from an offset does not point at that offset in the current memory")

    def empty_channel(facts, eff, v, var):
        return None if offset(v, ("k", 0)) else ("silence", "the channel of silence is not the one set aside at the start of the memory")

    run("offset_to_ptr", offset_to_ptr)
    run("empty_channel", empty_channel)
    run("get_block", get_block)
    run("return_block", return_block)
    run("reset", reset)
    run("finished_assigning_make_allocation", finished)
