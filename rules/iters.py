"""Iteration sites: which container a loop runs over, whether it visits every element, and what happens
to each element. Loops are recognised by their `next` calls after adaptors and closures have been
inlined, so `for`, `while let`, `filter_map`, `any`, ... look the same."""
from gcom import *
from flat import _closure_comb
from expr import mk_field
from edits import canon, alts

STOP = {"extend", "spec_extend", "extend_trusted", "extend_desugared", "collect", "from_iter", "sort_by", "sort_by_key",
        "retain", "retain_mut", "dedup_by", "sort_unstable_by", "sort_unstable_by_key", "flat_map"}
ITER = lambda f, x: x.get("ws", False) or x["k"] == "shim" or (_closure_comb(x) and x.get("p", "").split("::")[-1] not in STOP and "flatten::FlatMap" not in x.get("p", ""))
PASS = {"iter", "iter_mut", "into_iter", "enumerate", "flatten", "copied", "cloned", "deref", "deref_mut", "as_ref", "as_mut",
        "values", "values_mut", "keys", "by_ref", "as_slice", "as_mut_slice", "unwrap", "expect", "index", "index_mut", "get",
        "get_mut", "get_unchecked", "get_unchecked_mut", "next", "peekable", "map", "filter", "filter_map", "new", "into", "zip", "rev",
        "clone", "to_vec", "drain", "into_boxed_slice", "borrow", "borrow_mut", "fuse", "inspect", "key", "cast", "as_ptr"}
NEXT = ("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")


def nexts(e):
    """next calls inside e, outermost first."""
    return [x for x in walk(e) if x[0] == "call" and x[1].split("::")[-1] in ("next", "next_back") and x[3] is not None]


def strip(e):
    """Root of a container expression: references, dereferences and adaptors removed."""
    for _ in range(60):
        k = e[0]
        if k in ("&", "*"):
            e = e[1]
        elif k == "cast":
            e = e[2]
        elif k == "f" and e[2] in ("0", "pointer", "ptr") and e[1][0] in ("f", "*", "&") and False:
            e = e[1]
        elif k == "call" and e[2] and e[1].split("::")[-1] in ("deref", "deref_mut", "iter", "iter_mut", "into_iter", "copied", "cloned",
                                                               "as_slice", "as_mut_slice", "drain", "by_ref", "borrow", "borrow_mut", "as_ref", "as_mut", "values", "values_mut"):
            e = e[2][0]
        elif k == "f" and e[2] == "iter":
            e = e[1]
        else:
            break
    return e



def ITERC(f, x):
    """ITER, with `collect` and `extend` on vectors taken as the loops they stand for."""
    return ITER(f, x)


ITERC.collect = lambda f, x, t: True


class Site:
    __slots__ = ("b", "call", "sw", "some", "none", "roles", "key", "outer", "odd", "base", "it", "idx", "end", "start", "flat")


def canon1(e):
    while e[0] == "cast" or e[0] in ("&", "*"):
        e = e[2] if e[0] == "cast" else e[1]
    return e


class Sites:
    """Iteration sites of a flattened function."""

    def __init__(self, g, fl, E, any_end=False, pops=False):
        """pops: a loop that takes elements off a collection until it is empty is a loop over it."""
        self.g, self.fl, self.E, self.F = g, fl, E, g.F
        self.at = {}
        self.pops = {b for b in fl.reachable() if fl.blocks[b].t[0] == "call" and fl.blocks[b].t[2] and last(g.F, fl.blocks[b].t[1]) in (
            "pop", "pop_front", "pop_back") and F_path(g.F, fl.blocks[b].t[1]).startswith("alloc::")} if pops else set()
        for b in fl.reachable():
            t = fl.blocks[b].t
            if b in self.pops or t[0] == "call" and t[6] in NEXT or t[0] == "call" and t[2] and last(self.F, t[1]) in ("next", "next_back") and "Iterator" in F_path(self.F, t[1]):
                s = Site()
                s.b, s.call = b, t
                s.it = E.op(t[2][0])
                s.odd = []
                s.outer, s.key, s.flat = None, None, None
                e = s.it
                for x in chain_roots(e):
                    if x[0] == "call":
                        l = x[1].split("::")[-1]
                        if l in ("from_elem", "with_capacity"):
                            break
                        if l == "flat_map" and plain_closure(g, x):
                            s.flat = x[2][0]
                        elif l == "flatten" and s.flat is None:
                            s.flat = x[2][0]
                        elif l not in PASS and not x[1].startswith("core::mem::") and s.outer is None:
                            s.odd.append(l)
                        if l in ("next", "next_back") and x[3] is not None and s.outer is None:
                            s.outer = x[3]
                        if l in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut") and len(x[2]) > 1 and s.key is None and s.outer is None:
                            s.key = x[2][1]
                    elif x[0] == "[]" and s.key is None and s.outer is None:
                        s.key = x[2]
                    elif x[0] == "f" and roles(g, x) and x[2] in g.f.values():
                        break
                s.roles = roles(g, e)
                s.base = strip(e)
                s.idx = None
                rg = self.range_of(e)
                if rg is not None:
                    self.counted(s, *rg)
                    s.idx = ("f", ("v", E.place(t[3]), "Some"), "0")
                self.at[b] = s
        # counting loops: `while i < x.len() { ..; i += 1 }`
        self.cond = {}
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "switch" and t[1][0] != "k" and self.F.types[t[1][2]]["k"] == "bool":
                e, neg = E.op(t[1]), False
                while e[0] == "un" and e[1] == "Not":
                    e, neg = e[2], not neg
                if e[0] == "bin" and e[1] in ("Lt", "Ge", "Gt", "Le", "Ne", "Eq"):
                    op, i, n = e[1], e[2], e[3]
                    if op in ("Gt", "Le"):
                        i, n, op = n, i, {"Gt": "Lt", "Le": "Ge"}[op]
                    start = self.counter(i)
                    if start is not None and (any_end or self.len_of(n) is not None):
                        s = Site()
                        s.b, s.call, s.it, s.odd, s.outer, s.key, s.flat = b, None, n, [], None, None, None
                        self.counted(s, start, n)
                        s.idx = i
                        self.at[b] = s
                        self.cond[b] = neg != (op in ("Ge", "Eq"))
        # exhaustion and element edges: switches on the discriminant of the result
        self.bysw = {}
        for b in fl.reachable():
            t = fl.blocks[b].t
            if t[0] == "switch":
                e = E.op(t[1])
                if e[0] == "discr" and e[1][0] == "call" and e[1][3] in self.at and (
                        e[1][3] in self.pops or e[1][1].split("::")[-1] in ("next", "next_back")):
                    self.bysw[b] = e[1][3]

    def range_of(self, e):
        """(start, end) when e iterates over an integer range; rev() allowed."""
        for _ in range(12):
            if e[0] in ("&", "*"):
                e = e[1]
            elif e[0] == "call" and e[2] and e[1].split("::")[-1] in ("into_iter", "rev", "by_ref", "new"):
                if e[1].split("::")[-1] == "new" and "RangeInclusive" in e[1]:
                    return None
                e = e[2][0]
            elif e[0] == "agg" and e[1].endswith("::Range"):
                f = dict(e[3])
                return f["start"], f["end"]
            else:
                return None
        return None

    def len_of(self, n):
        """x when n is the length of x."""
        for _ in range(8):
            if n[0] == "cast":
                n = n[2]
            elif n[0] == "call" and n[1].split("::")[-1] == "len" and n[2]:
                return n[2][0]
            elif n[0] == "un" and n[1] == "PtrMetadata":
                return n[2]
            else:
                return None
        return None

    def counted(self, s, start, end):
        """A loop over start..end; s.odd when it does not cover all of the container."""
        x = self.len_of(end)
        s.end, s.start = end, start
        if x is None:
            s.roles, s.base, s.key = set(), end, None
            return
        s.roles, s.base = roles(self.g, x), strip(x)
        s.key = access_key(self.g, x)
        if start != ("k", 0):
            s.odd.append("start")

    def counter(self, i):
        """Start value when i is a local that starts at a constant and is only ever incremented by one."""
        if i[0] != "phi":
            return None
        start = None
        for x in i[1]:
            if x[0] == "k":
                if start is not None:
                    return None
                start = x
            elif not (x[0] == "bin" and x[1] in ("Add", "AddUnchecked") and x[3] == ("k", 1) and x[2][0] == "loc"):
                return None
        return start

    def outcome(self, w, b, o, v, other):
        """(site, 'Some'/'None') when the switch at b decides whether a loop has another element."""
        if b in self.bysw:
            x, name = variant(w, o, v)
            return self.at[self.bysw[b]], name or "None"
        if b in self.cond and v in (0, 1):
            return self.at[b], "Some" if bool(v) != self.cond[b] else "None"
        return None

    def of(self, e):
        """Sites whose element e is derived from, innermost (nearest) first."""
        return [x[3] for x in nexts(e) if x[3] in self.at]

    def elem_of(self, e):
        """The nearest site in the access chain of e (ignores index operands), or None."""
        for x in chain_roots(e):
            if x[0] == "call" and x[3] in self.at and x[1].split("::")[-1] in ("next", "next_back"):
                return x[3]
            ix = x[2] if x[0] == "[]" else x[2][1] if x[0] == "call" and len(x[2]) > 1 and x[1].split("::")[-1] in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut") else None
            if ix is not None:
                for s in self.at.values():
                    if s.idx is not None and canon1(ix) == canon1(s.idx):
                        return s.b
        return None


def plain_closure(g, x):
    """The closure of a flat_map hands out all entries of the element it is given."""
    cl = peel1(x[2][1])
    inst = closure_inst(g.F, cl[1][8:]) if cl[0] == "agg" and cl[1].startswith("closure:") else None
    if inst is None:
        return cl[0] == "fn" and cl[1].split("::")[-1] in ("iter", "iter_mut", "into_iter")
    fl = Flat(g.F, inst, lambda f, y: False)
    if any(fl.blocks[b].t[0] == "switch" for b in fl.reachable()):
        return False
    e = Exprs(fl).value(fl.retlocal)
    for y in chain_roots(e):
        if y[0] == "call" and y[1].split("::")[-1] not in ("iter", "iter_mut", "into_iter", "deref", "deref_mut", "as_mut", "as_ref"):
            return False
        if y[0] not in ("call", "&", "*", "f", "cast", "arg"):
            return False
        if y[0] == "f" and y[2] not in ("0", "pointer", "ptr", "1"):
            return False
        if y[0] == "arg":
            return y == ("arg", 2)
    return False


def peel1(e):
    while e[0] in ("&", "*", "cast"):
        e = e[2] if e[0] == "cast" else e[1]
    return e


def F_path(F, cid):
    return F.insts[cid].get("p", "")


# ---------------------------------------------------------------- closures handed to un-inlined consumers
def closures_in(e):
    """Closures in the adaptor chain of an iterator value: (adaptor name, closure instance path, field), outermost first."""
    out = []
    for _ in range(40):
        k = e[0]
        if k in ("&", "*"):
            e = e[1]
        elif k == "agg" and dict(e[3]).get("iter") is not None:
            f = dict(e[3])
            cl = next((v for n, v in e[3] if v[0] == "agg" and v[1].startswith("closure:")), None)
            fn = next((v for n, v in e[3] if v[0] == "fn"), None)
            out.append((e[1].split("::")[-1].lower().replace("filtermap", "filter_map"), cl, fn))
            e = f["iter"]
        elif k == "call" and e[2]:
            cl = next((v for v in e[2][1:] if v[0] == "agg" and v[1].startswith("closure:")), None)
            fn = next((v for v in e[2][1:] if v[0] == "fn"), None)
            n = e[1].split("::")[-1]
            if cl is not None or fn is not None:
                out.append((n, cl, fn))
            elif n not in PASS:
                out.append((n, None, None))
            e = e[2][0]
        elif k == "f":
            break
        else:
            break
    return out


def iter_chain(e):
    """(roles-bearing root, key) of an iterator expression that was not inlined (agg adaptors looked through)."""
    for _ in range(40):
        if e[0] in ("&", "*"):
            e = e[1]
        elif e[0] == "agg" and dict(e[3]).get("iter") is not None:
            e = dict(e[3])["iter"]
        elif e[0] == "call" and e[2] and e[1].split("::")[-1] in PASS and e[1].split("::")[-1] not in ("index", "index_mut", "get", "get_mut"):
            e = e[2][0]
        else:
            return e
    return e


def access_key(g, e):
    """The key of the keyed access nearest to the container e lies in."""
    k = None
    for x in chain_roots(e):
        if x[0] == "call" and x[1].split("::")[-1] in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut") and len(x[2]) > 1 \
                and roles(g, x[2][0]):
            k = x[2][1]
        if x[0] == "[]" and roles(g, x):
            k = x[2]
        if x[0] == "f" and x[2] in g.f.values() and roles(g, x):
            break
    return k


def closure_inst(F, name):
    c = [x for x in F.insts if x.get("p") == name and "body" in x]
    return c[0]["id"] if c else None


class PathExprs(Exprs):
    """Expressions where locals with several definitions take the definition selected on the path."""

    def __init__(self, fl):
        super().__init__(fl)
        self.bysel = {}
        self.sel = {}

    def select(self, sel):
        self.sel = dict(sel)
        self.memo = self.bysel.setdefault(sel, {})
        return self

    def value(self, l):
        v = self.rv(self.fl.defs()[l][self.sel[l]]) if l in self.sel else super().value(l)
        over = {k[2]: x for k, x in self.sel.items() if isinstance(k, tuple) and k[1] == l}
        if over:
            # fields written one by one since
            a = self.fl.F.ts(self.fl.ltypes[l])
            v = ("agg", a, a.split("::")[-1], tuple((n, over[n] if n in over else mk_field(v, n)) for n in (
                x["name"] for x in self.fl.F.adts[a]["variants"][0]["fields"])))
        return v


def multi_locals(fl, E, pred):
    """Locals with several whole definitions whose type satisfies pred."""
    return {l for l, ds in fl.defs().items() if len([d for d in ds if d[0] == ()]) > 1 and pred(fl.F.ts(fl.ltypes[l]))}
