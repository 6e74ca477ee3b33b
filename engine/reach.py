"""Call-graph reachability over the fact base: resolved callees, class-hierarchy targets of trait
calls, reified functions and drop glue."""
from collections import deque, defaultdict

ALLOC = ("__rust_alloc", "__rust_dealloc", "__rust_realloc", "__rust_alloc_zeroed", "__rdl_alloc", "__rdl_dealloc",
         "__rdl_realloc", "__rdl_alloc_zeroed", "malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc")


def is_sample_alias(F, x):
    """`<T as UGen>::Sample`: bounded by Float, which is sealed to f32/f64 in effect."""
    t = F.types[x["self"]]
    return t["k"] in ("alias", "proj") and F.ts(x["self"]).endswith(">::Sample")


class Reach:
    def __init__(self, F):
        self.F = F

    def targets(self, i, self_filter=True):
        """[(callee id, line)] of node i, trait calls expanded."""
        F = self.F
        x = F.insts[i]
        cs, ref = F.callees(i)
        out = list(cs) + [(r, None) for r in ref]
        if x["k"] in ("unres", "dyn"):
            p = x["p"]
            tr = p.rsplit("::", 1)[0]
            if tr.split("::")[0].startswith("knaster"):
                out += [(j, None) for j in F.impl_of.get(p, [])]
            elif x["k"] == "dyn":
                out += [(j, None) for j in F.impl_of.get(p, [])]
        return out

    def ws(self, i):
        return bool(self.F.insts[i].get("ws"))

    def forward(self, roots, cut=lambda i: False):
        """Breadth-first: id -> (parent id, line); nodes satisfying cut are entered but not left."""
        par = {}
        q = deque()
        for r in roots:
            if r not in par:
                par[r] = None
                q.append(r)
        while q:
            i = q.popleft()
            if cut(i):
                continue
            for n, l in self.targets(i):
                if n not in par:
                    par[n] = (i, l)
                    q.append(n)
        return par

    def can_reach(self, nodes, sinks):
        """Subset of `nodes` from which a sink is reachable, with next hop: id -> next id."""
        rev = defaultdict(list)
        for i in nodes:
            for n, l in self.targets(i):
                if n in nodes:
                    rev[n].append(i)
        nxt = {s: None for s in sinks}
        q = deque(sinks)
        while q:
            i = q.popleft()
            for p in rev[i]:
                if p not in nxt:
                    nxt[p] = i
                    q.append(p)
        return nxt

    def chain(self, par, i):
        out = []
        while i is not None:
            p = par[i]
            out.append((self.F.name(i), p[1] if p else None))
            i = p[0] if p else None
        return list(reversed(out))
