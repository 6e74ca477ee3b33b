"""For-each obligations: something happens, correctly, for every element of a collection.

Used wherever a property says "every node / connection / task / change ...". The loop may be written in any of the
forms `iters.Sites` recognises; skipping an element is allowed only on paths whose facts say it is exempt."""
from iters import *
from graph import anchors, flatten, trace
from edits import canon, alts, atoms, variant_atoms, FactMon
from rt import loc
from walk import Walker, Monitor
from facts import Missing


FILTERS = {"filter", "filter_map", "flat_map", "flatten", "skip", "step_by", "skip_while", "take_while", "chain", "rev"}


def fname(e):
    """Names of the fields an access chain goes through, innermost container last: task_data.output_task.channels."""
    out = []
    for x in chain_roots(e):
        if x[0] == "f" and not x[2].isdigit():
            out.append(x[2])
        if x[0] == "call" and x[1].split("::")[-1] in ("next", "next_back"):
            break
    return out


def container(s):
    """Field names leading to the collection a site iterates over."""
    return fname(s.base if s.idx is not None and s.call is None else s.it if s.idx is None else s.base)


def index_of(S, e, b):
    """e is the position, in the whole collection, of the element site b is at."""
    while e[0] in ("cast", "&", "*"):
        e = e[2] if e[0] == "cast" else e[1]
    s = S.at[b]
    if s.idx is not None and canon1(e) == canon1(s.idx):
        return True
    # enumerate, inlined (its counter) or not (first half of the element)
    if e[0] == "f" and e[2] == "count":
        x = e[1]
        return x[0] == "call" and x[1].split("::")[-1] == "enumerate" and plain(x[2][0]) and under(s, x)
    if e[0] == "f" and e[2] == "0":
        p = e[1]
        if p[0] == "f" and p[2] == "0":
            p = p[1]
        if p[0] == "v" and p[1][0] == "call" and p[1][3] == b:
            for x in chain_roots(s.it):
                if x[0] == "call" and x[1].split("::")[-1] == "enumerate":
                    return plain(x[2][0])
                if x[0] == "call" and x[1].split("::")[-1] in ("zip",):
                    return False
    if e[0] == "f" and e[2] == "0" and e[1][0] in ("f", "agg", "phi"):
        pass
    return False


def under(s, x):
    return any(y == x for y in chain_roots(s.it)) or any(y == x for y in walk(s.it))


def plain(e):
    """No adaptor in the chain drops or reorders elements."""
    for x in chain_roots(e):
        if x[0] == "call" and x[1].split("::")[-1] in FILTERS:
            return False
        if x[0] == "agg":
            return False
    return True


class ForEach(FactMon):
    """state = (facts, (open, done)). `loops`: site -> obligation name; `event(facts, b, what, payload)` returns a list of
    ("do", site), ("bad", key, message); `exempt(facts, site)` says that the element at `site` needs nothing;
    `need`: obligation names that must be complete at return; `noreturn(facts)`: returns that need nothing."""

    def __init__(self, w, S, loops, event, exempt, need, skip_msg, part_msg, once=True, noreturn=lambda f: False, keep=None, track=None, inner=None):
        super().__init__(w)
        self.S, self.loops, self.event, self.exempt, self.need = S, loops, event, exempt, need
        self.skip_msg, self.part_msg, self.once, self.noreturn = skip_msg, part_msg, once, noreturn
        self.keep = keep
        self.track = track or {}   # site -> name: only its exhaustion is recorded
        self.inner = inner or {}   # site -> names forgotten when it moves on to its next element
        self.n = {}
        # booleans computed on several paths (`match .. { Some(e) => e.x == y, None => false }`): which definition was taken
        self.P, self.flags = None, {}
        if hasattr(S.fl, "defs"):
            for l, ds in S.fl.defs().items():
                ds = [d for d in ds if d[0] == ()]
                if len(ds) > 1 and S.F.types[S.fl.ltypes[l]]["k"] == "bool" and any(not (S.E.rv(d)[0] == "k") for d in ds):
                    for i, d in enumerate(S.fl.defs()[l]):
                        if d[0] == ():
                            self.flags.setdefault(d[3], []).append((d[2], l, i))
            if self.flags:
                self.P = PathExprs(S.fl)
        self.steps = {}            # block -> counting sites whose counter is moved on there
        self.elem = {}
        for b in list(loops):
            if b in S.at and S.at[b].idx is not None and S.at[b].call is None:
                for l, ds in S.fl.defs().items():
                    if canon(S.E.local(l)) == canon(S.at[b].idx):
                        for d in ds:
                            if d[0] == () and d[1] == "rv" and S.E.rv(d)[0] == "bin":
                                self.steps.setdefault(d[3], []).append((d[2], b))
        for b in list(loops) + list(self.track):
            if b not in S.at:
                self.elem[b] = set()
                continue
            s = S.at[b]
            c = set()
            if s.call is not None:
                c.add(canon(S.E.place(s.call[3])))
            if s.idx is not None:
                c.add(canon(s.idx))
            self.elem[b] = c

    INIT = (frozenset(), (frozenset(), frozenset()))

    def relevant(self, f):
        return True if self.keep is None else self.keep(f)

    def apply(self, st, evs):
        facts, (op, done) = st
        for e in evs or ():
            if e[0] == "bad":
                self.w.viol((e[1], e[2]))
                return None
            if e[0] == "mark":
                done = done | {e[1]}
            if e[0] == "unmark":
                done = done - {e[1]}
            if e[0] == "do":
                name = self.loops[e[1]]
                self.n[name] = self.n.get(name, 0) + 1
                if e[1] not in op and self.once:
                    self.w.viol((name + " twice", f"an element of {name} is handled twice"))
                    return None
                op = op - {e[1]}
        return facts, (op, done)

    def pick(self, st, b, pay):
        for d, l, i in self.flags.get(b, ()):
            if d is pay:
                facts, (op, done) = st
                st = facts, (op, frozenset(x for x in done if not (x[0] == "sel" and x[1] == l)) | {("sel", l, i)})
        return st

    def stmt(self, st, b, s):
        if s[0] == "=" and b in self.flags:
            st = self.pick(st, b, s[2])
        if s[0] == "=" and b in self.steps:
            for d, site in self.steps[b]:
                if d is s[2]:
                    facts, (op, done) = st
                    if ("step", site) in done:
                        self.w.viol((self.loops[site] + " skipped", self.skip_msg(self.loops[site])))
                        return None
                    st = facts, (op, done | {("step", site)})
        return self.apply(st, self.event(st, b, "stmt", s))

    def term(self, st, b, t, env):
        if t[0] == "call":
            st = self.apply(st, self.event(st, b, "call", t))
            if st is None:
                return None
            if b in self.flags:
                st = self.pick(st, b, t)
        if t[0] == "ret":
            facts, (op, done) = st
            if self.noreturn(facts):
                return None
            for n in self.need:
                if n not in done:
                    self.w.viol((n + " partial", self.part_msg(n)))
                    return None
            return None
        return st

    def edge(self, st, b, o, v, other, vals):
        S = self.S
        oc = S.outcome(self.w, b, o, v, other)
        if oc and oc[0].b in self.track:
            s, name = oc
            facts, (op, done) = st
            el = self.elem[s.b]
            if name == "Some":
                facts = frozenset(f for f in facts if not any(x in el for q in f[1:] if isinstance(q, tuple) for x in walk(q)))
                return facts, (op, done - {self.track[s.b]})
            return facts, (op, done | {self.track[s.b]} if not s.odd else done)
        if oc and oc[0].b in self.loops:
            s, name = oc
            facts, (op, done) = st
            if s.b in op and not self.exempt(st, s.b):
                self.w.viol((self.loops[s.b] + " skipped", self.skip_msg(self.loops[s.b])))
                return None
            el = self.elem[s.b]
            facts = frozenset(f for f in facts if not any(x in el for q in f[1:] if isinstance(q, tuple) for x in walk(q)))
            done = done - {("step", s.b)}
            if name == "Some":
                return facts, (op | {s.b}, done - {self.loops[s.b]} - set(self.inner.get(s.b, ())))
            if not s.odd:
                done = done | {self.loops[s.b]}
            return facts, (op - {s.b}, done)
        facts, x = st
        sel = frozenset((y[1], y[2]) for y in x[1] if y[0] == "sel") if self.P is not None and self.F_bool(o) else None
        if sel:
            E, self.w.E = self.w.E, self.P.select(sel)
            try:
                st2 = super().edge((facts, None), b, o, v, other, vals)
            finally:
                self.w.E = E
        else:
            st2 = super().edge((facts, None), b, o, v, other, vals)
        return st2[0], x

    def F_bool(self, o):
        return o[0] != "k" and self.S.F.types[o[2]]["k"] == "bool"
