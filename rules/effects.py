"""Per-path summaries: the facts, effects and returned value on every path of a flattened function."""
from gcom import *
from edits import canon, alts, atoms, variant_atoms, FactMon
from iters import PathExprs, multi_locals
from walk import Walker, Monitor


class Summary(FactMon):
    """state = (facts, (effects, selection)); calls `at_ret(facts, effects, value, variant)` at every return."""

    def __init__(self, w, fl, want_call, at_ret, keep_fact=None, multi=None, purge=True, parts=()):
        super().__init__(w)
        self.purge = purge
        self.fl, self.want_call, self.at_ret, self.keep_fact = fl, want_call, at_ret, keep_fact
        self.P = PathExprs(fl)
        self.multi = multi if multi is not None else multi_locals(fl, w.E, lambda t: True)
        # a counter stands for every iteration, not for the one it was last assigned in
        self.multi = {l for l in self.multi if not any(
            x[0] == "bin" and ("loc", l) in x[2:] or x[0] == "agg" and any(z == ("loc", l) for z in walk(x))
            for y in [w.E.local(l)] if y[0] == "phi" for x in y[1])}
        self.idx = {}
        for l in self.multi:
            for i, d in enumerate(fl.defs()[l]):
                if d[0] == ():
                    self.idx.setdefault((d[3], l), []).append((i, d[2]))
        self.aliased = None
        self.parts = {l for l in fl.defs() if parts and fl.F.ts(fl.ltypes[l]) in parts}

    def relevant(self, f):
        return True if self.keep_fact is None else self.keep_fact(f)

    def pick(self, sel, b, l, pay):
        for i, p in self.idx.get((b, l), ()):
            if p is pay:
                return frozenset([x for x in sel if x[0] != l] + [(l, i)])
        return sel

    def field(self, sel, place, value):
        """One field of a local struct is written, or all of it."""
        l, pr = place[0], place[1]
        if l not in self.parts:
            return sel
        if pr == ():
            return frozenset(x for x in sel if not (isinstance(x[0], tuple) and x[0][1] == l))
        if len(pr) != 1 or pr[0][0] != "f":
            return sel
        k = ("part", l, pr[0][1])
        return frozenset([x for x in sel if x[0] != k] + [(k, value if sum(1 for _ in walk(value)) < 400 else ("loc", l))])

    def edge(self, st, b, o, v, other, vals):
        facts, (eff, sel) = st
        self.P.select(sel)
        E, self.w.E = self.w.E, self.P
        try:
            facts, _ = super().edge((facts, None), b, o, v, other, vals)
        finally:
            self.w.E = E
        for f in facts:
            if f[0] in ("Eq", "Ne", "Lt", "Le") and f[1][0] == f[2][0] == "k" and isinstance(f[1][1], int) and isinstance(f[2][1], int):
                x, y = f[1][1], f[2][1]
                if not {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y}[f[0]]:
                    return None
        return facts, (eff, sel)

    def stmt(self, st, b, s):
        facts, (eff, sel) = st
        if s[0] == "=":
            if any(el[0] in ("*", "i", "c") for el in s[1][1]):
                self.P.select(sel)
                p = canon(self.P.place(s[1]))
                v = canon(self.P.rvalue(s[2]))
                eff = eff | {("write", p, v)}
                if self.purge:
                    facts = frozenset(f for f in facts if not any(x == p for q in f[1:] if isinstance(q, tuple) for x in walk(q)))
            else:
                if s[1][0] in self.parts:
                    self.P.select(sel)
                    sel = self.field(sel, s[1], self.P.rvalue(s[2]) if s[1][1] else None)
                if s[1][1] == () and s[1][0] in self.multi:
                    sel = self.pick(sel, b, s[1][0], s[2])
        return facts, (eff, sel)

    def term(self, st, b, t, env):
        facts, (eff, sel) = st
        if t[0] == "call":
            n = self.want_call(t)
            if n:
                self.P.select(sel)
                eff = eff | {("call", n, tuple(canon(self.P.op(a)) for a in t[2]))}
            if t[3][0] in self.parts:
                self.P.select(sel)
                sel = self.field(sel, t[3], self.P.call(t, b) if t[3][1] else None)
            if t[3][1] == () and t[3][0] in self.multi:
                sel = self.pick(sel, b, t[3][0], t)
            elif any(el[0] == "*" for el in t[3][1]):
                self.P.select(sel)
                eff = eff | {("write", canon(self.P.place(t[3])), ("result", last(self.w.F, t[1]), tuple(canon(self.P.op(a)) for a in t[2])))}
        if t[0] == "ret":
            self.P.select(sel)
            v = canon(self.P.local(self.fl.retlocal))
            if any(x == ("never",) for x in walk(v)):
                return None  # an unwrap that panics
            r = self.at_ret(facts, eff, v, self.w.variant_of_return(env))
            if r:
                self.w.viol(r)
            return None
        return facts, (eff, sel)


INIT = (frozenset(), (frozenset(), frozenset()))


def summarise(ctx, fl, E, want_call, at_ret, **kw):
    w = Walker(fl, E)
    vs = w.run(Summary(w, fl, want_call, at_ret, **kw), INIT)
    ctx.states += w.nstates
    return vs
