"""Path-sensitive walk of a flattened graph against a monitor automaton.

The state is (block, known facts, monitor state): known facts are constants and enum variants of
places that feed a branch, so that a check made in a helper that returns Result/Option/bool is
correlated with the branch its caller takes on it. This is a conditional-constant dataflow analysis
(a finite product graph), not execution: values are only ever compile-time constants or variants.
"""
from collections import deque

BRANCH = "core::ops::try_trait::Try::branch"
FROM_RES = "core::ops::try_trait::FromResidual::from_residual"
VT = {  # method suffix -> variant tested
    "is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err",
}
COMPL = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok", "Continue": "Break", "Break": "Continue"}
TO_CF = {"Ok": "Continue", "Some": "Continue", "Err": "Break", "None": "Break", "Continue": "Continue", "Break": "Break"}
FROM_OUT = "core::ops::try_trait::Try::from_output"
VMAP = {  # variant-preserving combinators: suffix -> {in: out}
    "ok_or": {"Some": "Ok", "None": "Err"}, "ok_or_else": {"Some": "Ok", "None": "Err"},
    "map_err": {"Ok": "Ok", "Err": "Err"}, "ok": {"Ok": "Some", "Err": "None"},
    "err": {"Ok": "None", "Err": "Some"},
    "as_ref": {"Some": "Some", "None": "None", "Ok": "Ok", "Err": "Err"},
    "as_mut": {"Some": "Some", "None": "None", "Ok": "Ok", "Err": "Err"},
    "copied": {"Some": "Some", "None": "None"}, "cloned": {"Some": "Some", "None": "None"},
    "map": {"Some": "Some", "None": "None", "Ok": "Ok", "Err": "Err"},
}


class TooBig(Exception):
    pass


class Walker:
    def __init__(self, flat, exprs, max_states=400000, track_ret=True, keep=()):
        self.fl, self.E, self.F = flat, exprs, flat.F
        self.track_ret = track_ret
        self.keep = set(keep)  # locals whose facts never expire
        self.max = max_states
        self._prep()

    # ---- static preparation
    def _prep(self):
        fl = self.fl
        self.D = fl.defs()
        self.single = {l: ds[0] for l, ds in self.D.items() if len(ds) == 1 and ds[0][0] == () and not (1 <= l <= fl.nargs)}
        self.reach = fl.reachable()
        # interesting locals: feed a switch
        S, work = set(), []

        def add(p):
            p = self.rp(p)
            if p[0] not in S:
                S.add(p[0])
                work.append(p[0])

        for b in self.reach:
            t = fl.blocks[b].t
            if t[0] == "switch" and t[1][0] != "k":
                add(t[1][1])
        if self.track_ret:
            add((fl.retlocal, ()))
        while work:
            l = work.pop()
            for proj, kind, pay, b in self.D.get(l, []):
                if kind == "rv":
                    k = pay[0]
                    if k == "use" and pay[1][0] != "k":
                        add(pay[1][1])
                    elif k == "discr":
                        add(pay[1])
                    elif k in ("ref", "refmut", "rawptr"):
                        add(pay[1])
                    elif k == "un" and pay[2][0] != "k":
                        add(pay[2][1])
                    elif k == "bin" and self.discr_eq(pay):
                        for o in pay[2:4]:
                            if o[0] != "k":
                                add(o[1])
                    elif k == "agg":
                        for o in pay[2]:
                            if o[0] != "k":
                                add(o[1])
                else:
                    for a in pay[2]:
                        if a[0] != "k" and self._modelled(pay):
                            add(a[1])
        self.S = S
        # liveness of interesting locals: only uses that can end up in a branch keep a fact alive
        # (uses through single-definition references count); definitions kill, in program order
        gen, kill = {}, {}
        for b in self.reach:
            g, k = set(), set()
            blk = fl.blocks[b]
            t = blk.t
            if t[0] == "call" and t[3][1] == ():
                k.add(t[3][0])
            if t[0] == "switch" or (t[0] == "call" and self._modelled(t)):
                for p in term_places(t):
                    self._use(p, g)
            for s in reversed(blk.s):
                if s[0] != "=":
                    continue
                if s[1][1] == ():
                    g.discard(s[1][0])
                    k.add(s[1][0])
                if self.rp(s[1])[0] in S and (s[2][0] not in ("bin", "repeat") or self.discr_eq(s[2])):
                    for p in rv_places(s[2]):
                        self._use(p, g)
            gen[b], kill[b] = g, k
        live = {b: set(gen[b]) for b in self.reach}
        preds = {b: [] for b in self.reach}
        for b in self.reach:
            for s in fl.succ(b):
                preds[s].append(b)
        wl = deque(self.reach)
        inq = set(self.reach)
        while wl:
            b = wl.popleft()
            inq.discard(b)
            out = set()
            for s in fl.succ(b):
                out |= live[s]
            n = gen[b] | (out - kill[b])
            if n != live[b]:
                live[b] = n
                for p in preds[b]:
                    if p not in inq:
                        inq.add(p)
                        wl.append(p)
        # locals whose address is taken mutably are live everywhere once known (kept small by S)
        self.live = live
        self.retroot = fl.retlocal

    def _use(self, p, u, d=0):
        l = p[0]
        if l in u and d > 0:
            return
        u.add(l)
        for el in p[1]:
            if el[0] == "i":
                u.add(el[1])
        sd = self.single.get(l)
        if sd and d < 12:
            if sd[1] == "rv" and sd[2][0] in ("ref", "refmut", "rawptr"):
                self._use(sd[2][1], u, d + 1)
            elif sd[1] == "rv" and sd[2][0] in ("use", "cast"):
                o = sd[2][1] if sd[2][0] == "use" else sd[2][2]
                if o[0] != "k":
                    self._use(o[1], u, d + 1)

    def _modelled(self, t):
        d = t[6]
        p = self.F.insts[t[1]].get("p", "")
        last = p.split("::")[-1]
        return d in (BRANCH, FROM_RES, FROM_OUT) or (last == "break_value" and "control_flow" in p) or ((last in VT or last in VMAP) and ("option::Option" in p or "result::Result" in p))

    def is_discr(self, o):
        if o[0] == "k" or o[1][1] != ():
            return False
        sd = self.single.get(o[1][0])
        for _ in range(4):
            if sd and sd[1] == "rv" and sd[2][0] in ("use", "cast"):
                o = sd[2][1] if sd[2][0] == "use" else sd[2][2]
                sd = self.single.get(o[1][0]) if o[0] != "k" and o[1][1] == () else None
        return bool(sd) and sd[1] == "rv" and sd[2][0] == "discr"

    def discr_eq(self, r):
        """A comparison of discriminants."""
        return r[0] == "bin" and r[1] in ("Eq", "Ne") and (self.is_discr(r[2]) or self.is_discr(r[3])) and all(
            o[0] == "k" or self.is_discr(o) for o in r[2:4])

    def opval(self, env, o):
        if o[0] == "k":
            return o[1].get("i")
        return self.get(env, o[1])

    def rp(self, p):
        """Resolve dereferences of single-definition references; normalise the projection."""
        p = self._rp((p[0], norm(p[1])))
        return (p[0], norm(p[1]))

    def _rp(self, p, d=0):
        while d < 20:
            d += 1
            l, proj = p
            sd = self.single.get(l)
            if sd is None or sd[1] != "rv":
                return p
            r = sd[2]
            if proj and proj[0][0] == "*":
                if r[0] in ("ref", "refmut", "rawptr"):
                    p = (r[1][0], r[1][1] + proj[1:])
                    continue
                if r[0] == "use" and r[1][0] != "k":
                    p = (r[1][1][0], r[1][1][1] + proj)
                    continue
                if r[0] == "cast" and r[2][0] != "k":
                    p = (r[2][1][0], r[2][1][1] + proj)
                    continue
            return p
        return p

    # ---- facts: dict place -> value
    def get(self, env, p):
        return env.get(self.rp(p))

    def kill(self, env, p):
        l, proj = p
        n = len(proj)
        for k in [k for k in env if k[0] == l and (k[1][:n] == proj or proj[:len(k[1])] == k[1])]:
            del env[k]

    def setk(self, env, p, v):
        if p[0] in self.S:
            env[p] = v

    def assign(self, env, p, r):
        p = self.rp(p)
        new = {}
        k = r[0]
        if k == "use":
            o = r[1]
            if o[0] == "k":
                c = o[1]
                if "i" in c:
                    new[p] = c["i"]
                elif "ev" in c:
                    isref = self.F.types[c["t"]]["k"] == "ref"
                    new[(p[0], p[1] + ((("*",),) if isref else ()))] = "V:" + c["ev"]
                elif "s" in c and isinstance(c["s"], str):
                    # constant enum values print as `...::Variant` / `Variant(..)`
                    s = c["s"].split("(")[0].split("{")[0].strip()
                    v = s.split("::")[-1]
                    ty = self.F.types[c["t"]]
                    if ty["k"] == "adt" and v in COMPL:
                        new[p] = "V:" + v
            else:
                q = self.rp(o[1])
                nq = len(q[1])
                for kk, vv in env.items():
                    if kk[0] == q[0] and kk[1][:nq] == q[1]:
                        new[(p[0], p[1] + kk[1][nq:])] = vv
        elif k == "agg":
            kk = r[1]
            if kk[0] == "adt":
                new[p] = "V:" + kk[2]
                names = kk[3]
            else:
                names = [str(i) for i in range(len(r[2]))]
            for nme, o in zip(names, r[2]):
                base = p[1] + (("f", nme),)
                if o[0] == "k":
                    if "i" in o[1]:
                        new[(p[0], base)] = o[1]["i"]
                else:
                    q = self.rp(o[1])
                    nq = len(q[1])
                    for k2, v2 in env.items():
                        if k2[0] == q[0] and k2[1][:nq] == q[1]:
                            new[(p[0], base + k2[1][nq:])] = v2
        elif k == "discr":
            v = env.get(self.rp(r[1]))
            if v is not None and isinstance(v, str):
                for d, n in r[2] or []:
                    if "V:" + n == v:
                        new[p] = d
        elif k == "bin" and self.discr_eq(r):
            a, b = self.opval(env, r[2]), self.opval(env, r[3])
            if isinstance(a, int) and isinstance(b, int):
                new[p] = int((a == b) == (r[1] == "Eq"))
        elif k == "un" and r[1] == "Not" and r[2][0] != "k":
            v = env.get(self.rp(r[2][1]))
            if v in (0, 1) and not isinstance(v, str):
                new[p] = 1 - v
        self.kill(env, p)
        for kk, vv in new.items():
            if kk[0] in self.S:
                env[kk] = vv

    def refine(self, env, p, v, d=0):
        """Place p is known to be v. Returns False when contradictory."""
        p = self.rp(p)
        old = env.get(p)
        if old is not None and old != v:
            return False
        if p[0] in self.S:
            env[p] = v
        if d > 12:
            return True
        if p[1] == ():
            sd = self.single.get(p[0])
            if sd:
                if sd[1] == "rv":
                    r = sd[2]
                    if r[0] == "use" and r[1][0] != "k":
                        return self.refine(env, r[1][1], v, d + 1)
                    if r[0] == "un" and r[1] == "Not" and r[2][0] != "k" and v in (0, 1) and not isinstance(v, str):
                        return self.refine(env, r[2][1], 1 - v, d + 1)
                    if r[0] == "bin" and v in (0, 1) and not isinstance(v, str) and self.discr_eq(r):
                        eq = bool(v) == (r[1] == "Eq")
                        for x, y in ((r[2], r[3]), (r[3], r[2])):
                            kv = self.opval(env, y)
                            if kv is None or x[0] == "k":
                                continue
                            if eq:
                                if not self.refine(env, x[1], kv, d + 1):
                                    return False
                            else:
                                tab = self._discr_table(x)
                                rest = [dv for dv, _ in tab if dv != kv] if tab else []
                                if len(rest) == 1 and not self.refine(env, x[1], rest[0], d + 1):
                                    return False
                    if r[0] == "discr":
                        if isinstance(v, int):
                            for dv, n in r[2] or []:
                                if dv == v:
                                    return self.refine(env, r[1], "V:" + n, d + 1)
                elif sd[1] == "call":
                    return self.refine_call(env, sd[2], v, d)
        return True

    def refine_call(self, env, t, v, d):
        dcl = t[6]
        p = self.F.insts[t[1]].get("p", "")
        last = p.split("::")[-1]
        if dcl == BRANCH and t[2] and t[2][0][0] != "k" and isinstance(v, str):
            src = t[2][0]
            ty = self.F.types[src[2]]
            isopt = ty.get("p", "").endswith("Option")
            w = {"V:Continue": "Some" if isopt else "Ok", "V:Break": "None" if isopt else "Err"}.get(v)
            if ty.get("p", "").endswith("ControlFlow"):
                w = v[2:]
            if w:
                return self.refine(env, src[1], "V:" + w, d + 1)
        if last == "break_value" and "control_flow" in p and isinstance(v, str) and t[2] and t[2][0][0] != "k":
            w = {"V:Some": "Break", "V:None": "Continue"}.get(v)
            if w:
                return self.refine(env, t[2][0][1], "V:" + w, d + 1)
        if ("option::Option" in p or "result::Result" in p) and t[2] and t[2][0][0] != "k":
            src = t[2][0][1]
            if last in VT and v in (0, 1) and not isinstance(v, str):
                w = VT[last] if v else COMPL[VT[last]]
                return self.refine(env, (src[0], src[1] + (("*",),)), "V:" + w, d + 1)
            if last in VMAP and isinstance(v, str):
                ty = self.F.types[t[2][0][2]]
                peeled = ty
                isref = peeled["k"] in ("ref", "refmut")
                for i, o in VMAP[last].items():
                    if "V:" + o == v and (("Option" in p) == (i in ("Some", "None"))):
                        tgt = (src[0], src[1] + (("*",),)) if isref else src
                        return self.refine(env, tgt, "V:" + i, d + 1)
        return True

    def do_call(self, env, t):
        dest = self.rp(t[3])
        newv = None
        dcl = t[6]
        x = self.F.insts[t[1]]
        p = x.get("p", "")
        last = p.split("::")[-1]
        payload = {}
        if x["k"] == "ctor":
            newv = "V:" + last
        elif dcl == BRANCH and t[2] and t[2][0][0] != "k":
            v = self.get(env, t[2][0][1])
            if isinstance(v, str):
                newv = "V:" + TO_CF.get(v[2:], "?")
        elif dcl == FROM_RES:
            ty = self.F.types[self.fl.ltypes[t[3][0]]] if t[3][1] == () else None
            if ty and ty["k"] == "adt":
                newv = "V:None" if ty["p"].endswith("Option") else "V:Err" if ty["p"].endswith("Result") else "V:Break" if ty["p"].endswith("ControlFlow") else None
        elif dcl == FROM_OUT:
            ty = self.F.types[self.fl.ltypes[t[3][0]]] if t[3][1] == () else None
            if ty and ty["k"] == "adt":
                newv = "V:Some" if ty["p"].endswith("Option") else "V:Ok" if ty["p"].endswith("Result") else "V:Continue" if ty["p"].endswith("ControlFlow") else None
        elif last == "break_value" and "control_flow" in p and t[2] and t[2][0][0] != "k":
            v = self.get(env, t[2][0][1])
            newv = {"V:Break": "V:Some", "V:Continue": "V:None"}.get(v)
        elif ("option::Option" in p or "result::Result" in p) and t[2] and t[2][0][0] != "k":
            src = t[2][0][1]
            if last in VT:
                v = self.get(env, (src[0], src[1] + (("*",),)))
                if isinstance(v, str):
                    newv = 1 if v == "V:" + VT[last] else 0
            elif last in VMAP:
                isref = self.F.types[t[2][0][2]]["k"] in ("ref", "refmut")
                v = self.get(env, (src[0], src[1] + (("*",),)) if isref else src)
                if isinstance(v, str) and v[2:] in VMAP[last]:
                    newv = "V:" + VMAP[last][v[2:]]
        # mutable references passed away: forget what they point to
        for a in t[2]:
            if a[0] != "k" and self.F.types[a[2]]["k"] in ("refmut", "ptrmut"):
                self.kill(env, self.rp((a[1][0], a[1][1] + (("*",),))))
        self.kill(env, dest)
        if newv is not None and newv != "V:?" and dest[0] in self.S:
            env[dest] = newv

    # ---- the walk
    def run(self, mon, init, stop_first=False, max_viol=20):
        """mon has methods stmt(st, b, stmt), term(st, b, t, env), edge(st, b, cond operand, value,
        isotherwise, others); each returns a new state, or None to cut the path; violations are
        reported through self.viol(msg)."""
        fl = self.fl
        start = (fl.entry, frozenset(), init)
        parent = {start: None}
        q = deque([start])
        self.violations = []
        self.cur = None
        nstates = 0
        while q:
            cur = q.popleft()
            nstates += 1
            if nstates > self.max:
                raise TooBig(f"{self.F.name(fl.root)}: more than {self.max} states")
            b, envf, st = cur
            self.cur, self.parent = cur, parent
            env = dict(envf)
            self.env = env
            blk = fl.blocks[b]
            dead = False
            for s in blk.s:
                st = mon.stmt(st, b, s)
                if st is None:
                    dead = True
                    break
                if s[0] == "=":
                    self.assign(env, s[1], s[2])
                elif s[0] == "disc":
                    self.kill(env, self.rp(s[1]))
            if dead:
                continue
            t = blk.t
            st = mon.term(st, b, t, env)
            if st is None:
                continue
            k = t[0]
            outs = []
            if k == "switch":
                o = t[1]
                if o[0] == "k":
                    v = o[1].get("i")
                    tg = next((x for vv, x in t[2] if vv == v), t[3])
                    outs.append((tg, env, st))
                    if "t" in o[1] and self.F.types[o[1]["t"]]["k"] == "bool":
                        # cfg!(..), as in debug_assert!: other builds take the other way
                        outs += [(x, env, st) for x in {x for _, x in t[2]} | {t[3]} if x != tg and x is not None]
                else:
                    v = self.get(env, o[1])
                    if isinstance(v, int):
                        tg = next((x for vv, x in t[2] if vv == v), t[3])
                        st2 = mon.edge(st, b, o, v, v not in [x for x, _ in t[2]], [x for x, _ in t[2]])
                        if st2 is not None:
                            outs.append((tg, env, st2))
                        if any(s[0] == "=" and s[1] == o[1] and s[2][0] == "use" and s[2][1][0] == "k" for s in blk.s):
                            # cfg!(..), as in debug_assert!: other builds take the other way
                            outs += [(x, env, st) for x in {x for _, x in t[2]} | {t[3]} if x != tg and x is not None]
                    else:
                        isbool = self.F.types[o[2]]["k"] == "bool"
                        vals = [x for x, _ in t[2]]
                        tab = self._discr_table(o)
                        # the variants excluded by earlier refinement are not tracked; only equalities
                        for vv, tg in t[2]:
                            e2 = dict(env)
                            if not self.refine(e2, o[1], vv):
                                continue
                            st2 = mon.edge(st, b, o, vv, False, vals)
                            if st2 is not None:
                                outs.append((tg, e2, st2))
                        e2 = dict(env)
                        rest = None
                        if isbool and vals == [0]:
                            rest = 1
                        elif tab is not None:
                            rem = [d for d, _ in tab if d not in vals]
                            if len(rem) == 1:
                                rest = rem[0]
                            elif not rem:
                                rest = "none"
                        if fl.blocks[t[3]].t[0] == "unreach" and not fl.blocks[t[3]].s:
                            rest = "none"
                        if rest != "none":
                            ok = True
                            if rest is not None:
                                ok = self.refine(e2, o[1], rest)
                            if ok:
                                st2 = mon.edge(st, b, o, rest, rest is None, vals)
                                if st2 is not None:
                                    outs.append((t[3], e2, st2))
            elif k == "call":
                self.do_call(env, t)
                if t[4] is not None:
                    outs.append((t[4], env, st))
            elif k == "assert":
                outs.append((t[3], env, st))
            else:
                for s in fl.succ(b):
                    outs.append((s, env, st))
            for tg, e2, st2 in outs:
                lv = self.live[tg]
                ef = frozenset((kk, vv) for kk, vv in e2.items() if kk[0] in lv or kk[0] == self.retroot or kk[0] in self.keep)
                nx = (tg, ef, st2)
                if nx not in parent:
                    parent[nx] = cur
                    q.append(nx)
            if self.violations and (stop_first or len(self.violations) >= max_viol):
                break
        self.nstates = nstates
        return self.violations

    def _discr_table(self, o):
        sd = self.single.get(o[1][0]) if o[1][1] == () else None
        if sd and sd[1] == "rv" and sd[2][0] == "discr":
            return sd[2][2]
        return None

    def variant_of_return(self, env):
        v = env.get((self.fl.retlocal, ()))
        return v[2:] if isinstance(v, str) else v

    def viol(self, msg):
        # path of blocks with branch decisions
        path = []
        c = self.cur
        while c is not None:
            path.append(c[0])
            c = self.parent[c]
        self.violations.append((msg, list(reversed(path))))


class Monitor:
    def __init__(self, w):
        self.w = w

    def stmt(self, st, b, s):
        return st

    def term(self, st, b, t, env):
        return st

    def edge(self, st, b, o, v, other, vals):
        return st


def norm(proj):
    """Facts under enum payloads are keyed without the downcast, field owner dropped."""
    return tuple(("f", e[1]) if e[0] == "f" else e for e in proj if e[0] != "v")


def rv_places(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [r[1][1]] if r[1][0] != "k" else []
    if k in ("ref", "refmut", "rawptr", "discr"):
        return [r[1]]
    if k == "cast":
        return [r[2][1]] if r[2][0] != "k" else []
    if k == "bin":
        return [o[1] for o in (r[2], r[3]) if o[0] != "k"]
    if k == "un":
        return [r[2][1]] if r[2][0] != "k" else []
    if k == "agg":
        return [o[1] for o in r[2] if o[0] != "k"]
    return []


def term_places(t):
    k = t[0]
    if k == "switch":
        return [t[1][1]] if t[1][0] != "k" else []
    if k == "drop":
        return [t[1]]
    if k == "call":
        r = [a[1] for a in t[2] if a[0] != "k"]
        if t[7] is not None and t[7][0] != "k":
            r.append(t[7][1])
        return r
    if k == "assert":
        return [t[1][1]] if t[1][0] != "k" else []
    return []
