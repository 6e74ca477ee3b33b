"""Times (seconds and beats): whole part and tesimals compute exactly like the total number of tesimals.

Abstract interpretation of the flattened MIR over polynomials: every integer is a polynomial with floor-division atoms in a normal
form, branches add linear constraints over its monomials, and infeasible ones are cut by the polyhedral domain of engine/linear.py.
"""
import re
from math import gcd
from graph import *
from linear import Lin, infeasible

M = "knaster_primitives::time::"
U32 = (1 << 32) - 1


class Odd(Exception):
    pass


# ---------------------------------------------------------------- polynomials
def padd(a, b, k=1):
    m = dict(a)
    for x, v in b.items():
        m[x] = m.get(x, 0) + k * v
        if not m[x]:
            del m[x]
    return m


def pmul(a, b):
    r = {}
    for x, v in a.items():
        for y, w in b.items():
            k = tuple(sorted(x + y, key=repr))
            r[k] = r.get(k, 0) + v * w
    return {k: v for k, v in r.items() if v}


def pk(c):
    return {(): c} if c else {}


def key(p):
    return tuple(sorted(p.items(), key=repr))


def tight(p):
    """A constraint p <= 0 over the integers, divided by what its coefficients share."""
    g = 0
    for m, v in p.items():
        if m:
            g = gcd(g, abs(v))
    if g < 2:
        return p
    r = {m: v // g for m, v in p.items() if m}
    c = -((-p.get((), 0)) // g)
    return padd(r, pk(c))


class World:
    """Atoms with their ranges, and what is known of the floor divisions among them."""

    def __init__(self):
        self.rng = {}
        self.defs = []   # constraints (poly <= 0) that define division atoms
        self.div_by = []  # polynomials divided by that are not constants
        self.memo = {}

    def atom(self, name, lo, hi):
        self.rng[name] = (lo, hi)
        return {(name,): 1}

    def div(self, p, d):
        if set(d) <= {()}:
            k = d.get((), 0)
            if k <= 0:
                raise Odd("a division by nothing")
            q = {m: v // k if v >= 0 else -(-v // k) for m, v in p.items() if abs(v) >= k}
            r = padd(p, pmul(pk(k), q), -1)
            if not r:
                return q
            a = ("div", key(r), k)
            if a not in self.rng:
                self.rng[a] = (0 if min(r.values()) >= 0 else None, None)
                A = {(a,): 1}
                self.defs += [padd(pmul(pk(k), A), r, -1), padd(padd(r, pmul(pk(k), A), -1), pk(k - 1), -1)]
            return padd(q, {(a,): 1})
        if len(d) != 1 or list(d.values()) != [1] or len(list(d)[0]) != 1:
            raise Odd("a division by a sum")
        x = list(d)[0][0]
        q, r = {}, {}
        for m, v in p.items():
            if x in m:
                i = m.index(x)
                q[m[:i] + m[i + 1:]] = v
            else:
                r[m] = v
        if not r:
            return q
        a = ("div", key(r), x)
        if a not in self.rng:
            self.rng[a] = (0 if min(r.values()) >= 0 else None, None)
            A = pmul({(a,): 1}, d)
            self.defs += [padd(A, r, -1), padd(padd(padd(r, A, -1), d, -1), pk(1))]
        if d not in self.div_by:
            self.div_by.append(d)
        return padd(q, {(a,): 1})

    def lin(self, p):
        return Lin({("at", m): v for m, v in p.items() if m}, p.get((), 0))

    def contradiction(self, facts):
        kk = frozenset(key(f) for f in facts), len(self.defs)
        if kk in self.memo:
            return self.memo[kk]
        fs = list(facts) + self.defs
        fs += [pmul(f, d) for f in facts for d in self.div_by if all(len(m) < 2 for m in f)]
        out = list(fs)
        monos = {m for f in fs for m in f if m}
        for m in list(monos):
            if len(m) == 2:
                monos |= {(m[0],), (m[1],)}
        for m in monos:
            if len(m) == 1:
                lo, hi = self.rng[m[0]]
                if lo is not None:
                    out.append(padd(pk(lo), {m: 1}, -1))
                if hi is not None:
                    out.append(padd({m: 1}, pk(hi), -1))
            elif len(m) == 2:
                for x, y in (m, m[::-1]):
                    lo, hi = self.rng[x]
                    if lo is None or self.rng[y][0] is None:
                        break
                    out.append(padd(pmul(pk(lo), {(y,): 1}), {m: 1}, -1))
                    if hi is not None:
                        out.append(padd({m: 1}, pmul(pk(hi), {(y,): 1}), -1))
            elif all(self.rng[x][0] is not None for x in m):
                out.append({m: -1})
        r = infeasible([self.lin(tight(f)) for f in out], 3000)
        self.memo[kk] = r
        return r

    def entails(self, facts, goal):
        """facts entail goal <= 0"""
        if not set(goal) - {()}:
            return goal.get((), 0) <= 0
        neg = padd(pk(1), goal, -1)
        if self.contradiction(list(facts) + [neg]):
            return True
        # integers: a positive d with d * goal < d gives goal <= 0
        return any(self.contradiction(list(facts) + [pmul(neg, d)]) for d in self.div_by)


# ---------------------------------------------------------------- values
def num(p):
    return ("n", p)


def boolean(b):
    return ("b", bool(b))


def adt(name, var, **fs):
    return ("adt", name, var, {k.strip("_"): v for k, v in fs.items()})


ORD = {-1: "Less", 0: "Equal", 1: "Greater"}
TOP = ("?",)
RANGE = {**{f"u{w}": (0, (1 << w) - 1) for w in (8, 16, 32, 64, 128)}, **{f"i{w}": (-(1 << w - 1), (1 << w - 1) - 1) for w in (8, 16, 32, 64, 128)},
         "usize": (0, (1 << 64) - 1), "isize": (-(1 << 63), (1 << 63) - 1)}


class Run:
    """All ways through a function, from abstract arguments to abstract results."""

    def __init__(self, F, W, inst, args, facts, kinds=()):
        self.F, self.W, self.kinds = F, W, kinds
        self.fl = Flat(F, inst, policy)
        self.results = []   # (facts, value, env)
        self.faults = []    # (key, msg, path)
        self.steps = 0
        self.go(inst, args, list(facts))

    # -- places
    def get(self, env, pl):
        v = env.get(pl[0], TOP)
        for el in pl[1]:
            v = self.step(env, v, el)
        return v

    def step(self, env, v, el):
        if el[0] == "*":
            if v[0] == "ref":
                return self.get(env, v[1])
            if v[0] == "refv":
                return v[1]
            return TOP
        if el[0] == "f":
            if v[0] == "adt" and el[1] in v[3]:
                return v[3][el[1]]
            return TOP
        if el[0] == "v":
            return v if v[0] == "adt" and v[2] == el[1] else TOP
        return TOP

    def resolve(self, env, pl):
        """The place with its dereferences followed."""
        loc_, path = pl[0], []
        for el in pl[1]:
            if el[0] == "*":
                v = self.get(env, (loc_, tuple(path)))
                if v[0] != "ref":
                    return None
                loc_, path = v[1][0], list(v[1][1])
            else:
                path.append(el)
        return loc_, tuple(path)

    def put(self, env, pl, v):
        pl = self.resolve(env, pl)
        if pl is None:
            raise Odd("a store through a pointer that cannot be followed")

        def at(old, path):
            if not path:
                return v
            el = path[0]
            if el[0] == "v":
                return at(old, path[1:])
            if el[0] != "f":
                raise Odd("a store to an element")
            o = old if old[0] == "adt" else ("adt", None, None, {})
            fs = dict(o[3])
            fs[el[1]] = at(fs.get(el[1], TOP), path[1:])
            return ("adt", o[1], o[2], fs)
        env[pl[0]] = at(env.get(pl[0], TOP), pl[1])

    def op(self, env, o):
        if o[0] == "k":
            d = o[1]
            ty = self.F.ts(d["t"])
            if "i" in d and ty == "bool":
                return boolean(d["i"])
            if "i" in d and ty in RANGE:
                return num(pk(d["i"]))
            if ty == "()":
                return ("adt", None, None, {})
            m = re.search(r"(Seconds|Beats) *\{+ *(.*?) *\}", str(d.get("s", "")))
            if m:
                fs = {a: num(pk(int(b))) for a, b in re.findall(r"(\w+): (\d+)_u32", m.group(2))}
                v = ("adt", M + m.group(1), m.group(1), fs)
                return ("refv", v) if str(ty).startswith("&") else v
            if d.get("ev") in ORD.values() and ty.endswith("cmp::Ordering"):
                v = ("adt", "core::cmp::Ordering", d["ev"], {})
                return ("refv", v) if ty.startswith("&") else v
            m = re.search(r"Ordering::(Less|Equal|Greater)\b", str(d.get("s", "")))
            if m:
                return ("adt", "core::cmp::Ordering", m.group(1), {})
            return TOP
        return self.get(env, o[1])

    # -- arithmetic
    def within(self, facts, p, ty):
        lo, hi = RANGE[ty]
        return self.W.entails(facts, padd(pk(lo), p, -1)) and self.W.entails(facts, padd(p, pk(hi), -1))

    def branch(self, facts, rel, a, b):
        """[(truth, facts)] of a comparison"""
        d = padd(a, b, -1)
        lt, gt, eq = padd(d, pk(1)), padd(pk(1), d, -1), (d, padd({}, d, -1))
        ways = {"Lt": [(True, [lt]), (False, [eq[1]])], "Le": [(True, [eq[0]]), (False, [gt])], "Gt": [(True, [gt]), (False, [eq[0]])],
                "Ge": [(True, [eq[1]]), (False, [lt])], "Eq": [(True, list(eq)), (False, [lt]), (False, [gt])],
                "Ne": [(False, list(eq)), (True, [lt]), (True, [gt])],
                "Cmp": [(-1, [lt]), (0, list(eq)), (1, [gt])]}[rel]
        return [(t, facts + c) for t, c in ways if not self.W.contradiction(facts + c)]

    def bin(self, env, facts, o, a, b, ty):
        """[(value, facts)]"""
        checked = o.endswith("WithOverflow")
        base = o.replace("WithOverflow", "").replace("Unchecked", "")
        wrap = (lambda v: adt(None, None, _0=v, _1=boolean(False))) if checked else lambda v: v
        if a[0] == "b" and b[0] == "b":
            r = {"BitAnd": a[1] and b[1], "BitOr": a[1] or b[1], "BitXor": a[1] != b[1], "Eq": a[1] == b[1], "Ne": a[1] != b[1]}.get(base)
            return [(TOP if r is None else boolean(r), facts)]
        if a[0] != "n" or b[0] != "n":
            return [(wrap(TOP), facts)]
        a, b = a[1], b[1]
        if base in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return [(boolean(t), f) for t, f in self.branch(facts, base, a, b)]
        if base == "Cmp":
            return [(("adt", "core::cmp::Ordering", ORD[t], {}), f) for t, f in self.branch(facts, base, a, b)]
        k = b.get((), 0) if set(b) <= {()} else None
        if base == "Shl" and k is not None:
            base, b = "Mul", pk(1 << k)
        if base == "Shr" and k is not None:
            base, b = "Div", pk(1 << k)
        if base in ("Add", "Sub", "Mul"):
            p = padd(a, b) if base == "Add" else padd(a, b, -1) if base == "Sub" else pmul(a, b)
            if ty not in RANGE:
                return [(wrap(TOP), facts)]
            if not self.within(facts, p, ty):
                raise Odd(f"an intermediate result need not fit {ty}")
            return [(wrap(num(p)), facts)]
        if base in ("Div", "Rem"):
            if not self.W.entails(facts, padd(pk(1), b, -1)):
                raise Odd("a division by what may be nothing")
            if not self.W.entails(facts, padd({}, a, -1)):
                return [(TOP, facts)]
            q = self.W.div(a, b)
            if self.W.entails(facts, q) and q:
                q = {}
            return [(num(q if base == "Div" else padd(a, pmul(b, q), -1)), facts)]
        return [(TOP, facts)]

    def ty_of(self, o):
        return self.F.ts(o[1]["t"]) if o[0] == "k" else self.F.ts(o[2])

    def rvalue(self, env, facts, r, dest):
        k = r[0]
        if k == "use":
            return [(self.op(env, r[1]), facts)]
        if k in ("ref", "refmut", "rawptr"):
            pl = self.resolve(env, r[1])
            if pl is None:
                v = self.get(env, r[1])
                return [(("refv", v), facts)]
            return [(("ref", pl), facts)]
        if k == "cast":
            v = self.op(env, r[2])
            if r[1] == "IntToInt":
                ty = self.F.ts(r[3])
                if v[0] == "b":
                    return [(num(pk(int(v[1]))), facts)]
                if v[0] == "n" and ty in RANGE:
                    if not self.within(facts, v[1], ty):
                        raise Odd(f"a value is cut off to {ty}")
                    return [(v, facts)]
                if v[0] == "adt" and v[1] == "core::cmp::Ordering":
                    return [(num(pk({"Less": -1, "Equal": 0, "Greater": 1}[v[2]])), facts)]
                return [(TOP, facts)]
            return [(v if "Pointer" in r[1] or "Ptr" in r[1] else TOP, facts)]
        if k == "bin":
            return self.bin(env, facts, r[1], self.op(env, r[2]), self.op(env, r[3]), self.ty_of(r[2]))
        if k == "un":
            v = self.op(env, r[2])
            if r[1] == "Not" and v[0] == "b":
                return [(boolean(not v[1]), facts)]
            if r[1] == "Neg" and v[0] == "n":
                return [(num(padd({}, v[1], -1)), facts)]
            return [(TOP, facts)]
        if k == "discr":
            v = self.get(env, r[1])
            if v[0] == "adt" and v[2] is not None:
                for val, name in r[2]:
                    if name == v[2]:
                        return [(num(pk(val)), facts)]
            return [(TOP, facts)]
        if k == "agg":
            kk = r[1]
            vs = [self.op(env, o) for o in r[2]]
            if kk[0] == "adt":
                return [(("adt", kk[1], kk[2], dict(zip(kk[3], vs))), facts)]
            if kk[0] == "array":
                return [(TOP, facts)]
            return [(("adt", None, None, {str(i): v for i, v in enumerate(vs)}), facts)]
        return [(TOP, facts)]

    def total(self, v):
        for K in self.kinds:
            w = K.val(v)
            if w is not None:
                return K.name, w[0]
        return None

    def each(self, facts, xs, ys):
        """Lexicographic comparison"""
        if not xs:
            return [(("adt", "core::cmp::Ordering", "Equal", {}), facts)]
        if xs[0][0] != "n" or ys[0][0] != "n":
            return [(TOP, facts)]
        out = []
        for t, f in self.branch(facts, "Cmp", xs[0][1], ys[0][1]):
            out += [(("adt", "core::cmp::Ordering", ORD[t], {}), f)] if t else self.each(f, xs[1:], ys[1:])
        return out

    # -- calls that are not inlined
    def call(self, env, facts, p, args, argtys, decl):
        n = p.split("::")[-1]
        some = lambda v: ("adt", "core::option::Option", "Some", {"0": v})
        none = ("adt", "core::option::Option", "None", {})
        de = list(args)
        for _ in range(3):
            de = [a[1] if a[0] == "refv" else self.get(env, a[1]) if a[0] == "ref" else a for a in de]
        whole = [self.total(v) for v in de] if len(de) == 2 else []
        if len(whole) == 2 and None not in whole and whole[0][0] == whole[1][0] and n in ("lt", "le", "gt", "ge", "eq", "ne", "cmp", "partial_cmp", "max", "min"):
            # times compare as their totals do: decided for `cmp`, `partial_cmp` and `eq` themselves
            keep, de = de, [num(w[1]) for w in whole]
            if n in ("max", "min"):
                return [(keep[(0 if t else 1) if n == "min" else (1 if t else 0)], f) for t, f in self.branch(facts, "Le", de[0][1], de[1][1])]
        opt = de[0] if de and de[0][0] == "adt" and de[0][2] in ("Some", "None", "Ok", "Err") else None
        if opt and ("option::Option" in p or "result::Result" in p):
            has = opt[2] in ("Some", "Ok")
            if n in ("unwrap_or", "unwrap", "expect", "unwrap_unchecked"):
                if has:
                    return [(opt[3]["0"], facts)]
                if n == "unwrap_or":
                    return [(args[1], facts)]
                if n != "unwrap_unchecked":
                    self.faults.append(("panics", "a computation on ordinary times panics", ()))
                return []
            if n in ("is_some", "is_none", "is_ok", "is_err"):
                return [(boolean(has == (n in ("is_some", "is_ok"))), facts)]
            if n == "unwrap_or_default" and has:
                return [(opt[3]["0"], facts)]
            if n == "ok":
                return [(some(opt[3]["0"]) if has else none, facts)]
            if n == "ok_or":
                return [(("adt", "core::result::Result", "Ok", opt[3]) if has else ("adt", "core::result::Result", "Err", {"0": args[1]}), facts)]
        o = de[0] if de and de[0][0] == "adt" and de[0][2] in ORD.values() else None
        if o:
            i = {"Less": -1, "Equal": 0, "Greater": 1}[o[2]]
            tests = {"is_lt": i < 0, "is_le": i <= 0, "is_gt": i > 0, "is_ge": i >= 0, "is_eq": i == 0, "is_ne": i != 0}
            if n in tests:
                return [(boolean(tests[n]), facts)]
            if n == "reverse":
                return [(("adt", o[1], ORD[-i], {}), facts)]
            if n == "then":
                return [(o if i else de[1], facts)]
            if n in ("eq", "ne") and len(de) == 2 and de[1][0] == "adt" and de[1][2] in ORD.values():
                return [(boolean((o[2] == de[1][2]) == (n == "eq")), facts)]
        if opt and n in ("eq", "ne") and len(de) == 2 and de[1][0] == "adt" and de[1][2] in ("Some", "None"):
            x, y = ((v[2], v[3]["0"][2] if v[2] == "Some" and v[3]["0"][0] == "adt" else None) for v in (opt, de[1]))
            if x[0] == "None" or y[0] == "None" or x[1] in ORD.values() and y[1] in ORD.values():
                return [(boolean((x == y) == (n == "eq")), facts)]
        ints = len(de) == 2 and all(v[0] == "n" for v in de)
        if ints and n in ("lt", "le", "gt", "ge", "eq", "ne"):
            return self.bin(env, facts, n.capitalize(), de[0], de[1], "u64")
        if ints and n in ("cmp", "partial_cmp", "three_way_compare"):
            return [(some(v) if n == "partial_cmp" else v, f) for v, f in self.bin(env, facts, "Cmp", de[0], de[1], "u64")]
        if ints and n in ("max", "min"):
            return [(de[(0 if t else 1) if n == "min" else (1 if t else 0)], f) for t, f in self.branch(facts, "Le", de[0][1], de[1][1])]
        ty = argtys[0].lstrip("&") if argtys else ""
        if ints and ty in RANGE and "num" in p:
            a, b = de[0][1], de[1][1]
            m = re.fullmatch(r"(checked|saturating|wrapping|overflowing|strict|unchecked)_(add|sub|mul|div|rem)", n)
            if m and m.group(2) in ("div", "rem"):
                return [(some(v) if m.group(1) == "checked" else v, f) for v, f in self.bin(env, facts, m.group(2).capitalize(), de[0], de[1], ty)]
            if n in ("div_euclid", "rem_euclid"):
                return self.bin(env, facts, n[:3].capitalize(), de[0], de[1], ty)
            if n == "abs_diff":
                return [(num(padd(a, b, -1) if t else padd(b, a, -1)), f) for t, f in self.branch(facts, "Ge", a, b)]
            if m:
                p_ = padd(a, b) if m.group(2) == "add" else padd(a, b, -1) if m.group(2) == "sub" else pmul(a, b)
                lo, hi = RANGE[ty]
                out = []
                w = m.group(1)
                for under, f in self.branch(facts, "Lt", p_, pk(lo)):
                    if under:
                        q = padd(p_, pk(hi - lo + 1))
                        out += [({"checked": none, "saturating": num(pk(lo)), "wrapping": num(q),
                                  "overflowing": adt(None, None, _0=num(q), _1=boolean(True))}.get(w, TOP), f)]
                        continue
                    for over, g in self.branch(f, "Gt", p_, pk(hi)):
                        if over:
                            q = padd(p_, pk(hi - lo + 1), -1) if m.group(2) != "mul" else None
                            x = TOP if q is None else num(q)
                            out += [({"checked": none, "saturating": num(pk(hi)), "wrapping": x,
                                      "overflowing": adt(None, None, _0=x, _1=boolean(True))}.get(w, TOP), g)]
                        else:
                            v = num(p_)
                            out += [({"checked": some(v), "overflowing": adt(None, None, _0=v, _1=boolean(False))}.get(w, v), g)]
                return out
        if n in ("cmp", "partial_cmp") and len(de) == 2 and all(v[0] == "adt" and v[1] is None for v in de) and set(de[0][3]) == set(de[1][3]):
            return [(some(v) if n == "partial_cmp" else v, f) for v, f in self.each(facts, *[[v[3][k] for k in sorted(v[3])] for v in de])]
        if n == "branch" and opt:
            flow = lambda var, v: ("adt", "core::ops::control_flow::ControlFlow", var, {"0": v})
            return [(flow("Continue", opt[3]["0"]) if opt[2] in ("Some", "Ok") else flow("Break", opt), facts)]
        if n == "from_residual" and opt and opt[2] == "None":
            return [(opt, facts)]
        if n in ("from", "into") and len(de) == 1 and de[0][0] == "n":
            return [(de[0], facts)]
        if n in ("clone", "to_owned") and args:
            return [(de[0], facts)]
        if n in ("try_from", "try_into") and len(de) == 1 and de[0][0] == "n":
            return None
        return [(TOP, facts)]

    def go(self, inst, args, facts):
        fl = self.fl
        env = {}
        for i, (v, through) in enumerate(args):
            if through:
                env[("arg", i)] = v
                env[i + 1] = ("ref", (("arg", i), ()))
            else:
                env[i + 1] = v
        work = [(fl.entry, env, facts, ())]
        while work:
            b, env, facts, path = work.pop()
            self.steps += 1
            if self.steps > 6000 or path.count(b) > 12:
                self.faults.append(("ends", "it cannot be told that the computation ends", path))
                return
            path = path + (b,)
            try:
                self.block(b, env, facts, path, work)
            except Odd as e:
                self.faults.append((str(e).split(" to ")[0], str(e), path))

    def block(self, b, env, facts, path, work):
        fl = self.fl
        cur = [(dict(env), facts)]
        for s in fl.blocks[b].s:
            if s[0] != "=":
                continue
            nxt = []
            for e, f in cur:
                for v, g in self.rvalue(e, f, s[2], s[1]):
                    e2 = dict(e)
                    self.put(e2, s[1], v)
                    nxt.append((e2, g))
            cur = nxt
        t = fl.blocks[b].t
        for e, f in cur:
            k = t[0]
            if k == "goto":
                work.append((t[1], e, f, path))
            elif k == "ret":
                self.results.append((f, e.get(0, TOP), e, path))
            elif k == "drop":
                work.append((t[2], e, f, path))
            elif k == "assert":
                v = self.op(e, t[1])
                if v[0] == "b" and v[1] != t[2]:
                    self.faults.append(("panics", "a computation on ordinary times panics", path))
                else:
                    work.append((t[3], e, f, path))
            elif k == "switch":
                v = self.op(e, t[1])
                if v[0] == "b":
                    v = num(pk(int(v[1])))
                if v[0] != "n":
                    raise Odd("a decision on something that is not a time")
                rest = [f]
                for val, tgt in t[2]:
                    nr = []
                    for h in rest:
                        for eq, g in self.branch(h, "Eq", v[1], pk(val)):
                            (work.append((tgt, e, g, path)) if eq else nr.append(g))
                    rest = nr
                for h in rest:
                    work.append((t[3], e, h, path))
            elif k == "call":
                p = self.F.insts[t[1]].get("p", "")
                if t[4] is None:
                    self.faults.append(("panics", "a computation on ordinary times panics", path))
                    continue
                args = [self.op(e, a) for a in t[2]]
                r = self.call(e, f, p, args, [self.ty_of(a) for a in t[2]], t[6])
                if r is None:
                    ty = self.F.ts(self.fl.ltypes[t[3][0]])
                    m = re.search(r"Result<(\w+)", ty)
                    if not m or m.group(1) not in RANGE:
                        r = [(TOP, f)]
                    else:
                        lo, hi = RANGE[m.group(1)]
                        ok = lambda x: ("adt", "core::result::Result", "Ok", {"0": x})
                        err = ("adt", "core::result::Result", "Err", {"0": TOP})
                        r = [(ok(args[0]) if ins else err, g) for ins, g in self.branch(f, "Le", args[0][1], pk(hi))]
                for v, g in r:
                    e2 = dict(e)
                    self.put(e2, t[3], v)
                    work.append((t[4], e2, g, path))
            elif k in ("unreach", "unwind"):
                continue


INTS = re.compile(r"<impl (core::cmp::(Partial)?(Ord|Eq) for )?[ui](8|16|32|64|128|size)>")


def policy(f, x):
    """Everything with a body, down to operations on machine integers."""
    p = x.get("p", "")
    if INTS.search(p) or p.split("::")[-1] in ("try_from", "try_into", "three_way_compare"):
        return False
    return "body" in x and (x.get("ws", False) or x.get("crate") in ("core", "alloc", "std")) and "panic" not in p and "fmt" not in p


# ---------------------------------------------------------------- what is asked
class Kind:
    def __init__(self, ctx, F, name, per):
        self.F, self.ctx, self.name, self.per_name = F, ctx, name, per
        a = F.adts.get(M + name)
        if a is None:
            raise Missing(M + name)
        fs = [x["name"] for x in a["variants"][0]["fields"]]
        if len(fs) != 2 or any(F.ts(x["ty"]) != "u32" for x in a["variants"][0]["fields"]):
            raise Missing(f"the two parts of {name}")
        tes = [x for x in fs if "tesimal" in x]
        if len(tes) != 1:
            raise Missing(f"the tesimals of {name}")
        self.tes = tes[0]
        self.whole = [x for x in fs if x != self.tes][0]
        c = F.consts.get(M + per)
        v = c.get("i") if c else None
        if v is None:
            v = next((o[1]["i"] for o in consts(F, M + per)), None)
        if v is None:
            raise Missing(per)
        self.S = v

    def fresh(self, W, n):
        w, t = W.atom(n + ".whole", 0, U32), W.atom(n + ".tesimals", 0, self.S - 1)
        return ("adt", M + self.name, self.name, {self.whole: num(w), self.tes: num(t)}), padd(pmul(pk(self.S), w), t)

    def val(self, v):
        """(total, tesimals) of a value, or None"""
        if v[0] in ("adt",) and v[1] == M + self.name and v[3].get(self.whole, TOP)[0] == "n" and v[3].get(self.tes, TOP)[0] == "n":
            return padd(pmul(pk(self.S), v[3][self.whole][1]), v[3][self.tes][1]), v[3][self.tes][1]
        return None

    def most(self):
        return self.S * (U32 + 1) - 1


def consts(F, path):
    for x in F.insts:
        if x.get("crate") != "knaster_primitives" or "body" not in x:
            continue
        for b in x["body"]["b"]:
            for s in b["s"]:
                if s[0] == "=":
                    for o in s[2]:
                        if isinstance(o, list) and len(o) > 1 and o[0] == "k" and isinstance(o[1], dict) and o[1].get("def") == path and "i" in o[1]:
                            yield o


def fns(F, K, name, trait=None):
    """The function `name` of this kind of time, by the trait it implements."""
    want = f"<{M}{K.name} as core::{trait}>::{name}" if trait else f"{M}{K.name}::{name}"
    fs = [f for f in F.fns if f["path"] == want and "inst" in f]
    if not fs and trait:
        fs = [f for f in F.fns if f["name"] == name and f.get("impl_adt") == M + K.name and f.get("impl_trait", "").endswith(trait.split("::")[-1].split("<")[0])
              and "<" not in f["path"].split(" as ")[-1].split(">::")[0] and "inst" in f]
    return fs[0] if fs else None


KINDS = []


def check(ctx, F, K, name, trait, build, spec, optional=False):
    """build(W) -> (args, facts, data); spec(W, facts, value, env, data) -> None or (key, message)"""
    f = fns(F, K, name, trait)
    if f is None:
        if optional:
            return 0
        raise Missing(f"{K.name}::{name}")
    W = World()
    args, facts, data = build(W)
    r = Run(F, W, f["inst"], args, facts, KINDS)
    ctx.states += r.steps
    bad = [(k, m, p) for k, m, p in r.faults]
    for fs, v, env, path in r.results:
        e = spec(r, fs, v, env, data)
        if e:
            bad.append((e[0], e[1], path))
    if not r.results and not bad:
        bad = [("returns", "no way through it could be followed", ())]
    seen = set()
    for k, m, p in bad:
        if k not in seen:
            seen.add(k)
            ctx.viol("times", f"{K.name}::{name}: {k}", f"{f['path']}: {m}", where=loc(F, f["inst"], None), trace=trace(r.fl, p) if p else None)
    if not bad:
        ctx.ok("times", f"{K.name}::{name}", f"{len(r.results)} ways through, {r.steps} steps")
    return 1


def same(p, q):
    return not padd(p, q, -1)


def equal(r, facts, p, q):
    """p == q, as polynomials or under the facts"""
    d = padd(p, q, -1)
    return not d or r.W.entails(facts, d) and r.W.entails(facts, padd({}, d, -1))


def is_time(K, r, facts, v, total):
    w = K.val(v)
    if w is None:
        return "value", "the result cannot be told"
    if not equal(r, facts, w[0], total):
        return "value", "the result is not the exact one"
    if not r.W.entails(facts, padd(w[1], pk(K.S - 1), -1)) or not r.W.entails(facts, padd({}, w[1], -1)):
        return "normalised", "the tesimals of the result may make up a whole"
    return None


def two(K, refs=(False, False)):
    def build(W):
        a, va = K.fresh(W, "a")
        b, vb = K.fresh(W, "b")
        return [(a, refs[0]), (b, refs[1])], [], (va, vb)
    return build


def p29(ctx):
    """Sums, differences, comparisons and conversions of times are those of their totals."""
    F = ctx.facts()
    sec = Kind(ctx, F, "Seconds", "SUBSECOND_TESIMALS_PER_SECOND")
    bea = Kind(ctx, F, "Beats", "SUBBEAT_TESIMALS_PER_BEAT")
    KINDS[:] = [sec, bea]
    n = 0
    for K in (sec, bea):
        S = K.S

        def refs(name, trait):
            f = fns(F, K, name, trait)
            if f is None:
                return False, False
            body = F.insts[f["inst"]]["body"]
            return tuple(F.ts(body["l"][i]).startswith("&") for i in (1, 2))

        def fits(build):
            def go(W):
                args, facts, (va, vb) = build(W)
                return args, facts + [padd(padd(va, vb), pk(K.most()), -1)], (va, vb)
            return go
        n += check(ctx, F, K, "add", "ops::arith::Add", fits(two(K, refs("add", "ops::arith::Add"))),
                   lambda r, f, v, env, d: is_time(K, r, f, v, padd(*d)))
        n += check(ctx, F, K, "add_assign", "ops::arith::AddAssign", fits(two(K, refs("add_assign", "ops::arith::AddAssign"))),
                   lambda r, f, v, env, d: is_time(K, r, f, env.get(("arg", 0), TOP), padd(*d)))

        def csub(r, f, v, env, d):
            if v[0] != "adt" or v[2] not in ("Some", "None"):
                return "value", "the result cannot be told"
            diff = padd(d[0], d[1], -1)
            if v[2] == "None":
                return None if r.W.entails(f, padd(diff, pk(1))) else ("none", "there is no result though nothing bigger is subtracted")
            if not r.W.entails(f, padd({}, diff, -1)):
                return "some", "there is a result though something bigger is subtracted"
            return is_time(K, r, f, v[3]["0"], diff)
        n += check(ctx, F, K, "checked_sub", None, two(K, refs("checked_sub", None)), csub)

        def ssub(r, f, v, env, d):
            diff = padd(d[0], d[1], -1)
            if r.W.entails(f, padd({}, diff, -1)):
                return is_time(K, r, f, v, diff)
            if r.W.entails(f, diff):
                return is_time(K, r, f, v, {})
            return "value", "the result is the same whichever is bigger"
        n += check(ctx, F, K, "saturating_sub", None, two(K, refs("saturating_sub", None)), ssub)

        def ordering(r, f, v, env, d):
            if v[0] == "adt" and v[2] == "Some":
                v = v[3]["0"]
            diff = padd(d[0], d[1], -1)
            want = {"Less": [padd(diff, pk(1))], "Equal": [diff, padd({}, diff, -1)], "Greater": [padd(pk(1), diff, -1)]}
            if v[0] != "adt" or v[2] not in want:
                return "order", "the result cannot be told"
            if not all(r.W.entails(f, c) for c in want[v[2]]):
                return "order", "times do not compare as their totals do"
        n += check(ctx, F, K, "cmp", "cmp::Ord", two(K, (True, True)), ordering)
        n += check(ctx, F, K, "partial_cmp", "cmp::PartialOrd", two(K, (True, True)), ordering)
        REL = {"lt": ("Lt", "cmp::PartialOrd"), "le": ("Le", "cmp::PartialOrd"), "gt": ("Gt", "cmp::PartialOrd"), "ge": ("Ge", "cmp::PartialOrd"),
               "eq": ("Eq", "cmp::PartialEq"), "ne": ("Ne", "cmp::PartialEq")}
        for name, (rel, trait) in REL.items():
            def truth(r, f, v, env, d, rel=rel):
                if v[0] != "b":
                    return "order", "the result cannot be told"
                if any(t != v[1] for t, _ in r.branch(f, rel, d[0], d[1])):
                    return "order", "times do not compare as their totals do"
            n += check(ctx, F, K, name, trait, two(K, (True, True)), truth, optional=name != "eq")

        def parts(W):
            return [(num(W.atom("w", 0, U32)), False), (num(W.atom("t", 0, U32)), False)], [], None
        n += check(ctx, F, K, "new", None, parts,
                   lambda r, f, v, env, d: None if v[0] == "adt" and v[3].get(K.whole) == num({("w",): 1}) and v[3].get(K.tes) == num({("t",): 1})
                   else ("parts", "a time is not made of the parts given"))
    # conversions
    K, S = sec, sec.S

    def total(W):
        x = W.atom("x", 0, (1 << 64) - 1)
        return [(num(x), False)], [padd(x, pk(K.most()), -1)], x
    n += check(ctx, F, K, "from_subsample_tesimals_u64", None, total, lambda r, f, v, env, x: is_time(K, r, f, v, x))

    def one(W):
        a, va = K.fresh(W, "a")
        f = fns(F, K, "to_subsample_tesimals_u64")
        return [(a, F.ts(F.insts[f["inst"]]["body"]["l"][1]).startswith("&") if f else False)], [], va
    n += check(ctx, F, K, "to_subsample_tesimals_u64", None, one,
               lambda r, f, v, env, va: None if v[0] == "n" and equal(r, f, v[1], va) else ("value", "the result is not the exact one"))

    def samples(W):
        x, rate = W.atom("samples", 0, (1 << 64) - 1), W.atom("rate", 1, U32)
        want = W.div(pmul(pk(S), x), rate)
        return [(num(x), False), (num(rate), False)], [padd(want, pk(K.most()), -1)], want
    n += check(ctx, F, K, "from_samples", None, samples, lambda r, f, v, env, want: is_time(K, r, f, v, want))

    def back(W):
        a, va = K.fresh(W, "a")
        rate = W.atom("rate", 1, U32)
        f = fns(F, K, "to_samples")
        return [(a, F.ts(F.insts[f["inst"]]["body"]["l"][1]).startswith("&") if f else False), (num(rate), False)], [], W.div(pmul(va, rate), pk(S))
    n += check(ctx, F, K, "to_samples", None, back,
               lambda r, f, v, env, want: None if v[0] == "n" and equal(r, f, v[1], want) else ("value", "the result is not the exact one"))

    def product(W):
        args, facts, (va, vb) = two(K)(W)
        want = W.div(pmul(va, vb), pk(S))
        return args, [padd(want, pk(K.most()), -1)], want
    n += check(ctx, F, K, "mul", "ops::arith::Mul", product, lambda r, f, v, env, want: is_time(K, r, f, v, want))
    K = bea

    def whole(W):
        return [(num(W.atom("w", 0, U32)), False)], [], None
    n += check(ctx, F, K, "from_beats", None, whole, lambda r, f, v, env, d: is_time(K, r, f, v, pmul(pk(K.S), {("w",): 1})))
    ctx.floor("times", n, 20)
