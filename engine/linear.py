"""Linear arithmetic over the values of a function: facts known on a path entail a bound, or they do not.

A relational (polyhedral) abstract domain: linear forms over opaque atoms, entailment by Fourier-Motzkin elimination over the
integers' rational relaxation. All atoms are unsigned machine integers (>= 0). Products of two atoms are atoms of their own, related
to their factors by a <= b -> a*z <= b*z for every known bound on a factor. min / max / saturating_sub are split into cases.
Sums and products are taken without overflow (an overflow panics or, unchecked, is outside what is decided).
"""
from fractions import Fraction


class Lin:
    """sum of coef * atom + c"""
    __slots__ = ("m", "c")

    def __init__(self, m=(), c=0):
        self.m = {k: v for k, v in dict(m).items() if v}
        self.c = c

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Lin(m, self.c + o.c)

    def scale(self, s):
        return Lin({k: v * s for k, v in self.m.items()}, self.c * s)

    def __sub__(self, o):
        return self + o.scale(-1)

    def const(self):
        return self.c if not self.m else None


def strip(e):
    while True:
        if e[0] == "cast":
            e = e[2]
        elif e[0] == "call" and len(e[2]) == 1 and e[1].split("::")[-1] in ("from", "into", "clone"):
            e = e[2][0]
        elif e[0] == "f" and e[2] == "0" and e[1][0] == "bin" and e[1][1].endswith("WithOverflow"):
            e = ("bin", e[1][1][:-len("WithOverflow")], *e[1][2:])
        else:
            return e


class Arith:
    def __init__(self, norm=lambda e: e):
        self.norm = norm
        self.cases = []   # atoms with a case split: (atom, [[constraints <= 0 of the case], ..])
        self.seen = {}

    def mul(self, a, b):
        r = Lin({}, a.c * b.c)
        for x, v in a.m.items():
            r = r + Lin({x: v * b.c})
        for x, v in b.m.items():
            r = r + Lin({x: v * a.c})
        for x, v in a.m.items():
            for y, w in b.m.items():
                fx = x[1] if x[0] == "mul" else (x,)
                fy = y[1] if y[0] == "mul" else (y,)
                r = r + Lin({("mul", tuple(sorted(fx + fy, key=repr))): v * w})
        return r

    def lin(self, e):
        e = self.norm(strip(e))
        if e in self.seen:
            return self.seen[e]
        r = None
        if e[0] == "k" and isinstance(e[1], int) and not isinstance(e[1], bool):
            r = Lin({}, e[1])
        elif e[0] == "bin" and e[1] in ("Add", "AddUnchecked"):
            r = self.lin(e[2]) + self.lin(e[3])
        elif e[0] == "bin" and e[1] in ("Sub", "SubUnchecked"):
            r = self.lin(e[2]) - self.lin(e[3])
        elif e[0] == "bin" and e[1] in ("Mul", "MulUnchecked"):
            r = self.mul(self.lin(e[2]), self.lin(e[3]))
        elif e[0] == "bin" and e[1] == "Rem":
            r = Lin({("at", e): 1})
            a, b = self.lin(e[2]), self.lin(e[3])
            self.cases.append([[r - b + Lin({}, 1), r - a]])
        elif e[0] == "bin" and e[1] == "BitAnd":
            r = Lin({("at", e): 1})
            self.cases.append([[r - self.lin(e[2]), r - self.lin(e[3])]])
        elif e[0] == "call" and len(e[2]) == 2 and e[1].split("::")[-1] in ("min", "max", "saturating_sub"):
            r = Lin({("at", e): 1})
            a, b = self.lin(e[2][0]), self.lin(e[2][1])
            n = e[1].split("::")[-1]
            if n == "min":
                self.cases.append([[r - a, a - r, a - b], [r - b, b - r, b - a]])
            elif n == "max":
                self.cases.append([[r - a, a - r, b - a], [r - b, b - r, a - b]])
            else:
                self.cases.append([[r - a + b, a - b - r, b - a], [r, a - b]])
        if r is None:
            r = Lin({("at", e): 1})
        self.seen[e] = r
        return r

    def fact(self, f):
        """a path fact as constraints <= 0"""
        if f[0] not in ("Eq", "Lt", "Le"):
            return []
        a, b = self.lin(f[1]), self.lin(f[2])
        if f[0] == "Lt":
            return [a - b + Lin({}, 1)]
        if f[0] == "Le":
            return [a - b]
        return [a - b, b - a]

    def entails(self, facts, goals, extra=()):
        """facts (path facts), extra (constraints <= 0) entail every goal (constraint <= 0)"""
        cs = [c for f in facts for c in self.fact(f)] + list(extra)
        return all(self._one(cs, g) for g in goals)

    def _one(self, cs, goal):
        def go(i, cs):
            if i == len(self.cases):
                return infeasible(self.products(cs + [Lin({}, 1) - goal]))
            return all(go(i + 1, cs + alt) for alt in self.cases[i])
        if self.cases and infeasible(self.products(cs + [Lin({}, 1) - goal])):
            return True
        return go(0, cs)

    def products(self, cs):
        """cs plus what bounds on factors say about products, and atoms >= 0"""
        muls = {a for c in cs for a in c.m if a[0] == "mul"}
        out = list(cs)
        facs = set()
        for m in muls:
            for i, x in enumerate(m[1]):
                rest = m[1][:i] + m[1][i + 1:]
                facs.add((x, rest[0] if len(rest) == 1 else ("mul", rest)))
        for c in cs:
            if any(a[0] == "mul" for a in c.m):
                continue
            for x, z in facs:
                if x in c.m:
                    p = self.mul(c, Lin({z: 1}))
                    out.append(p)
        for a in {a for c in out for a in c.m}:
            out.append(Lin({a: -1}))
        return out


def infeasible(cs, limit=4000):
    """the constraints (<= 0) have no solution"""
    cs = [(dict(c.m), c.c) for c in cs]
    while True:
        for m, c in cs:
            if not m and c > 0:
                return True
        cs = [x for x in cs if x[0]]
        if not cs:
            return False
        cnt = {}
        for m, _ in cs:
            for a, v in m.items():
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + (v > 0), n + (v < 0))
        a = min(cnt, key=lambda a: (cnt[a][0] * cnt[a][1], repr(a)))
        pos = [x for x in cs if x[0].get(a, 0) > 0]
        neg = [x for x in cs if x[0].get(a, 0) < 0]
        rest = [x for x in cs if a not in x[0]]
        seen = set()
        for m1, c1 in pos:
            for m2, c2 in neg:
                k1, k2 = -m2[a], m1[a]
                m = {}
                for k, v in m1.items():
                    m[k] = m.get(k, 0) + v * k1
                for k, v in m2.items():
                    m[k] = m.get(k, 0) + v * k2
                m = {k: v for k, v in m.items() if v}
                c = c1 * k1 + c2 * k2
                if m:
                    from math import gcd
                    g = 0
                    for v in m.values():
                        g = gcd(g, abs(int(v)))
                    if g > 1:
                        m = {k: v // g for k, v in m.items()}
                        c = -((-c) // g)  # integers: round the constant up
                key = (frozenset(m.items()), c)
                if key not in seen:
                    seen.add(key)
                    rest.append((m, c))
        if len(rest) > limit:
            return False
        cs = rest
