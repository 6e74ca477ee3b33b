"""Flattened control-flow graphs: a root function with its workspace callees inlined.

Inlining makes the rules insensitive to helper extraction: what is analysed is the behaviour of the
public entry point, whatever functions it is split into.
"""
from collections import defaultdict

FN_TRAITS = ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut",
             "core::ops::function::FnOnce::call_once")


class Block:
    __slots__ = ("s", "t", "frame")

    def __init__(self, s, t, frame):
        self.s, self.t, self.frame = s, t, frame


class Flat:
    """blocks[i].s: ('=', place, rvalue, line); terminators as in the fact base with flat ids.
    A place is (local, proj) with proj a tuple of elements."""

    def __init__(self, facts, inst, policy=None, depth=12):
        self.F = facts
        self.root = inst
        self.blocks = []
        self.ltypes = []
        self.lnames = {}
        self.frames = []  # (inst id, call chain of (fn path, line))
        self.inlined = set()
        self.policy = policy or (lambda f, x: x.get("ws", False) or x["k"] == "shim" or _closure_comb(x))
        self.maxdepth = depth
        body = facts.insts[inst].get("body")
        assert body, facts.name(inst)
        self.nargs = body["n"]
        self.entry, self.retlocal = self._inline(inst, None, None, None, (), 0, ())
        self._defs = None

    def newlocal(self, ty):
        self.ltypes.append(ty)
        return len(self.ltypes) - 1

    def place(self, p, off):
        if isinstance(p, int):
            return (p + off, ())
        proj = []
        for e in p[1]:
            if isinstance(e, list):
                e = tuple(e)
                if e[0] == "i":
                    e = ("i", e[1] + off)
            else:
                e = (e,)
            proj.append(e)
        return (p[0] + off, tuple(proj))

    def ptype(self, p, off):
        return self.ltypes[p + off] if isinstance(p, int) else p[2]

    def operand(self, o, off):
        if o[0] == "k":
            return ("k", o[1])
        return (o[0], self.place(o[1], off), self.ptype(o[1], off))

    def rvalue(self, r, off):
        k = r[0]
        if k in ("use", "repeat"):
            return (k, self.operand(r[1], off)) + tuple(r[2:])
        if k in ("ref", "refmut", "rawptr"):
            return (k, self.place(r[1], off))
        if k == "cast":
            return (k, r[1], self.operand(r[2], off), r[3])
        if k == "bin":
            return (k, r[1], self.operand(r[2], off), self.operand(r[3], off))
        if k == "un":
            return (k, r[1], self.operand(r[2], off))
        if k == "discr":
            return (k, self.place(r[1], off), r[2])
        if k == "agg":
            kk = tuple(tuple(x) if isinstance(x, list) else x for x in r[1])
            return (k, kk, tuple(self.operand(o, off) for o in r[2]))
        return tuple(r)

    def _inline(self, inst, args, dest, cont, stack, depth, chain):
        """Append the blocks of inst; returns (entry block, return local)."""
        F = self.F
        x = F.insts[inst]
        body = fold_body(F, x) or x["body"]
        fid = len(self.frames)
        self.frames.append((inst, chain))
        self.inlined.add(inst)
        off = len(self.ltypes)
        self.ltypes.extend(body["l"])
        for n, p in body["names"]:
            if isinstance(p, int):
                self.lnames[p + off] = n
        base = len(self.blocks)
        raw = body["b"]
        # blocks up front so that indices are known; filled below
        for b in raw:
            self.blocks.append(Block([], ("unreach",), fid))
        entry = base
        if args is not None:
            # prologue assigning arguments
            pro = Block([], ("goto", base), fid)
            for i, a in enumerate(args):
                if i + 1 <= body["n"]:
                    pro.s.append(("=", (off + 1 + i, ()), ("use", a), None))
            self.blocks.append(pro)
            entry = len(self.blocks) - 1
        for bi, b in enumerate(raw):
            blk = self.blocks[base + bi]
            if b["u"]:
                blk.t = ("unwind",)
                continue
            for s in b["s"]:
                if s[0] == "=":
                    blk.s.append(("=", self.place(s[1], off), self.rvalue(s[2], off), s[3]))
                elif s[0] == "disc":
                    blk.s.append(("disc", self.place(s[1], off), s[2]))
            t = b["t"]
            k = t[0]
            if k == "goto":
                blk.t = ("goto", base + t[1])
            elif k == "switch":
                blk.t = ("switch", self.operand(t[1], off), tuple((v, base + b2) for v, b2 in t[2]), base + t[3], t[4])
            elif k == "ret":
                if cont is None:
                    blk.t = ("ret",)
                else:
                    ty = self.ltypes[off]
                    blk.s.append(("=", dest, ("use", ("mv", (off, ()), ty)), None))
                    blk.t = ("goto", cont)
            elif k in ("unwind", "unreach"):
                blk.t = (k,)
            elif k == "drop":
                blk.t = ("drop", self.place(t[1], off), base + t[2], t[3], t[4])
            elif k == "assert":
                m = t[4]
                mm = (m[0],) + tuple(self.operand(o, off) if isinstance(o, list) else o for o in m[1:])
                blk.t = ("assert", self.operand(t[1], off), t[2], base + t[3], mm, t[5])
            elif k == "call":
                cid = t[1]
                cargs = [self.operand(a, off) for a in t[2]]
                d = self.place(t[3], off)
                target = None if t[4] is None else base + t[4]
                cx = F.insts[cid]
                can = ("body" in cx and target is not None and depth < self.maxdepth
                       and cid not in stack and cid != inst and self.policy(self, cx))
                if can:
                    n = cx["body"]["n"]
                    if t[6] in FN_TRAITS and len(cargs) == 2 and cx["k"] == "fn" and "{closure" in cx["p"].split("::")[-1]:
                        cargs = self._spread(cargs, n)
                    if cargs is not None and len(cargs) == n:
                        e, _ = self._inline(cid, cargs, d, target, stack + (inst,), depth + 1,
                                            chain + ((x["p"], t[5]),))
                        blk.t = ("goto", e)
                        continue
                if len(t) > 8 and t[8] and target is not None and getattr(self.policy, "collect", self._closures)(self, cx, t):
                    self._loop(blk, fid, inst, t, cargs, d, target, stack, depth, chain)
                    continue
                if target is not None and len(cargs) == 1 and cx.get("p", "").split("::")[-1] in ("from", "into") and d[1] == () and self._convert(blk, cargs[0], d, target, t[5]):
                    continue
                if target is not None and cx.get("p", "").split("::")[-1] in ("then_some", "ok_or") and self._combinator(blk, fid, cx, cargs, d, target, t[5]):
                    continue
                fo = self.operand(t[7], off) if t[7] else None
                blk.t = ("call", cid, tuple(cargs) if cargs else (), d, target, t[5], t[6], fo)
            elif k == "asm":
                blk.t = ("goto", base + t[1]) if t[1] is not None else ("unreach",)
            else:
                blk.t = ("unreach",)
        return entry, off

    def _convert(self, blk, a, d, target, ln):
        """`usize::from(x)` and the like as the cast they are."""
        if a[0] == "k":
            return False
        ty = self.ltypes[d[0]]
        ta, td = self.F.types[a[2]], self.F.types[ty]
        if ta["k"] != "prim" or td["k"] != "prim":
            return False
        n = lambda t: "Float" if self.F.ts(t).startswith("f") else "Int"
        blk.s.append(("=", d, ("cast", n(a[2]) + "To" + n(ty), a, ty), ln))
        blk.t = ("goto", target)
        return True

    def _combinator(self, blk, fid, cx, cargs, d, target, ln):
        """`b.then_some(v)` and `o.ok_or(e)` as the branches they stand for."""
        p = cx["p"]
        new = lambda r: (self.blocks.append(Block([("=", d, r, ln)], ("goto", target), fid)), len(self.blocks) - 1)[1]
        adt = lambda t, v, *ops: ("agg", ("adt", "core::" + t, v, ("0",) if ops else ()), tuple(ops))
        if len(cargs) != 2 or cargs[0][0] == "k":
            return False
        c, v = cargs
        if p.endswith("::then_some") and "bool" in p:
            yes, no = new(adt("option::Option", "Some", v)), new(adt("option::Option", "None"))
            blk.t = ("switch", c, ((0, no),), yes, ln)
            return True
        if p.endswith("::ok_or") and "option::Option" in p and self.F.types[c[2]].get("a"):
            pay = ("mv", (c[1][0], c[1][1] + (("v", "Some"), ("f", "0", None))), self.F.types[c[2]]["a"][0])
            yes, no = new(adt("result::Result", "Ok", pay)), new(adt("result::Result", "Err", v))
            dis = self.newlocal(self.F.usize_type())
            blk.s.append(("=", (dis, ()), ("discr", c[1], [[0, "None"], [1, "Some"]]), ln))
            blk.t = ("switch", ("mv", (dis, ()), self.ltypes[dis]), ((0, no), (1, yes)), no, ln)
            return True
        return False

    @staticmethod
    def _closures(self, cx, t):
        """By default: when the iterator runs a closure of the workspace, which is then visible."""
        nx = self.F.insts[t[8][0]]
        return "body" in nx and self.policy(self, nx)

    def _loop(self, blk, fid, inst, t, cargs, d, target, stack, depth, chain):
        """`collect`, `extend` and `from_iter` on a vector as the loop they stand for."""
        F = self.F
        nx, into, tit, trit, topt, tvec, trvec, titem = t[8]
        ext = t[6].endswith("::extend")
        it, rit, opt, rvec, unit = (self.newlocal(x) for x in (tit, trit, topt, trvec, F.unit_type()))
        dis = self.newlocal(F.usize_type())
        new = lambda s, tt: (self.blocks.append(Block(s, tt, fid)), len(self.blocks) - 1)[1]
        ln = t[5]
        mv = lambda l: ("mv", (l, ()), self.ltypes[l])
        if ext:
            src, vec = cargs[1], None
            vecref = cargs[0]
        else:
            src = cargs[0]
            vec = self.newlocal(tvec)
        end = new([] if ext else [("=", d, ("use", mv(vec)), ln)], ("goto", target))
        head = new([("=", (rit, ()), ("refmut", (it, ())), ln)], ("unreach",))
        some = new([], ("unreach",))
        test = new([("=", (dis, ()), ("discr", (opt, ()), [[0, "None"], [1, "Some"]]), ln)], ("switch", mv(dis), ((0, end), (1, some)), end, ln))
        item = ("mv", (opt, (("v", "Some"), ("f", "0", None))), titem)
        if ext:
            self.blocks[some].s.append(("=", (rvec, ()), ("use", vecref if vecref[0] == "k" else ("cp",) + tuple(vecref[1:])), ln))
        else:
            self.blocks[some].s.append(("=", (rvec, ()), ("refmut", (vec, ())), ln))
        self.blocks[some].t = ("call", F.named("alloc::vec::Vec::<T, A>::push"), (mv(rvec), item), (unit, ()), head, ln, "alloc::vec::Vec::<T, A>::push", None)
        cx = F.insts[nx]
        if "body" in cx and nx not in stack and depth < self.maxdepth and self.policy(self, cx):
            e, _ = self._inline(nx, [mv(rit)], (opt, ()), test, stack + (inst,), depth + 1, chain + ((F.insts[inst]["p"], ln),))
            self.blocks[head].t = ("goto", e)
        else:
            self.blocks[head].t = ("call", nx, (mv(rit),), (opt, ()), test, ln, "core::iter::traits::iterator::Iterator::next", None)
        first = head
        if not ext:
            first = new([], ("call", F.named("alloc::vec::Vec::<T>::new"), (), (vec, ()), head, ln, "alloc::vec::Vec::<T>::new", None))
        if into is None:
            blk.s.append(("=", (it, ()), ("use", src), ln))
            blk.t = ("goto", first)
        else:
            ix = F.insts[into]
            if "body" in ix and into not in stack and depth < self.maxdepth and self.policy(self, ix):
                e, _ = self._inline(into, [src], (it, ()), first, stack + (inst,), depth + 1, chain + ((F.insts[inst]["p"], ln),))
                blk.t = ("goto", e)
            else:
                blk.t = ("call", into, (src,), (it, ()), first, ln, "core::iter::traits::collect::IntoIterator::into_iter", None)

    def _spread(self, cargs, n):
        tup = cargs[1]
        if tup[0] == "k":
            return [cargs[0]] if n == 1 else None
        tt = self.F.types[tup[2]]
        if tt["k"] != "tuple":
            return None
        out = [cargs[0]]
        for i, ty in enumerate(tt["a"]):
            out.append((tup[0], (tup[1][0], tup[1][1] + (("f", str(i), None),)), ty))
        return out

    # -- graph
    def succ(self, b):
        t = self.blocks[b].t
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[3]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        return []

    def reachable(self):
        seen, st = {self.entry}, [self.entry]
        while st:
            for s in self.succ(st.pop()):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    # -- definitions
    def defs(self):
        """local -> list of (proj, kind, payload, block): every assignment and call destination."""
        if self._defs is None:
            D = defaultdict(list)
            for b in sorted(self.reachable()):
                blk = self.blocks[b]
                for s in blk.s:
                    if s[0] == "=":
                        D[s[1][0]].append((s[1][1], "rv", s[2], b))
                t = blk.t
                if t[0] == "call":
                    D[t[3][0]].append((t[3][1], "call", t, b))
            self._defs = D
        return self._defs

    def where(self, b, line=None):
        """'fn (via caller:line ...)' of block b."""
        inst, chain = self.frames[self.blocks[b].frame]
        p = self.F.insts[inst]
        s = p["p"] + (f":{line}" if line else "")
        sp = p.get("span")
        if sp:
            s = f"{sp[0].split('/ws/')[-1]}:{line or sp[1]} in {p['p']}"
        if chain:
            s += " (inlined via " + " > ".join(f"{c}:{l}" for c, l in chain) + ")"
        return s


FOLDS = ("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::fold",
         "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::fold",
         "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::fold",
         "<core::iter::adapters::flatten::Flatten<I> as core::iter::traits::iterator::Iterator>::fold",
         "<core::iter::adapters::zip::Zip<A, B> as core::iter::traits::iterator::Iterator>::fold",
         "<core::iter::adapters::enumerate::Enumerate<I> as core::iter::traits::iterator::Iterator>::fold",
         "<generic_array::iter::GenericArrayIter<T, N> as core::iter::traits::iterator::Iterator>::fold")


def _fold_call(F, i, ref, seen):
    """The call through which a fold hands an element to its closure: (terminator, type of the closure reference, type of the arguments)."""
    if i in seen or "body" not in F.insts[i]:
        return None
    seen.add(i)
    b = F.insts[i]["body"]
    for blk in b["b"]:
        t = blk["t"]
        if blk["u"] or t[0] != "call":
            continue
        ty = [None if a[0] == "k" else b["l"][a[1]] if isinstance(a[1], int) else a[1][2] for a in t[2]]
        if t[6] in FN_TRAITS and len(ty) == 2 and None not in ty and F.ts(ty[0]) == ref:
            return t, ty[0], ty[1]
    for blk in b["b"]:
        t = blk["t"]
        if not blk["u"] and t[0] == "call":
            r = _fold_call(F, t[1], ref, seen)
            if r is not None:
                return r
    return None


def fold_body(F, x):
    """`fold` of a slice or vector iterator (written with pointers in the standard library) as the loop over `next` it stands for."""
    if x.get("p") not in FOLDS:
        return None
    memo = F.__dict__.setdefault("_folds", {})
    if x["id"] in memo:
        return memo[x["id"]]
    memo[x["id"]] = None
    b = x["body"]
    ty = b["l"]
    if b["n"] != 3:
        return None
    found = _fold_call(F, x["id"], "&mut " + F.ts(ty[3]), set())
    if found is None:
        return None
    cm, tref, ttup = found
    if F.types[ttup]["k"] != "tuple" or len(F.types[ttup]["a"]) != 2:
        return None
    titem = F.types[ttup]["a"][1]
    n = len(ty)
    it, opt, dis, item, fref, tu, acc = n, n + 1, n + 2, n + 3, n + 4, n + 5, n + 6
    ln = cm[5]

    def mktype(t):
        i = next((i for i, y in enumerate(F.types) if y["s"] == t["s"]), None)
        if i is None:
            F.types.append(t)
            i = len(F.types) - 1
        return i
    topt = mktype({"s": "core::option::Option<" + F.ts(titem) + ">", "k": "adt", "p": "core::option::Option", "a": [titem]})
    tit = mktype({"s": "&mut " + F.ts(ty[1]), "k": "ref", "a": [ty[1]]})
    head = [["=", it, ["refmut", 1], ln]], ["call", F.named(x["p"][:-4] + "next"), [["mv", it]], opt, 1, ln, "core::iter::traits::iterator::Iterator::next", None]
    test = [["=", dis, ["discr", opt, [[0, "None"], [1, "Some"]]], ln]], ["switch", ["mv", dis], [[0, 3], [1, 2]], 3, ln]
    some = [["=", item, ["use", ["mv", [opt, [["v", "Some"], ["f", "0", None]], titem]]], ln], ["=", fref, ["refmut", 3], ln],
            ["=", tu, ["agg", ["tuple"], [["mv", 2], ["mv", item]]], ln]], ["call", cm[1], [["mv", fref], ["mv", tu]], 2, 0, ln, cm[6], None]
    end = [["=", 0, ["use", ["mv", 2]], ln]], ["ret"]
    nb = dict(b)
    nb["l"] = list(ty) + [tit, topt, F.usize_type(), titem, tref, ttup, ty[2]]
    nb["names"] = []
    nb["b"] = [{"s": s, "t": t, "u": 0} for s, t in (head, test, some, end)]
    memo[x["id"]] = nb
    return nb


def _closure_comb(x):
    """Core combinators that received a workspace closure (their full bodies are in the facts)."""
    return "body" in x and (x.get("crate") in ("core", "alloc", "std") or x.get("p") in FOLDS)
