"""Element loops read as the slice operation they spell out.

`for x in slice { *x = v }`, `for (d, s) in dst.iter_mut().zip(src) { *d = *s }`, `for i in 0..slice.len() { slice[i] = v }`
and `slice.iter_mut().for_each(..)` do what `fill` and `copy_from_slice` do. A loop whose body consists of such a single
element write is replaced, in the flattened graph, by that call, so that rules see one event however it is written."""
from gcom import *
from iters import Sites, NEXT, canon1, F_path
from expr import Exprs, walk


def _synth(F, name):
    for i in range(len(F.insts) - 1, max(0, len(F.insts) - 8), -1):
        if F.insts[i].get("synth") == name:
            return i
    i = len(F.insts)
    F.insts.append({"id": i, "p": "core::slice::<impl [T]>::" + name, "name": name, "k": "item", "ws": False, "crate": "core", "synth": name, "a": []})
    return i


class _NoGraph:
    def __init__(self, F):
        self.F, self.f, self.c = F, {}, {}


def _pl(e):
    while e[0] in ("&", "*"):
        e = e[1]
    return e


def _container(E, it):
    """The slice an iterator runs over: iter()/iter_mut()/into_iter() removed."""
    e = it
    for _ in range(30):
        if e[0] in ("&", "*"):
            e = e[1]
        elif e[0] == "call" and e[2] and e[1].split("::")[-1] in ("into_iter", "iter", "iter_mut", "by_ref", "copied", "cloned"):
            e = e[2][0]
        else:
            return e
    return e


def _zip(it):
    e = it
    for _ in range(30):
        if e[0] in ("&", "*"):
            e = e[1]
        elif e[0] == "call" and e[1].split("::")[-1] == "zip" and len(e[2]) == 2:
            return e[2]
        elif e[0] == "call" and e[2] and e[1].split("::")[-1] in ("into_iter", "by_ref"):
            e = e[2][0]
        else:
            return None
    return None


def _index(p):
    """(container, index) when the place p is an element of a slice."""
    if p[0] == "[]":
        return _pl(p[1]), p[2]
    q = _pl(p)
    if q[0] == "call" and q[1].split("::")[-1] in ("index", "index_mut", "get_unchecked", "get_unchecked_mut") and len(q[2]) == 2:
        return _pl(q[2][0]), q[2][1]
    return None


def fold(fl, E, blocksize=lambda e: False, only=lambda e: True):
    """(fl, E') with element loops replaced. `blocksize(e)`: e is the length every channel has; `only(container)` restricts."""
    F = fl.F
    for _ in range(3):
        S = Sites(_NoGraph(F), fl, E, any_end=True)
        n = 0
        for b, s in list(S.at.items()):
            if s.call is not None:
                d = s.call[3]
                tb = s.call[4]
                sw = _switch(fl, tb, d)
                if sw is None:
                    continue
                some, none = _edges(S, fl, E, sw, b)
            else:
                t = fl.blocks[b].t
                e1 = {v: x for v, x in t[2]}
                if set(e1) != {0}:
                    continue
                tr, fa = t[3], e1[0]
                some, none = (tr, fa) if not S.cond[b] else (fa, tr)
            if some is None or none is None:
                continue
            r = _loop(fl, E, S, s, b, some)
            if r is None:
                continue
            name, args = r
            if not only(args[0]):
                continue
            # bounds that do not cover the container
            if s.idx is not None and s.call is not None or s.call is None:
                if s.start != ("k", 0):
                    continue
                ln = S.len_of(s.end)
                if not (ln is not None and (_pl(ln) == args[0] or name == "copy_from_slice" and _pl(ln) == args[1]) or blocksize(s.end)):
                    continue
            ops = []
            blk = fl.blocks[b]
            for a in args:
                l = fl.newlocal(0)
                blk.s.append(("=", (l, ()), ("expr", a), None))
                ops.append(("cp", (l, ()), 0))
            d = fl.newlocal(0)
            line = s.call[5] if s.call is not None else None
            blk.t = ("call", _synth(F, name), ops, (d, ()), none, line, None, None)
            n += 1
        if not n:
            return fl, E
        fl._defs = None
        for a in ("_reach", "_reachable"):
            if hasattr(fl, a):
                setattr(fl, a, None)
        E = Exprs(fl)
    return fl, E


def _switch(fl, b, d):
    for _ in range(6):
        t = fl.blocks[b].t
        if t[0] == "switch":
            return b
        if t[0] != "goto":
            return None
        b = t[1]
    return None


def _edges(S, fl, E, sw, b):
    t = fl.blocks[sw].t
    e = E.op(t[1])
    if not (e[0] == "discr" and e[1][0] == "call" and e[1][3] == b):
        return None, None
    m = dict(t[2])
    return m.get(1, t[3]), m.get(0, t[3])


def _loop(fl, E, S, s, b, some):
    """("fill" / "copy_from_slice", (dst, src)) when the body writes exactly the element the loop is at."""
    body = _body(fl.F, fl, b, some)
    if body is None:
        return None
    wr = []
    for x in body:
        for st in fl.blocks[x].s:
            if st[0] != "=":
                return None
            if any(el[0] in ("*", "i", "c") for el in st[1][1]):
                wr.append(st)
    if len(wr) != 1:
        return None
    p, v = E.place(wr[0][1]), E.rvalue(wr[0][2])
    v = _copy(v)
    own = lambda e: any(x[0] == "call" and x[3] == b for x in walk(e))
    if s.call is not None and s.idx is None:
        el = lambda e, *n: _elem(e, b, n)
        z = _zip(s.it)
        if z is None:
            if not el(p):
                return None
            if own(v) or _varies(fl, E, body, v):
                return None
            return "fill", (_container(E, s.it), v)
        for i, j in ((0, 1), (1, 0)):
            if el(p, str(i)):
                if el(v, str(j)):
                    return "copy_from_slice", (_container(E, z[i]), _container(E, z[j]))
        return None
    ix = _index(p)
    if ix is None or canon1(ix[1]) != canon1(s.idx):
        return None
    src = _index(v)
    if src is not None and canon1(src[1]) == canon1(s.idx):
        if own(src[0]):
            return None
        return "copy_from_slice", (ix[0], src[0])
    if own(v) or any(canon1(x) == canon1(s.idx) for x in walk(v)) or _varies(fl, E, body, v):
        return None
    return "fill", (ix[0], v)


def _copy(v):
    """Reads through references are transparent: *x and x of Copied/Cloned elements."""
    while v[0] == "call" and v[2] and v[1].split("::")[-1] in ("clone",):
        v = v[2][0]
    return v


def _elem(e, b, n):
    """e is the element of the loop at b, or its part n."""
    while e[0] in ("&", "*"):
        e = e[1]
    for x in reversed(n):
        if e[0] != "f" or e[2] != x:
            return False
        e = e[1]
        while e[0] in ("&", "*"):
            e = e[1]
    return e[0] == "f" and e[2] == "0" and e[1][0] == "v" and e[1][2] == "Some" and e[1][1][0] == "call" and e[1][1][3] == b


def _varies(fl, E, body, v):
    """v depends on something computed in the loop body that is not fixed (a phi or an unknown)."""
    return any(x[0] in ("phi", "loc") for x in walk(v))


def _body(F, fl, b, some):
    out, x = [], some
    for _ in range(60):
        if x == b:
            return out
        out.append(x)
        t = fl.blocks[x].t
        if t[0] == "goto":
            x = t[1]
        elif t[0] == "assert":
            x = t[3]
        elif t[0] == "drop":
            x = t[2]
        elif t[0] == "call" and t[4] is not None and last(F, t[1]) in ("len", "block_size", "channels"):
            x = t[4]
        else:
            return None
    return None
