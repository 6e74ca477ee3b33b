"""Fact base: loading, lookup, class-hierarchy resolution."""
import json, os, sys
from collections import defaultdict

sys.setrecursionlimit(20000)


class Missing(Exception):
    """An anchor the rule needs is not in the fact base (fail closed)."""


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.insts = d["insts"]
        self.types = d["types"]
        self.fns = d["fns"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.traits = {t["path"]: t for t in d["traits"]}
        self.consts = {c["path"]: c for c in d["consts"]}
        self.crates = d["crates"]
        self.fn = {}
        self.by_path = defaultdict(list)
        for f in self.fns:
            self.by_path[f["path"]].append(f)
            self.fn.setdefault(f["path"], f)
        for i, x in enumerate(self.insts):
            x["id"] = i
        # trait method -> root instances implementing it (impl methods and default bodies)
        self.impl_of = defaultdict(list)
        for f in self.fns:
            if "inst" not in f:
                continue
            if "tm" in f:
                self.impl_of[f["tm"]].append(f["inst"])
            elif f.get("of_trait") and f.get("default"):
                self.impl_of[f["path"]].append(f["inst"])
        self._cal = {}
        self._named = {}

    def named(self, path):
        """An instance of a library function, whatever its type arguments (made up when there is none)."""
        if path not in self._named:
            i = next((i for i, x in enumerate(self.insts) if x.get("p") == path and x["k"] != "fn"), None)
            if i is None:
                i = next((i for i, x in enumerate(self.insts) if x.get("p") == path), None)
            if i is None:
                self.insts.append({"p": path, "crate": path.split("::")[0], "name": path.split("::")[-1], "k": "nomir", "a": [], "id": len(self.insts)})
                i = len(self.insts) - 1
            self._named[path] = i
        return self._named[path]

    def usize_type(self):
        return next(i for i, t in enumerate(self.types) if t["s"] == "isize" or t["s"] == "usize")

    def unit_type(self):
        return next(i for i, t in enumerate(self.types) if t["s"] == "()")

    # -- types
    def ts(self, t):
        return self.types[t]["s"]

    def adt_of(self, t, peel=True):
        x = self.types[t]
        while peel and x["k"] in ("ref", "refmut", "ptr", "ptrmut"):
            x = self.types[x["a"][0]]
        return x.get("p") if x["k"] == "adt" else None

    # -- lookup
    def find(self, pred):
        return [f for f in self.fns if pred(f)]

    def method(self, adt_suffix, name, trait=None, crate=None):
        """Root fns: inherent (trait None) or trait method `name` on the adt whose path ends so."""
        r = []
        for f in self.fns:
            if f["name"] != name or "impl_adt" not in f:
                continue
            a = f["impl_adt"]
            if not (a == adt_suffix or a.endswith("::" + adt_suffix)):
                continue
            if trait is None:
                if "impl_trait" in f:
                    continue
            elif not f.get("impl_trait", "").split("::")[-1] == trait:
                continue
            r.append(f)
        return r

    def one(self, *a, **k):
        r = self.method(*a, **k)
        if len(r) != 1:
            raise Missing(f"expected exactly one method {a} {k}, found {len(r)}")
        return r[0]

    def inst_of(self, f):
        return self.insts[f["inst"]]

    def callees(self, i):
        """Direct callee ids (calls, drops) and reified function ids of instance i."""
        if i in self._cal:
            return self._cal[i]
        x = self.insts[i]
        out, ref = [], []
        if "body" in x:
            for b in x["body"]["b"]:
                if b["u"]:
                    continue
                t = b["t"]
                if t[0] == "call":
                    out.append((t[1], t[5]))
                elif t[0] == "drop" and t[3] is not None:
                    out.append((t[3], t[4]))
            ref = x["body"].get("r", [])
        else:
            out = [(c, None) for c in x.get("c", [])]
            ref = x.get("r", [])
        self._cal[i] = (out, ref)
        return self._cal[i]

    def name(self, i):
        x = self.insts[i]
        if x["k"] == "drop":
            return "drop<" + self.ts(x["t"]) + ">"
        if "self" in x and x["k"] in ("unres", "dyn"):
            return f"<{self.ts(x['self'])} as {x['p']}>"
        return x["p"]
