"""Loading of the MIR dump (see tools/mirdump): crates, types and function bodies."""
import glob
import json
import os


class Ty:
    __slots__ = ("crate", "id", "j", "_args", "_elems")

    def __init__(self, crate, id):
        self.crate, self.id = crate, id
        self.j = crate.types[id]
        self._args = self._elems = None

    @property
    def k(self):
        return self.j["k"]

    @property
    def s(self):
        return self.j["s"]

    @property
    def path(self):
        return self.j.get("path", "")

    @property
    def args(self):
        if self._args is None:
            self._args = [self.crate.ty(a) for a in self.j.get("args", [])]
        return self._args

    @property
    def elems(self):
        return [self.crate.ty(a) for a in self.j.get("elems", [])]

    @property
    def upvars(self):
        return [self.crate.ty(a) for a in self.j.get("upvars", [])]

    @property
    def inner(self):
        if "ty" in self.j:
            return self.crate.ty(self.j["ty"])
        if "elem" in self.j:
            return self.crate.ty(self.j["elem"])
        return None

    @property
    def variants(self):
        return self.j.get("variants")

    @property
    def is_enum(self):
        return self.k == "adt" and self.j.get("kind") == "enum"

    def field_tys(self, v=0):
        if self.k == "tuple":
            return self.elems
        if self.k in ("closure", "coroutine"):
            return self.upvars
        vs = self.variants
        if vs is None:
            return None
        return [self.crate.ty(f["ty"]) for f in vs[v]["fields"]]

    def field_names(self, v=0):
        vs = self.variants
        return [f["name"] for f in vs[v]["fields"]] if vs else None

    def variant_index(self, name):
        for i, v in enumerate(self.variants):
            if v["name"] == name:
                return i
        raise KeyError(name)

    def last(self):
        return self.path.split("::")[-1] if self.k == "adt" else self.k

    def __repr__(self):
        return "Ty(%s)" % self.s


class Fn:
    def __init__(self, crate, j):
        self.crate, self.j = crate, j
        self.path = j["path"]
        self.name = j["name"] or self.path.split("::")[-1]
        self.body = j["body"]
        self._loops = None
        self._locals = None
        self._lits = None

    @property
    def argc(self):
        return self.body["argc"]

    @property
    def blocks(self):
        return self.body["blocks"]

    def literals(self):
        """the integer literals that something is compared with in this function"""
        if self._lits is None:
            out = []

            def rec(x):
                if isinstance(x, dict):
                    if x.get("k") == "bin" and x.get("op") in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                        for o in (x["l"], x["r"]):
                            n = o["c"].get("int") if o.get("k") == "const" else None
                            if isinstance(n, int) and not isinstance(n, bool) and 1 < n < 1 << 32 and n not in out:
                                out.append(n)
                    for y in x.values():
                        rec(y)
                elif isinstance(x, list):
                    for y in x:
                        rec(y)
            rec(self.blocks)
            self._lits = out[:6]
        return self._lits

    def local_ty(self, i):
        return self.crate.ty(self.body["locals"][i])

    def local_name(self, i):
        if self._locals is None:
            self._locals = {}
            for n in self.body["names"]:
                if not n["p"]["p"]:
                    self._locals.setdefault(n["p"]["l"], n["n"])
        return self._locals.get(i)

    def where(self):
        return "%s::%s" % (self.crate.name, self.path)

    def __repr__(self):
        return "Fn(%s)" % self.where()

    # ---- control flow
    @staticmethod
    def succ(t):
        k = t["k"]
        if k in ("goto",):
            return [t["t"]]
        if k == "switch":
            return [x[1] for x in t["ts"]] + ([t["o"]] if t.get("o") is not None else [])
        if k in ("drop", "call", "assert"):
            return [t["t"]] if t.get("t") is not None else []
        if k == "yield":
            return [t["t"]]
        if k in ("falseedge", "falseunwind"):
            return [t["t"]]
        return []

    def loops(self):
        """natural loops: dict head -> set(blocks)"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        succ = [self.succ(b["t"]) for b in self.blocks]
        color = [0] * n
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                elif color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                stack.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                pred[v].append(u)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pred[x])
        self._loops = loops
        return loops


class Crate:
    def __init__(self, prog, name, j):
        self.prog, self.name = prog, name
        self.types = j["types"]
        self._tys = {}
        every = [Fn(self, f) for f in j["fns"]]
        self.fns = [f for f in every if not f.j.get("ext")]
        self.ext = {f.path: f for f in every if f.j.get("ext")}     # functions of the standard library
        self.by_path = {}
        for f in every:
            if f.body:
                self.by_path.setdefault(f.path, f)

    def ty(self, i):
        t = self._tys.get(i)
        if t is None:
            t = self._tys[i] = Ty(self, i)
        return t


class Program:
    def __init__(self, d):
        self.crates = {}
        self.shims = None
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            name = os.path.basename(f)[:-5]
            c = Crate(self, name, json.load(open(f)))
            if name == "shims":
                self.shims = c
            else:
                self.crates[name] = c
        if not self.crates:
            raise RuntimeError("no MIR dump in " + d)
        self._drops = None

    def find(self, crate, **kw):
        """functions of a crate with the given attributes of the dump"""
        out = []
        for f in self.crates[crate].fns:
            if not f.body:
                continue
            if all(f.j.get(k) == v for k, v in kw.items()):
                out.append(f)
        return out

    def drop_impl(self, adt_path, crate):
        if self._drops is None:
            self._drops = {}
            for c in self.crates.values():
                for f in c.fns:
                    if f.body and f.name == "drop" and (f.j.get("impl_trait") or "").endswith("Drop"):
                        self._drops[(c.name, f.j.get("impl_self_path"))] = f
        return self._drops.get((crate, adt_path))
