"""Symbolic execution of MIR, function by function, with loops cut at inferred invariants."""
import time

import z3

from smt import Smt
from val import *
import val


class Abort(Exception):
    """the analysis of a root gives up (time)"""


class St:
    __slots__ = ("heap", "pc", "g", "trace", "depth")

    def __init__(self):
        self.heap, self.pc, self.g, self.trace, self.depth = {}, [], {}, (), 0

    def fork(self):
        s = St()
        s.heap, s.pc, s.g, s.trace, s.depth = dict(self.heap), list(self.pc), dict(self.g), self.trace, self.depth
        return s

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = z3.simplify(c)
        if not z3.is_true(c):
            self.pc.append(c)
        return self

    def note(self, s):
        self.trace = (self.trace, s)

    def notes(self):
        out = []
        t = self.trace
        while t:
            t, s = t
            out.append(s)
        return out[::-1]


class Ob:
    """a named obligation; aggregated over all paths"""

    def __init__(self, name, props, where):
        self.name, self.props, self.where = name, props, where
        self.paths = 0
        self.proved = 0
        self.failed = None  # (status, trace, model text)


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.id = ident()

    def cell(self, i):
        return ("l", self.id, i)


LOGGING = True


class Ex:
    """one verification run"""

    def __init__(self, prog, lib, budget=240):
        self.prog, self.lib = prog, lib
        self.smt = Smt()
        self.obs = {}
        self.suppress = 0
        self.fnstack = []
        self.functions = {}
        self.deadline = time.time() + budget
        self.spec = None
        self.panic_props = ()
        self.loop_info = []
        self.assumed = set()
        self.summaries = {}
        self.paths = 0
        self.opaque_hits = {}
        self.warm = {}
        self.notes = []

    # ---------------------------------------------------------------- obligations
    def tick(self):
        if time.time() > self.deadline:
            raise Abort("time budget used up")

    def oblige(self, st, props, name, cond, where=None):
        """check that cond holds on this path, then assume it"""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if not self.suppress and props:
            self.tick()
            key = (name, where)
            ob = self.obs.get(key)
            if ob is None:
                ob = self.obs[key] = Ob(name, tuple(props), where)
            else:
                ob.props = tuple(sorted(set(ob.props) | set(props)))
            ob.paths += 1
            r = self.smt.prove(st.pc, cond)
            if r == "unknown":
                r = self.smt.prove(st.pc, cond, timeout=30000)
            if r == "proved":
                ob.proved += 1
            elif ob.failed is None or (ob.failed[0] == "unknown" and r == "failed"):
                ob.failed = (r, st.notes(), str(self.smt.model)[:6000] if self.smt.model is not None else "")
        st.assume(cond)
        return st

    def feasible(self, st, c=None):
        return self.smt.feasible(st.pc, c)

    def split(self, st, cond):
        """[(state, bool)] for the feasible sides of cond"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        if self.feasible(st, c):
            s = st.fork()
            s.assume(c)
            out.append((s, True))
        n = z3.Not(c)
        if self.feasible(st, n):
            s = st.fork()
            s.assume(n)
            out.append((s, False))
        return out

    def known(self, st, cond):
        return self.smt.prove(st.pc, cond) == "proved"

    # ---------------------------------------------------------------- fresh values
    def in_range(self, ty, t):
        if ty is None or ty.k != "int":
            return z3.BoolVal(True)
        b = ty.j["bits"]
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty.j["signed"] else (0, (1 << b) - 1)
        return z3.And(t >= lo, t <= hi)

    def fresh(self, st, ty, hint="v"):
        k = ty.k
        if k == "int":
            t = fint(hint)
            st.assume(self.in_range(ty, t))
            return t
        if k == "bool":
            return fbool(hint)
        if k == "char":
            t = fint(hint)
            st.assume(t >= 0)
            return t
        if k in ("tuple", "closure"):
            return Struct(ty, [self.fresh(st, t, hint) for t in ty.field_tys()])
        if k == "adt":
            sp = self.lib.fresh_adt(self, st, ty, hint)
            if sp is not None:
                return sp
            if ty.is_enum:
                if ty.variants is None:
                    return Opq(ty, fint(hint))
                tag = fint(hint + ".tag")
                st.assume(z3.And(tag >= 0, tag < len(ty.variants)))
                pay = {i: tuple(self.fresh(st, t, hint) for t in ty.field_tys(i)) for i in range(len(ty.variants))}
                return Enum(ty, tag, pay)
            if ty.variants is not None:
                return Struct(ty, [self.fresh(st, t, hint + "." + n) for t, n in zip(ty.field_tys(), ty.field_names())])
            return Opq(ty, fint(hint))
        if k in ("array", "slice"):
            n = I(ty.j["len"]) if k == "array" and ty.j.get("len") is not None else fint(hint + ".len")
            st.assume(n >= 0)
            return Seq(ty, ty.inner, n, n, ())
        if k in ("ref", "ptr"):
            inner = ty.inner
            c = ("h", ident())
            st.heap[c] = self.fresh(st, inner, hint)
            return Ptr(c)
        return Opq(ty, fint(hint))

    # ---------------------------------------------------------------- places
    def get(self, st, v, path):
        """value at path inside v; may fork: [(st, value)]"""
        outs = [(st, v)]
        for p in path:
            nxt = []
            for s, x in outs:
                nxt.extend(self.get1(s, x, p))
            outs = nxt
        return outs

    def get1(self, st, v, p):
        k = p[0]
        if v is MOVED or v is None:
            raise Unsupported("use of a moved value")
        if k == "f":
            if isinstance(v, Struct):
                if p[1] >= len(v.fields):
                    raise Unsupported("field %d of %r" % (p[1], v))
                return [(st, v.fields[p[1]])]
            if isinstance(v, Opq):
                return [(st, self.lib.opaque_field(self, st, v, p))]
            raise Unsupported("field of %r" % (v,))
        if k == "v":
            if not isinstance(v, Enum):
                raise Unsupported("downcast of %r" % (v,))
            return [(st, Struct(None, v.pay.get(p[1], ()), "variant"))]
        if k == "slice":
            _, a, n = p
            segs = move(clip(v.segs, a, simp(a + n)), simp(-a))
            return [(st, Seq(v.ty, v.ety, n, n, segs))]
        if k == "elem":
            return self.elem(st, v, p[1])
        if k == "mapval":
            return [(st, self.lib.map_get(self, st, v, p[1]))]
        raise Unsupported("projection " + str(k))

    def set(self, st, v, path, new):
        """v with the value at path replaced"""
        if not path:
            return new
        p, rest = path[0], path[1:]
        k = p[0]
        if k == "f":
            if not isinstance(v, Struct):
                raise Unsupported("field write into %r" % (v,))
            fs = list(v.fields)
            fs[p[1]] = self.set(st, fs[p[1]], rest, new)
            return Struct(v.ty, fs, v.tag)
        if k == "v":
            if not isinstance(v, Enum):
                raise Unsupported("variant write into %r" % (v,))
            pay = dict(v.pay)
            inner = Struct(None, pay.get(p[1], ()), "variant")
            pay[p[1]] = self.set(st, inner, rest, new).fields
            return Enum(v.ty, v.tag, pay)
        if k == "slice":
            _, a, n = p
            outs = self.get1(st, v, p)
            sub = self.set(st, outs[0][1], rest, new)
            return self.seq_write(v, a, n, sub)
        if k == "elem":
            if rest:
                outs = self.elem(st, v, p[1])
                if len(outs) != 1 or outs[0][0] is not st:
                    raise Unsupported("ambiguous element update")
                new = self.set(st, outs[0][1], rest, new)
            return self.seq_write(v, p[1], I(1), Seq(None, v.ety, I(1), I(1), [(I(0), I(1), self.gen_of(new))]))
        if k == "mapval":
            if rest:
                new = self.set(st, self.lib.map_get(self, st, v, p[1]), rest, new)
            return self.lib.map_put(self, st, v, p[1], new)
        raise Unsupported("projection write " + str(k))

    def gen_of(self, v):
        t = v.term if isinstance(v, Opq) else (v if is_int(v) else None)
        if t is not None and z3.is_app(t) and t.decl().eq(MSG):
            return Stream(t.arg(0), t.arg(1))
        return One(v)

    def seq_write(self, v, a, n, src):
        """v with [a, a+n) replaced by the first n elements of src"""
        segs = without(v.segs, a, simp(a + n)) + move(clip(src.segs, I(0), n), a)
        return v.with_(segs=segs)

    def gen_elem(self, st, g, off, ety):
        if isinstance(g, Stream):
            s, p = g.at(off)
            t = MSG(s, simp(p))
            if ety is not None and ety.k == "int":
                st.assume(self.in_range(ety, t))
                return t
            return Opq(ety, t)
        if isinstance(g, (One, Const)):
            return g.v
        if isinstance(g, EncBuf):
            k = simp(g.k + off)
            n = simp(PS(k + 1) - PS(k))
            st.assume(n >= 1)
            cap = fint("cap")
            st.assume(z3.And(cap >= n, cap <= (1 << 63) - 1))
            return Seq(ety, self.lib.u8(self), n, cap, [(I(0), n, Stream(I(SRC_OUT), PS(k)))])
        if isinstance(g, EmptyBufs):
            cap = fint("cap")
            st.assume(cap >= 0)
            return Seq(ety, self.lib.u8(self), I(0), cap, ())
        raise Unsupported("element of %r" % (g,))

    def elem(self, st, v, i):
        if isinstance(v, Struct) and v.tag == "arcs":
            return [(st, self.lib.arc_get(self, st, v, i))]
        if not isinstance(v, Seq):
            raise Unsupported("index into %r" % (v,))
        out = []
        rest = st
        for lo, hi, g in v.segs:
            c = z3.And(lo <= i, i < hi)
            sides = self.split(rest, c)
            nrest = None
            for s, yes in sides:
                if yes:
                    if type(g).__name__ in ("MapG", "Refs"):
                        out.extend(g.at(self, s.fork(), simp(i - lo)))
                    else:
                        out.append((s, self.gen_elem(s, g, simp(i - lo), v.ety)))
                else:
                    nrest = s
            rest = nrest
            if rest is None:
                break
        if rest is not None:
            if v.ety is None:
                raise Unsupported("element of unknown type")
            out.append((rest, self.fresh(rest, v.ety, "elem")))
        return out

    def load(self, st, ptr):
        if isinstance(ptr, Struct) and len(ptr.fields) == 1:      # Pin, Box, Arc wrappers
            return self.load(st, ptr.fields[0])
        if not isinstance(ptr, Ptr):
            raise Unsupported("deref of %r" % (ptr,))
        if ptr.cell not in st.heap:
            raise Unsupported("dangling pointer %r" % (ptr,))
        return self.get(st, st.heap[ptr.cell], ptr.path)

    def load1(self, st, ptr):
        """load that must not fork"""
        outs = self.load(st, ptr)
        if len(outs) != 1:
            raise Ambiguous(st, ptr)
        s, v = outs[0]
        if s is not st:
            st.pc = s.pc
        return v

    def store(self, st, ptr, v):
        if isinstance(ptr, Struct) and len(ptr.fields) == 1:
            return self.store(st, ptr.fields[0], v)
        if not isinstance(ptr, Ptr):
            raise Unsupported("store through %r" % (ptr,))
        if not ptr.path:
            st.heap[ptr.cell] = v
        else:
            st.heap[ptr.cell] = self.set(st, st.heap[ptr.cell], ptr.path, v)

    def alloc(self, st, v):
        c = ("h", ident())
        st.heap[c] = v
        return Ptr(c)

    def addr(self, st, fr, pl):
        """the place as a pointer: [(st, Ptr)]"""
        outs = [(st, Ptr(fr.cell(pl["l"])))]
        for e in pl["p"]:
            k = e["k"]
            nxt = []
            for s, p in outs:
                if k == "deref":
                    for s2, v in self.load(s, p):
                        if isinstance(v, Struct) and v.tag == "box":
                            v = v.fields[0]
                        if not isinstance(v, Ptr):
                            v = self.lib.deref_value(self, s2, v)
                        nxt.append((s2, v))
                elif k == "field":
                    nxt.append((s, Ptr(p.cell, p.path + (("f", e["i"]),))))
                elif k == "downcast":
                    nxt.append((s, Ptr(p.cell, p.path + (("v", e["v"]),))))
                elif k == "index":
                    i = s.heap[fr.cell(e["l"])]
                    nxt.append((s, Ptr(p.cell, p.path + (("elem", i),))))
                elif k == "cindex":
                    if e["from_end"]:
                        n = self.seq_at(s, p).len
                        nxt.append((s, Ptr(p.cell, p.path + (("elem", simp(n - e["off"])),))))
                    else:
                        nxt.append((s, Ptr(p.cell, p.path + (("elem", I(e["off"])),))))
                elif k == "subslice":
                    n = self.seq_at(s, p).len
                    to = simp(n - e["to"]) if e["from_end"] else I(e["to"])
                    nxt.append((s, Ptr(p.cell, p.path + (("slice", I(e["from"]), simp(to - e["from"])),))))
                else:
                    raise Unsupported("place projection " + k)
            outs = nxt
        return outs

    def seq_at(self, st, ptr):
        v = self.load1(st, ptr)
        if isinstance(v, Ptr):
            return self.seq_at(st, v)
        if not isinstance(v, Seq):
            raise Unsupported("sequence expected, got %r" % (v,))
        return v

    # ---------------------------------------------------------------- operands, rvalues
    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            pl = o["p"]
            outs = []
            if not pl["p"]:
                c = fr.cell(pl["l"])
                if c not in st.heap:
                    raise Unsupported("read of uninitialised local _%d in %s" % (pl["l"], fr.fn.path))
                v = st.heap[c]
                if k == "move" and not is_term(v) and not isinstance(v, (FnV,)):
                    st.heap[c] = MOVED
                return [(st, v)]
            for s, p in self.addr(st, fr, pl):
                for s2, v in self.load(s, p):
                    if k == "move" and not is_term(v) and not isinstance(v, (FnV, Ptr)):
                        self.store(s2, p, MOVED)
                    outs.append((s2, v))
            return outs
        if k == "const":
            return [(st, self.constant(st, fr, o["c"]))]
        if k == "rtcheck":
            return [(st, z3.BoolVal(True))]
        raise Unsupported("operand " + k)

    def constant(self, st, fr, c):
        ty = fr.fn.crate.ty(c["ty"])
        if "fn" in c:
            return FnV(c["fn"], fr.fn.crate)
        if "int" in c:
            if ty.k == "bool":
                return z3.BoolVal(bool(c["int"]))
            return z3.IntVal(c["int"])
        if "promoted" in c:
            key = ("p", fr.fn.crate.name, c["of"], c["promoted"])
            if key not in st.heap:
                owner = fr.fn.crate.by_path.get(c["of"], fr.fn)
                pr = owner.j["promoted"][c["promoted"]]
                val_ = self.eval_promoted(st, owner, pr)
                st.heap[key] = val_
            v = st.heap[key]
            return v
        if ty.k == "tuple" and not ty.elems:
            return Struct(ty, ())
        if c.get("zst") or ty.k in ("adt",) and ty.variants is not None and not ty.is_enum and not ty.field_tys():
            return self.zst(st, ty)
        if ty.k == "int":
            t = fint("const")
            st.assume(self.in_range(ty, t))
            return t
        return self.lib.opaque_const(self, st, ty, c)

    def zst(self, st, ty):
        if ty.k == "tuple":
            return Struct(ty, [self.zst(st, t) for t in ty.elems])
        if ty.k == "closure":
            return Struct(ty, ())
        if ty.k == "adt" and ty.variants is not None and not ty.is_enum:
            return Struct(ty, [self.zst(st, t) for t in ty.field_tys()])
        return Opq(ty, I(0))

    def eval_promoted(self, st, owner, body):
        class PF:
            pass
        pf = PF()
        pf.crate, pf.body, pf.path = owner.crate, body, owner.path + "::promoted"
        pf.blocks = body["blocks"]
        pf.argc = 0
        pf.loops = lambda: {}
        pf.local_ty = lambda i: owner.crate.ty(body["locals"][i])
        pf.j = owner.j
        fr = Frame(pf)
        outs = self.run_blocks(st, fr, 0, None)
        rets = [o for o in outs if o[0] == "ret"]
        if len(rets) != 1:
            raise Unsupported("promoted constant")
        s, v = rets[0][1], rets[0][2]
        st.heap = s.heap
        st.pc = s.pc
        return v

    def as_int(self, v):
        if is_bool(v):
            return z3.If(v, I(1), I(0))
        return v

    def binop(self, st, op, l, r, ty):
        if isinstance(l, Ptr) or isinstance(r, Ptr) or isinstance(l, V) or isinstance(r, V):
            raise Unsupported("binary operator %s on %r" % (op, l))
        if op in ("Eq", "Ne"):
            e = l == r
            return e if op == "Eq" else z3.Not(e)
        if op in ("Lt", "Le", "Gt", "Ge"):
            l, r = self.as_int(l), self.as_int(r)
            return {"Lt": l < r, "Le": l <= r, "Gt": l > r, "Ge": l >= r}[op]
        if is_bool(l):
            return {"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[op](l, r)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            x = {"Add": l + r, "Sub": l - r, "Mul": l * r}[base]
            x = simp(x)
            if op.endswith("WithOverflow"):
                return Struct(None, [self.wrap(ty, x), z3.Not(self.in_range(ty, x))], "tuple")
            return self.wrap(ty, x)
        if base in ("Div", "Rem"):
            if not ty.j.get("signed"):
                return simp(l / r) if base == "Div" else simp(l % r)
        if base in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
            l, r = simp(l), simp(r)
            if z3.is_int_value(l) and z3.is_int_value(r):
                a, b = l.as_long(), r.as_long()
                return I({"Shl": a << b, "Shr": a >> b, "BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[base] & ((1 << ty.j["bits"]) - 1))
            if z3.is_int_value(r) and base == "Shr" and not ty.j.get("signed"):
                return simp(l / I(1 << r.as_long()))
            if z3.is_int_value(r) and base == "Shl" and not ty.j.get("signed"):
                return self.wrap(ty, simp(l * I(1 << r.as_long())))
            if base == "BitAnd" and z3.is_int_value(r) and (r.as_long() + 1) & r.as_long() == 0:
                return simp(l % I(r.as_long() + 1))
            t = fint("bits")
            st.assume(self.in_range(ty, t))
            return t
        raise Unsupported("binary operator " + op)

    def wrap(self, ty, x):
        """machine value of the mathematical result x"""
        if z3.is_int_value(x):
            n, b = x.as_long(), ty.j["bits"]
            n %= 1 << b
            if ty.j["signed"] and n >= 1 << (b - 1):
                n -= 1 << b
            return I(n)
        return z3.If(self.in_range(ty, x), x, self._mod(ty, x))

    def _mod(self, ty, x):
        b = ty.j["bits"]
        if ty.j["signed"]:
            return (x + (1 << (b - 1))) % (1 << b) - (1 << (b - 1))
        return x % (1 << b)

    def discr(self, v):
        if isinstance(v, Enum):
            vs = v.ty.variants if v.ty is not None else None
            if isinstance(v.tag, int):
                return I(vs[v.tag]["discr"] if vs else v.tag)
            if vs and any(x["discr"] != i for i, x in enumerate(vs)):
                e = I(vs[-1]["discr"])
                for i in range(len(vs) - 2, -1, -1):
                    e = z3.If(v.tag == i, I(vs[i]["discr"]), e)
                return e
            return v.tag
        raise Unsupported("discriminant of %r" % (v,))

    def rvalue(self, st, fr, r, dest_ty):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k in ("ref", "rawptr"):
            outs = []
            for s, p in self.addr(st, fr, r["p"]):
                outs.append((s, p))
            return outs
        if k == "bin":
            outs = []
            ty = fr.fn.crate.ty(r["ty"])
            for s, a in self.operand(st, fr, r["l"]):
                for s2, b in self.operand(s, fr, r["r"]):
                    outs.append((s2, self.binop(s2, r["op"], a, b, ty)))
            return outs
        if k == "un":
            outs = []
            for s, a in self.operand(st, fr, r["o"]):
                if r["op"] == "Not":
                    if is_bool(a):
                        outs.append((s, z3.Not(a)))
                    else:
                        raise Unsupported("integer not")
                elif r["op"] == "Neg":
                    outs.append((s, simp(-a)))
                elif r["op"] == "PtrMetadata":
                    v = self.load1(s, a)
                    outs.append((s, v.len if isinstance(v, Seq) else fint("meta")))
                else:
                    raise Unsupported("unary " + r["op"])
            return outs
        if k == "discr":
            outs = []
            for s, p in self.addr(st, fr, r["p"]):
                for s2, v in self.load(s, p):
                    outs.append((s2, self.discr(v)))
            return outs
        if k == "cast":
            outs = []
            ty = fr.fn.crate.ty(r["ty"])
            for s, a in self.operand(st, fr, r["o"]):
                if r["c"].startswith("IntToInt"):
                    if isinstance(a, Enum):
                        a = self.discr(a)
                    a = self.as_int(a)
                    outs.append((s, self.wrap(ty, simp(a)) if ty.k == "int" else a))
                elif "Pointer" in r["c"] or "PtrToPtr" in r["c"] or "Transmute" in r["c"] or "Subtype" in r["c"]:
                    outs.append((s, a))
                else:
                    raise Unsupported("cast " + r["c"])
            return outs
        if k == "agg":
            outs = [(st, [])]
            for o in r["ops"]:
                nxt = []
                for s, vs in outs:
                    for s2, v in self.operand(s, fr, o):
                        nxt.append((s2, vs + [v]))
                outs = nxt
            ty = fr.fn.crate.ty(r["ty"])
            res = []
            for s, vs in outs:
                a = r["a"]
                if a == "array":
                    segs = [(I(i), I(i + 1), self.gen_of(v)) for i, v in enumerate(vs)]
                    res.append((s, Seq(ty, ty.inner, I(len(vs)), I(len(vs)), segs)))
                elif a in ("tuple", "closure", "coroutine"):
                    res.append((s, Struct(ty, vs)))
                elif a == "adt":
                    if ty.is_enum:
                        res.append((s, Enum(ty, r["v"], {r["v"]: tuple(vs)})))
                    else:
                        res.append((s, Struct(ty, vs)))
                else:
                    raise Unsupported("aggregate " + a)
            return res
        if k == "repeat":
            outs = []
            for s, v in self.operand(st, fr, r["o"]):
                n = I(r["n"])
                outs.append((s, Seq(None, None, n, n, [(I(0), n, Const(v))])))
            return outs
        raise Unsupported("rvalue " + k + " " + str(r.get("s", "")))

    # ---------------------------------------------------------------- functions
    def exec_fn(self, st, fn, args):
        """inline a function: [(st, value)]"""
        self.tick()
        if st.depth > 40:
            raise Unsupported("recursion")
        fr = Frame(fn)
        self.functions.setdefault(fn.where(), 0)
        self.functions[fn.where()] += 1
        st = st.fork()
        st.depth += 1
        for i, a in enumerate(args):
            st.heap[fr.cell(i + 1)] = a
        self.fnstack.append(fn)
        try:
            outs = self.run_blocks(st, fr, 0, None)
        finally:
            self.fnstack.pop()
        res = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                s.depth -= 1
                for c in [c for c in s.heap if c[0] == "l" and c[1] == fr.id]:
                    del s.heap[c]
                res.append((s, o[2]))
            elif o[0] == "dropped":
                res.append((o[1], DROPPED))
        if len(res) > 1 and getattr(self.spec, "joins", False) and self.spec.join_at(self, fn):
            from loops import join
            live = {c[1] for c in ()}
            res = join(self, res)
        return res

    def run_blocks(self, st, fr, bb, loop):
        """run from block bb. loop: None or (head, body): stop at the back edge and at exits.
        returns [('ret', st, v) | ('back', st) | ('exit', st, bb) | ('dropped', st)]"""
        out = []
        work = [(st, bb, True)]
        loops = fr.fn.loops()
        while work:
            self.tick()
            st, bb, first = work.pop()
            if loop is not None:
                if bb == loop[0] and not first:
                    out.append(("back", st))
                    continue
                if bb not in loop[1]:
                    out.append(("exit", st, bb))
                    continue
            if bb in loops and not (loop is not None and bb == loop[0]):
                from loops import run_loop
                for o in run_loop(self, st, fr, bb, loops[bb]):
                    if o[0] == "exit":
                        work.append((o[1], o[2], False))
                    else:
                        out.append(o)
                continue
            for o in self.run_block(st, fr, bb):
                if o[0] == "goto":
                    work.append((o[1], o[2], False))
                else:
                    out.append(o)
        return out

    def run_block(self, st, fr, bb):
        b = fr.fn.blocks[bb]
        states = [st]
        for s in b["s"]:
            nxt = []
            for x in states:
                nxt.extend(self.statement(x, fr, s))
            states = nxt
        res = []
        for x in states:
            res.extend(self.terminator(x, fr, b["t"]))
        return res

    def statement(self, st, fr, s):
        k = s["k"]
        if k == "assign":
            outs = []
            pl = s["p"]
            for s1, v in self.rvalue(st, fr, s["r"], None):
                if not pl["p"]:
                    s1.heap[fr.cell(pl["l"])] = v
                    outs.append(s1)
                else:
                    for s2, p in self.addr(s1, fr, pl):
                        self.store(s2, p, v)
                        outs.append(s2)
            return outs
        if k == "dead":
            st.heap.pop(fr.cell(s["l"]), None)
            return [st]
        if k == "live":
            return [st]
        if k == "setdiscr":
            for s2, p in self.addr(st, fr, s["p"]):
                v = self.load1(s2, p)
                self.store(s2, p, Enum(v.ty, s["v"], v.pay))
                return [s2]
        if k == "intrinsic":
            return [st]
        raise Unsupported("statement " + k)

    def where(self, fr, t):
        return "%s (%s)" % (t.get("sp", "?"), fr.fn.name)

    def terminator(self, st, fr, t):
        k = t["k"]
        if k in ("goto", "falseedge", "falseunwind"):
            return [("goto", st, t["t"])]
        if k == "return":
            v = st.heap.get(fr.cell(0))
            if v is None:
                v = Struct(None, (), "unit")
            return [("ret", st, v)]
        if k == "switch":
            outs = []
            for s, d in self.operand(st, fr, t["d"]):
                outs.extend(self.switch(s, fr, t, d))
            return outs
        if k == "assert":
            outs = []
            for s, c in self.operand(st, fr, t["c"]):
                cond = c if t["e"] else z3.Not(c)
                self.oblige(s, self.panic_props, "no panic: " + str(t["m"])[:60], cond, self.where(fr, t))
                if self.feasible(s):
                    outs.append(("goto", s, t["t"]))
            return outs
        if k == "drop":
            outs = []
            pl = t["p"]
            if not pl["p"] and fr.cell(pl["l"]) not in st.heap:
                return [("goto", st, t["t"])]
            for s, p in self.addr(st, fr, pl):
                v = s.heap.get(p.cell) if not p.path else self.load1(s, p)
                for s2 in self.drop_value(s, v, p):
                    if not p.path:
                        s2.heap[p.cell] = MOVED
                    outs.append(("goto", s2, t["t"]))
            return outs
        if k == "call":
            return self.call_term(st, fr, t)
        if k == "unreachable":
            return []
        if k == "yield":
            outs = []
            dropping = st.g.get("dropping")
            if dropping is None or not z3.is_true(dropping):
                s1 = st.fork()
                s1.heap[self.place_cell(fr, t["arg"])] = Opq("resume", I(0))
                outs.append(("goto", s1, t["t"]))
            elif t.get("drop") is not None:
                s2 = st.fork()
                s2.note("future dropped while pending at " + self.where(fr, t))
                outs.append(("goto", s2, t["drop"]))
            return outs
        if k == "coroutinedrop":
            return [("dropped", st)]
        if k in ("resume", "terminate"):
            return []
        raise Unsupported("terminator " + k)

    def place_cell(self, fr, pl):
        if pl["p"]:
            raise Unsupported("yield into a projection")
        return fr.cell(pl["l"])

    def switch(self, st, fr, t, d):
        if is_bool(d):
            d = simp(d)
            # ts is [[0, bb]]
            z = dict((x[0], x[1]) for x in t["ts"])
            fb, tb = z.get(0, t.get("o")), z.get(1, t.get("o"))
            outs = []
            for s, yes in self.split(st, d):
                outs.append(("goto", s, tb if yes else fb))
            return outs
        d = simp(d)
        if z3.is_int_value(d):
            n = d.as_long()
            for val_, bb in t["ts"]:
                if val_ == n:
                    return [("goto", st, bb)]
            return [("goto", st, t["o"])] if t.get("o") is not None else []
        outs = []
        rest = []
        for val_, bb in t["ts"]:
            c = d == val_
            rest.append(d != val_)
            if self.feasible(st, c):
                s = st.fork()
                s.assume(c)
                outs.append(("goto", s, bb))
        if t.get("o") is not None:
            c = z3.And(*rest) if rest else z3.BoolVal(True)
            ob = fr.fn.blocks[t["o"]]
            if not (ob["t"]["k"] == "unreachable" and not ob["s"]):
                if self.feasible(st, c):
                    s = st.fork()
                    s.assume(c)
                    outs.append(("goto", s, t["o"]))
        return outs

    # ---------------------------------------------------------------- calls
    def call_term(self, st, fr, t):
        outs = [(st, [])]
        for o in t["a"]:
            nxt = []
            for s, vs in outs:
                for s2, v in self.operand(s, fr, o):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        res = []
        for s, args in outs:
            if t["f"]["k"] == "const" and "fn" in t["f"]["c"]:
                ref = t["f"]["c"]["fn"]
                rs = self.call(s, ref, fr.fn.crate, args, self.where(fr, t))
            else:
                rs = []
                for s2, f in self.operand(s, fr, t["f"]):
                    rs.extend(self.call_value(s2, f, args, self.where(fr, t)))
            for s2, v in rs:
                if v is DROPPED:
                    res.append(("dropped", s2))
                    continue
                if t.get("t") is None:
                    continue
                d = t["d"]
                if not d["p"]:
                    s2.heap[fr.cell(d["l"])] = v
                    res.append(("goto", s2, t["t"]))
                else:
                    for s3, p in self.addr(s2, fr, d):
                        self.store(s3, p, v)
                        res.append(("goto", s3, t["t"]))
        return res

    def find_local(self, ref, crate, args):
        """the body of the callee, if it is in the repository"""
        cr = ref.get("resolved_crate") or ref.get("crate")
        path = ref.get("resolved") or ref["path"]
        c = self.prog.crates.get(cr)
        if c is None:
            return None
        f = c.by_path.get(path)
        if f is not None:
            return f
        if cr != crate.name:
            # paths of other crates are printed through their public reexports
            tail = path.split("::")[-1]
            selfty = None
            if "self" in ref:
                selfty = crate.ty(ref["self"]).last()
            cands = [g for g in c.fns if g.body and g.name == tail and (selfty is None or g.j.get("impl_self") == selfty)]
            if len(cands) == 1:
                return cands[0]
        return None

    splitting = 0

    def call(self, st, ref, crate, args, where):
        self.tick()
        before = st.fork()
        try:
            outs = self.lib.call(self, st, ref, crate, args, where)
        except Ambiguous as e:
            # decide which element it is, then call again
            if e.st is not st:
                raise
            cases = self.load(before, e.ptr)
            if len(cases) < 2 or self.splitting > 3:
                raise
            self.splitting += 1
            try:
                outs = []
                for s, _ in cases:
                    outs.extend(self.call(s.fork(), ref, crate, args, where))
            finally:
                self.splitting -= 1
            return outs
        if outs is not None:
            return outs
        f = self.find_local(ref, crate, args) or crate.ext.get(ref.get("resolved") or ref["path"])
        if f is not None:
            return self.call_fn(st, f, args, where)
        if ref.get("ctor"):
            return [(st, self.construct(ref, crate, args))]
        raise Unsupported("call of %s" % (ref.get("resolved") or ref["path"]))

    def construct(self, ref, crate, args):
        """a variant or struct constructor used as a function"""
        from lib import norm
        n, path = ref["name"], norm(ref["path"])
        std = {"Some": 1, "Ok": 0, "Err": 1, "Ready": 0}
        if ref.get("crate") in ("core", "std", "alloc"):
            if n not in std:
                raise Unsupported("constructor " + path)
            return Enum(None, std[n], {std[n]: tuple(args)})
        for i, t in enumerate(crate.types):
            if t["k"] != "adt" or not t.get("variants"):
                continue
            ty = crate.ty(i)
            p = norm(ty.path)
            if path == p or path.split("::")[:-1] == p.split("::") or path.split("::")[-2:-1] == [ty.last()]:
                names = [v["name"] for v in t["variants"]]
                if n in names and t.get("kind", "enum") != "struct" and len(names) > 1:
                    j = names.index(n)
                    return Enum(ty, j, {j: tuple(args)})
        raise Unsupported("constructor " + path)

    def call_fn(self, st, f, args, where):
        if self.spec is not None:
            r = self.spec.call_fn(self, st, f, args, where)
            if r is not None:
                return r
        return self.exec_fn(st, f, args)

    def call_value(self, st, f, args, where=""):
        """call a closure or function value"""
        if isinstance(f, FnV):
            return self.call(st, f.ref, f.crate, list(args), where)
        if isinstance(f, Ptr):
            v = self.load1(st, f)
            if isinstance(v, (FnV, Ptr)):
                return self.call_value(st, v, args, where)
            if isinstance(v, Struct) and v.ty is not None and v.ty.k == "closure":
                fn = v.ty.crate.by_path.get(v.ty.path)
                if fn is None:
                    raise Unsupported("closure body " + v.ty.path)
                self_ref = fn.local_ty(1).k == "ref"
                return self.exec_fn(st, fn, [f if self_ref else v] + self.untuple(fn, args))
            raise Unsupported("call of %r" % (v,))
        if isinstance(f, Struct) and f.ty is not None and f.ty.k == "closure":
            fn = f.ty.crate.by_path.get(f.ty.path)
            if fn is None:
                raise Unsupported("closure body " + f.ty.path)
            if fn.local_ty(1).k == "ref":
                st = st.fork()
                p = self.alloc(st, f)
                outs = self.exec_fn(st, fn, [p] + self.untuple(fn, args))
                res = []
                for s, v in outs:
                    cv = s.heap.get(p.cell)
                    for s2 in self.drop_value(s, cv, p):
                        res.append((s2, v))
                return res
            return self.exec_fn(st, fn, [f] + self.untuple(fn, args))
        raise Unsupported("call of value %r" % (f,))

    def untuple(self, fn, args):
        return list(args)

    # ---------------------------------------------------------------- drops
    def needs_drop(self, v):
        if v is MOVED or v is None or is_term(v) or isinstance(v, (Ptr, FnV)):
            return False
        return True

    def drop_value(self, st, v, ptr=None):
        if not self.needs_drop(v):
            return [st]
        h = self.lib.on_drop(self, st, v)
        if h is not None:
            return h
        if isinstance(v, Struct):
            states = [st]
            if v.ty is not None and v.ty.k == "adt":
                d = self.prog.drop_impl(self.adt_local_path(v.ty), v.ty.j["crate"])
                if d is not None:
                    if ptr is None:
                        st = st.fork()
                        ptr = self.alloc(st, v)
                    states = []
                    for s, _ in self.exec_fn(st, d, [ptr]):
                        states.append(s)
                    nxt = []
                    for s in states:
                        nv = self.load1(s, ptr)
                        nxt.extend(self.drop_fields(s, nv.fields))
                    return nxt
            return self.drop_fields(st, v.fields)
        if isinstance(v, Enum):
            if isinstance(v.tag, int):
                return self.drop_fields(st, v.pay.get(v.tag, ()))
            res = []
            pend = []
            for i, fs in v.pay.items():
                if any(self.drop_matters(f) for f in fs):
                    pend.append(i)
            if not pend:
                return [st]
            for i in pend:
                c = v.tag == i
                if self.feasible(st, c):
                    s = st.fork()
                    s.assume(c)
                    res.extend(self.drop_fields(s, v.pay[i]))
            c = z3.And(*[v.tag != i for i in pend])
            if self.feasible(st, c):
                s = st.fork()
                s.assume(c)
                res.append(s)
            return res
        return [st]

    def adt_local_path(self, ty):
        return ty.path

    def drop_matters(self, v):
        if not self.needs_drop(v):
            return False
        if self.lib.drop_hook(self, v):
            return True
        if isinstance(v, Struct):
            if v.ty is not None and v.ty.k == "adt" and self.prog.drop_impl(v.ty.path, v.ty.j["crate"]):
                return True
            return any(self.drop_matters(f) for f in v.fields)
        if isinstance(v, Enum):
            return any(self.drop_matters(f) for fs in v.pay.values() for f in fs)
        return False

    def drop_fields(self, st, fields):
        states = [st]
        for f in fields:
            if not self.drop_matters(f):
                continue
            nxt = []
            for s in states:
                nxt.extend(self.drop_value(s, f))
            states = nxt
        return states


class _Dropped:
    def __repr__(self):
        return "DROPPED"


DROPPED = _Dropped()
