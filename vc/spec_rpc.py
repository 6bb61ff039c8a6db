"""What the rpc specifications share: messages, control codes, channels, wakers."""
import z3

from spec_base import Spec, Missing
from val import *
from lib import ok, err, unit, some, none, ready, pending
from libsync import K, OptTy

T, F = z3.BoolVal(True), z3.BoolVal(False)
MID = z3.Function("message_id", z3.IntSort(), z3.IntSort())
CODE = z3.Function("control_code", z3.IntSort(), z3.IntSort())
OWNER = z3.Function("owner", z3.IntSort(), z3.IntSort())     # the id of the rpc a sender belongs to
CODES = ("Normal", "Cancel", "End")
U64 = (1 << 64) - 1
CRATE = "protosocket_rpc"


class Rpc(Spec):
    discrete_loops = True
    joins = False
    crate = CRATE

    # ------------------------------------------------------------ loops
    def pending(self, st):
        m = st.g.get("mon")
        return m is not None

    def on_back(self, ex, st, was_pending):
        if st.g.get("mon") is not None and not was_pending:
            self.settle(ex, st, "end of the iteration")

    def settle(self, ex, st, where):
        st.g["mon"] = None

    # ------------------------------------------------------------ types
    def ty(self, ex, name, crate=CRATE):
        c = ex.prog.crates.get(crate)
        for i, t in enumerate(c.types if c else ()):
            if t["k"] == "adt" and t.get("path", "").split("::")[-1].split("<")[0] == name and t.get("crate") == crate:
                return c.ty(i)
        raise Missing("no type %s in %s" % (name, crate))

    def variant(self, ty, name):
        for i, v in enumerate(ty.variants):
            if v["name"] == name:
                return i
        raise Missing("no variant %s of %s" % (name, ty.s))

    def fields(self, v):
        return dict(zip(v.ty.field_names(), v.fields))

    def field(self, v, name):
        n = list(v.ty.field_names())
        if name not in n:
            raise Missing("no field %s" % name)
        return n.index(name)

    def objects(self, ex, st, v, tag, path=(), seen=None):
        """[(pointer or None, value)] of the modelled objects with a tag inside a value, through Arcs"""
        out = []

        def rec(cell, path, v):
            if isinstance(v, Struct):
                if v.tag == tag:
                    out.append((Ptr(cell, path), v))
                if v.tag == "arc":
                    q = v.fields[0]
                    rec(q.cell, q.path, ex.load1(st, q))
                    return
                for i, x in enumerate(v.fields):
                    rec(cell, path + (("f", i),), x)
            elif isinstance(v, Enum) and isinstance(v.tag, int):
                for i, x in enumerate(v.pay.get(v.tag, ())):
                    rec(cell, path + (("v", v.tag), ("f", i)), x)
        rec(v.cell, v.path, ex.load1(st, v))
        return out

    # ------------------------------------------------------------ messages
    def codes(self, ex):
        ty = self.ty(ex, "ProtosocketControlCode")
        return {n: self.variant(ty, n) for n in CODES}, ty

    def message(self, ex, st, src, i, ty=None):
        return Opq(ty or "message", MSG(I(src), i))

    def facts(self, ex, st, t):
        codes, ty = self.codes(ex)
        st.assume(z3.And(MID(t) >= 0, MID(t) <= U64, CODE(t) >= 0, CODE(t) < len(ty.variants)))

    def mterm(self, ex, st, v):
        for _ in range(6):
            if isinstance(v, Opq):
                return v.term
            if isinstance(v, Ptr):
                v = ex.load1(st, v)
            elif isinstance(v, Struct) and len(v.fields) == 1:
                v = v.fields[0]
        raise Unsupported("message expected: %r" % (v,))

    def made(self, ex, st, code, mid, ty=None):
        codes, cty = self.codes(ex)
        t = fint("control")
        st.assume(z3.And(MID(t) == mid, CODE(t) == codes[code]))
        return Opq(ty or "message", t)

    def env(self, ex, st, sn, ref, crate, args, where):
        n, path = ref["name"], ref["path"]
        tr = (ref.get("trait") or "").split("<")[0].split("::")[-1]
        if tr == "Message":
            if n in ("message_id", "control_code", "set_message_id"):
                t = self.mterm(ex, st, args[0])
                self.facts(ex, st, t)
                self.touched(ex, st, t, where)
                if n == "message_id":
                    return [(st, MID(t))]
                if n == "control_code":
                    cty = self.codes(ex)[1]
                    out = []
                    for i in range(len(cty.variants)):
                        if ex.feasible(st, CODE(t) == i):
                            s = st.fork()
                            s.assume(CODE(t) == i)
                            s.note("message with control code " + cty.variants[i]["name"])
                            out.append((s, Enum(cty, i, {j: () for j in range(len(cty.variants))})))
                    return out
                new = fint("msg")
                st.assume(z3.And(MID(new) == args[1], CODE(new) == CODE(t)))
                p = args[0]
                v = ex.load1(st, p)
                ex.store(st, p, Opq(v.ty, new))
                return [(st, unit())]
            if n == "cancelled":
                return [(st, self.made(ex, st, "Cancel", args[0]))]
            if n == "ended":
                return [(st, self.made(ex, st, "End", args[0]))]
        if sn == "Context::waker":
            return [(st, ex.alloc(st, Opq("Waker", I(0))))]
        if sn == "Context::from_waker":
            return [(st, Opq("Context", I(0)))]
        if sn in ("Waker::wake_by_ref", "Waker::wake"):
            w = args[0]
            for _ in range(3):
                w = ex.load1(st, w) if isinstance(w, Ptr) else w
            if isinstance(w, Struct) and w.tag == "taken waker":
                self.wake_taken(ex, st, w.fields[0])
                return [(st, unit())]
            st.g["woken"] = T
            st.note("wake")
            return [(st, unit())]
        if tr == "Clone":
            v = args[0]
            if isinstance(v, Ptr):
                v = ex.load1(st, v)
            if isinstance(v, Opq):
                return [(st, v)]
        return self.env2(ex, st, sn, tr, n, path, ref, crate, args, where)

    def env2(self, ex, st, sn, tr, n, path, ref, crate, args, where):
        return None

    def touched(self, ex, st, t, where):
        pass

    def is_error(self, ex, v, name):
        """v is the rpc error of that name"""
        if not isinstance(v, Enum) or v.ty is None:
            return F
        i = self.variant(v.ty, name)
        return B(v.tag == i) if isinstance(v.tag, int) else v.tag == i
