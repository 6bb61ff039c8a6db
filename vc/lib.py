"""Contracts (trusted) for the parts of the standard library that the repository uses.

Dispatch is on the called path and on the values, so any use of a modelled function is
understood wherever it appears. What is not modelled raises Unsupported.
The environment (sockets, channels, codecs, user traits) is modelled by the specification
objects (spec_*.py) through their `env` hook, which is asked first.
"""
import re

import z3

from val import *
import val
from core import DROPPED

U64 = (1 << 64) - 1
ISIZE = (1 << 63) - 1


OWN_MIR = ("std::option::Option::<", "std::result::Result::<", "std::task::Poll::<")
NOT_OWN = ("as_ref", "as_mut", "unwrap_or_default", "as_deref", "as_deref_mut", "iter", "iter_mut")


def norm(path):
    s = path
    # drop generic arguments ::<...> with nesting
    out = []
    i = 0
    while i < len(s):
        if s.startswith("::<", i):
            d = 0
            j = i + 2
            while j < len(s):
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    s = "".join(out)
    return s


def short(path):
    p = norm(path).split("::")
    return "::".join(p[-2:])


def unit():
    return Struct(None, (), None)


def some(v):
    return Enum(None, 1, {1: (v,), 0: ()})


def none():
    return Enum(None, 0, {0: (), 1: ()})


def ok(v):
    return Enum(None, 0, {0: (v,)})


def err(v):
    return Enum(None, 1, {1: (v,)})


def ready(v):
    return Enum(None, 0, {0: (v,), 1: ()})


def pending():
    return Enum(None, 1, {0: (), 1: ()})


EKIND = z3.Function("kind", z3.IntSort(), z3.IntSort())


class MapG:
    """element j is f(element base + j of the iterator)"""
    __slots__ = ("it", "f", "base")

    def __init__(self, it, f, base=None):
        self.it, self.f, self.base = it, f, I(0) if base is None else base

    def shift(self, n):
        return MapG(self.it, self.f, simp(self.base + n))

    def at(self, ex, st, off):
        res = []
        for s, x in ex.lib.it_at(ex, st, self.it, simp(self.base + off)):
            if self.f is None:
                res.append((s, x))
            else:
                res.extend(ex.call_value(s, self.f, [x], "iterator closure"))
        return res


class Lib:
    def __init__(self):
        self.assumed = {}

    # ------------------------------------------------------------ hooks of the core
    def u8(self, ex):
        for c in ex.prog.crates.values():
            for i, t in enumerate(c.types):
                if t["k"] == "int" and t["s"] == "u8":
                    return c.ty(i)
        return None

    def fresh_adt(self, ex, st, ty, hint):
        n = ty.last()
        if n in ("Vec", "VecDeque", "String"):
            ln, cap = fint(hint + ".len"), fint(hint + ".cap")
            st.assume(z3.And(ln >= 0, cap >= ln, cap <= ISIZE))
            return Seq(ty, ty.args[0] if ty.args else None, ln, cap, ())
        if n == "Pin":
            return Struct(None, [ex.fresh(st, ty.args[0], hint)], "pin")
        if ex.spec is not None and hasattr(ex.spec, "fresh_adt"):
            return ex.spec.fresh_adt(ex, st, ty, hint)
        return None

    def opaque_field(self, ex, st, v, p):
        if v.ty == "fmt":
            return v
        raise Unsupported("field %s of %r" % (p, v))

    def opaque_const(self, ex, st, ty, c):
        if ty.k == "ref":
            return ex.alloc(st, Opq(ty.inner, fint("const")))
        if ty.k == "adt" and ty.is_enum and ty.variants is not None and "variant" in c:
            return Enum(ty, c["variant"], {c["variant"]: ()})
        return Opq(ty, fint("const"))

    def deref_value(self, ex, st, v):
        if isinstance(v, Opq) and v.ty == "fmt":
            return ex.alloc(st, v)
        if isinstance(v, Struct) and v.fields and isinstance(v.fields[0], Ptr):
            return v.fields[0]
        if isinstance(v, Struct) and v.fields and isinstance(v.fields[0], Struct):
            return self.deref_value(ex, st, v.fields[0])
        if ex.spec is not None and hasattr(ex.spec, "deref"):
            r = ex.spec.deref(ex, st, v)
            if r is not None:
                return r
        raise Unsupported("deref of %r" % (v,))

    def map_get(self, ex, st, m, k):
        return ex.spec.map_get(ex, st, m, k)

    def map_put(self, ex, st, m, k, v):
        return ex.spec.map_put(ex, st, m, k, v)

    def map_havoc(self, ex, st, m):
        return Map(m.kty, m.vty, z3.Const("L.pres!%d" % ident(), m.pres.sort()),
                   [z3.Const("L.col!%d" % ident(), c.sort()) for c in m.cols])

    def arc_get(self, ex, st, v, i):
        return ex.spec.arc_get(ex, st, v, i)

    def on_drop(self, ex, st, v):
        if ex.spec is not None and hasattr(ex.spec, "on_drop"):
            r = ex.spec.on_drop(ex, st, v)
            if r is not None:
                return r
        if isinstance(v, (Seq, Opq, Map)):
            return [st]
        return None

    def drop_hook(self, ex, v):
        return ex.spec is not None and hasattr(ex.spec, "drop_hook") and ex.spec.drop_hook(ex, v)

    # ------------------------------------------------------------ dispatch
    def call(self, ex, st, ref, crate, args, where):
        path = ref["path"]
        sn = short(path)
        if ex.spec is not None:
            r = ex.spec.env(ex, st, sn, ref, crate, args, where)
            if r is not None:
                return r
        rc = ref.get("resolved_crate") or ref.get("crate")
        if rc in ex.prog.crates and ex.find_local(ref, crate, args) is not None:
            return None
        if path.startswith(("log::", "core::fmt", "std::fmt")):
            return self.logging(ex, st, sn, ref, crate, args)
        if "panicking" in path or sn in ("panic::panic_fmt", "rt::panic_fmt", "result::unwrap_failed"):
            ex.oblige(st, ex.panic_props, "no panic: " + sn, z3.BoolVal(False), where)
            return []
        if path.startswith(OWN_MIR) and path in crate.ext and ref["name"] not in NOT_OWN:
            return None                     # its own MIR is executed
        h = getattr(self, "f_" + sn.replace("::", "_"), None)
        if h is None and "trait" in ref:
            tn = ref["trait"].split("::")[-1].split("<")[0]
            h = getattr(self, "f_%s_%s" % (tn, ref["name"]), None)
        if h is None:
            pn = norm(path)
            if pn.startswith(("core::num::", "std::num::")):
                h = getattr(self, "f_num_" + ref["name"], None)
            elif "slice::" in pn:
                h = getattr(self, "f_slice_" + ref["name"], None)
            elif "str::" in pn:
                h = None
        if h is None:
            return self.shim(ex, st, ref, sn, args, where)
        return h(ex, st, args, ref, crate, where)

    def shim(self, ex, st, ref, sn, args, where):
        """the definition of a library function in shims.rs"""
        sh = ex.prog.shims
        if sh is None or ref.get("crate") not in ("core", "alloc", "std"):
            return None
        names = [sn.replace("::", "_")]
        if "trait" in ref:
            names.append("%s_%s" % (ref["trait"].split("::")[-1].split("<")[0], ref["name"]))
        if "slice::" in norm(ref["path"]):
            names.append("slice_" + ref["name"])
        for n in names:
            f = sh.by_path.get(n)
            if f is not None:
                return ex.exec_fn(st, f, args)
        return None

    def logging(self, ex, st, sn, ref, crate, args):
        return [(st, Opq("fmt", I(0)) if sn != "__private_api::log" else unit())]

    # ------------------------------------------------------------ helpers
    def cases(self, ex, st, e):
        """[(state, variant, payload)]"""
        if not isinstance(e, Enum):
            raise Unsupported("enum expected: %r" % (e,))
        if isinstance(e.tag, int):
            return [(st, e.tag, e.pay.get(e.tag, ()))]
        out = []
        for i in sorted(e.pay):
            c = e.tag == i
            if ex.feasible(st, c):
                s = st.fork()
                s.assume(c)
                out.append((s, i, e.pay[i]))
        return out

    def seq(self, ex, st, p):
        """(ptr, Seq) behind a reference (to a reference) to a sequence"""
        for _ in range(6):
            if isinstance(p, Struct) and len(p.fields) == 1:
                p = p.fields[0]
                continue
            v = ex.load1(st, p)
            if isinstance(v, Seq):
                return p, v
            if isinstance(v, Ptr):
                p = v
                continue
            if isinstance(v, Struct) and len(v.fields) == 1:
                p = v.fields[0]
                continue
            break
        raise Unsupported("sequence expected")

    def grown(self, ex, st, v, n):
        """capacity after making room for length n"""
        if ex.known(st, n <= v.cap):
            return v.cap, True
        c = fint("cap")
        st.assume(z3.And(z3.Implies(n <= v.cap, c == v.cap), c >= n, c >= v.cap, c <= ISIZE))
        return c, False

    def append(self, ex, st, v, n, segs):
        """v with n elements appended; segs are relative to the first new element"""
        end = simp(v.len + n)
        cap, fits = self.grown(ex, st, v, end)
        old = without(v.segs, v.len, end) if fits else clip(v.segs, I(0), v.len)
        return v.with_(len=end, cap=cap, segs=old + move(segs, v.len))

    def one_seg(self, ex, v):
        return [(I(0), I(1), ex.gen_of(v))]

    def empty(self, ty, st=None):
        c = I(0)
        return Seq(ty, ty.args[0] if ty is not None and ty.args else None, I(0), c, ())

    def self_ty(self, ref, crate):
        return crate.ty(ref["self"]) if "self" in ref else None

    # ------------------------------------------------------------ Vec, VecDeque, slices
    def f_Vec_new(self, ex, st, args, ref, crate, where):
        return [(st, self.empty(self.self_ty(ref, crate)))]

    f_VecDeque_new = f_Vec_new
    f_String_new = f_Vec_new

    def f_Vec_with_capacity(self, ex, st, args, ref, crate, where):
        c = fint("cap")
        st.assume(z3.And(c >= args[0], c <= U64))
        v = self.empty(self.self_ty(ref, crate))
        v = v.with_(cap=c)
        if hasattr(ex.spec, "on_with_capacity"):
            ex.spec.on_with_capacity(ex, st, v, args[0])
        return [(st, v)]

    f_VecDeque_with_capacity = f_Vec_with_capacity

    def f_Vec_len(self, ex, st, args, ref, crate, where):
        return [(st, self.seq(ex, st, args[0])[1].len)]

    f_VecDeque_len = f_slice_len = f_String_len = f_Vec_len

    def f_Vec_capacity(self, ex, st, args, ref, crate, where):
        return [(st, self.seq(ex, st, args[0])[1].cap)]

    f_VecDeque_capacity = f_Vec_capacity

    def f_Vec_is_empty(self, ex, st, args, ref, crate, where):
        return [(st, self.seq(ex, st, args[0])[1].len == 0)]

    f_VecDeque_is_empty = f_slice_is_empty = f_Vec_is_empty

    def f_Vec_push(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        ex.store(st, p, self.append(ex, st, v, I(1), self.one_seg(ex, args[1])))
        return [(st, unit())]

    f_VecDeque_push_back = f_Vec_push

    def f_VecDeque_push_front(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        cap, _ = self.grown(ex, st, v, simp(v.len + 1))
        segs = self.one_seg(ex, args[1]) + move(clip(v.segs, I(0), v.len), 1)
        ex.store(st, p, v.with_(len=simp(v.len + 1), cap=cap, segs=segs))
        return [(st, unit())]

    def take_at(self, ex, st, p, v, i, rebuild):
        out = []
        for s, yes in ex.split(st, v.len > 0):
            s = s if s is not st else st.fork()
            if not yes:
                out.append((s, none()))
                continue
            for s2, x in ex.elem(s, v, i):
                s2 = s2.fork() if s2 is s else s2
                ex.store(s2, p, rebuild())
                out.append((s2, some(x)))
        return out

    def f_Vec_pop(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        n = simp(v.len - 1)
        return self.take_at(ex, st, p, v, n, lambda: v.with_(len=n, segs=clip(v.segs, I(0), n)))

    f_VecDeque_pop_back = f_Vec_pop

    def f_VecDeque_pop_front(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        n = simp(v.len - 1)
        return self.take_at(ex, st, p, v, I(0), lambda: v.with_(len=n, segs=move(clip(v.segs, I(1), v.len), -1)))

    def f_Vec_remove(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        i = args[1]
        ex.oblige(st, ex.panic_props, "no panic: remove index in bounds", i < v.len, where)
        out = []
        n = simp(v.len - 1)
        for s, x in ex.elem(st, v, i):
            s = s.fork()
            ex.store(s, p, v.with_(len=n, segs=clip(v.segs, I(0), i) + move(clip(v.segs, simp(i + 1), v.len), -1)))
            out.append((s, x))
        return out

    def f_VecDeque_remove(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        out = []
        for s, yes in ex.split(st, args[1] < v.len):
            if not yes:
                out.append((s.fork(), none()))
            else:
                for s2, x in self.f_Vec_remove(ex, s.fork(), args, ref, crate, where):
                    out.append((s2, some(x)))
        return out

    def f_Vec_insert(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        i = args[1]
        ex.oblige(st, ex.panic_props, "no panic: insert index in bounds", i <= v.len, where)
        cap, _ = self.grown(ex, st, v, simp(v.len + 1))
        segs = clip(v.segs, I(0), i) + move(self.one_seg(ex, args[2]), i) + move(clip(v.segs, i, v.len), 1)
        ex.store(st, p, v.with_(len=simp(v.len + 1), cap=cap, segs=segs))
        return [(st, unit())]

    def f_Vec_clear(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        ex.store(st, p, v.with_(len=I(0), segs=v.segs if self.plain(v) else ()))
        return [(st, unit())]

    f_VecDeque_clear = f_Vec_clear

    def plain(self, v):
        return v.ety is not None and v.ety.k == "int"

    def f_Vec_truncate(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        ex.store(st, p, v.with_(len=zmin(v.len, args[1])))
        return [(st, unit())]

    f_VecDeque_truncate = f_Vec_truncate

    def f_Vec_reserve(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        ex.oblige(st, ex.panic_props, "no panic: capacity overflow", v.len + args[1] <= ISIZE, where)
        cap, fits = self.grown(ex, st, v, simp(v.len + args[1]))
        ex.store(st, p, v.with_(cap=cap, segs=v.segs if fits else clip(v.segs, I(0), v.len)))
        return [(st, unit())]

    f_VecDeque_reserve = f_Vec_reserve_exact = f_Vec_reserve

    def f_Vec_set_len(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        ex.oblige(st, getattr(ex.spec, "setlen_props", ()) or ex.panic_props,
                  "set_len stays within the capacity", args[1] <= v.cap, where)
        ex.store(st, p, v.with_(len=args[1]))
        return [(st, unit())]

    def f_Vec_extend_from_slice(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        _, s = self.seq(ex, st, args[1])
        ex.store(st, p, self.append(ex, st, v, s.len, clip(s.segs, I(0), s.len)))
        return [(st, unit())]

    def f_Vec_append(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        q, s = self.seq(ex, st, args[1])
        ex.store(st, p, self.append(ex, st, v, s.len, clip(s.segs, I(0), s.len)))
        ex.store(st, q, s.with_(len=I(0), segs=()))
        return [(st, unit())]

    f_VecDeque_append = f_Vec_append

    def f_Vec_resize(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        n = args[1]
        out = []
        for s, yes in ex.split(st, n > v.len):
            s = s.fork()
            if yes:
                add = simp(n - v.len)
                ex.store(s, p, self.append(ex, s, v, add, [(I(0), add, Const(args[2]))]))
            else:
                ex.store(s, p, v.with_(len=n))
            out.append((s, unit()))
        return out

    def f_vec_from_elem(self, ex, st, args, ref, crate, where):
        x, n = args
        cap = fint("cap")
        st.assume(z3.And(cap >= n))
        return [(st, Seq(None, crate.ty(ref["args"][0]) if ref.get("args") else None, n, cap, [(I(0), n, Const(x))]))]

    def f_Vec_shrink_to_fit(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        cap = fint("cap")
        st.assume(z3.And(cap >= v.len, cap <= v.cap))
        ex.store(st, p, v.with_(cap=cap))
        return [(st, unit())]

    f_Vec_shrink_to = f_VecDeque_shrink_to_fit = f_VecDeque_shrink_to = f_Vec_shrink_to_fit

    def f_slice_fill(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        ex.store(st, p, v.with_(segs=[(I(0), v.len, Const(args[1]))]))
        return [(st, unit())]

    def f_VecDeque_make_contiguous(self, ex, st, args, ref, crate, where):
        return [(st, args[0])]

    def f_Vec_into_boxed_slice(self, ex, st, args, ref, crate, where):
        return [(st, args[0])]

    def f_slice_to_vec(self, ex, st, args, ref, crate, where):
        _, v = self.seq(ex, st, args[0])
        return [(st, Seq(None, v.ety, v.len, v.len, clip(v.segs, I(0), v.len)))]

    def f_slice_into_vec(self, ex, st, args, ref, crate, where):
        _, v = self.seq(ex, st, args[0])
        return [(st, v)]

    f_ToOwned_to_owned = f_slice_to_vec

    def f_slice_reverse(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        segs = []
        for lo, hi, g in clip(v.segs, I(0), v.len):
            a, b = simp(v.len - hi), simp(v.len - lo)
            if isinstance(g, Stream):
                n = simp(hi - lo - 1)
                segs.insert(0, (a, b, Stream(g.src, simp(g.pos + n if g.d == 1 else g.pos - n), -g.d)))
            elif isinstance(g, (One, Const, EmptyBufs)):
                segs.insert(0, (a, b, g))
        ex.store(st, p, v.with_(segs=segs))
        return [(st, unit())]

    def bounds(self, ex, st, r, n, where):
        """(lo, hi) of a range value, with the obligations of slicing"""
        name = r.ty.last() if isinstance(r, (Struct,)) and r.ty is not None else None
        if name is None and isinstance(r, Opq):
            name = "RangeFull"
        if name == "RangeFull":
            return I(0), n
        if name == "Range":
            lo, hi = r.fields[0], r.fields[1]
        elif name == "RangeFrom":
            lo, hi = r.fields[0], n
        elif name == "RangeTo":
            lo, hi = I(0), r.fields[0]
        elif name == "RangeToInclusive":
            lo, hi = I(0), simp(r.fields[0] + 1)
        elif name == "RangeInclusive":
            lo, hi = r.fields[0], simp(r.fields[1] + 1)
        else:
            raise Unsupported("range %r" % (r,))
        ex.oblige(st, ex.panic_props, "no panic: slice range in bounds", z3.And(lo <= hi, hi <= n), where)
        return lo, hi

    def f_Index_index(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        if is_term(args[1]):
            ex.oblige(st, ex.panic_props, "no panic: index in bounds", args[1] < v.len, where)
            return [(st, Ptr(p.cell, p.path + (("elem", args[1]),)))]
        lo, hi = self.bounds(ex, st, args[1], v.len, where)
        if z3.is_true(simp(z3.And(lo == 0, hi == v.len))) and False:
            return [(st, p)]
        return [(st, self.subslice(p, lo, simp(hi - lo)))]

    f_IndexMut_index_mut = f_Index_index

    def subslice(self, p, lo, n):
        if p.path and p.path[-1][0] == "slice":
            a = p.path[-1][1]
            return Ptr(p.cell, p.path[:-1] + (("slice", simp(a + lo), n),))
        return Ptr(p.cell, p.path + (("slice", lo, n),))

    def f_slice_get(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        out = []
        if is_term(args[1]):
            for s, yes in ex.split(st, z3.And(args[1] >= 0, args[1] < v.len)):
                s = s.fork()
                out.append((s, some(Ptr(p.cell, p.path + (("elem", args[1]),))) if yes else none()))
            return out
        name = args[1].ty.last() if args[1].ty is not None else ""
        f = args[1].fields
        lo, hi = {"Range": lambda: (f[0], f[1]), "RangeFrom": lambda: (f[0], v.len),
                  "RangeTo": lambda: (I(0), f[0])}.get(name, lambda: (None, None))()
        if lo is None:
            raise Unsupported("get with a range")
        for s, yes in ex.split(st, z3.And(lo <= hi, hi <= v.len)):
            s = s.fork()
            out.append((s, some(self.subslice(p, lo, simp(hi - lo))) if yes else none()))
        return out

    f_slice_get_mut = f_VecDeque_get = f_VecDeque_get_mut = f_Vec_get = f_slice_get

    def f_slice_first(self, ex, st, args, ref, crate, where):
        return self.f_slice_get(ex, st, [args[0], I(0)], ref, crate, where)

    f_VecDeque_front = f_VecDeque_front_mut = f_slice_first_mut = f_slice_first

    def f_slice_last(self, ex, st, args, ref, crate, where):
        _, v = self.seq(ex, st, args[0])
        return self.f_slice_get(ex, st, [args[0], simp(v.len - 1)], ref, crate, where)

    f_VecDeque_back = f_VecDeque_back_mut = f_slice_last_mut = f_slice_last

    def f_slice_split_at(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        i = args[1]
        ex.oblige(st, ex.panic_props, "no panic: split index in bounds", i <= v.len, where)
        return [(st, Struct(None, [self.subslice(p, I(0), i), self.subslice(p, i, simp(v.len - i))]))]

    f_slice_split_at_mut = f_slice_split_at

    def f_slice_copy_within(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        lo, hi = self.bounds(ex, st, args[1], v.len, where)
        d = args[2]
        n = simp(hi - lo)
        ex.oblige(st, ex.panic_props, "no panic: copy_within in bounds", d + n <= v.len, where)
        src = v.with_(segs=move(clip(v.segs, lo, hi), simp(-lo)))
        ex.store(st, p, ex.seq_write(v, d, n, src))
        return [(st, unit())]

    def f_slice_copy_from_slice(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        _, s = self.seq(ex, st, args[1])
        ex.oblige(st, ex.panic_props, "no panic: copy_from_slice lengths", v.len == s.len, where)
        ex.store(st, p, v.with_(segs=clip(s.segs, I(0), s.len)))
        return [(st, unit())]

    f_slice_clone_from_slice = f_slice_copy_from_slice

    def f_slice_swap(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        out = []
        for s, a in ex.elem(st, v, args[1]):
            for s2, b in ex.elem(s, v, args[2]):
                s2 = s2.fork()
                w = ex.set(s2, v, (("elem", args[1]),), b)
                w = ex.set(s2, w, (("elem", args[2]),), a)
                ex.store(s2, p, w)
                out.append((s2, unit()))
        return out

    def f_Vec_drain(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        lo, hi = self.bounds(ex, st, args[1], v.len, where)
        n = simp(hi - lo)
        d = Seq(None, v.ety, n, n, move(clip(v.segs, lo, hi), simp(-lo)))
        rest = clip(v.segs, I(0), lo) + move(clip(v.segs, hi, v.len), simp(-n))
        ex.store(st, p, v.with_(len=simp(v.len - n), segs=rest))
        return [(st, Struct(None, [d, I(0)], "it_own"))]

    f_VecDeque_drain = f_Vec_drain

    def f_Vec_split_off(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        i = args[1]
        ex.oblige(st, ex.panic_props, "no panic: split index in bounds", i <= v.len, where)
        n = simp(v.len - i)
        ex.store(st, p, v.with_(len=i, segs=clip(v.segs, I(0), i)))
        return [(st, Seq(v.ty, v.ety, n, n, move(clip(v.segs, i, v.len), simp(-i))))]

    f_VecDeque_split_off = f_Vec_split_off

    def ident_ptr(self, ex, st, args, ref, crate, where):
        if isinstance(args[0], Ptr):
            vs = ex.load(st, args[0])
            if all(isinstance(v, Seq) for _, v in vs):
                return [(st, args[0])]
        p, v = self.seq(ex, st, args[0])
        return [(st, p)]

    f_Vec_as_slice = f_Vec_as_mut_slice = f_slice_as_ref = f_AsRef_as_ref = f_AsMut_as_mut = ident_ptr
    f_Borrow_borrow = ident_ptr

    # ------------------------------------------------------------ iterators
    def f_Vec_iter(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        return [(st, Struct(None, [p, I(0), v.len], "it_seq"))]

    f_VecDeque_iter = f_slice_iter = f_VecDeque_iter_mut = f_slice_iter_mut = f_Vec_iter

    def f_IntoIterator_into_iter(self, ex, st, args, ref, crate, where):
        a = args[0]
        if isinstance(a, Seq):
            return [(st, Struct(None, [a, I(0)], "it_own"))]
        if isinstance(a, Ptr):
            v = ex.load1(st, a)
            if isinstance(v, Seq):
                return [(st, Struct(None, [a, I(0), v.len], "it_seq"))]
            return [(st, a)]
        if isinstance(a, Enum) and set(a.pay) <= {0, 1}:
            return [(st, Struct(None, [a], "it_opt"))]
        return [(st, a)]

    def f_Iterator_map(self, ex, st, args, ref, crate, where):
        return [(st, Struct(None, [args[0], args[1]], "it_map"))]

    def f_Iterator_take(self, ex, st, args, ref, crate, where):
        return [(st, Struct(None, [args[0], args[1]], "it_take"))]

    def f_Iterator_skip(self, ex, st, args, ref, crate, where):
        it, n = args
        if isinstance(it, Struct) and it.tag == "it_seq":
            p, lo, hi = it.fields
            return [(st, Struct(None, [p, zmin(simp(lo + n), hi), hi], "it_seq"))]
        return self.shim(ex, st, ref, "Iterator::skip", args, where)

    def f_Iterator_enumerate(self, ex, st, args, ref, crate, where):
        return [(st, Struct(None, [args[0], I(0)], "it_enum"))]

    def f_Iterator_by_ref(self, ex, st, args, ref, crate, where):
        return [(st, args[0])]

    def f_Iterator_rev(self, ex, st, args, ref, crate, where):
        it = args[0]
        if isinstance(it, Struct) and it.tag == "it_own":
            s, i = it.fields
            st2 = st
            tmp = ex.alloc(st2, Seq(None, s.ety, simp(s.len - i), s.cap, move(clip(s.segs, i, s.len), simp(-i))))
            self.f_slice_reverse(ex, st2, [tmp], ref, crate, where)
            return [(st2, Struct(None, [ex.load1(st2, tmp), I(0)], "it_own"))]
        if self.is_range(it):
            return ex.exec_fn(st, ex.prog.shims.by_path["rev_range"], list(it.fields))
        if isinstance(it, Struct) and it.tag == "it_seq":
            return [(st, Struct(None, list(it.fields), "it_rseq"))]
        raise Unsupported("rev")

    def is_range(self, it):
        return isinstance(it, Struct) and it.ty is not None and it.ty.k == "adt" and it.ty.last() == "Range"

    def f_Iterator_cloned(self, ex, st, args, ref, crate, where):
        return [(st, Struct(None, [args[0]], "it_deref"))]

    f_Iterator_copied = f_Iterator_cloned

    def it_len(self, ex, st, it):
        if isinstance(it, Ptr):
            it = ex.load1(st, it)
        if isinstance(it, Struct) and it.ty is not None and it.ty.k == "adt" and it.ty.last() == "Range":
            return simp(z3.If(it.fields[0] < it.fields[1], it.fields[1] - it.fields[0], I(0)))
        t = it.tag if isinstance(it, Struct) else None
        if t in ("it_seq", "it_rseq"):
            return simp(it.fields[2] - it.fields[1])
        if t == "it_own":
            return simp(it.fields[0].len - it.fields[1])
        if t == "it_opt":
            e = it.fields[0]
            return I(e.tag) if isinstance(e.tag, int) else simp(z3.If(e.tag == 1, I(1), I(0)))
        if t == "it_take":
            return zmin(self.it_len(ex, st, it.fields[0]), it.fields[1])
        if t in ("it_map", "it_enum", "it_deref"):
            return self.it_len(ex, st, it.fields[0])
        raise Unsupported("length of iterator %r" % (it,))

    def it_at(self, ex, st, it, i):
        """element i of an iterator (that is not consumed)"""
        if isinstance(it, Struct) and it.ty is not None and it.ty.k == "adt" and it.ty.last() == "Range":
            return [(st, simp(it.fields[0] + i))]
        t = it.tag if isinstance(it, Struct) else None
        if t == "it_seq":
            p, lo, hi = it.fields
            return [(st, Ptr(p.cell, p.path + (("elem", simp(lo + i)),)))]
        if t == "it_rseq":
            p, lo, hi = it.fields
            return [(st, Ptr(p.cell, p.path + (("elem", simp(hi - 1 - i)),)))]
        if t == "it_own":
            return ex.elem(st, it.fields[0], simp(it.fields[1] + i))
        if t == "it_take":
            return self.it_at(ex, st, it.fields[0], i)
        if t == "it_deref":
            out = []
            for s, p in self.it_at(ex, st, it.fields[0], i):
                out.extend(ex.load(s, p))
            return out
        if t == "it_map":
            out = []
            for s, x in self.it_at(ex, st, it.fields[0], i):
                out.extend(ex.call_value(s, it.fields[1], [x], "iterator closure"))
            return out
        if t == "it_enum":
            return [(s, Struct(None, [simp(it.fields[1] + i), x])) for s, x in self.it_at(ex, st, it.fields[0], i)]
        raise Unsupported("element of iterator %r" % (it,))

    def it_step(self, ex, st, it):
        """[(state, iterator after, item or None)]"""
        if isinstance(it, Ptr):
            out = []
            for s, it2, x in self.it_step(ex, st, ex.load1(st, it)):
                s = s.fork()
                ex.store(s, it, it2)
                out.append((s, it, x))
            return out
        if not isinstance(it, Struct):
            raise Unsupported("iterator %r" % (it,))
        if it.ty is not None and it.ty.k == "adt" and it.ty.last() == "Range":
            lo, hi = it.fields
            out = []
            for s, yes in ex.split(st, lo < hi):
                s = s.fork()
                out.append((s, Struct(it.ty, [simp(lo + 1), hi]), lo) if yes else (s, it, None))
            return out
        t = it.tag
        out = []
        if t == "it_seq":
            p, lo, hi = it.fields
            for s, yes in ex.split(st, lo < hi):
                s = s.fork()
                out.append((s, Struct(None, [p, simp(lo + 1), hi], t), Ptr(p.cell, p.path + (("elem", lo),))) if yes else (s, it, None))
            return out
        if t == "it_rseq":
            p, lo, hi = it.fields
            for s, yes in ex.split(st, lo < hi):
                s = s.fork()
                out.append((s, Struct(None, [p, lo, simp(hi - 1)], t), Ptr(p.cell, p.path + (("elem", simp(hi - 1)),))) if yes else (s, it, None))
            return out
        if t == "it_own":
            q, i = it.fields
            for s, yes in ex.split(st, i < q.len):
                if not yes:
                    out.append((s.fork(), it, None))
                    continue
                for s2, x in ex.elem(s, q, i):
                    out.append((s2.fork(), Struct(None, [q, simp(i + 1)], t), x))
            return out
        if t == "it_take":
            inner, n = it.fields
            for s, yes in ex.split(st, n > 0):
                if not yes:
                    out.append((s.fork(), it, None))
                    continue
                for s2, it2, x in self.it_step(ex, s, inner):
                    out.append((s2, Struct(None, [it2, simp(n - 1)], t), x))
            return out
        if t == "it_map":
            for s, it2, x in self.it_step(ex, st, it.fields[0]):
                if x is None:
                    out.append((s, Struct(None, [it2, it.fields[1]], t), None))
                    continue
                for s2, y in ex.call_value(s, it.fields[1], [x], "iterator closure"):
                    out.append((s2, Struct(None, [it2, it.fields[1]], t), y))
            return out
        if t == "it_enum":
            for s, it2, x in self.it_step(ex, st, it.fields[0]):
                i = it.fields[1]
                if x is None:
                    out.append((s, Struct(None, [it2, i], t), None))
                else:
                    out.append((s, Struct(None, [it2, simp(i + 1)], t), Struct(None, [i, x])))
            return out
        if t == "it_deref":
            for s, it2, x in self.it_step(ex, st, it.fields[0]):
                if x is None:
                    out.append((s, Struct(None, [it2], t), None))
                else:
                    for s2, v in ex.load(s, x):
                        out.append((s2, Struct(None, [it2], t), v))
            return out
        if t == "it_opt":
            for s, k, pay in self.cases(ex, st, it.fields[0]):
                s = s.fork()
                out.append((s, Struct(None, [none()], t), pay[0] if k == 1 else None))
            return out
        if ex.spec is not None and hasattr(ex.spec, "it_step"):
            r = ex.spec.it_step(ex, st, it)
            if r is not None:
                return r
        f = self.next_of(ex, it)
        if f is not None:
            p = ex.alloc(st, it)
            for s, r in ex.exec_fn(st, f, [p]):
                for s2, k, pay in self.cases(ex, s, r):
                    s2 = s2.fork()
                    out.append((s2, ex.load1(s2, p), pay[0] if k == 1 else None))
            return out
        raise Unsupported("iterator %r" % (it,))

    def next_of(self, ex, it):
        """the implementation of Iterator::next for a type of the repository (or the shims)"""
        if it.ty is None or it.ty.k != "adt":
            return None
        for f in it.ty.crate.fns:
            if f.body and f.name == "next" and f.j.get("impl_trait") == "Iterator" and f.j.get("impl_self_path") == it.ty.path:
                return f
        return None

    def f_Iterator_next(self, ex, st, args, ref, crate, where):
        p = args[0]
        if isinstance(p, Struct) and len(p.fields) == 1:
            p = p.fields[0]
        it = ex.load1(st, p)
        out = []
        for s, it2, x in self.it_step(ex, st, it):
            if not isinstance(it, Ptr):
                ex.store(s, p, it2)
            out.append((s, none() if x is None else some(x)))
        return out

    def snapshot(self, ex, st, it):
        """the iterator over a private copy of what it borrows"""
        if isinstance(it, Struct) and it.tag == "it_seq":
            p, lo, hi = it.fields
            v = ex.load1(st, p)
            c = ex.alloc(st, v)
            return Struct(None, [c, lo, hi], "it_seq")
        if isinstance(it, Struct) and it.tag in ("it_map", "it_take", "it_enum", "it_deref"):
            return Struct(None, [self.snapshot(ex, st, it.fields[0])] + list(it.fields[1:]), it.tag)
        return it

    def collect(self, ex, st, it, ety=None, ty=None):
        if isinstance(it, Struct) and it.tag == "it_own":
            q, i = it.fields
            n = simp(q.len - i)
            return Seq(ty, q.ety or ety, n, n, move(clip(q.segs, i, q.len), simp(-i)))
        it = self.snapshot(ex, st, it)
        n = self.it_len(ex, st, it)
        cap = fint("cap")
        st.assume(cap >= n)
        c = simp(n)
        if z3.is_int_value(c) and c.as_long() <= 8:
            segs = []
            for i in range(c.as_long()):
                outs = self.it_at(ex, st, it, I(i))
                if len(outs) != 1:
                    raise Unsupported("collect of a branching iterator")
                st2, x = outs[0]
                st.pc, st.heap, st.g = st2.pc, st2.heap, st2.g
                segs.append((I(i), I(i + 1), ex.gen_of(x)))
            return Seq(ty, ety, n, cap, segs)
        return Seq(ty, ety, n, cap, [(I(0), n, MapG(it, None))])

    def f_Iterator_collect(self, ex, st, args, ref, crate, where):
        ty = crate.ty(ref["args"][1]) if len(ref.get("args", ())) > 1 else None
        if ty is None or ty.k != "adt" or ty.last() not in ("Vec", "VecDeque"):
            raise Unsupported("collect into %s" % (ty,))
        if isinstance(args[0], Struct) and self.next_of(ex, args[0]) is not None:
            return ex.exec_fn(st, ex.prog.shims.by_path["collect_vec"], [args[0]])
        return [(st, self.collect(ex, st, args[0], ty.args[0], ty))]

    def f_FromIterator_from_iter(self, ex, st, args, ref, crate, where):
        ty = crate.ty(ref["args"][0])
        if ty.k != "adt" or ty.last() not in ("Vec", "VecDeque"):
            raise Unsupported("from_iter into %s" % (ty,))
        return [(st, self.collect(ex, st, args[1] if len(args) > 1 else args[0], ty.args[0], ty))]

    def f_Extend_extend(self, ex, st, args, ref, crate, where):
        p, v = self.seq(ex, st, args[0])
        it = self.f_IntoIterator_into_iter(ex, st, [args[1]], ref, crate, where)[0][1]
        if isinstance(it, Struct) and it.tag == "it_opt":
            out = []
            for s, k, pay in self.cases(ex, st, it.fields[0]):
                s = s.fork()
                if k == 1:
                    ex.store(s, p, self.append(ex, s, v, I(1), self.one_seg(ex, pay[0])))
                out.append((s, unit()))
            return out
        if isinstance(it, Struct) and it.tag == "it_seq":
            it = Struct(None, [it], "it_deref")
        if isinstance(it, Struct) and it.tag == "it_deref" and isinstance(it.fields[0], Struct) and it.fields[0].tag == "it_seq":
            q, lo, hi = it.fields[0].fields
            src = ex.load1(st, q)
            add = simp(hi - lo)
            ex.store(st, p, self.append(ex, st, v, add, move(clip(src.segs, lo, hi), simp(-lo))))
            return [(st, unit())]
        c = self.collect(ex, st, it, v.ety)
        ex.store(st, p, self.append(ex, st, v, c.len, clip(c.segs, I(0), c.len)))
        return [(st, unit())]

    def f_Iterator_sum(self, ex, st, args, ref, crate, where):
        from loops import queue_shape
        it = args[0]
        # the sum of the lengths of a window queue is known; anything else is some number
        t = fint("sum")
        st.assume(z3.And(t >= 0, t <= U64))
        return [(st, t)]

    def f_Iterator_count(self, ex, st, args, ref, crate, where):
        if isinstance(args[0], Struct) and self.next_of(ex, args[0]) is not None:
            return self.shim(ex, st, ref, "Iterator::count", args, where)
        return [(st, self.it_len(ex, st, args[0]))]

    f_ExactSizeIterator_len = f_Iterator_count

    def f_ExactSizeIterator_len(self, ex, st, args, ref, crate, where):
        return [(st, self.it_len(ex, st, ex.load1(st, args[0])))]

    def f_Iterator_for_each(self, ex, st, args, ref, crate, where):
        if hasattr(ex.spec, "for_each"):
            r = ex.spec.for_each(ex, st, args, where)
            if r is not None:
                return r
        if isinstance(args[0], Struct) and args[0].tag == "it_opt":
            out = []
            for s, k, pay in self.cases(ex, st, args[0].fields[0]):
                if k == 1:
                    out.extend((s2, unit()) for s2, _ in ex.call_value(s, args[1], [pay[0]], "iterator closure"))
                else:
                    out.append((s, unit()))
            return out
        return self.shim(ex, st, ref, "Iterator::for_each", args, where)

    def f_Iterator_try_for_each(self, ex, st, args, ref, crate, where):
        return self.try_shim(ex, st, args, ref, crate, where, 2)

    def f_Iterator_try_fold(self, ex, st, args, ref, crate, where):
        return self.try_shim(ex, st, args, ref, crate, where, 3)

    def try_shim(self, ex, st, args, ref, crate, where, i):
        a = ref.get("args", ())
        ty = crate.ty(a[i]) if len(a) > i else None
        if ty is None or ty.k != "adt":
            raise Unsupported("%s with %s" % (ref["name"], ty))
        return self.shim(ex, st, ref, "Iterator::%s_%s" % (ref["name"], ty.last()), args, where)

    # ------------------------------------------------------------ Option, Result, Poll
    def f_Option_is_some(self, ex, st, args, ref, crate, where):
        e = ex.load1(st, args[0])
        return [(st, z3.BoolVal(e.tag == 1) if isinstance(e.tag, int) else e.tag == 1)]

    f_Result_is_err = f_Poll_is_pending = f_Option_is_some

    def f_Option_is_none(self, ex, st, args, ref, crate, where):
        e = ex.load1(st, args[0])
        return [(st, z3.BoolVal(e.tag == 0) if isinstance(e.tag, int) else e.tag == 0)]

    f_Result_is_ok = f_Poll_is_ready = f_Option_is_none

    def _unwrap(self, ex, st, e, good, where):
        out = []
        for s, k, pay in self.cases(ex, st, e):
            if k == good:
                out.append((s, pay[0] if pay else unit()))
            else:
                s = s.fork()
                ex.oblige(s, ex.panic_props, "no panic: unwrap/expect", z3.BoolVal(False), where)
        return out

    def f_Option_unwrap(self, ex, st, args, ref, crate, where):
        return self._unwrap(ex, st, args[0], 1, where)

    f_Option_expect = f_Option_unwrap

    def f_Result_unwrap(self, ex, st, args, ref, crate, where):
        return self._unwrap(ex, st, args[0], 0, where)

    f_Result_expect = f_Result_unwrap

    def f_Option_unwrap_or(self, ex, st, args, ref, crate, where):
        return [(s, pay[0] if k == 1 else args[1]) for s, k, pay in self.cases(ex, st, args[0])]

    def f_Result_unwrap_or(self, ex, st, args, ref, crate, where):
        return [(s, pay[0] if k == 0 else args[1]) for s, k, pay in self.cases(ex, st, args[0])]

    def f_Option_unwrap_or_default(self, ex, st, args, ref, crate, where):
        ty = crate.ty(ref["args"][0])
        out = []
        for s, k, pay in self.cases(ex, st, args[0]):
            if k == 1:
                out.append((s, pay[0]))
            else:
                s = s.fork()
                out.append((s, self.default_of(ex, s, ty)))
        return out

    def f_Option_unwrap_or_else(self, ex, st, args, ref, crate, where):
        out = []
        for s, k, pay in self.cases(ex, st, args[0]):
            if k == 1:
                out.extend((s2, pay[0]) for s2 in ex.drop_value(s, args[1]))
            else:
                out.extend(ex.call_value(s, args[1], [], where))
        return out

    def f_Result_unwrap_or_else(self, ex, st, args, ref, crate, where):
        out = []
        for s, k, pay in self.cases(ex, st, args[0]):
            if k == 0:
                out.extend((s2, pay[0]) for s2 in ex.drop_value(s, args[1]))
            else:
                out.extend(ex.call_value(s, args[1], [pay[0]], where))
        return out

    def _map(self, ex, st, e, f, which, where, wrap):
        out = []
        for s, k, pay in self.cases(ex, st, e):
            if k == which:
                for s2, v in ex.call_value(s, f, [pay[0]] if pay else [], where):
                    out.append((s2, wrap(v)))
            else:
                for s2 in ex.drop_value(s, f):
                    out.append((s2, Enum(None, k, {0: (), 1: (), k: tuple(pay)})))
        return out

    def f_Option_map(self, ex, st, args, ref, crate, where):
        return self._map(ex, st, args[0], args[1], 1, where, some)

    def f_Result_map(self, ex, st, args, ref, crate, where):
        return self._map(ex, st, args[0], args[1], 0, where, ok)

    def f_Result_map_err(self, ex, st, args, ref, crate, where):
        return self._map(ex, st, args[0], args[1], 1, where, err)

    def f_Poll_map(self, ex, st, args, ref, crate, where):
        return self._map(ex, st, args[0], args[1], 0, where, ready)

    def f_Option_and_then(self, ex, st, args, ref, crate, where):
        return self._map(ex, st, args[0], args[1], 1, where, lambda v: v)

    def f_Result_and_then(self, ex, st, args, ref, crate, where):
        return self._map(ex, st, args[0], args[1], 0, where, lambda v: v)

    def f_Result_or_else(self, ex, st, args, ref, crate, where):
        return self._map(ex, st, args[0], args[1], 1, where, lambda v: v)

    def f_Option_or_else(self, ex, st, args, ref, crate, where):
        out = []
        for s, k, pay in self.cases(ex, st, args[0]):
            if k == 1:
                out.extend((s2, some(pay[0])) for s2 in ex.drop_value(s, args[1]))
            else:
                out.extend(ex.call_value(s, args[1], [], where))
        return out

    def f_Option_map_or(self, ex, st, args, ref, crate, where):
        out = []
        for s, k, pay in self.cases(ex, st, args[0]):
            if k == 1:
                for s2 in ex.drop_value(s, args[1]):
                    out.extend(ex.call_value(s2, args[2], [pay[0]], where))
            else:
                out.extend((s2, args[1]) for s2 in ex.drop_value(s, args[2]))
        return out

    def f_Option_is_some_and(self, ex, st, args, ref, crate, where):
        return self.f_Option_map_or(ex, st, [args[0], z3.BoolVal(False), args[1]], ref, crate, where)

    def f_Option_ok_or(self, ex, st, args, ref, crate, where):
        out = []
        for s, k, pay in self.cases(ex, st, args[0]):
            if k == 1:
                out.extend((s2, ok(pay[0])) for s2 in ex.drop_value(s, args[1]))
            else:
                out.append((s, err(args[1])))
        return out

    def f_Option_ok_or_else(self, ex, st, args, ref, crate, where):
        out = []
        for s, k, pay in self.cases(ex, st, args[0]):
            if k == 1:
                out.extend((s2, ok(pay[0])) for s2 in ex.drop_value(s, args[1]))
            else:
                out.extend((s2, err(v)) for s2, v in ex.call_value(s, args[1], [], where))
        return out

    def f_Result_ok(self, ex, st, args, ref, crate, where):
        out = []
        for s, k, pay in self.cases(ex, st, args[0]):
            if k == 0:
                out.append((s, some(pay[0])))
            else:
                for s2 in ex.drop_fields(s, pay):
                    out.append((s2, none()))
        return out

    def f_Result_err(self, ex, st, args, ref, crate, where):
        out = []
        for s, k, pay in self.cases(ex, st, args[0]):
            if k == 1:
                out.append((s, some(pay[0])))
            else:
                for s2 in ex.drop_fields(s, pay):
                    out.append((s2, none()))
        return out

    def _as_ref(self, ex, st, args, ref, crate, where):
        p = args[0]
        if isinstance(p, Struct):
            p = p.fields[0]
        e = ex.load1(st, p)
        if not isinstance(e, Enum):
            raise Unsupported("as_ref of %r" % (e,))
        pay = {}
        for k, fs in e.pay.items():
            pay[k] = tuple(Ptr(p.cell, p.path + (("v", k), ("f", i))) for i in range(len(fs)))
        return [(st, Enum(e.ty if False else None, e.tag, pay))]

    f_Option_as_ref = f_Option_as_mut = f_Result_as_ref = f_Result_as_mut = _as_ref

    def f_Option_iter(self, ex, st, args, ref, crate, where):
        return [(s, Struct(None, [e], "it_opt")) for s, e in self._as_ref(ex, st, args, ref, crate, where)]

    f_Option_iter_mut = f_Option_iter

    def f_Option_take(self, ex, st, args, ref, crate, where):
        e = ex.load1(st, args[0])
        ex.store(st, args[0], Enum(e.ty, 0, {0: (), 1: ()}))
        return [(st, e)]

    def f_Option_replace(self, ex, st, args, ref, crate, where):
        e = ex.load1(st, args[0])
        ex.store(st, args[0], Enum(e.ty, 1, {0: (), 1: (args[1],)}))
        return [(st, e)]

    def f_Option_cloned(self, ex, st, args, ref, crate, where):
        out = []
        for s, k, pay in self.cases(ex, st, args[0]):
            if k == 1:
                for s2, v in ex.load(s, pay[0]):
                    out.append((s2, some(v)))
            else:
                out.append((s, none()))
        return out

    f_Option_copied = f_Option_cloned

    def f_Try_branch(self, ex, st, args, ref, crate, where):
        e = args[0]
        ty = self.self_ty(ref, crate)
        n = ty.last() if ty is not None else "Result"
        if n == "Poll":
            return None
        out = []
        for s, k, pay in self.cases(ex, st, e):
            if n == "Option":
                out.append((s, Enum(None, 0, {0: (pay[0],)}) if k == 1 else Enum(None, 1, {1: (none(),)})))
            elif n == "Result":
                out.append((s, Enum(None, 0, {0: (pay[0] if pay else unit(),)}) if k == 0 else Enum(None, 1, {1: (err(pay[0]),)})))
            else:
                raise Unsupported("? on " + n)
        return out

    def f_FromResidual_from_residual(self, ex, st, args, ref, crate, where):
        r = args[0]
        if isinstance(r.tag, int) and r.tag == 0:
            return [(st, none())]
        e = r.pay[1][0]
        ty = self.self_ty(ref, crate)
        if ty is not None and ty.last() == "Poll":
            inner = ty.args[0].last() if ty.args else ""
            if inner not in ("Result", "Option"):
                raise Unsupported("? into %s" % ty.s)
            wrap = (lambda v: ready(err(v))) if inner == "Result" else (lambda v: ready(some(err(v))))
            return [(s, wrap(v)) for s, v in self.convert_err(ex, st, e, ref, crate, where)]
        return [(s, err(v)) for s, v in self.convert_err(ex, st, e, ref, crate, where)]

    def convert_err(self, ex, st, e, ref, crate, where):
        """the From conversion of ?: an io::Error becomes the crate's error through its From impl"""
        if hasattr(ex.spec, "convert_err"):
            return ex.spec.convert_err(ex, st, e, ref, crate, where)
        return [(st, e)]

    # ------------------------------------------------------------ Pin, references, mem
    def pinned(self, v):
        return Struct(None, [v], "pin")

    def f_Pin_new(self, ex, st, args, ref, crate, where):
        return [(st, self.pinned(args[0]))]

    f_Pin_new_unchecked = f_pin_pin_new_unchecked_in_helper = f_Pin_new

    def f_Pin_as_mut(self, ex, st, args, ref, crate, where):
        v = ex.load1(st, args[0])
        return [(st, self.pinned(self.target(v)))]

    f_Pin_as_ref = f_Pin_as_mut

    def target(self, v):
        if isinstance(v, Struct) and v.fields:
            v = v.fields[0]
            return self.target(v) if isinstance(v, Struct) else v
        return v

    def f_Pin_get_mut(self, ex, st, args, ref, crate, where):
        return [(st, self.target(args[0]))]

    f_Pin_get_unchecked_mut = f_Pin_into_inner = f_Pin_get_ref = f_Pin_into_inner_unchecked = f_Pin_get_mut

    def f_Pin_map_unchecked_mut(self, ex, st, args, ref, crate, where):
        return [(s, self.pinned(v)) for s, v in ex.call_value(st, args[1], [self.target(args[0])], where)]

    f_Pin_map_unchecked = f_Pin_map_unchecked_mut

    def f_Deref_deref(self, ex, st, args, ref, crate, where):
        p = args[0]
        vs = ex.load(st, p)
        if all(isinstance(v, Seq) for _, v in vs):
            return [(st, p)]
        if len(vs) != 1:
            raise Unsupported("ambiguous load")
        st, v = vs[0]
        if isinstance(v, Ptr):
            return [(st, v)]
        return [(st, self.deref_value(ex, st, v))]

    f_DerefMut_deref_mut = f_Deref_deref

    def f_mem_swap(self, ex, st, args, ref, crate, where):
        out = []
        for s, a in ex.load(st, args[0]):
            for s2, b in ex.load(s, args[1]):
                s2 = s2.fork()
                ex.store(s2, args[0], b)
                ex.store(s2, args[1], a)
                out.append((s2, unit()))
        return out

    def f_mem_take(self, ex, st, args, ref, crate, where):
        ty = crate.ty(ref["args"][0])
        a = ex.load1(st, args[0])
        ex.store(st, args[0], self.default_of(ex, st, ty, a))
        return [(st, a)]

    def f_mem_replace(self, ex, st, args, ref, crate, where):
        a = ex.load1(st, args[0])
        ex.store(st, args[0], args[1])
        return [(st, a)]

    def f_mem_drop(self, ex, st, args, ref, crate, where):
        return [(s, unit()) for s in ex.drop_value(st, args[0])]

    def f_mem_forget(self, ex, st, args, ref, crate, where):
        return [(st, unit())]

    def default_of(self, ex, st, ty, like=None):
        if isinstance(like, Seq):
            return Seq(like.ty, like.ety, I(0), I(0), ())
        if isinstance(like, Map):
            return Map(like.kty, like.vty, z3.K(z3.IntSort(), z3.BoolVal(False)), like.cols)
        if ty is not None:
            if ty.k == "int":
                return I(0)
            if ty.k == "bool":
                return z3.BoolVal(False)
            if ty.k == "tuple":
                return Struct(ty, [self.default_of(ex, st, t) for t in ty.elems])
            if ty.k == "adt":
                n = ty.last()
                if n in ("Vec", "VecDeque", "String"):
                    return self.empty(ty)
                if n == "Option":
                    return none()
                if n == "PhantomData":
                    return Opq(ty, I(0))
                if n == "AtomicWaker":
                    return Opq("AtomicWaker", fint("aw"))
                if hasattr(ex.spec, "default_adt"):
                    r = ex.spec.default_adt(ex, st, ty)
                    if r is not None:
                        return r
            if ty.k not in ("adt", "ref", "tuple") and hasattr(ex.spec, "default_of_param"):
                return ex.spec.default_of_param(ex, st, ty)
        raise Unsupported("default of %s" % (ty,))

    def f_Default_default(self, ex, st, args, ref, crate, where):
        return [(st, self.default_of(ex, st, self.self_ty(ref, crate)))]

    def f_Clone_clone(self, ex, st, args, ref, crate, where):
        out = []
        for s, v in ex.load(st, args[0]):
            if isinstance(v, Seq):
                v = Seq(v.ty, v.ety, v.len, v.len, clip(v.segs, I(0), v.len))
            out.append((s, v))
        return out

    def f_Into_into(self, ex, st, args, ref, crate, where):
        return [(st, args[0])]

    f_From_from = f_Into_into

    def f_convert_identity(self, ex, st, args, ref, crate, where):
        return [(st, args[0])]

    def f_TryFrom_try_from(self, ex, st, args, ref, crate, where):
        if not is_int(args[0]):
            raise Unsupported("try_from")
        ty = crate.ty(ref["args"][0])
        c = ex.in_range(ty, args[0])
        out = []
        for s, yes in ex.split(st, c):
            out.append((s.fork(), ok(args[0]) if yes else err(Opq("TryFromIntError", I(0)))))
        return out

    def f_TryInto_try_into(self, ex, st, args, ref, crate, where):
        if not is_int(args[0]):
            raise Unsupported("try_into")
        ty = crate.ty(ref["args"][1])
        c = ex.in_range(ty, args[0])
        return [(s.fork(), ok(args[0]) if yes else err(Opq("TryFromIntError", I(0)))) for s, yes in ex.split(st, c)]

    # ------------------------------------------------------------ comparison, numbers
    def strip(self, ex, st, v):
        while isinstance(v, Ptr):
            v = ex.load1(st, v)
        return v

    def equal(self, ex, st, a, b):
        a, b = self.strip(ex, st, a), self.strip(ex, st, b)
        if is_term(a) and is_term(b):
            return a == b
        if isinstance(a, Enum) and isinstance(b, Enum):
            ta = I(a.tag)
            tb = I(b.tag)
            conj = [ta == tb]
            for k in set(a.pay) & set(b.pay):
                for x, y in zip(a.pay[k], b.pay[k]):
                    conj.append(z3.Implies(ta == k, self.equal(ex, st, x, y)))
            return simp(z3.And(*conj))
        if isinstance(a, Struct) and isinstance(b, Struct) and len(a.fields) == len(b.fields):
            return simp(z3.And(*[self.equal(ex, st, x, y) for x, y in zip(a.fields, b.fields)])) if a.fields else z3.BoolVal(True)
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a.term == b.term
        raise Unsupported("equality of %r" % (a,))

    def f_PartialEq_eq(self, ex, st, args, ref, crate, where):
        return [(st, self.equal(ex, st, args[0], args[1]))]

    def f_PartialEq_ne(self, ex, st, args, ref, crate, where):
        return [(st, z3.Not(self.equal(ex, st, args[0], args[1])))]

    def _cmp(self, op):
        pass

    def f_PartialOrd_le(self, ex, st, args, ref, crate, where):
        ty = self.self_ty(ref, crate)
        if ty is not None and ty.path.startswith("log::"):
            return [(st, z3.BoolVal(True))]
        return self._ord(ex, st, args, lambda a, b: a <= b)

    def _ord(self, ex, st, args, f):
        a, b = self.strip(ex, st, args[0]), self.strip(ex, st, args[1])
        if not (is_int(a) and is_int(b)):
            raise Unsupported("comparison of %r" % (a,))
        return [(st, f(a, b))]

    def f_PartialOrd_lt(self, ex, st, args, ref, crate, where):
        return self._ord(ex, st, args, lambda a, b: a < b)

    def f_PartialOrd_ge(self, ex, st, args, ref, crate, where):
        return self._ord(ex, st, args, lambda a, b: a >= b)

    def f_PartialOrd_gt(self, ex, st, args, ref, crate, where):
        return self._ord(ex, st, args, lambda a, b: a > b)

    def f_Ord_cmp(self, ex, st, args, ref, crate, where):
        a, b = self.strip(ex, st, args[0]), self.strip(ex, st, args[1])
        if not (is_int(a) and is_int(b)):
            raise Unsupported("cmp")
        out = []
        # Ordering: Less, Equal, Greater are variants 0, 1, 2
        for i, c in enumerate((a < b, a == b, a > b)):
            if ex.feasible(st, c):
                s = st.fork()
                s.assume(c)
                ty = self.ordering_ty(ex)
                out.append((s, Enum(ty, i, {i: ()})))
        return out

    def f_PartialOrd_partial_cmp(self, ex, st, args, ref, crate, where):
        return [(s, some(v)) for s, v in self.f_Ord_cmp(ex, st, args, ref, crate, where)]

    def ordering_ty(self, ex):
        for c in ex.prog.crates.values():
            for i, t in enumerate(c.types):
                if t["k"] == "adt" and t["path"].endswith("cmp::Ordering"):
                    return c.ty(i)
        return None

    def f_cmp_min(self, ex, st, args, ref, crate, where):
        return [(st, zmin(args[0], args[1]))]

    f_Ord_min = f_cmp_min

    def f_cmp_max(self, ex, st, args, ref, crate, where):
        return [(st, zmax(args[0], args[1]))]

    f_Ord_max = f_cmp_max

    def num_ty(self, ref, crate):
        t = crate.ty(ref["self"]) if "self" in ref else None
        if t is None:
            raise Unsupported("number type")
        return t

    def _sat(self, ex, ref, crate, x):
        t = self.num_ty(ref, crate)
        b = t.j["bits"]
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t.j["signed"] else (0, (1 << b) - 1)
        return simp(z3.If(x < lo, I(lo), z3.If(x > hi, I(hi), x)))

    def f_num_saturating_sub(self, ex, st, args, ref, crate, where):
        return [(st, self._sat(ex, ref, crate, args[0] - args[1]))]

    def f_num_saturating_add(self, ex, st, args, ref, crate, where):
        return [(st, self._sat(ex, ref, crate, args[0] + args[1]))]

    def f_num_wrapping_sub(self, ex, st, args, ref, crate, where):
        return [(st, ex.wrap(self.num_ty(ref, crate), simp(args[0] - args[1])))]

    def f_num_wrapping_add(self, ex, st, args, ref, crate, where):
        return [(st, ex.wrap(self.num_ty(ref, crate), simp(args[0] + args[1])))]

    def _checked(self, ex, st, ref, crate, x):
        c = ex.in_range(self.num_ty(ref, crate), x)
        return [(s.fork(), some(simp(x)) if yes else none()) for s, yes in ex.split(st, c)]

    def f_num_checked_sub(self, ex, st, args, ref, crate, where):
        return self._checked(ex, st, ref, crate, args[0] - args[1])

    def f_num_checked_add(self, ex, st, args, ref, crate, where):
        return self._checked(ex, st, ref, crate, args[0] + args[1])

    def f_num_saturating_mul(self, ex, st, args, ref, crate, where):
        return [(st, self._sat(ex, ref, crate, args[0] * args[1]))]

    def f_num_checked_mul(self, ex, st, args, ref, crate, where):
        return self._checked(ex, st, ref, crate, args[0] * args[1])

    def f_num_div_ceil(self, ex, st, args, ref, crate, where):
        a, b = args
        ex.oblige(st, ex.panic_props, "no panic: division by zero", b != 0, where)
        return [(st, simp((a + b - 1) / b))]

    def f_num_is_multiple_of(self, ex, st, args, ref, crate, where):
        a, b = args
        return [(st, simp(z3.If(b == 0, a == 0, a % b == 0)))]

    def f_num_abs_diff(self, ex, st, args, ref, crate, where):
        return [(st, simp(z3.If(args[0] >= args[1], args[0] - args[1], args[1] - args[0])))]

    def f_intrinsics_discriminant_value(self, ex, st, args, ref, crate, where):
        return [(st, ex.discr(ex.load1(st, args[0])))]

    f_mem_discriminant = f_intrinsics_discriminant_value

    def f_Box_new(self, ex, st, args, ref, crate, where):
        return [(st, Struct(None, [ex.alloc(st, args[0])], "box"))]

    def f_Box_new_uninit(self, ex, st, args, ref, crate, where):
        # vec![..]: a box of an array that is written through the union's value
        return [(st, Struct(None, [ex.alloc(st, Struct(None, [unit(), Struct(None, [MOVED], "manuallydrop")], "uninit"))], "box"))]

    def f_boxed_box_assume_init_into_vec_unsafe(self, ex, st, args, ref, crate, where):
        v = ex.load1(st, args[0].fields[0])
        while isinstance(v, Struct):
            v = v.fields[-1]
        if not isinstance(v, Seq):
            raise Unsupported("vec! of %r" % (v,))
        return [(st, Seq(None, v.ety, v.len, v.len, v.segs))]

    def f_Box_pin(self, ex, st, args, ref, crate, where):
        return [(st, self.pinned(ex.alloc(st, args[0])))]

    # closures
    def f_FnOnce_call_once(self, ex, st, args, ref, crate, where):
        return ex.call_value(st, args[0], list(args[1].fields), where)

    f_Fn_call = f_FnMut_call_mut = f_FnOnce_call_once

    # io errors
    def f_Error_kind(self, ex, st, args, ref, crate, where):
        e = ex.load1(st, args[0])
        if isinstance(e, Struct) and e.tag == "ioerr":
            return [(st, Enum(self.kind_ty(ex), e.fields[0], {i: () for i in range(64)}))]
        if isinstance(e, Opq) and e.ty == "io::Error":
            t = EKIND(e.term)
            ty = self.kind_ty(ex)
            st.assume(z3.And(t >= 0, t < (len(ty.variants) if ty is not None and ty.variants else 64)))
            return [(st, Enum(ty, t, {i: () for i in range(64)}))]
        raise Unsupported("kind of %r" % (e,))

    def kind_ty(self, ex):
        for c in ex.prog.crates.values():
            for i, t in enumerate(c.types):
                if t["k"] == "adt" and t["path"].endswith("io::ErrorKind"):
                    return c.ty(i)
        return None

    def ioerr(self, st):
        k = fint("errkind")
        st.assume(z3.And(k >= 0, k <= 60))
        return Struct(None, [k], "ioerr")

    def kind_index(self, ex, name):
        t = self.kind_ty(ex)
        return t.variant_index(name)
