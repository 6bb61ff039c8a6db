"""Contracts (trusted) for maps, shared ownership, locks and atomics.

A map is modelled precisely at one arbitrary key K (a free constant, so what is proved of K
is proved of every key) and not at all at the others: Struct "kmap" (entry at K, whether some
other key is present). An Arc is a pointer to a shared heap cell. Locks hand out a pointer to
what they protect; the specification may change it there (other threads) through on_lock.
"""
import z3

from val import *
from lib import Lib, some, none, ok, err, unit, ready, pending, short, norm

K = z3.Int("K")


class OptTy:
    """Option<inner>, for values made by the models"""
    k = "adt"
    is_enum = True
    args = ()
    variants = [{"name": "None", "discr": 0, "fields": []}, {"name": "Some", "discr": 1, "fields": []}]
    path = "std::option::Option"

    def __init__(self, inner):
        self._i = inner
        self.inner = inner
        self.s = "Option<%s>" % getattr(inner, "s", inner)
        self.j = {"crate": "core", "variants": self.variants}
        self.args = [inner]

    def last(self):
        return "Option"

    def field_tys(self, v=0):
        return [self._i] if v == 1 else []


def pair(a, b):
    return Struct(None, [a, b], "tuple")


class SyncLib(Lib):
    # ------------------------------------------------------------ fresh and default values
    def fresh_adt(self, ex, st, ty, hint):
        n = ty.last()
        if n in ("HashMap", "BTreeMap"):
            return self.kmap_fresh(ex, st, ty, hint)
        if n == "Arc":
            return Struct(ty, [ex.alloc(st, ex.fresh(st, ty.args[0], hint))], "arc")
        if n == "Mutex":
            return Struct(ty, [ex.fresh(st, ty.args[0], hint)], "mutex")
        if n == "Atomic":
            return Struct(ty, [ex.fresh(st, ty.args[0], hint)], "atomic")
        r = super().fresh_adt(ex, st, ty, hint)
        if r is not None:
            return r
        cr = ty.j.get("crate")
        if cr not in ex.prog.crates and n not in ("Option", "Result", "Poll", "Range"):
            return Opq(ty, fint(hint))
        return None

    def default_of(self, ex, st, ty, like=None):
        if isinstance(like, Struct) and like.tag == "kmap":
            return self.kmap_empty(like.ty)
        if ty is not None and ty.k == "adt":
            n = ty.last()
            if n in ("HashMap", "BTreeMap"):
                return self.kmap_empty(ty)
            if n == "Arc":
                return Struct(ty, [ex.alloc(st, self.default_of(ex, st, ty.args[0]))], "arc")
            if n == "Mutex":
                return Struct(ty, [self.default_of(ex, st, ty.args[0])], "mutex")
            if n == "Atomic":
                return Struct(ty, [self.default_of(ex, st, ty.args[0])], "atomic")
        return super().default_of(ex, st, ty, like)

    # ------------------------------------------------------------ Arc
    def f_Arc_new(self, ex, st, args, ref, crate, where):
        return [(st, Struct(self.self_ty(ref, crate), [ex.alloc(st, args[0])], "arc"))]

    def f_Arc_clone(self, ex, st, args, ref, crate, where):
        return [(st, ex.load1(st, args[0]))]

    def f_Arc_ptr_eq(self, ex, st, args, ref, crate, where):
        a, b = ex.load1(st, args[0]), ex.load1(st, args[1])
        return [(st, z3.BoolVal(a.fields[0].cell == b.fields[0].cell))]

    # ------------------------------------------------------------ Mutex
    def f_Mutex_new(self, ex, st, args, ref, crate, where):
        return [(st, Struct(self.self_ty(ref, crate), [args[0]], "mutex"))]

    def place(self, ex, st, p, tag):
        """pointer to the modelled object behind references and smart pointers"""
        for _ in range(8):
            if isinstance(p, Struct) and p.tag != tag and len(p.fields) == 1:
                p = p.fields[0]
                continue
            if not isinstance(p, Ptr):
                break
            v = ex.load1(st, p)
            if isinstance(v, Struct) and v.tag == tag:
                return p, v
            p = v
        raise Unsupported("%s expected" % tag)

    def f_Mutex_lock(self, ex, st, args, ref, crate, where):
        p, v = self.place(ex, st, args[0], "mutex")
        inner = Ptr(p.cell, p.path + (("f", 0),))
        states = [st]
        if hasattr(ex.spec, "on_lock"):
            states = ex.spec.on_lock(ex, st, inner) or [st]
        return [(s, ok(Struct(None, [inner], "guard"))) for s in states]

    def f_Arc_strong_count(self, ex, st, args, ref, crate, where):
        n = fint("strong_count")
        st.assume(z3.And(n >= 1, n <= 1 << 62))
        return [(st, n)]

    f_Arc_weak_count = f_Arc_strong_count

    def f_Mutex_try_lock(self, ex, st, args, ref, crate, where):
        # another thread may hold the lock
        busy = st.fork()
        busy.note("another thread holds the lock")
        return self.f_Mutex_lock(ex, st, args, ref, crate, where) + [(busy, err(Opq("TryLockError", I(0))))]

    def f_Mutex_get_mut(self, ex, st, args, ref, crate, where):
        p, v = self.place(ex, st, args[0], "mutex")
        return [(st, ok(Ptr(p.cell, p.path + (("f", 0),))))]

    # ------------------------------------------------------------ atomics
    def f_Atomic_new(self, ex, st, args, ref, crate, where):
        return [(st, Struct(self.self_ty(ref, crate), [args[0]], "atomic"))]

    def atomic(self, ex, st, p):
        p, v = self.place(ex, st, p, "atomic")
        if hasattr(ex.spec, "on_atomic"):
            ex.spec.on_atomic(ex, st, p)
            v = ex.load1(st, p)
        return Ptr(p.cell, p.path + (("f", 0),)), v.fields[0]

    def f_Atomic_load(self, ex, st, args, ref, crate, where):
        p, v = self.atomic(ex, st, args[0])
        if hasattr(ex.spec, "on_load"):
            ex.spec.on_load(ex, st, p, v)
        return [(st, v)]

    def f_Atomic_store(self, ex, st, args, ref, crate, where):
        p, _ = self.atomic(ex, st, args[0])
        ex.store(st, p, args[1])
        return [(st, unit())]

    def f_Atomic_swap(self, ex, st, args, ref, crate, where):
        p, v = self.atomic(ex, st, args[0])
        ex.store(st, p, args[1])
        return [(st, v)]

    def f_Atomic_compare_exchange(self, ex, st, args, ref, crate, where):
        p, v = self.atomic(ex, st, args[0])
        out = []
        for s, yes in ex.split(st, v == args[1]):
            s = s.fork()
            if yes:
                ex.store(s, p, args[2])
                out.append((s, ok(v)))
            else:
                out.append((s, err(v)))
        return out

    def f_Atomic_fetch_update(self, ex, st, args, ref, crate, where):
        p, v = self.atomic(ex, st, args[0])
        out = []
        for s, r in ex.call_value(st, args[3], [v], where):
            for s2, i, pay in self.cases(ex, s, r):
                if i == 1:
                    s2 = s2.fork()
                    ex.store(s2, p, pay[0])
                out.append((s2, ok(v) if i == 1 else err(v)))
        return out

    def f_Atomic_compare_exchange_weak(self, ex, st, args, ref, crate, where):
        out = self.f_Atomic_compare_exchange(ex, st.fork(), args, ref, crate, where)
        return out + [(st, err(self.atomic(ex, st, args[0])[1]))]

    def _rmw(f):
        def h(self, ex, st, args, ref, crate, where):
            p, v = self.atomic(ex, st, args[0])
            ex.store(st, p, simp(f(v, args[1])))
            return [(st, v)]
        return h

    f_Atomic_fetch_max = _rmw(lambda a, b: z3.If(a >= b, a, b))
    f_Atomic_fetch_min = _rmw(lambda a, b: z3.If(a <= b, a, b))
    f_Atomic_fetch_and = _rmw(lambda a, b: z3.And(a, b))
    f_Atomic_fetch_or = _rmw(lambda a, b: z3.Or(a, b))
    del _rmw

    # ------------------------------------------------------------ maps
    def kmap_empty(self, ty):
        return Struct(ty, [Enum(OptTy(ty.args[1]), 0, {0: (), 1: ()}), z3.BoolVal(False)], "kmap")

    def kmap_fresh(self, ex, st, ty, hint):
        return Struct(ty, [ex.fresh(st, OptTy(ty.args[1]), hint + ".K"), fbool(hint + ".rest")], "kmap")

    def kmap(self, ex, st, p):
        return self.place(ex, st, p, "kmap")

    def f_HashMap_new(self, ex, st, args, ref, crate, where):
        return [(st, self.kmap_empty(self.self_ty(ref, crate)))]

    f_HashMap_with_capacity = f_HashMap_new

    def f_HashMap_reserve(self, ex, st, args, ref, crate, where):
        return [(st, unit())]

    f_HashMap_shrink_to_fit = f_HashMap_shrink_to = f_HashMap_reserve

    def key(self, ex, st, k):
        k = self.strip(ex, st, k)
        if not is_int(k):
            raise Unsupported("map key %r" % (k,))
        return k

    def kpath(self, p):
        return Ptr(p.cell, p.path + (("f", 0), ("v", 1), ("f", 0)))

    def set_k(self, ex, st, p, v):
        m = ex.load1(st, p)
        o = m.fields[0]
        e = Enum(o.ty, 0, {0: (), 1: ()}) if v is None else Enum(o.ty, 1, {0: (), 1: (v,)})
        ex.store(st, p, Struct(m.ty, [e, m.fields[1]], "kmap"))

    def set_rest(self, ex, st, p, b):
        m = ex.load1(st, p)
        ex.store(st, p, Struct(m.ty, [m.fields[0], b], "kmap"))

    def shrink(self, ex, st, p):
        """a key other than K was removed"""
        m = ex.load1(st, p)
        r = fbool("rest")
        st.assume(z3.Implies(r, m.fields[1]))
        self.set_rest(ex, st, p, r)

    def taken(self, ex, st, p, key, v):
        if hasattr(ex.spec, "map_value"):
            ex.spec.map_value(ex, st, p, key, v)

    def other(self, ex, st, p, key):
        """[(state, value of a present key other than K or None)]"""
        m = ex.load1(st, p)
        out = []
        s = st.fork()
        if ex.feasible(s, m.fields[1]):
            s.assume(m.fields[1])
            v = ex.fresh(s, m.ty.args[1], "other")
            self.taken(ex, s, p, key, v)
            out.append((s, v))
        out.append((st.fork(), None))
        return out

    def at_k(self, ex, st, p):
        """[(state, value at K or None)]"""
        m = ex.load1(st, p)
        out = []
        for s, i, pay in self.cases(ex, st, m.fields[0]):
            s = s.fork()
            if i == 1:
                # concrete from here on
                ex.store(s, p, Struct(m.ty, [Enum(m.fields[0].ty, 1, {0: (), 1: pay}), m.fields[1]], "kmap"))
                self.taken(ex, s, p, K, pay[0])
                out.append((s, pay[0]))
            else:
                ex.store(s, p, Struct(m.ty, [Enum(m.fields[0].ty, 0, {0: (), 1: ()}), m.fields[1]], "kmap"))
                out.append((s, None))
        return out

    def lookup(self, ex, st, p, key):
        """[(state, is K, value or None)]"""
        out = []
        for s, yes in ex.split(st, key == K):
            s = s.fork()
            for s2, v in (self.at_k(ex, s, p) if yes else self.other(ex, s, p, key)):
                out.append((s2, yes, v))
        return out

    def opt(self, v):
        return none() if v is None else some(v)

    def f_HashMap_insert(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        key = self.key(ex, st, args[1])
        out = []
        for s, isk, v in self.lookup(ex, st, p, key):
            if hasattr(ex.spec, "on_insert"):
                ex.spec.on_insert(ex, s, p, key, args[2], where)
            if isk:
                self.set_k(ex, s, p, args[2])
            else:
                self.set_rest(ex, s, p, z3.BoolVal(True))
            out.append((s, self.opt(v)))
        return out

    def f_HashMap_remove(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        key = self.key(ex, st, args[1])
        out = []
        for s, isk, v in self.lookup(ex, st, p, key):
            if isk:
                self.set_k(ex, s, p, None)
            else:
                self.shrink(ex, s, p)
            out.append((s, self.opt(v)))
        return out

    def f_HashMap_remove_entry(self, ex, st, args, ref, crate, where):
        key = self.key(ex, st, args[1])
        out = []
        for s, e in self.f_HashMap_remove(ex, st, args, ref, crate, where):
            out.append((s, e if e.tag == 0 else some(pair(key, e.pay[1][0]))))
        return out

    def f_HashMap_contains_key(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        return [(s, z3.BoolVal(v is not None)) for s, _, v in self.lookup(ex, st, p, self.key(ex, st, args[1]))]

    def f_HashMap_get(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        out = []
        for s, isk, v in self.lookup(ex, st, p, self.key(ex, st, args[1])):
            out.append((s, none() if v is None else some(self.kpath(p) if isk else ex.alloc(s, v))))
        return out

    f_HashMap_get_mut = f_HashMap_get

    def f_HashMap_is_empty(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        e, r = m.fields
        t = z3.BoolVal(e.tag == 0) if isinstance(e.tag, int) else e.tag == 0
        return [(st, simp(z3.And(t, z3.Not(r))))]

    def f_HashMap_len(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        e, r = m.fields
        n = fint("maplen")
        has = I(1 if e.tag == 1 else 0) if isinstance(e.tag, int) else z3.If(e.tag == 1, I(1), I(0))
        st.assume(z3.And(n >= has, z3.If(r, n >= has + 1, n == has), n <= (1 << 62)))
        return [(st, n)]

    def f_HashMap_clear(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        out = []
        for s in ex.drop_value(st, m):
            ex.store(s, p, self.kmap_empty(m.ty))
            out.append((s, unit()))
        return out

    def f_HashMap_drain(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        ex.store(st, p, self.kmap_empty(m.ty))
        return [(st, Struct(m.ty, m.fields, "it_kdrain"))]

    def f_HashMap_into_iter(self, ex, st, args, ref, crate, where):
        return [(st, Struct(args[0].ty, args[0].fields, "it_kdrain"))]

    def f_HashMap_iter(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        return [(st, Struct(None, [p, z3.BoolVal(False), m.fields[1], I(0)], "it_kref"))]

    f_HashMap_iter_mut = f_HashMap_iter

    def f_HashMap_values(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        return [(st, Struct(None, [p, z3.BoolVal(False), m.fields[1], I(1)], "it_kref"))]

    f_HashMap_values_mut = f_HashMap_values

    def f_HashMap_into_values(self, ex, st, args, ref, crate, where):
        return [(st, Struct(args[0].ty, args[0].fields, "it_kvals"))]

    def f_IntoIterator_into_iter(self, ex, st, args, ref, crate, where):
        a = args[0]
        if isinstance(a, Struct) and a.tag == "kmap":
            return self.f_HashMap_into_iter(ex, st, args, ref, crate, where)
        if isinstance(a, Ptr):
            v = ex.load1(st, a)
            if isinstance(v, Struct) and v.tag == "kmap":
                return self.f_HashMap_iter(ex, st, args, ref, crate, where)
        return super().f_IntoIterator_into_iter(ex, st, args, ref, crate, where)

    # a map's entries collected into a Vec stay a bag of entries
    def f_Iterator_collect(self, ex, st, args, ref, crate, where):
        if isinstance(args[0], Struct) and args[0].tag in ("it_kdrain", "it_kvals"):
            return [(st, args[0])]
        return super().f_Iterator_collect(ex, st, args, ref, crate, where)

    def bag_len(self, ex, st, p):
        try:
            v = ex.load1(st, p)
        except Unsupported:
            return None
        if not (isinstance(v, Struct) and v.tag in ("it_kdrain", "it_kvals")):
            return None
        e, r = v.fields
        n = fint("baglen")
        has = I(1 if e.tag == 1 else 0) if isinstance(e.tag, int) else z3.If(e.tag == 1, I(1), I(0))
        st.assume(z3.And(n >= has, z3.If(r, n >= has + 1, n == has), n <= (1 << 62)))
        return n

    def f_Vec_len(self, ex, st, args, ref, crate, where):
        n = self.bag_len(ex, st, args[0])
        return super().f_Vec_len(ex, st, args, ref, crate, where) if n is None else [(st, n)]

    def f_Vec_is_empty(self, ex, st, args, ref, crate, where):
        n = self.bag_len(ex, st, args[0])
        return super().f_Vec_is_empty(ex, st, args, ref, crate, where) if n is None else [(st, n == 0)]

    def it_step(self, ex, st, it):
        if isinstance(it, Struct) and it.tag in ("it_kdrain", "it_kvals"):
            e, r = it.fields
            out = []
            item = (lambda k, v: pair(k, v)) if it.tag == "it_kdrain" else (lambda k, v: v)
            for s, i, pay in self.cases(ex, st, e):
                if i == 1:
                    s1 = s.fork()
                    out.append((s1, Struct(it.ty, [Enum(e.ty, 0, {0: (), 1: ()}), r], it.tag), item(K, pay[0])))
                else:
                    s1 = s.fork()
                    if ex.feasible(s1, z3.Not(r)):
                        s1.assume(z3.Not(r))
                        out.append((s1, Struct(it.ty, [Enum(e.ty, 0, {0: (), 1: ()}), z3.BoolVal(False)], it.tag), None))
                s1 = s.fork()
                if ex.feasible(s1, r):
                    s1.assume(r)
                    k, r2 = fint("key"), fbool("rest")
                    s1.assume(z3.And(k != K, k >= 0, k < 1 << 64))
                    v = ex.fresh(s1, it.ty.args[1], "other")
                    self.taken(ex, s1, None, k, v)
                    ee = Enum(e.ty, i, {0: (), 1: pay if i == 1 else ()})
                    out.append((s1, Struct(it.ty, [ee, r2], it.tag), item(k, v)))
            return out
        if isinstance(it, Struct) and it.tag == "it_kref":
            p, seen, r, vals = it.fields
            m = ex.load1(st, p)
            item = (lambda s, k, v: v) if simp(vals).as_long() else (lambda s, k, v: pair(ex.alloc(s, k), v))
            out = []
            for s, yes in ex.split(st, seen):
                for s1, v in ([(s.fork(), None)] if yes else self.at_k(ex, s.fork(), p)):
                    if v is not None:
                        out.append((s1.fork(), Struct(None, [p, z3.BoolVal(True), r, vals], it.tag), item(s1, K, self.kpath(p))))
                    elif ex.feasible(s1, z3.Not(r)):
                        s2 = s1.fork()
                        s2.assume(z3.Not(r))
                        out.append((s2, Struct(None, [p, z3.BoolVal(True), z3.BoolVal(False), vals], it.tag), None))
                    if ex.feasible(s1, r):
                        s2 = s1.fork()
                        s2.assume(r)
                        k, r2 = fint("key"), fbool("rest")
                        s2.assume(z3.And(k != K, k >= 0, k < 1 << 64))
                        ov = ex.fresh(s2, m.ty.args[1], "other")
                        self.taken(ex, s2, p, k, ov)
                        out.append((s2, Struct(None, [p, seen, r2, vals], it.tag), item(s2, k, ex.alloc(s2, ov))))
            return out
        return super().it_step(ex, st, it)

    # entries
    def f_HashMap_entry(self, ex, st, args, ref, crate, where):
        p, m = self.kmap(ex, st, args[0])
        key = self.key(ex, st, args[1])
        out = []
        for s, isk, v in self.lookup(ex, st, p, key):
            if v is None:
                out.append((s, Enum(None, 1, {1: (Struct(None, [p, key, z3.BoolVal(isk)], "vacant"),)})))
            else:
                vp = self.kpath(p) if isk else ex.alloc(s, v)
                out.append((s, Enum(None, 0, {0: (Struct(None, [p, key, z3.BoolVal(isk), vp], "occupied"),)})))
        return out

    def ent(self, ex, st, e):
        if isinstance(e, Ptr):
            e = ex.load1(st, e)
        if isinstance(e, Struct) and e.tag in ("occupied", "vacant"):
            return e
        raise Unsupported("map entry %r" % (e,))

    def f_OccupiedEntry_get(self, ex, st, args, ref, crate, where):
        return [(st, self.ent(ex, st, args[0]).fields[3])]

    f_OccupiedEntry_get_mut = f_OccupiedEntry_into_mut = f_OccupiedEntry_get

    def f_OccupiedEntry_key(self, ex, st, args, ref, crate, where):
        return [(st, ex.alloc(st, self.ent(ex, st, args[0]).fields[1]))]

    f_VacantEntry_key = f_OccupiedEntry_key

    def f_OccupiedEntry_remove(self, ex, st, args, ref, crate, where):
        p, key, isk, vp = self.ent(ex, st, args[0]).fields
        v = ex.load1(st, vp)
        if z3.is_true(isk):
            self.set_k(ex, st, p, None)
        else:
            self.shrink(ex, st, p)
        return [(st, v)]

    def f_OccupiedEntry_remove_entry(self, ex, st, args, ref, crate, where):
        key = self.ent(ex, st, args[0]).fields[1]
        return [(s, pair(key, v)) for s, v in self.f_OccupiedEntry_remove(ex, st, args, ref, crate, where)]

    def f_OccupiedEntry_insert(self, ex, st, args, ref, crate, where):
        p, key, isk, vp = self.ent(ex, st, args[0]).fields
        if hasattr(ex.spec, "on_insert"):
            ex.spec.on_insert(ex, st, p, key, args[1], where)
        v = ex.load1(st, vp)
        ex.store(st, vp, args[1])
        return [(st, v)]

    def f_VacantEntry_insert(self, ex, st, args, ref, crate, where):
        p, key, isk = self.ent(ex, st, args[0]).fields
        if hasattr(ex.spec, "on_insert"):
            ex.spec.on_insert(ex, st, p, key, args[1], where)
        if z3.is_true(isk):
            self.set_k(ex, st, p, args[1])
            return [(st, self.kpath(p))]
        self.set_rest(ex, st, p, z3.BoolVal(True))
        return [(st, ex.alloc(st, args[1]))]

    def f_Entry_or_insert(self, ex, st, args, ref, crate, where):
        e = args[0]
        if e.tag == 0:
            outs = []
            for s in ex.drop_value(st, args[1]):
                outs.append((s, e.pay[0][0].fields[3]))
            return outs
        return self.f_VacantEntry_insert(ex, st, [e.pay[1][0], args[1]], ref, crate, where)

    def f_Entry_or_insert_with(self, ex, st, args, ref, crate, where):
        e = args[0]
        if e.tag == 0:
            return [(st, e.pay[0][0].fields[3])]
        out = []
        for s, v in ex.call_value(st, args[1], [], where):
            out.extend(self.f_VacantEntry_insert(ex, s, [e.pay[1][0], v], ref, crate, where))
        return out

    def f_Entry_and_modify(self, ex, st, args, ref, crate, where):
        e = args[0]
        if e.tag != 0:
            return [(st, e)]
        return [(s, e) for s, _ in ex.call_value(st, args[1], [e.pay[0][0].fields[3]], where)]

    def f_Entry_key(self, ex, st, args, ref, crate, where):
        e = ex.load1(st, args[0])
        return [(st, ex.alloc(st, e.pay[e.tag][0].fields[1]))]

    # ------------------------------------------------------------ futures
    def f_IntoFuture_into_future(self, ex, st, args, ref, crate, where):
        return [(st, args[0])]

    def f_future_get_context(self, ex, st, args, ref, crate, where):
        return [(st, args[0])]

    def f_Future_poll(self, ex, st, args, ref, crate, where):
        p = args[0]
        for _ in range(8):
            if isinstance(p, Struct) and len(p.fields) == 1 and isinstance(p.fields[0], (Ptr, Struct)) and (p.ty is None or p.ty.k != "coroutine"):
                p = p.fields[0]
                continue
            if not isinstance(p, Ptr):
                break
            v = ex.load1(st, p)
            if isinstance(v, Struct) and v.ty is not None and v.ty.k == "coroutine":
                return self.poll_coroutine(ex, st, p, v, args[1], where)
            if isinstance(v, Struct) and v.ty is not None and v.ty.k == "adt" and v.ty.j["crate"] in ex.prog.crates:
                for f in ex.prog.crates[v.ty.j["crate"]].fns:
                    if f.body and f.name == "poll" and (f.j.get("impl_trait") or "").split("::")[-1] == "Future" and f.j.get("impl_self") == v.ty.last():
                        return ex.call_fn(st, f, [Struct(None, [p], "pin"), args[1]], where)
            if isinstance(v, Opq) and hasattr(ex.spec, "poll_future"):
                r = ex.spec.poll_future(ex, st, p, v, args[1], where)
                if r is not None:
                    return r
            p = v
        raise Unsupported("poll of a future %r" % (p,))

    def f_FutureExt_poll_unpin(self, ex, st, args, ref, crate, where):
        return self.f_Future_poll(ex, st, args, ref, crate, where)

    def poll_coroutine(self, ex, st, p, v, cx, where):
        """an await is collapsed: the inner future runs to completion, or is dropped while pending"""
        from core import DROPPED
        fn = v.ty.crate.by_path.get(v.ty.path)
        if fn is None:
            raise Unsupported("body of " + v.ty.path)
        out = []
        for s, r in ex.exec_fn(st, fn, [v, cx]):
            ex.store(s, p, MOVED)
            if r is DROPPED:
                s.g["dropping"] = z3.BoolVal(True)
                out.append((s, pending()))
            else:
                out.append((s, ready(r)))
        return out
