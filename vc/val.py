"""Symbolic values.

Integers and booleans are z3 terms (mathematical integers; the machine ranges are kept
as path conditions and the overflow checks of the MIR are obligations). Everything else
is an immutable Python object; updates are functional, so states are cheap to fork.

Sequences (Vec, VecDeque, slices, arrays) are lists of segments [lo, hi) -> generator.
A generator says what the elements of the segment are, most importantly 'the elements of
stream SRC from position POS on' (Stream). No quantifier and no array theory is needed to
say that a buffer holds exactly a window of a byte stream.
"""
import itertools

import z3

_n = itertools.count()


class Unsupported(Exception):
    pass


class Ambiguous(Unsupported):
    """a load with more than one outcome where one was needed"""

    def __init__(self, st, ptr):
        super().__init__("ambiguous load")
        self.st, self.ptr = st, ptr


def ident():
    return next(_n)


def fint(name="i"):
    return z3.Int("%s!%d" % (name, next(_n)))


def fbool(name="b"):
    return z3.Bool("%s!%d" % (name, next(_n)))


def I(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zmin(a, b):
    return z3.simplify(z3.If(a <= b, a, b)) if True else None


def zmax(a, b):
    return z3.simplify(z3.If(a >= b, a, b))


def simp(x):
    return z3.simplify(x)


def is_int(v):
    return isinstance(v, z3.ArithRef)


def is_bool(v):
    return isinstance(v, z3.BoolRef)


def is_term(v):
    return isinstance(v, z3.ExprRef)


class V:
    __slots__ = ()


class Struct(V):
    """struct, tuple, closure, and modelled library objects; tag names the latter"""
    __slots__ = ("ty", "fields", "tag")

    def __init__(self, ty, fields, tag=None):
        self.ty, self.fields, self.tag = ty, tuple(fields), tag

    def __repr__(self):
        return "%s(%s)" % (self.tag or (self.ty.s if self.ty else ""), ", ".join(map(repr, self.fields)))


class Enum(V):
    """tag: python int (known variant) or z3 Int over variant indices"""
    __slots__ = ("ty", "tag", "pay")

    def __init__(self, ty, tag, pay):
        self.ty, self.tag, self.pay = ty, tag, pay

    def __repr__(self):
        return "%s#%s%r" % (self.ty.last() if self.ty else "?", self.tag, self.pay)


class Ptr(V):
    """reference or raw pointer to a place"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return "&%r%s" % (self.cell, "".join("." + str(p[0]) + str(p[1:]) for p in self.path))


class Opq(V):
    """value of a type without modelled structure: an identity term"""
    __slots__ = ("ty", "term", "attr")

    def __init__(self, ty, term, attr=None):
        self.ty, self.term, self.attr = ty, term, attr

    def __repr__(self):
        return "Opq<%s>(%s)" % (self.ty.s if hasattr(self.ty, "s") else self.ty, self.term)


class FnV(V):
    __slots__ = ("ref", "crate")

    def __init__(self, ref, crate):
        self.ref, self.crate = ref, crate

    def __repr__(self):
        return "fn " + self.ref["path"]


class _Moved(V):
    def __repr__(self):
        return "MOVED"


MOVED = _Moved()


class Map(V):
    """HashMap: presence array and one array per scalar column of the value"""
    __slots__ = ("kty", "vty", "pres", "cols")

    def __init__(self, kty, vty, pres, cols):
        self.kty, self.vty, self.pres, self.cols = kty, vty, pres, tuple(cols)

    def __repr__(self):
        return "Map<%s>" % self.vty


# ------------------------------------------------------------------ sequences
MSG = z3.Function("msg", z3.IntSort(), z3.IntSort(), z3.IntSort())   # element of a stream
PS = z3.Function("ps", z3.IntSort(), z3.IntSort())                   # encoded length prefix sums
SRC_IN, SRC_DEC, SRC_CH, SRC_OUT, SRC_REQ, SRC_RESP = range(1, 7)


class Stream:
    """element j of the segment is MSG(src, pos + d * (j - lo))"""
    __slots__ = ("src", "pos", "d")

    def __init__(self, src, pos, d=1):
        self.src, self.pos, self.d = src, pos, d

    def at(self, off):
        return self.src, (self.pos + off if self.d == 1 else self.pos - off)

    def shift(self, n):
        return Stream(self.src, simp(self.pos + n if self.d == 1 else self.pos - n), self.d)

    def __repr__(self):
        return "S%s@%s%s" % (self.src, self.pos, "" if self.d == 1 else "r")


class EncBuf:
    """element j is the complete encoding of message k + (j - lo): a Vec<u8>"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def shift(self, n):
        return EncBuf(simp(self.k + n))

    def __repr__(self):
        return "Enc%s" % self.k


class EmptyBufs:
    """every element is a Vec<u8> of length 0"""
    __slots__ = ()

    def shift(self, n):
        return self

    def __repr__(self):
        return "Empties"


class One:
    """a single element (segment of length one)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def shift(self, n):
        return self

    def __repr__(self):
        return "[%r]" % (self.v,)


class Refs:
    """element j is a reference to element off + j of another sequence, perhaps wrapped"""
    __slots__ = ("tag", "cell", "path", "off")

    def __init__(self, tag, cell, path, off):
        self.tag, self.cell, self.path, self.off = tag, cell, path, off

    def shift(self, n):
        return Refs(self.tag, self.cell, self.path, simp(self.off + n))

    def tpl(self):
        return (self.tag, self.cell, self.path)

    def at(self, ex, st, j):
        p = Ptr(self.cell, self.path + (("elem", simp(self.off + j)),))
        return [(st, p if self.tag is None else Struct(None, [p], self.tag))]

    def eq_gen(self, o):
        return repr(self.tpl()) == repr(o.tpl()) and simp(self.off == o.off).eq(z3.BoolVal(True))

    def __repr__(self):
        return "refs%s" % (self.tpl(),)


class Const:
    """every element equals v"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def shift(self, n):
        return self


class Seq(V):
    """ety: element type (Ty or None); segs: tuple of (lo, hi, gen). Elements outside of
    every segment are unknown. Segments are disjoint; one with lo >= hi is empty. Segments
    describe memory and may reach beyond len (set_len, clear)."""
    __slots__ = ("ty", "ety", "len", "cap", "segs", "uid")

    def __init__(self, ty, ety, len, cap, segs, uid=None):
        self.ty, self.ety, self.len, self.cap, self.segs = ty, ety, len, cap, tuple(segs)
        self.uid = uid if uid is not None else ident()

    def with_(self, **kw):
        d = dict(ty=self.ty, ety=self.ety, len=self.len, cap=self.cap, segs=self.segs)
        d.update(kw)
        return Seq(**d)

    def __repr__(self):
        return "Seq(len=%s, %s)" % (self.len, list(self.segs))


def clip(segs, a, b):
    """parts of the segments inside [a, b)"""
    out = []
    for lo, hi, g in segs:
        nlo, nhi = zmax(lo, a), zmin(hi, b)
        if z3.is_true(simp(nlo >= nhi)):
            continue
        out.append((nlo, nhi, g.shift(simp(nlo - lo))))
    return out


def without(segs, a, b):
    """parts of the segments outside [a, b)"""
    out = []
    for lo, hi, g in segs:
        h1 = zmin(hi, a)
        if not z3.is_true(simp(lo >= h1)):
            out.append((lo, h1, g))
        l2 = zmax(lo, b)
        if not z3.is_true(simp(l2 >= hi)):
            out.append((l2, hi, g.shift(simp(l2 - lo))))
    return out


def move(segs, n):
    return [(simp(lo + n), simp(hi + n), g) for lo, hi, g in segs]
