"""Loops: the invariant is inferred, then checked as obligations.

At the loop head everything the body modifies is replaced by unconstrained values (scalars)
or by a window/queue shape with unconstrained parameters (sequences). The invariant is the
largest inductive subset (Houdini) of a fixed family of candidates: linear relations between
the modified scalars, shape parameters and ghosts, their entry values and the unmodified
integers, monotonicity, and clauses over the atoms that the specification supplies.
The candidates are named by what they relate, never by how the loop is written.
"""
import itertools

import z3

from val import *
import val

ISIZE = (1 << 63) - 1          # no allocation is larger


class Leaf:
    __slots__ = ("space", "key", "path", "kind")

    def __init__(self, space, key, path, kind):
        self.space, self.key, self.path, self.kind = space, key, path, kind

    def id(self):
        return (self.space, self.key, self.path)


def teq(a, b):
    return a is b or a.eq(b)


def gen_eq(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Stream):
        return teq(I(a.src), I(b.src)) and teq(a.pos, b.pos) and a.d == b.d
    if isinstance(a, EncBuf):
        return teq(a.k, b.k)
    if isinstance(a, EmptyBufs):
        return True
    if isinstance(a, (One, Const)):
        return same(a.v, b.v)
    if hasattr(a, "eq_gen"):
        return a.eq_gen(b)
    return False


def same(a, b):
    out = []
    walk(a, b, (), out)
    return not out


def walk(a, b, path, out):
    """collect the paths where a and b differ: (path, kind)"""
    if a is b:
        return
    if is_term(a) and is_term(b):
        if not a.eq(b) and not (a.sort() == b.sort() and z3.is_true(z3.simplify(a == b))):
            out.append((path, "t" if a.sort() == b.sort() else "bad"))
        return
    if a is MOVED or b is MOVED or a is None or b is None:
        out.append((path, "moved"))
        return
    if type(a) is not type(b):
        if isinstance(a, V) and isinstance(b, V):
            out.append((path, "bad"))
        elif a != b:
            out.append((path, "bad"))
        return
    if isinstance(a, Struct):
        if len(a.fields) != len(b.fields) or a.tag != b.tag:
            out.append((path, "bad"))
            return
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            walk(x, y, path + (("f", i),), out)
        return
    if isinstance(a, Enum):
        if isinstance(a.tag, int) and isinstance(b.tag, int) and a.tag == b.tag:
            for i, (x, y) in enumerate(zip(a.pay.get(a.tag, ()), b.pay.get(b.tag, ()))):
                walk(x, y, path + (("v", a.tag), ("f", i)), out)
            return
        ta, tb = a.tag, b.tag
        if not isinstance(ta, int) and not isinstance(tb, int) and ta.eq(tb) and all(
                same(Struct(None, a.pay[i]), Struct(None, b.pay[i])) for i in a.pay if i in b.pay):
            return
        out.append((path, "enum"))
        return
    if isinstance(a, Ptr):
        if a.cell != b.cell or len(a.path) != len(b.path):
            out.append((path, "bad"))
            return
        for i, (p, q) in enumerate(zip(a.path, b.path)):
            if p[0] != q[0]:
                out.append((path, "bad"))
                return
            for j in range(1, len(p)):
                if is_term(p[j]) and is_term(q[j]):
                    if not p[j].eq(q[j]):
                        out.append((path + (("pp", i, j),), "t"))
                elif p[j] != q[j]:
                    out.append((path, "bad"))
                    return
        return
    if isinstance(a, Opq):
        if not a.term.eq(b.term):
            out.append((path, "opq"))
        return
    if isinstance(a, FnV):
        if a.ref is not b.ref:
            out.append((path, "bad"))
        return
    if isinstance(a, Seq):
        if teq(a.len, b.len) and teq(a.cap, b.cap) and len(a.segs) == len(b.segs) and all(
                teq(x[0], y[0]) and teq(x[1], y[1]) and gen_eq(x[2], y[2]) for x, y in zip(a.segs, b.segs)):
            return
        out.append((path, "seq"))
        return
    if isinstance(a, Map):
        if not a.pres.eq(b.pres):
            out.append((path, "map"))
            return
        for x, y in zip(a.cols, b.cols):
            if not x.eq(y):
                out.append((path, "map"))
                return
        return
    if a != b:
        out.append((path, "bad"))


def sub(v, path):
    for p in path:
        if p[0] == "f":
            v = v.fields[p[1]]
        elif p[0] == "v":
            v = Struct(None, v.pay[p[1]], "variant")
        elif p[0] == "pp":
            return v.path[p[1]][p[2]]
    return v


def put(v, path, new):
    if not path:
        return new
    p, rest = path[0], path[1:]
    if p[0] == "f":
        fs = list(v.fields)
        fs[p[1]] = put(fs[p[1]], rest, new)
        return Struct(v.ty, fs, v.tag)
    if p[0] == "v":
        pay = dict(v.pay)
        pay[p[1]] = put(Struct(None, pay[p[1]], "variant"), rest, new).fields
        return Enum(v.ty, v.tag, pay)
    if p[0] == "pp":
        path_ = list(v.path)
        e = list(path_[p[1]])
        e[p[2]] = new
        path_[p[1]] = tuple(e)
        return Ptr(v.cell, path_)
    raise Unsupported("loop leaf")


def read(st, leaf):
    root = st.g[leaf.key] if leaf.space == "g" else st.heap[leaf.key]
    return sub(root, leaf.path)


def write(st, leaf, v):
    if leaf.space == "g":
        st.g[leaf.key] = put(st.g[leaf.key], leaf.path, v)
    else:
        st.heap[leaf.key] = put(st.heap[leaf.key], leaf.path, v)


def diff(a, b):
    """leaves of state a that differ in b"""
    out = {}
    for c, v in a.heap.items():
        w = b.heap.get(c)
        if w is v:
            continue
        ps = []
        if w is None:
            ps = [((), "moved")]
        else:
            walk(v, w, (), ps)
        for p, k in ps:
            out[("h", c, p)] = k
    for n, v in a.g.items():
        w = b.g.get(n)
        if w is v:
            continue
        ps = []
        walk(v, w, (), ps)
        for p, k in ps:
            out[("g", n, p)] = k
    return out


# ---------------------------------------------------------------- sequence shapes
def nonempty_segs(ex, st, seq):
    """segments clipped to [0, len), leaving out the ones known to be empty"""
    out = []
    for lo, hi, g in clip(seq.segs, I(0), seq.len):
        if ex.known(st, lo >= hi):
            continue
        out.append((lo, hi, g))
    return out


def stream_window(ex, st, segs):
    """(a, b, pos, src, d) of adjoining stream segments, or None"""
    cur = None
    for lo, hi, g in segs:
        if isinstance(g, One):
            return None
        if not isinstance(g, Stream):
            return None
        if cur is None:
            cur = (lo, hi, g.pos, g.src, g.d)
            continue
        a, b, p, src, d = cur
        if not teq(I(src), I(g.src)):
            return None
        # a segment of one element can count as either direction
        dd = d
        if d != g.d:
            if ex.known(st, hi - lo <= 1):
                pass
            elif ex.known(st, b - a <= 1):
                dd = g.d
            else:
                return None
        both = z3.And(a < b, lo < hi)
        off = lo - a
        cont = z3.And(lo == b, g.pos == (p + off if dd == 1 else p - off))
        if not ex.known(st, z3.Implies(both, cont)):
            # perhaps the new one lies in front
            off = a - lo
            cont = z3.And(hi == a, p == (g.pos + off if dd == 1 else g.pos - off))
            if not ex.known(st, z3.Implies(both, cont)):
                return None
            cur = (simp(z3.If(lo < hi, lo, a)), simp(z3.If(a < b, b, hi)), simp(z3.If(lo < hi, g.pos, p)), src, dd)
            continue
        cur = (simp(z3.If(a < b, a, lo)), simp(z3.If(lo < hi, hi, b)), simp(z3.If(a < b, p, g.pos)), src, dd)
    return cur


def buf_pos(ex, st, v, src=SRC_OUT):
    """start position in the outbound stream of a byte buffer that is one window of it, or None"""
    if not isinstance(v, Seq):
        return None
    w = stream_window(ex, st, nonempty_segs(ex, st, v))
    if w is None or not teq(I(w[3]), I(src)) or w[4] != 1:
        return None
    if not ex.known(st, z3.Implies(v.len > 0, z3.And(w[0] == 0, w[1] == v.len))):
        return None
    return w[2]


def queue_shape(ex, st, seq):
    """(k, fp): element 0 is a nonempty suffix (from fp) of the encoding of message k, and
    element j is the whole encoding of message k + j. None if it isn't of this form."""
    segs = nonempty_segs(ex, st, seq)
    if not segs:
        if not ex.known(st, seq.len == 0):
            return None
        ek = ex.spec.empty_queue(st) if hasattr(ex.spec, "empty_queue") else None
        return (ek, PS(ek), None) if ek is not None else (fint("k"), fint("fp"), None)
    for i in range(1, len(segs)):      # in the order of the indices
        j = i
        while j and not ex.known(st, segs[j - 1][1] <= segs[j][0]) and ex.known(st, segs[j][1] <= segs[j - 1][0]):
            segs[j - 1], segs[j] = segs[j], segs[j - 1]
            j -= 1
    conds = []
    for lo, hi, g in segs:
        if isinstance(g, One):
            p = buf_pos(ex, st, g.v)
            if p is None:
                return None
            end = simp(p + g.v.len)
            k = None
            # which message: found through the neighbours or through the prefix sums
            item = (lo, hi, "one", p, end)
        elif isinstance(g, EncBuf):
            item = (lo, hi, "enc", g.k, None)
        else:
            return None
        conds.append(item)
    # the message number of a One
    items = []
    for it in conds:
        if it[2] == "one":
            k = find_msg(ex, st, it[3], it[4])
            if k is None:
                return None
            items.append((it[0], it[1], k, it[3], it[4], True))
        else:
            items.append((it[0], it[1], it[3], PS(it[3]), None, False))
    first = None
    for n, (lo, hi, k, p, end, one) in enumerate(items):
        ne = lo < hi
        if one and not ex.known(st, z3.Implies(ne, end == PS(k + 1))):
            return None
        if one and not ex.known(st, z3.Implies(ne, z3.And(p < end, p >= PS(k)))):
            return None
        if first is None:
            if not ex.known(st, z3.Implies(ne, lo == 0)):
                return None
            first = (k, p, ne, hi)
            continue
        fk, fp, fne, fhi = first
        if not ex.known(st, z3.Implies(z3.And(ne, fne), z3.And(lo == fhi, k == fk + lo, p == PS(k)))):
            return None
        if not ex.known(st, z3.Implies(z3.And(ne, z3.Not(fne)), lo == 0)):
            return None
        first = (simp(z3.If(fne, fk, k)), simp(z3.If(fne, fp, p)), z3.Or(fne, ne), simp(z3.If(ne, hi, fhi)))
    if not ex.known(st, z3.Implies(seq.len > 0, z3.And(first[2], first[3] == seq.len))):
        return None
    ek = ex.spec.empty_queue(st) if hasattr(ex.spec, "empty_queue") else None
    if ek is not None and not ex.known(st, seq.len > 0):
        # nothing is said about the parameters of an empty queue, so they are chosen
        return (simp(z3.If(seq.len > 0, first[0], ek)), simp(z3.If(seq.len > 0, first[1], PS(ek))), None)
    return (first[0], first[1], None)


def find_msg(ex, st, p, end):
    """k with end == PS(k + 1), from the syntax of the terms"""
    seen = []

    def rec(t, d=0):
        if d > 12:
            return
        if z3.is_app(t):
            if t.decl().eq(PS):
                seen.append(t.arg(0))
            for c in t.children():
                rec(c, d + 1)
    rec(end)
    rec(p)
    for t in list(seen):
        seen.append(simp(t - 1))
    done = set()
    cands = []
    for t in seen:
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        cands.append(t)
    for t in st.g.get("_msgs", ()):
        cands.append(t)
    for t in cands:
        if ex.known(st, end == PS(t + 1)):
            return t
    return None


def queue_make(seq, n, cap, k, fp):
    ln = simp(PS(k + 1) - fp)
    front = Seq(seq.ety, seq_u8(seq), ln, fintcap(), [(I(0), ln, Stream(I(SRC_OUT), fp))])
    return Seq(seq.ty, seq.ety, n, cap, [(I(0), zmin(n, I(1)), One(front)), (I(1), n, EncBuf(simp(k + 1)))]), front


_caps = itertools.count()


def fintcap():
    return z3.Int("cap!q%d" % next(_caps))


def seq_u8(seq):
    e = seq.ety
    if e is not None and e.k == "adt" and e.args:
        return e.args[0]
    return None


KINDS = ("stream", "queue", "empties", "refs", "unknown")


def as_ref(v):
    """a reference to an element of a sequence: a Refs of that one element"""
    tag = None
    if isinstance(v, Struct) and v.ty is None and len(v.fields) == 1:
        tag, v = v.tag, v.fields[0]
    if isinstance(v, Ptr) and v.path and v.path[-1][0] == "elem" and not any(isinstance(x, z3.AstRef) for p in v.path[:-1] for x in p):
        return Refs(tag, v.cell, v.path[:-1], v.path[-1][1])
    return None


def refs_shape(ex, st, seq):
    tpl, parts = None, []
    for lo, hi, g in nonempty_segs(ex, st, seq):
        r = as_ref(g.v) if isinstance(g, One) else g if isinstance(g, Refs) else None
        if r is None or tpl is not None and repr(tpl) != repr(r.tpl()):
            return None
        tpl, o = r.tpl(), simp(r.off - lo)
        if not all(ex.known(st, z3.Implies(z3.And(lo < hi, l < h), o == x)) for l, h, x in parts):
            return None
        parts.append((lo, hi, o))
    off = None
    for lo, hi, o in reversed(parts):
        off = o if off is None else simp(z3.If(lo < hi, o, off))
    if tpl is None:
        return {"tpl": None, "off": (I(0), False)} if ex.known(st, seq.len == 0) else None
    if not covered(ex, st, seq):
        return None
    return {"tpl": tpl, "off": (off, simp(seq.len > 0))}


def of_bufs(seq):
    e = seq.ety
    return e is None or (e.k == "adt" and e.last() in ("Vec", "VecDeque"))


def shape_of(ex, st, seq, kind, hint=None):
    """parameters of the sequence under a shape kind: dict name -> (term, guard), or None"""
    if kind in ("queue", "empties") and not of_bufs(seq):
        return None
    if kind == "stream" and seq.ety is not None and of_bufs(seq):
        return None
    if kind == "unknown":
        return {}
    if kind == "stream":
        # elements of a known value are forgotten
        segs = [x for x in nonempty_segs(ex, st, seq) if not (isinstance(x[2], (Const, One)) and is_int(x[2].v))]
        if ex.spec is not None and hasattr(ex.spec, "live_segs"):
            segs = ex.spec.live_segs(ex, st, seq, segs)
        w = stream_window(ex, st, segs)
        if w is None:
            if segs:
                return None
            return {"src": None, "d": None, "a": (I(0), False), "b": (I(0), False), "p": (I(0), False), "w": (I(0), None)}
        g = simp(w[0] < w[1])
        return {"src": w[3], "d": w[4], "a": (w[0], g), "b": (w[1], g), "p": (w[2], g),
                "w": (simp(z3.If(w[0] < w[1], w[1] - w[0], 0)), None)}
    if kind == "refs":
        return refs_shape(ex, st, seq)
    if kind == "queue":
        q = queue_shape(ex, st, seq)
        if q is None:
            return None
        g = None if hasattr(ex.spec, "empty_queue") else simp(seq.len > 0)
        return {"k": (q[0], g), "fp": (q[1], g)}
    if kind == "empties":
        for lo, hi, g in nonempty_segs(ex, st, seq):
            if isinstance(g, EmptyBufs):
                continue
            if isinstance(g, One) and isinstance(g.v, Seq) and ex.known(st, z3.Implies(lo < hi, g.v.len == 0)):
                continue
            return None
        if not covered(ex, st, seq):
            return None
        return {}
    raise AssertionError(kind)


def covered(ex, st, seq):
    i = fint("cov")
    segs = [z3.And(lo <= i, i < hi) for lo, hi, g in seq.segs]
    return ex.known(st, z3.Implies(z3.And(0 <= i, i < seq.len), z3.Or(*segs) if segs else z3.BoolVal(False)))


# ---------------------------------------------------------------- candidates
TRUE = z3.BoolVal(True)
_ctx = z3.main_ctx()
_c = _ctx.ref()


def fast_sum(xs):
    if not xs:
        return ZERO
    if len(xs) == 1:
        return xs[0]
    arr = (z3.Ast * len(xs))(*[x.ast for x in xs])
    return z3.ArithRef(z3.Z3_mk_add(_c, len(xs), arr), _ctx)


ZERO = z3.IntVal(0)


def fast_rel(pos, neg, le, gs):
    """guards => sum(pos) <= or == sum(neg), built without the checks of the z3 module"""
    a, b = fast_sum(pos), fast_sum(neg)
    r = z3.BoolRef(z3.Z3_mk_le(_c, a.ast, b.ast) if le else z3.Z3_mk_eq(_c, a.ast, b.ast), _ctx)
    if gs:
        arr = (z3.Ast * len(gs))(*[g.ast for g in gs])
        h = z3.BoolRef(z3.Z3_mk_and(_c, len(gs), arr), _ctx)
        r = z3.BoolRef(z3.Z3_mk_implies(_c, h.ast, r.ast), _ctx)
    return r


def fast_or_not(ts):
    nots = [z3.BoolRef(z3.Z3_mk_not(_c, t.ast), _ctx) for t in ts]
    arr = (z3.Ast * len(nots))(*[t.ast for t in nots])
    return z3.BoolRef(z3.Z3_mk_or(_c, len(nots), arr), _ctx)


class Var:
    __slots__ = ("name", "entry", "head", "eguard", "hguard", "mod", "cat")

    def __init__(self, name, entry, head, eguard=None, hguard=None, mod=True, cat="size"):
        self.name, self.entry, self.head, self.eguard, self.hguard, self.mod = name, entry, head, eguard, hguard, mod
        self.cat = cat   # only variables of one category are related by pairs


class Lin:
    """sum c_i * x_i + sum d_i * entry_i + k (<=|==) 0, under the guards of its variables"""
    __slots__ = ("cs", "es", "k", "op")

    def __init__(self, cs, es, k, op):
        self.cs, self.es, self.k, self.op = cs, es, k, op

    def term(self, xs, es):
        pos, neg, gs = [], [], []
        k = self.k
        for part, vals in ((self.cs, xs), (self.es, es)):
            for i, c in part:
                v, g = vals[i]
                if g is False:
                    return TRUE
                if g is not None:
                    gs.append(g)
                (pos if c > 0 else neg).append(v)
        if k > 0:
            pos.append(I(k))
        elif k < 0:
            neg.append(I(-k))
        return fast_rel(pos, neg, self.op == "<=", gs)

    def num(self, xs, es):
        t = self.k
        for i, c in self.cs:
            v, g = xs[i]
            if not g:
                return True
            t += c * v
        for i, c in self.es:
            v, g = es[i]
            if not g:
                return True
            t += c * v
        return t <= 0 if self.op == "<=" else t == 0

    def show(self, names):
        s = " + ".join(["%s%s" % ("" if c == 1 else "-" if c == -1 else str(c), names[i]) for i, c in self.cs] +
                       ["%sold(%s)" % ("" if c == 1 else "-" if c == -1 else str(c), names[i]) for i, c in self.es])
        return "%s %+d %s 0" % (s, self.k, self.op)


class Clause:
    __slots__ = ("lits",)

    def __init__(self, lits):
        self.lits = lits

    def term(self, atoms):
        ls = [atoms[i] if p else z3.Not(atoms[i]) for i, p in self.lits]
        return z3.Or(*ls) if len(ls) > 1 else ls[0]

    def num(self, atoms):
        return any(atoms[i] == p for i, p in self.lits)

    def show(self, names):
        return " | ".join(("" if p else "!") + names[i] for i, p in self.lits)


class Fail(Exception):
    pass


class Restart(Exception):
    pass


def run_loop(ex, st, fr, head, body):
    """returns like run_blocks: exits of the loop and returns from inside of it"""
    def step(s):
        return ex.run_blocks(s, fr, head, (head, body))
    return run_cut(ex, st, fr, step, "%s loop at bb%d" % (fr.fn.name, head))


def run_cut(ex, st, fr, step, label, check_props=None):
    """repeat step (whose 'back' results go round again) from st, cut at an inferred invariant"""
    if hasattr(ex.spec, "on_back"):
        inner = step
        if ex.spec.pending(st) and hasattr(ex.spec, "same_mon"):
            # what is being handled at the entry may be over, and something else handled in the loop
            ex.suppress += 1
            try:
                outs = inner(st.fork())
            finally:
                ex.suppress -= 1
            if any(o[0] == "back" and not ex.spec.same_mon(st, o[1]) for o in outs):
                st = st.fork()
                ex.spec.settle(ex, st, "before the loop")

        def step(s):
            pend = ex.spec.pending(s)
            outs = inner(s)
            for o in outs:
                if o[0] == "back":
                    ex.spec.on_back(ex, o[1], pend)
            return [o for o in outs if o[0] != "back" or ex.feasible(o[1])]
    n = getattr(ex.spec, "unroll", 0)
    if n and not ex.suppress:
        r = unrolled(ex, st, step, n)
        if r is not None:
            ex.loop_info.append({"at": label, "kinds": {}, "dropped": {}, "invariant": "none needed: ends after at most %d rounds on every path" % n})
            return r
    if getattr(ex.spec, "discrete_loops", False):
        for d in getattr(ex.spec, "seq_dirs", (None,)):
            try:
                return run_set(ex, st, fr, step, label, sdir=d)
            except NotDiscrete as e:
                ex.notes.append("%s: %s" % (label, e))
    ex.suppress += 1
    try:
        first = step(st.fork())
    finally:
        ex.suppress -= 1
    backs = [o[1] for o in first if o[0] == "back"]
    if not backs:
        return step(st.fork())
    inf = Inference(ex, st, fr, step, label)
    for b in backs:
        inf.note_modified(b)
    while True:
        try:
            hst = inf.infer(backs)
            break
        except Restart:
            ex.tick()
            continue
    # the checked pass
    outs = step(hst)
    res = []
    for o in outs:
        if o[0] == "back":
            if not ex.suppress:
                inf.check(o[1])
        else:
            res.append(o)
    if not ex.suppress:
        ex.loop_info.append({"at": label, "kinds": {inf.leaf_name(loops_leaf(k)): v for k, v in inf.kinds.items()},
                             "dropped": {inf.leaf_name(loops_leaf(k)): v for k, v in inf.dropped_kinds.items()},
                             "invariant": inf.describe()})
    return res


def unrolled(ex, st, step, n):
    """the loop's results if every path through it is over after n rounds, however it is entered here; None otherwise"""
    def go():
        live, res = [st.fork()], []
        for _ in range(n):
            nxt = []
            for s in live:
                for o in step(s.fork()):
                    if o[0] != "back":
                        res.append(o)
                    elif ex.feasible(o[1]):
                        nxt.append(o[1])
            if not nxt:
                return res
            if len(nxt) > 64:
                return None
            live = nxt
        return None
    ex.suppress += 1
    try:
        if go() is None:
            return None
    finally:
        ex.suppress -= 1
    return go()


class NotDiscrete(Exception):
    pass


def const_term(t):
    t = z3.simplify(t)
    return z3.is_true(t) or z3.is_false(t) or z3.is_int_value(t)


def concretize(ex, st, leaf):
    """split st until the value at the leaf has no enum with an unknown variant"""
    try:
        v = read(st, leaf)
    except (KeyError, AttributeError, IndexError):
        return [st]

    def find(v, path):
        if isinstance(v, Enum):
            if not isinstance(v.tag, int):
                t = z3.simplify(v.tag)
                if z3.is_int_value(t):
                    return path, v, t.as_long()
                return path, v, None
            for i, x in enumerate(v.pay.get(v.tag, ())):
                r = find(x, path + (("v", v.tag), ("f", i)))
                if r:
                    return r
        elif isinstance(v, Struct):
            for i, x in enumerate(v.fields):
                r = find(x, path + (("f", i),))
                if r:
                    return r
        return None
    r = find(v, leaf.path)
    if r is None:
        return [st]
    path, e, one = r
    out = []
    for i in ([one] if one is not None else sorted(e.pay)):
        c = e.tag == i
        if one is None and not ex.feasible(st, c):
            continue
        s = st.fork()
        s.assume(c)
        write(s, Leaf(leaf.space, leaf.key, path, "enum"), Enum(e.ty, i, {j: (e.pay[i] if j == i else ()) for j in e.pay}))
        out.extend(concretize(ex, s, leaf))
    return out


def reachable(st, cells):
    seen = set()
    todo = [c for c in cells if c in st.heap]

    def ptrs(v):
        if isinstance(v, Ptr):
            yield v.cell
        elif isinstance(v, Struct):
            for x in v.fields:
                yield from ptrs(x)
        elif isinstance(v, Enum):
            for fs in v.pay.values():
                for x in fs:
                    yield from ptrs(x)
        elif isinstance(v, Seq):
            for _, _, g in v.segs:
                if isinstance(g, (One, Const)):
                    yield from ptrs(g.v)
    while todo:
        c = todo.pop()
        if c in seen or c not in st.heap:
            continue
        seen.add(c)
        todo.extend(ptrs(st.heap[c]))
    return seen


def lengths(st):
    """the lengths of the sequences of a state"""
    def of(v):
        if isinstance(v, Seq):
            yield v.len
        elif isinstance(v, Struct):
            for x in v.fields:
                yield from of(x)
        elif isinstance(v, Enum):
            for fs in v.pay.values():
                for x in fs:
                    yield from of(x)
    for v in st.heap.values():
        yield from of(v)


def run_set(ex, st, fr, step, label, cap=60, sdir=None):
    """the loop as a finite set of head states, closed under step. Every head is a state in
    which variants and constants are concrete; leaves that take other values are arbitrary in
    every head (havoc), moved locals are dead in every head. A back state must equal one of the
    heads up to these, so the set is an (inductive) invariant. Sequences that change are what
    the specification says they are (seq_head), an obligation at entry and at every back edge."""
    havoc = {}   # leaf id -> kind
    seqs = {}
    noseq = not hasattr(ex.spec, "seq_head") or sdir is None
    dead = set()
    enums = set()
    gone = set()    # candidates that are not invariant
    lens = sorted({str(t): t for t in lengths(st) if not const_term(t)}.items())[:8]
    vals = {}       # leaf id -> the constants it was seen with

    def candidates():
        """relations between the arbitrary integers, their entry values and each other"""
        out = {}
        ints = []
        for k in sorted(havoc, key=str):
            try:
                e = read(st, Leaf(k[0], k[1], k[2], "t"))
            except (KeyError, AttributeError, IndexError):
                continue
            if is_int(e):
                ints.append((k, e))
        for i, (k, e) in enumerate(ints):
            out["0 <=", k] = lambda v, k=k: v[k] >= 0
            out["entry <=", k] = lambda v, k=k, e=e: v[k] >= e
            out["<= entry", k] = lambda v, k=k, e=e: v[k] <= e
            for c in fr.fn.literals() if fr is not None else ():
                for d in (-1, 0, 1):
                    out["<= %d" % (c + d), k] = lambda v, k=k, c=c + d: v[k] <= c
            for n, t in lens:
                out["<= len " + n, k] = lambda v, k=k, t=t: v[k] <= t
            for l, f in ints[:i]:
                out["with", k, l] = lambda v, k=k, e=e, l=l, f=f: v[k] - e == v[l] - f
                out["against", k, l] = lambda v, k=k, e=e, l=l, f=f: v[k] - e == f - v[l]
        return {n: f for n, f in out.items() if n not in gone}

    def values(s):
        out = {}
        for k in havoc:
            try:
                x = read(s, Leaf(k[0], k[1], k[2], "t"))
            except (KeyError, AttributeError, IndexError):
                continue
            if is_int(x):
                out[k] = x
        return out

    def related(s):
        v = values(s)
        return [(n, f(v)) for n, f in candidates().items() if all(k in v for k in n[1:])]

    def covered(k):
        return any(k[0] == m[0] and k[1] == m[1] and k[2][:len(m[2])] == m[2] for m in list(havoc) + list(dead) + list(seqs))

    def head_of(s):
        h = St2(s)
        h.pc = list(st.pc)
        keep = reachable(s, st.heap)
        h.heap = {c: v for c, v in s.heap.items() if c in keep}
        rng = []
        for k in sorted(dead, key=str):
            if k[1] in (h.g if k[0] == "g" else h.heap):
                try:
                    write(h, Leaf(k[0], k[1], k[2], "moved"), MOVED)
                except (KeyError, AttributeError, IndexError):
                    pass
        for k, kind in sorted(havoc.items(), key=str):
            leaf = Leaf(k[0], k[1], k[2], kind)
            try:
                old = read(h, leaf)
            except (KeyError, AttributeError, IndexError):
                continue
            if is_bool(old):
                write(h, leaf, fbool("S"))
            elif is_int(old):
                t = fint("S")
                write(h, leaf, t)
            elif isinstance(old, Opq):
                write(h, leaf, Opq(old.ty, fint("S"), old.attr))
            elif old is not MOVED and old is not None:
                raise NotDiscrete("%s changes" % (k,))
        for k in sorted(seqs, key=str):
            leaf = Leaf(k[0], k[1], k[2], "seq")
            try:
                old = read(h, leaf)
            except (KeyError, AttributeError, IndexError):
                continue
            if isinstance(old, Seq):
                write(h, leaf, ex.spec.seq_head(ex, h, old, sdir))
        for n, t in related(h):
            h.assume(t)
        return h

    def seq_ok(s):
        cs = []
        for k in sorted(seqs, key=str):
            try:
                v = read(s, Leaf(k[0], k[1], k[2], "seq"))
            except (KeyError, AttributeError, IndexError):
                continue
            if isinstance(v, Seq):
                cs.append(ex.spec.seq_inv(ex, s, v, sdir))
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def split_enums(s):
        out = [s]
        for k in sorted(enums, key=str):
            out = [y for x in out for y in concretize(ex, x, Leaf(k[0], k[1], k[2], "enum"))]
        return out

    def sub_by(h, b):
        """leaves in which b is not the head"""
        return [(k, kind) for k, kind in diff(h, b).items() if not covered(k)]

    ex.suppress += 1
    try:
        while True:
            ex.tick()
            again = False
            for n, t in related(st):
                if not ex.known(st, t):
                    gone.add(n)
            heads = [head_of(s) for s in split_enums(st.fork())]
            todo = list(heads)
            while todo and not again:
                h = todo.pop()
                outs = step(h.fork())
                for o in outs:
                    if o[0] != "back":
                        continue
                    for b in split_enums(o[1]):
                        if not ex.feasible(b):
                            continue
                        if seqs and not ex.known(b, seq_ok(b)):
                            raise NotDiscrete("the sequence is not what it should be")
                        rel = related(b)
                        if rel and not ex.known(b, z3.And(*[t for _, t in rel])):
                            for n, t in rel:
                                if not ex.known(b, t):
                                    gone.add(n)
                                    again = True
                            if again:
                                break
                        best = None
                        for x in heads:
                            d = sub_by(x, b)
                            if best is None or len(d) < len(best):
                                best = d
                            if not d:
                                break
                        if not best:
                            continue
                        # widen, or a new head
                        for k, kind in best:
                            if kind == "moved":
                                dead.add(k)
                                again = True
                            elif kind == "enum" and k not in enums:
                                v = [read(y, Leaf(k[0], k[1], k[2], kind)) for y in (b, st) if k[1] in (y.g if k[0] == "g" else y.heap)]
                                if any(isinstance(e, Enum) and not isinstance(e.tag, int) for e in v):
                                    again = True
                                enums.add(k)
                            elif kind in ("t", "opq"):
                                v = read(b, Leaf(k[0], k[1], k[2], kind))
                                if kind == "opq":
                                    if len(heads) > cap // 3:
                                        havoc[k] = kind
                                        again = True
                                elif not const_term(v):
                                    havoc[k] = kind
                                    again = True
                                elif is_int(v):
                                    vs = vals.setdefault(k, set())
                                    vs.add(str(v))
                                    if len(vs) > 5:      # it counts
                                        havoc[k] = kind
                                        again = True
                            elif kind == "seq":
                                if noseq:
                                    raise NotDiscrete("a sequence changes: %s" % (k,))
                                seqs[k] = True
                                again = True
                                for g_ in getattr(ex.spec, "seq_ghosts", ()):
                                    havoc[("g", g_, ())] = "t"
                        if again:
                            break
                        nh = head_of(b)
                        heads.append(nh)
                        todo.append(nh)
                        if len(heads) > cap:
                            # constants that keep changing are arbitrary
                            for k, kind in best:
                                if kind == "t" and k not in havoc:
                                    havoc[k] = kind
                                    again = True
                            if not again:
                                raise NotDiscrete("too many states")
                            break
                    if again:
                        break
            if not again:
                break
    finally:
        ex.suppress -= 1
    res = []
    if seqs:
        if not ex.known(st, seq_ok(st)):
            raise NotDiscrete("the sequence is not what it should be at entry")
        if not ex.suppress:
            ex.oblige(st.fork(), ex.panic_props, "loop invariant holds at entry: " + label, seq_ok(st), None)
    for h in heads:
        for o in step(h.fork()):
            if o[0] == "back":
                if not ex.suppress:
                    rel = related(o[1])
                    if rel:
                        ex.oblige(o[1], ex.panic_props, "loop invariant (counters) is preserved: " + label, z3.And(*[t for _, t in rel]), None)
                    if seqs:
                        ex.oblige(o[1], ex.panic_props, "loop invariant (pending requests) is preserved: " + label, seq_ok(o[1]), None)
                    good = all(any(not sub_by(x, b) for x in heads) for b in split_enums(o[1]) if ex.feasible(b))
                    ex.oblige(o[1], ex.panic_props, "loop invariant (set of states) is preserved: " + label, z3.BoolVal(good), None)
            else:
                res.append(o)
    if not ex.suppress:
        ex.loop_info.append({"at": label, "states": len(heads), "arbitrary": sorted(str(k) for k in havoc)[:40]})
    return res


def St2(s):
    return s.fork()


def loops_leaf(k):
    return Leaf(k[0], k[1], k[2], "seq")


class Inference:
    def __init__(self, ex, st, fr, step, label):
        self.ex, self.st, self.fr, self.step, self.label = ex, st, fr, step, label
        self.mod = {}      # leaf id -> kind
        self.kinds = {}    # seq leaf id -> shape kind
        self.dropped_kinds = {}
        self.rounds = 0
        self.exact_entry = False

    def note_modified(self, b):
        new = False
        for k, kind in diff(self.st, b).items():
            if k not in self.mod:
                # a leaf below an already havoced one
                if any(k[0] == m[0] and k[1] == m[1] and k[2][:len(m[2])] == m[2] for m in self.mod):
                    continue
                for m in [m for m in self.mod if m[0] == k[0] and m[1] == k[1] and m[2][:len(k[2])] == k[2]]:
                    del self.mod[m]
                    self.kinds.pop(m, None)
                self.mod[k] = kind
                new = True
            elif self.mod[k] != kind and kind in ("bad", "moved", "enum"):
                if self.mod[k] not in ("bad", "moved"):
                    self.mod[k] = kind
                    new = True
        return new

    # -- build the head state
    def build(self, backs):
        ex, st = self.ex, self.st
        h = st.fork()
        vars_ = []
        self.shape_terms = {}
        for (space, key, path), kind in sorted(self.mod.items(), key=lambda x: str(x[0])):
            leaf = Leaf(space, key, path, kind)
            name = self.leaf_name(leaf)
            if kind == "moved":
                write(h, leaf, MOVED)
                continue
            if kind == "bad":
                raise Unsupported("loop changes %s in %s" % (name, self.label))
            old = read(st, leaf)
            if kind == "t":
                if z3.is_int(old):
                    t = fint("L." + name)
                    vars_.append(Var(name, old, t, cat=self.cat(name) if space == "g" else "size"))
                elif z3.is_bool(old):
                    t = fbool("L." + name)
                else:
                    t = z3.Const("L.%s!%d" % (name, ident()), old.sort())
                write(h, leaf, t)
            elif kind == "opq":
                t = fint("L." + name)
                write(h, leaf, Opq(old.ty, t, old.attr))
            elif kind == "map":
                write(h, leaf, ex.lib.map_havoc(ex, h, old))
            elif kind == "enum":
                if old.ty is None:
                    raise Unsupported("loop changes an enum of unknown type")
                write(h, leaf, ex.fresh(h, old.ty, "L." + name))
            elif kind == "seq":
                self.seq_head(h, leaf, old, name, vars_, backs)
        # cells that did not exist at entry are dead at the head
        return h, vars_

    def seq_head(self, h, leaf, old, name, vars_, backs):
        ex = self.ex
        lid = leaf.id()
        kinds = [k for k in KINDS if k not in self.dropped_kinds.get(lid, ())]
        if lid not in self.kinds:
            for k in kinds:
                ps = shape_of(ex, self.st, old, k)
                if ps is None:
                    continue
                src, d = ps.get("src"), ps.get("d")
                if k == "refs":
                    src = ps["tpl"]
                ok = True
                bs = []
                for b in backs:
                    try:
                        bv = read(b, leaf)
                    except (KeyError, AttributeError, IndexError):
                        continue
                    if not isinstance(bv, Seq):
                        continue
                    q = shape_of(ex, b, bv, k)
                    if q is None:
                        ok = False
                        break
                    if k == "refs":
                        if src is None:
                            src = q["tpl"]
                        elif q["tpl"] is not None and repr(q["tpl"]) != repr(src):
                            ok = False
                            break
                    if k == "stream":
                        if src is None:
                            src = q["src"]
                        if d is None or (q["d"] is not None and ex.known(self.st, ps["b"][0] - ps["a"][0] <= 1)):
                            d = q["d"] or d
                        elif q["d"] is not None and q["d"] != d and not ex.known(b, q["b"][0] - q["a"][0] <= 1):
                            ok = False
                            break
                        if q["src"] is not None and not teq(I(q["src"]), I(src)):
                            ok = False
                            break
                if not ok:
                    continue
                if k in ("stream", "refs") and src is None:
                    continue
                self.kinds[lid] = (k, src, d)
                break
        k, src, d = self.kinds[lid]
        n, cap = fint("L." + name + ".len"), fint("L." + name + ".cap")
        h.assume(z3.And(n >= 0, cap >= n))
        vars_.append(Var(name + ".len", old.len, n))
        if not teq(old.cap, n):
            vars_.append(Var(name + ".cap", old.cap, cap))
        ps = shape_of(ex, self.st, old, k)
        if k == "stream":
            a, b, p = fint("L." + name + ".a"), fint("L." + name + ".b"), fint("L." + name + ".p")
            g = a < b
            h.assume(z3.And(a >= 0, a <= b, b <= n))
            for nm, t in (("a", a), ("b", b), ("p", p)):
                e, eg = ps[nm]
                vars_.append(Var(name + "." + nm, e, t, eg, g, cat="src%s" % src if nm == "p" else "size"))
            vars_.append(Var(name + ".w", ps["w"][0], simp(b - a)))
            new = Seq(old.ty, old.ety, n, cap, [(a, b, Stream(I(src), p, d))])
        elif k == "queue":
            kk, fp = fint("L." + name + ".k"), fint("L." + name + ".fp")
            g = n > 0
            h.assume(z3.Implies(g, z3.And(PS(kk) <= fp, fp < PS(kk + 1))))
            if hasattr(ex.spec, "empty_queue"):
                h.assume(z3.Implies(n == 0, fp == PS(kk)))
                g = None
            for nm, t in (("k", kk), ("fp", fp)):
                e, eg = ps[nm]
                vars_.append(Var(name + "." + nm, e, t, eg, g, cat="src%d" % (SRC_CH if nm == "k" else SRC_OUT)))
            new, front = queue_make(old, n, cap, kk, fp)
            h.assume(z3.Implies(n > 0, z3.And(front.cap >= front.len, front.cap <= ISIZE)))
        elif k == "empties":
            new = Seq(old.ty, old.ety, n, cap, [(I(0), n, EmptyBufs())])
        elif k == "refs":
            off = fint("L." + name + ".off")
            e, eg = ps["off"]
            vars_.append(Var(name + ".off", e, off, eg, n > 0))
            new = Seq(old.ty, old.ety, n, cap, [(I(0), n, Refs(src[0], src[1], src[2], off))])
        else:
            new = Seq(old.ty, old.ety, n, cap, ())
        write(h, leaf, new)

    def leaf_name(self, leaf):
        if leaf.space == "g":
            return leaf.key if not leaf.path else "%s%s" % (leaf.key, len(leaf.path))
        s = None
        c = leaf.key
        if self.fr is not None and c[0] == "l" and c[1] == self.fr.id:
            s = self.fr.fn.local_name(c[2]) or "_%d" % c[2]
        else:
            s = "%s%s" % (c[0], c[1] if len(c) > 1 else "")
        v = self.st.heap[c]
        for p in leaf.path:
            if p[0] == "f":
                nm = None
                if isinstance(v, Struct) and v.ty is not None and v.ty.k == "adt" and v.ty.field_names():
                    nm = v.ty.field_names()[p[1]]
                s += "." + (nm or str(p[1]))
                v = v.fields[p[1]]
            elif p[0] == "v":
                v = Struct(None, v.pay[p[1]], "variant")
            else:
                s += "@"
                break
        return s

    def back_terms(self, b, vars_):
        """values of the variables in a back-edge state: list of (term, guard)"""
        ex = self.ex
        out = {}
        for (space, key, path), kind in self.mod.items():
            leaf = Leaf(space, key, path, kind)
            name = self.leaf_name(leaf)
            if kind in ("t",):
                v = read(b, leaf)
                if z3.is_int(v):
                    out[name] = (v, None)
            elif kind == "seq":
                v = read(b, leaf)
                if v is MOVED:
                    raise Restart()
                k, src, d = self.kinds[leaf.id()]
                ps = shape_of(ex, b, v, k)
                bad = ps is None
                if not bad and k == "stream":
                    if ps["src"] is not None and not teq(I(ps["src"]), I(src)):
                        bad = True
                    elif ps["d"] is not None and ps["d"] != d:
                        # one element: position is the same in both directions
                        if not ex.known(b, ps["b"][0] - ps["a"][0] <= 1):
                            bad = True
                if not bad and k == "refs" and ps["tpl"] is not None and repr(ps["tpl"]) != repr(src):
                    bad = True
                if bad:
                    self.dropped_kinds.setdefault(leaf.id(), set()).add(k)
                    del self.kinds[leaf.id()]
                    raise Restart()
                out[name + ".len"] = (v.len, None)
                out[name + ".cap"] = (v.cap, None)
                for nm in ("a", "b", "p", "w", "k", "fp", "off"):
                    if nm in ps:
                        out[name + "." + nm] = ps[nm]
        res = []
        for v in vars_:
            if not v.mod:
                res.append((v.head, None))
            else:
                res.append(out[v.name])
        return res

    def candidates(self, vars_):
        n = len(vars_)
        mods = [i for i in range(n) if vars_[i].mod]
        out = []
        for i in mods:
            out.append(Lin(((i, -1),), (), 0, "<="))
            out.append(Lin(((i, 1),), (), -(2 ** 64 - 1), "<="))
            out.append(Lin(((i, -1),), (), 1, "<="))
            out.append(Lin(((i, 1),), (), 0, "<="))
            out.append(Lin(((i, -1),), ((i, 1),), 0, "<="))
            out.append(Lin(((i, 1),), ((i, -1),), 0, "<="))
            if self.fr is not None and vars_[i].name not in self.st.g:
                for k in self.fr.fn.literals():
                    for d in (-1, 0, 1):
                        out.append(Lin(((i, 1),), (), -(k + d), "<="))
        for i in mods:
            for j in range(n):
                if i == j or (vars_[j].mod and j < i) or vars_[i].cat != vars_[j].cat:
                    continue
                for k in (0, 1, -1):
                    out.append(Lin(((i, 1), (j, -1)), (), k, "=="))
                out.append(Lin(((i, 1), (j, -1)), (), 0, "<="))
                out.append(Lin(((i, -1), (j, 1)), (), 0, "<="))
                out.append(Lin(((i, 1), (j, -1)), (), 1, "<="))
                out.append(Lin(((i, -1), (j, 1)), (), 1, "<="))
                if vars_[j].mod:
                    out.append(Lin(((i, 1), (j, -1)), ((i, -1), (j, 1)), 0, "=="))
                    out.append(Lin(((i, 1), (j, 1)), ((i, -1), (j, -1)), 0, "=="))
        if len(mods) <= 14:
            for i, j, k in itertools.combinations(mods, 3):
                for s in ((1, 1, -1), (1, -1, 1), (-1, 1, 1), (1, 1, 1)):
                    cs = tuple(zip((i, j, k), s))
                    out.append(Lin(cs, tuple((x, -c) for x, c in cs), 0, "=="))
        # position plus length of a sequence against any other number
        idx = {v.name: i for i, v in enumerate(vars_)}
        for i in mods:
            nm = vars_[i].name
            base, _, par = nm.rpartition(".")
            if par not in ("k", "p", "a") or base + ".len" not in idx:
                continue
            l = idx[base + ".len"]
            for j in mods:
                if j not in (i, l) and vars_[j].cat == vars_[i].cat:
                    for k in (0, 1, -1):
                        out.append(Lin(((i, 1), (l, 1), (j, -1)), (), k, "=="))
                        if par == "p":      # windows that run backwards
                            out.append(Lin(((i, 1), (l, -1), (j, -1)), (), k, "=="))
        for i, j in itertools.combinations(mods, 2):
            if "size" not in (vars_[i].cat, vars_[j].cat):
                continue
            # sums bounded by unmodified integers
            for u in range(n):
                if vars_[u].mod or vars_[u].cat not in (vars_[i].cat, vars_[j].cat) or (
                        vars_[i].cat != vars_[j].cat and vars_[u].cat == "size"):
                    continue
                out.append(Lin(((i, 1), (j, 1), (u, -1)), (), 0, "<="))
                out.append(Lin(((i, 1), (j, 1), (u, -1)), (), 0, "=="))
                out.append(Lin(((i, 1), (j, -1), (u, -1)), (), 0, "=="))
                out.append(Lin(((i, -1), (j, 1), (u, -1)), (), 0, "=="))
        return out

    def consts(self):
        """unmodified integers in scope"""
        seen, out = set(), []

        def rec(v, name, d):
            if d > 4 or len(out) > 24:
                return
            if is_term(v):
                if z3.is_int(v) and not z3.is_int_value(v) and v.get_id() not in seen:
                    seen.add(v.get_id())
                    out.append((name, v))
                return
            if isinstance(v, Struct):
                ns = v.ty.field_names() if v.ty is not None and v.ty.k == "adt" and v.ty.variants else None
                for i, f in enumerate(v.fields):
                    rec(f, "%s.%s" % (name, ns[i] if ns and i < len(ns) else i), d + 1)
            elif isinstance(v, Seq):
                rec(v.len, name + ".len", d + 1)

        for c, v in self.st.heap.items():
            if self.fr is not None and c[0] == "l" and c[1] == self.fr.id:
                rec(v, self.fr.fn.local_name(c[2]) or "_%d" % c[2], 0)
        for c, v in self.st.heap.items():
            if c[0] == "h":
                rec(v, "h%s" % c[1], 0)
        for n, v in self.st.g.items():
            if not n.startswith("_"):
                rec(v, n, 0)
        mods = set()
        return out

    def infer(self, backs):
        ex, st = self.ex, self.st
        self.rounds += 1
        if self.rounds > 12:
            raise Unsupported("no invariant shape for the loop: " + self.label)
        h, vars_ = self.build(backs)
        modnames = set()
        modterms = {v.entry.get_id() for v in vars_ if is_term(v.entry)}
        for nm, t in self.consts():
            if t.get_id() not in modterms or True:
                vars_.append(Var("const:" + nm, t, t, mod=False, cat=self.cat(nm)))
        self.vars = vars_
        self.names = [v.name for v in vars_]
        E = [(v.entry, v.eguard) for v in vars_]
        H = [(v.head, v.hguard) for v in vars_]
        cands = self.candidates(vars_)
        # entry values that are unconstrained or literal say nothing new
        dull = {i for i, v in enumerate(vars_) if v.eguard is False}
        lit = {i for i, v in enumerate(vars_) if z3.is_int_value(v.entry)}
        cands = [c for c in cands if not c.es or not (any(i in dull for i, _ in c.es) or (
            len(c.es) == 2 and all(i in lit for i, _ in c.es)))]
        self.wkey = (self.label, tuple(ex.fnstack), tuple(self.names))
        warm = ex.warm.get(self.wkey)
        # atoms
        spec = ex.spec
        self.atom_names, ea, ha = [], [], []
        a0 = self.atoms(st)
        a1 = self.atoms(h)
        for nm in a0:
            if nm in a1:
                self.atom_names.append(nm)
                ea.append(a0[nm])
                ha.append(a1[nm])
        ca = self.clauses(ea, ha)
        # candidates the specification names: functions of (entry state, state)
        sc = list(spec.loop_candidates(ex, self)) if spec is not None and hasattr(spec, "loop_candidates") else []
        if warm is not None:
            # start from what survived the last time in this context: the contexts only get weaker
            cands = [c for c in cands if (c.cs, c.es, c.k, c.op) in warm]
            ca = [c for c in ca if tuple((self.atom_names[i], p) for i, p in c.lits) in warm]
            sc = [c for c in sc if c.__name__ in warm]
        # entry: drop what does not hold
        cands, ca, sc = self.prune(st, E, E, ea, st, cands, ca, sc)
        # the first iteration: drop what is really falsified
        for b in backs:
            try:
                X = self.back_terms(b, vars_)
            except (KeyError, AttributeError, IndexError):
                continue
            ba = self.atoms(b)
            ba = [ba[nm] for nm in self.atom_names]
            cands, ca, sc = self.prune(b, X, E, ba, b, cands, ca, sc)
        # optimistic fixpoint
        while True:
            ex.tick()
            hs = h.fork()
            conj = [c.term(H, E) for c in self.needed(cands)]
            conj += [c.term(ha) for c in self.needed_clauses(ca)]
            conj += [c(self, hs) for c in sc]
            if conj:
                hs.assume(z3.And(*conj))
            n = (len(cands), len(ca), len(sc))
            ex.suppress += 1
            try:
                outs = self.step(hs.fork())
            finally:
                ex.suppress -= 1
            for o in outs:
                if o[0] != "back":
                    continue
                b = o[1]
                if self.note_modified(b):
                    raise Restart()
                X = self.back_terms(b, vars_)
                ba = self.atoms(b)
                ba = [ba[nm] for nm in self.atom_names]
                cands, ca, sc = self.prune(b, X, E, ba, b, cands, ca, sc)
            if (len(cands), len(ca), len(sc)) == n:
                break
        self.final = (cands, ca, sc, E)
        if self.exact_entry:
            return hs
        ex.warm[self.wkey] = ({(c.cs, c.es, c.k, c.op) for c in cands} | {c.__name__ for c in sc} |
                              {tuple((self.atom_names[i], p) for i, p in c.lits) for c in ca})
        return hs

    def needed(self, cands):
        """without the inequalities that an equality between the same variables implies"""
        eqs = {}
        for c in cands:
            if c.op == "==" and not c.es:
                eqs.setdefault(frozenset(c.cs), set()).add(c.k)
        out = []
        for c in cands:
            if c.op == "<=" and not c.es and len(c.cs) > 1:
                neg = frozenset((i, -x) for i, x in c.cs)
                if any(c.k <= k for k in eqs.get(frozenset(c.cs), ())) or any(c.k <= -k for k in eqs.get(neg, ())):
                    continue
            out.append(c)
        return out

    def needed_clauses(self, ca):
        units = {c.lits[0] for c in ca if len(c.lits) == 1}
        return [c for c in ca if len(c.lits) == 1 or not any(l in units for l in c.lits)]

    def cat(self, name):
        cats = getattr(self.ex.spec, "cats", None)
        return cats.get(name, "size") if cats else "size"

    def atoms(self, st):
        d = {}
        mine = self.ex.spec.atoms(self.ex, st) if self.ex.spec is not None and hasattr(self.ex.spec, "atoms") else {}
        for (space, key, path), kind in self.mod.items():
            if kind == "t" and not (space == "g" and key in mine):
                leaf = Leaf(space, key, path, kind)
                try:
                    v = read(st, leaf)
                except (KeyError, AttributeError, IndexError):
                    continue
                if is_term(v) and z3.is_bool(v):
                    d[self.leaf_name(leaf)] = v
        for k, v in mine.items():
            d["@" + k] = v
        return d

    def clauses(self, ea, ha):
        n = len(ea)
        out = []
        idx = [i for i in range(n) if not ea[i].eq(ha[i])]
        cons = [i for i in range(n) if ea[i].eq(ha[i])]
        ents = []
        lits = [(i, p) for i in range(n) for p in (True, False)]
        one = [((i, p),) for i in idx for p in (True, False)]
        two = [c for c in itertools.combinations(lits, 2) if c[0][0] != c[1][0] and (c[0][0] in idx or c[1][0] in idx)]
        three = []
        if n <= 10:
            three = [c for c in itertools.combinations(lits, 3)
                     if len({x[0] for x in c}) == 3 and any(x[0] in idx for x in c)]
        return [Clause(c) for c in one + two + three]

    def prune(self, st, X, E, A, sst, cands, ca, sc):
        """drop the candidates that can be false in st"""
        ex = self.ex
        # one list of (candidate, kind), with the terms built once, when they are needed
        items = [(c, 0) for c in cands] + [(c, 1) for c in ca] + [(c, 2) for c in sc]
        terms = {}

        def term(it):
            t = terms.get(id(it[0]))
            if t is None:
                c, k = it
                t = c.term(X, E) if k == 0 else c.term(A) if k == 1 else c(self, sst)
                terms[id(c)] = t
            return t

        def by_model(m, items):
            cache = {}

            def num(t):
                i = t.get_id()
                if i in cache:
                    return cache[i]
                v = m.eval(t, model_completion=True)
                r = v.as_long() if z3.is_int_value(v) else True if z3.is_true(v) else False if z3.is_false(v) else None
                cache[i] = r
                return r

            def nums(vs):
                out = []
                for t, g in vs:
                    gg = True if g is None else (False if g is False else num(g) is True)
                    x = num(t)
                    out.append((x, gg and x is not None))
                return out
            nx, ne = nums(X), nums(E)
            na = [num(a) for a in A]
            res = []
            for it in items:
                c, k = it
                if k == 0:
                    if c.num(nx, ne):
                        res.append(it)
                elif k == 1:
                    if c.num(na):
                        res.append(it)
                elif num(term(it)) is not False:
                    res.append(it)
            return res

        # something that is false in some model: start with whatever model there is
        if ex.smt.check(st.pc, (), timeout=6000) == z3.sat:
            items = by_model(ex.smt.model, items)
        else:
            if ex.smt.check(st.pc, (), timeout=6000) == z3.unsat:
                return cands, ca, sc
        sure = []
        rest = items
        size = 400
        while rest:
            ex.tick()
            chunk, later = rest[:size], rest[size:]
            # inequalities that a surviving equality implies need no query
            r = ex.smt.check(st.pc, (fast_or_not([term(it) for it in chunk]),), timeout=6000)
            if r == z3.unsat:
                sure += chunk
                rest = later
                continue
            if r == z3.unknown:
                for it in chunk:
                    if ex.smt.prove(st.pc, term(it), timeout=1000) == "proved":
                        sure.append(it)
                rest = later
                continue
            m = ex.smt.model
            new = by_model(m, rest)
            if len(new) == len(rest):
                for it in chunk:
                    if ex.smt.prove(st.pc, term(it), timeout=1000) == "proved":
                        sure.append(it)
                rest = later
                continue
            rest = new
        keep = {id(it[0]) for it in sure}
        return [c for c in cands if id(c) in keep], [c for c in ca if id(c) in keep], [c for c in sc if id(c) in keep]

    def check(self, b):
        """the invariant is preserved: an obligation of the checked pass"""
        ex = self.ex
        cands, ca, sc, E = self.final
        X = self.back_terms(b, self.vars)
        ba = self.atoms(b)
        A = [ba[nm] for nm in self.atom_names]
        conj = [c.term(X, E) for c in cands] + [c.term(A) for c in ca] + [c(self, b) for c in sc]
        if self.note_modified(b):
            raise Unsupported("loop frame changed in the checked pass")
        ex.oblige(b, ex.panic_props, "loop invariant preserved", z3.And(*conj) if conj else z3.BoolVal(True),
                  self.label)

    def describe(self):
        cands, ca, sc, E = self.final
        cands = sorted(cands, key=lambda c: (c.op != "==", len(c.cs) + len(c.es) < 2))
        return [c.show(self.names) for c in cands][:80] + [c.show(self.atom_names) for c in ca][:40] + [
            getattr(c, "__name__", "spec") for c in sc]


# ---------------------------------------------------------------- joining states
class NoMerge(Exception):
    pass


class Merger:
    """the exact disjunction of several states as one state: what differs becomes a fresh
    variable, and the path condition says which state it comes from"""

    def __init__(self, ex, states):
        self.ex, self.states = ex, states
        self.eqs = [[] for _ in states]
        n = 0
        pcs = [s.pc for s in states]
        m = min(map(len, pcs))
        while n < m and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        self.common = n
        self.extra = []

    def val(self, vs):
        """vs: [(state index, value)]"""
        v0 = vs[0][1]
        if all(v is v0 for _, v in vs):
            return v0
        if all(same(v0, v) for _, v in vs[1:]):
            return v0
        if any(v is MOVED for _, v in vs) or any(v is None for _, v in vs):
            raise NoMerge("moved")
        if is_term(v0):
            if not all(is_term(v) and v.sort() == v0.sort() for _, v in vs):
                raise NoMerge("sorts")
            t = z3.Const("J!%d" % ident(), v0.sort())
            for i, v in vs:
                self.eqs[i].append(t == v)
            return t
        if not all(type(v) is type(v0) for _, v in vs):
            raise NoMerge("types")
        if isinstance(v0, Struct):
            if not all(len(v.fields) == len(v0.fields) and v.tag == v0.tag for _, v in vs):
                raise NoMerge("structs")
            return Struct(v0.ty, [self.val([(i, v.fields[k]) for i, v in vs]) for k in range(len(v0.fields))], v0.tag)
        if isinstance(v0, Enum):
            tags = {v.tag if isinstance(v.tag, int) else None for _, v in vs}
            pay = {}
            keys = set()
            for _, v in vs:
                keys |= {v.tag} if isinstance(v.tag, int) else set(v.pay)
            for k in keys:
                have = [(i, v.pay.get(k, ())) for i, v in vs if (v.tag == k if isinstance(v.tag, int) else k in v.pay)]
                n = len(have[0][1])
                if not all(len(p) == n for _, p in have):
                    raise NoMerge("payload")
                pay[k] = tuple(self.val([(i, p[j]) for i, p in have]) for j in range(n))
            ty = next((v.ty for _, v in vs if v.ty is not None), None)
            if len(tags) == 1 and None not in tags:
                return Enum(ty, v0.tag, pay)
            t = fint("J.tag")
            for i, v in vs:
                self.eqs[i].append(t == I(v.tag))
            return Enum(ty, t, pay)
        if isinstance(v0, Ptr):
            if not all(v.cell == v0.cell and len(v.path) == len(v0.path) for _, v in vs):
                raise NoMerge("pointers")
            path = []
            for j in range(len(v0.path)):
                ps = [(i, v.path[j]) for i, v in vs]
                if not all(p[0] == ps[0][1][0] and len(p) == len(ps[0][1]) for _, p in ps):
                    raise NoMerge("pointers")
                e = [ps[0][1][0]]
                for q in range(1, len(ps[0][1])):
                    xs = [(i, p[q]) for i, p in ps]
                    if all(x == xs[0][1] if not is_term(x) else False for _, x in xs):
                        e.append(xs[0][1])
                    elif all(is_term(x) for _, x in xs):
                        e.append(self.val(xs))
                    else:
                        raise NoMerge("pointers")
                path.append(tuple(e))
            return Ptr(v0.cell, path)
        if isinstance(v0, Opq):
            t = fint("J.opq")
            for i, v in vs:
                self.eqs[i].append(t == v.term)
            return Opq(v0.ty, t, v0.attr)
        if isinstance(v0, Map):
            pres = self.val([(i, v.pres) for i, v in vs])
            cols = [self.val([(i, v.cols[k]) for i, v in vs]) for k in range(len(v0.cols))]
            return Map(v0.kty, v0.vty, pres, cols)
        if isinstance(v0, Seq):
            return self.seq(vs)
        raise NoMerge(str(type(v0)))

    def seq(self, vs):
        ex = self.ex
        v0 = vs[0][1]
        ty = next((v.ty for _, v in vs if v.ty is not None), None)
        ety = next((v.ety for _, v in vs if v.ety is not None), None)
        ln = self.val([(i, v.len) for i, v in vs])
        cap = self.val([(i, v.cap) for i, v in vs])
        if all(len(v.segs) == len(v0.segs) and all(teq(x[0], y[0]) and teq(x[1], y[1]) and gen_eq(x[2], y[2])
               for x, y in zip(v.segs, v0.segs)) for _, v in vs):
            return Seq(ty, ety, ln, cap, v0.segs)
        for kind in KINDS:
            shapes = []
            for i, v in vs:
                ps = shape_of(ex, self.states[i], v, kind)
                if ps is None:
                    break
                shapes.append((i, v, ps))
            if len(shapes) != len(vs):
                continue
            if kind == "unknown":
                return Seq(ty, ety, ln, cap, ())
            if kind == "refs":
                tpls = [ps["tpl"] for _, _, ps in shapes if ps["tpl"] is not None]
                if not tpls or any(repr(t) != repr(tpls[0]) for t in tpls):
                    continue
                off = fint("J.off")
                for i, v, ps in shapes:
                    if ps["tpl"] is not None:
                        self.eqs[i].append(off == ps["off"][0])
                return Seq(ty, ety, ln, cap, [(I(0), ln, Refs(*tpls[0], off))])
            if kind == "empties":
                return Seq(ty, ety, ln, cap, [(I(0), ln, EmptyBufs())])
            if kind == "stream":
                srcs = [ps["src"] for _, _, ps in shapes if ps["src"] is not None]
                if not srcs:
                    continue
                if not all(teq(I(x), I(srcs[0])) for x in srcs):
                    continue
                ds = {}
                for i, v, ps in shapes:
                    if ps["d"] is not None and not ex.known(self.states[i], ps["b"][0] - ps["a"][0] <= 1):
                        ds[ps["d"]] = True
                if len(ds) > 1:
                    continue
                d = next(iter(ds)) if ds else next(ps["d"] for _, _, ps in shapes if ps["d"] is not None)
                a, b, p = fint("J.a"), fint("J.b"), fint("J.p")
                for i, v, ps in shapes:
                    if ps["a"][1] is False:
                        self.eqs[i].append(z3.And(a == 0, b == 0))
                    else:
                        self.eqs[i].append(z3.And(a == ps["a"][0], b == ps["b"][0], p == ps["p"][0]))
                return Seq(ty, ety, ln, cap, [(a, b, Stream(I(srcs[0]), p, d))])
            if kind == "queue":
                k, fp = fint("J.k"), fint("J.fp")
                for i, v, ps in shapes:
                    self.eqs[i].append(z3.And(k == ps["k"][0], fp == ps["fp"][0]))
                new, front = queue_make(Seq(ty, ety, ln, cap, ()), ln, cap, k, fp)
                self.extra.append(z3.Implies(ln > 0, z3.And(front.cap >= front.len, front.cap <= ISIZE)))
                self.extra.append(z3.Implies(ln > 0, z3.And(PS(k) <= fp, fp < PS(k + 1))))
                if hasattr(ex.spec, "empty_queue"):
                    self.extra.append(z3.Implies(ln == 0, fp == PS(k)))
                return new
        raise NoMerge("sequence")

    def run(self, vals):
        from core import St
        ss = self.states
        r = St()
        keys = set(ss[0].heap)
        for s in ss[1:]:
            keys &= set(s.heap)
        gk = set(ss[0].g)
        for s in ss[1:]:
            gk &= set(s.g)
        for k in keys:
            r.heap[k] = self.val([(i, s.heap[k]) for i, s in enumerate(ss)])
        for k in gk:
            vs = [(i, s.g[k]) for i, s in enumerate(ss)]
            if all(v is vs[0][1] for _, v in vs):
                r.g[k] = vs[0][1]
            elif is_term(vs[0][1]) or isinstance(vs[0][1], V):
                r.g[k] = self.val(vs)
            elif all(v == vs[0][1] for _, v in vs):
                r.g[k] = vs[0][1]
            elif k == "_msgs":
                r.g[k] = vs[0][1]
            else:
                raise NoMerge("ghost " + k)
        v = self.val(list(enumerate(vals)))
        r.pc = list(ss[0].pc[:self.common])
        alts = []
        for s, e in zip(ss, self.eqs):
            alts.append(z3.And(*(list(s.pc[self.common:]) + e)) if s.pc[self.common:] or e else z3.BoolVal(True))
        r.assume(z3.Or(*alts))
        for e in self.extra:
            r.assume(e)
        r.depth = ss[0].depth
        r.trace = ss[0].trace
        r.note("(joined %d paths)" % len(ss))
        return r, v


def ret_key(v):
    if isinstance(v, Enum):
        if isinstance(v.tag, int):
            return (v.tag,) + tuple(ret_key(x) for x in v.pay.get(v.tag, ()))
        return "?"
    if is_term(v) and z3.is_bool(v):
        w = z3.simplify(v)
        return "T" if z3.is_true(w) else "F" if z3.is_false(w) else "b"
    return type(v).__name__ if isinstance(v, V) else "t"


def join(ex, outs, key=None):
    """join the results [(st, value)] with the same kind of value"""
    if len(outs) < 2:
        return outs
    groups = {}
    for s, v in outs:
        k = ret_key(v) if key is None else key(s, v)
        groups.setdefault(k, []).append((s, v))
    res = []
    for k, g in groups.items():
        if len(g) == 1:
            res.append(g[0])
            continue
        try:
            res.append(Merger(ex, [s for s, _ in g]).run([v for _, v in g]))
        except NoMerge as e:
            ex.opaque_hits["nomerge " + str(e)] = ex.opaque_hits.get("nomerge " + str(e), 0) + 1
            res.extend(g)
    return res
