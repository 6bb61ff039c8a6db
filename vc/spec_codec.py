"""C06, C07: the codecs.

The input buffer is a window [P0, P0+n) of an arbitrary byte stream. The foreign parsers (prost,
rmp, rmp_serde) are uninterpreted functions of the stream position, so nothing is assumed
about which bytes mean what; only how far each parser reads is part of their contracts.
"""
import z3

from spec_base import Spec, Missing
from val import *
from core import St
from lib import ok, err, unit, some, none, U64, ISIZE

N = z3.IntSort()
P_VALID = z3.Function("prost.delimiter_valid", N, z3.BoolSort())
P_DL = z3.Function("prost.delimiter_length", N, N)
P_ML = z3.Function("prost.message_length", N, N)
P_PAYOK = z3.Function("prost.payload_valid", N, z3.BoolSort())
P_DEFAULT = z3.Int("prost.default_message")
P_ENCLEN = z3.Function("prost.encoded_len", N, N)
P_DELIMLEN = z3.Function("prost.length_delimiter_len", N, N)
P_MSG = z3.Function("prost.message", N, N)
M_MARK = z3.Function("rmp.is_u32", N, z3.BoolSort())
M_LEN = z3.Function("rmp.u32", N, N)
M_OK = z3.Function("rmp.body_valid", N, N, z3.BoolSort())
M_MSG = z3.Function("rmp.body", N, N, N)
SRC_U32, SRC_BODY = 7, 8


class Codec(Spec):
    crate = None

    # ---- buffers: a Ptr to (a Ptr to ...) a byte slice; `Reader` and `Take` wrap one
    def holder(self, ex, st, p):
        """(pointer to the cell that holds the slice pointer, slice pointer, Seq, limit)"""
        lim = None
        hold = None
        path = p
        for _ in range(8):
            if isinstance(path, Struct) and path.tag == "reader":
                hold, path = None, path.fields[0]
                continue
            if isinstance(path, Struct) and path.tag == "take":
                lim = path.fields[1] if lim is None else zmin(lim, path.fields[1])
                hold, path = None, path.fields[0]
                continue
            if isinstance(path, Struct) and len(path.fields) == 1:
                path = path.fields[0]
                continue
            if not isinstance(path, Ptr):
                break
            v = ex.load1(st, path)
            if isinstance(v, Seq):
                return hold, path, v, lim
            if isinstance(v, Struct) and v.tag in ("reader", "take") and isinstance(v.fields[0], (Ptr, Struct)):
                if v.tag == "take":
                    lim = v.fields[1] if lim is None else zmin(lim, v.fields[1])
                hold = Ptr(path.cell, path.path + (("f", 0),))
                inner = v.fields[0]
                if isinstance(inner, Struct):
                    path = hold
                    continue
                # a reader over a slice pointer: the reader's own field is what advances
                w = ex.load1(st, inner)
                if isinstance(w, Seq):
                    return hold, inner, w, lim
                path = inner
                continue
            hold, path = path, v
        raise Unsupported("byte buffer expected, got %r" % (p,))

    def pos0(self, ex, st, p, v):
        """position of a window that may be empty: from the slice offset"""
        base = ex.load1(st, Ptr(p.cell, ()))
        lo = I(0)
        for e in p.path:
            if e[0] == "slice":
                lo = simp(lo + e[1])
            else:
                raise Unsupported("window position")
        g = base.segs[0][2] if isinstance(base, Seq) and base.segs else None
        if not isinstance(g, Stream):
            raise Unsupported("window position")
        return simp(g.pos + lo)

    def consume(self, ex, st, hold, ptr, v, k):
        if hold is None:
            return
        ex.store(st, hold, ex.lib.subslice(ptr, k, simp(v.len - k)))

    def env(self, ex, st, sn, ref, crate, args, where):
        n = ref["name"]
        tr = (ref.get("trait") or "").split("<")[0]
        if tr == "bytes::Buf" or tr.endswith("::Buf"):
            return self.buf(ex, st, n, args, where)
        if tr.endswith("io::Read"):
            return self.read(ex, st, n, args, where)
        return self.codec_env(ex, st, n, sn, ref, crate, args, where)

    def codec_env(self, ex, st, n, sn, ref, crate, args, where):
        return None

    def buf(self, ex, st, n, args, where):
        if n == "reader":
            if isinstance(args[0], Ptr) and isinstance(ex.load1(st, args[0]), Ptr):
                # a reader over a borrowed buffer: reading advances the buffer
                return [(st, Struct(None, [args[0]], "reader"))]
            c = ex.alloc(st, args[0])
            hold, p, v, lim = self.holder(ex, st, c)
            return [(st, Struct(None, [p], "reader"))]
        if n == "take":
            if isinstance(args[0], Ptr) and isinstance(ex.load1(st, args[0]), Ptr):
                raise Unsupported("a limit over a borrowed buffer")
            c = ex.alloc(st, args[0])
            hold, p, v, lim = self.holder(ex, st, c)
            return [(st, p if False else ex.lib.subslice(p, I(0), zmin(v.len, args[1])))]
        hold, p, v, lim = self.holder(ex, st, args[0])
        if lim is not None:
            raise Unsupported("Buf over a limited reader")
        if n == "remaining":
            return [(st, v.len)]
        if n == "has_remaining":
            return [(st, v.len > 0)]
        if n == "chunk":
            return [(st, p)]
        if n == "advance":
            ex.oblige(st, ex.panic_props, "no panic: advance within the buffer", args[1] <= v.len, where)
            self.consume(ex, st, hold, p, v, args[1])
            return [(st, unit())]
        if n in ("get_u8", "try_get_u8"):
            if n == "get_u8":
                ex.oblige(st, ex.panic_props, "no panic: get_u8 has a byte", v.len > 0, where)
            out = []
            for s, yes in ex.split(st, v.len > 0):
                s = s.fork()
                if not yes:
                    out.append((s, err(Opq("TryGetError", I(0)))))
                    continue
                for s2, b in ex.elem(s, v, I(0)):
                    self.consume(ex, s2, hold, p, v, I(1))
                    out.append((s2, b if n == "get_u8" else ok(b)))
            return out
        raise Unsupported("Buf::" + n)

    def read(self, ex, st, n, args, where):
        if n == "take":
            return [(st, Struct(None, [args[0], args[1]], "take"))]
        if n == "by_ref":
            return [(st, args[0])]
        if n in ("read", "read_exact"):
            hold, p, v, lim = self.holder(ex, st, args[0])
            q, dst = ex.lib.seq(ex, st, args[1])
            avail = v.len if lim is None else zmin(v.len, lim)
            if lim is not None:
                raise Unsupported("read from a limited reader")
            if n == "read":
                k = zmin(avail, dst.len)
                ex.store(st, q, ex.seq_write(dst, I(0), k, v))
                self.consume(ex, st, hold, p, v, k)
                return [(st, ok(k))]
            out = []
            for s, yes in ex.split(st, dst.len <= avail):
                s = s.fork()
                if yes:
                    ex.store(s, q, ex.seq_write(dst, I(0), dst.len, v))
                    self.consume(ex, s, hold, p, v, dst.len)
                    out.append((s, ok(unit())))
                else:
                    out.append((s, err(ex.lib.ioerr(s))))
            return out
        raise Unsupported("Read::" + n)

    def window(self, ex, st, P0, n):
        u8 = ex.lib.u8(ex)
        c = ex.alloc(st, Seq(None, u8, n, n, [(I(0), n, Stream(I(SRC_IN), P0))]))
        return Ptr(c.cell, (("slice", I(0), n),))

    def de_err(self, fn):
        t = fn.local_ty(0)   # Result<(usize, M), DeserializeError>
        return t.args[1]

    def msg_term(self, v):
        return v.term if isinstance(v, Opq) else None

    def outcomes(self, ex, fn, st, selfp, P0, n):
        """run decode: [(state, kind, value)] with kind ok / Incomplete / Invalid / Skip"""
        te = self.de_err(fn)
        out = []
        for s, r in ex.exec_fn(st, fn, [selfp, self.window(ex, st, P0, n)]):
            for s2, k, pay in ex.lib.cases(ex, s, r):
                if k == 0:
                    t = pay[0].fields
                    out.append((s2, "ok", (t[0], t[1])))
                else:
                    e = pay[0]
                    for s3, ek, ep in ex.lib.cases(ex, s2, e):
                        name = te.variants[ek]["name"]
                        out.append((s3, name, ep[0] if ep else None))
        return out


class Prost(Codec):
    name = "protobuf codec"
    props = ("C06",)
    crate = "protosocket_prost"

    def assumptions(self):
        return ["prost::decode_length_delimiter reads a varint of 1..=10 bytes from the front of its buffer or fails, without touching its argument beyond it",
                "prost::Message::decode_length_delimited consumes exactly delimiter + length on success and depends only on those bytes; it is merge into the default message, and an empty body is the default message",
                "prost::Message::encode_length_delimited of a Vec succeeds and appends delimiter + message",
                "bytes::Buf passed to decode is contiguous (chunk() is everything), as the connection passes a slice"]

    def codec_env(self, ex, st, n, sn, ref, crate, args, where):
        if "prost" not in (ref.get("crate") or "") and "prost" not in ref["path"]:
            return None
        if n == "decode_length_delimiter":
            c = args[0] if isinstance(args[0], Ptr) else ex.alloc(st, args[0])
            if isinstance(args[0], Ptr) and isinstance(ex.load1(st, args[0]), Seq):
                c = ex.alloc(st, args[0])
            hold, p, v, lim = self.holder(ex, st, c)
            q = self.pos0(ex, st, p, v) if not z3.is_true(simp(v.len == 0)) else None
            good = z3.BoolVal(False) if q is None else z3.And(P_VALID(q), P_DL(q) <= v.len)
            out = []
            for s, yes in ex.split(st, good):
                s = s.fork()
                if yes:
                    self.facts(s, q)
                    self.consume(ex, s, hold, p, v, P_DL(q))
                    out.append((s, ok(P_ML(q))))
                else:
                    out.append((s, err(Opq("DecodeError", I(0)))))
            return out
        if n == "encoded_len":
            m = args[0]
            for _ in range(3):
                if isinstance(m, Ptr):
                    m = ex.load1(st, m)
            if not isinstance(m, Opq):
                raise Unsupported("encoded_len")
            # nothing relates it to the length of the bytes that the message was decoded from
            t = P_ENCLEN(m.term)
            st.assume(z3.And(t >= 0, t <= ISIZE))
            return [(st, t)]
        if n == "length_delimiter_len":
            t = P_DELIMLEN(args[0])
            st.assume(z3.And(t >= 1, t <= 10))
            return [(st, t)]
        if n in ("merge_length_delimited", "merge") and isinstance(args[0], Ptr):
            m = ex.load1(st, args[0])
            if not (isinstance(m, Opq) and m.term.eq(P_DEFAULT)):
                raise Unsupported("merge into a message")
            # decode is merge into the default message
            out = []
            for s, v in self.codec_env(ex, st, {"merge": "decode"}.get(n, "decode_length_delimited"), sn, ref, crate, args[1:], where):
                ex.store(s, args[0], v.pay[0][0] if v.tag == 0 else Opq("M", fint("part of a message")))
                out.append((s, ok(unit()) if v.tag == 0 else v))
            return out
        if n in ("decode_length_delimited", "decode"):
            c = args[0]
            if not isinstance(c, Ptr) or isinstance(ex.load1(st, c), Seq):
                c = ex.alloc(st, args[0])
            hold, p, v, lim = self.holder(ex, st, c)
            q = self.pos0(ex, st, p, v)
            out = []
            if n == "decode":
                # reads the whole of its buffer: the payload of the frame iff it is exactly that
                P = st.g["P0"]
                exact = z3.And(P_VALID(P), q == P + P_DL(P), v.len == P_ML(P))
                for s, yes in ex.split(st, z3.And(exact, P_PAYOK(P))):
                    s = s.fork()
                    if yes:
                        out.append((s, ok(Opq("M", P_MSG(P)))))
                        self.consume(ex, s, hold, p, v, v.len)
                    else:
                        out.append((s, err(Opq("DecodeError", I(0)))))
                        s2 = s.fork()
                        s2.assume(z3.Not(exact))
                        if ex.feasible(s2):
                            self.consume(ex, s2, hold, p, v, v.len)
                            out.append((s2, ok(Opq("M", fint("other message")))))
                return out
            good = z3.And(P_VALID(q), P_DL(q) + P_ML(q) <= v.len, P_PAYOK(q))
            for s, yes in ex.split(st, good):
                s = s.fork()
                self.facts(s, q)
                if yes:
                    self.consume(ex, s, hold, p, v, P_DL(q) + P_ML(q))
                    out.append((s, ok(Opq("M", P_MSG(q)))))
                else:
                    # how much of the buffer a failing decode consumes is not specified
                    k = fint("consumed")
                    s.assume(z3.And(k >= 0, k <= v.len))
                    self.consume(ex, s, hold, p, v, k)
                    out.append((s, err(Opq("DecodeError", I(0)))))
            return out
        if n == "length_delimiter_len":
            k = fint("dl")
            st.assume(z3.And(k >= 1, k <= 10))
            P = st.g.get("P0")
            if P is not None:
                st.assume(z3.Implies(z3.And(P_VALID(P), args[0] == P_ML(P)), k <= P_DL(P)))
            return [(st, k)]
        if n == "encoded_len":
            return [(st, st.g["BL"])] if "BL" in st.g else None
        if n in ("encode_length_delimited", "encode"):
            p, v = ex.lib.seq(ex, st, args[1])
            L, D = st.g["L"], st.g["D"]
            a, b = (I(0), L) if n == "encode_length_delimited" else (D, L)
            m = ex.lib.append(ex, st, v, simp(b - a), [(I(0), simp(b - a), Stream(I(SRC_OUT), a))])
            ex.store(st, p, m)
            return [(st, ok(unit()))]
        if n == "encode_length_delimiter":
            p, v = ex.lib.seq(ex, st, args[1])
            D, BL = st.g["D"], st.g["BL"]
            m = ex.lib.append(ex, st, v, D, [(I(0), D, Stream(I(SRC_OUT), I(0)))])
            ex.store(st, p, m)
            ex.oblige(st, self.props, "the delimiter announces the encoded length", args[0] == BL, where)
            return [(st, ok(unit()))]
        if n == "encode_length_delimited_to_vec":
            L = st.g["L"]
            return [(st, Seq(None, ex.lib.u8(ex), L, L, [(I(0), L, Stream(I(SRC_OUT), I(0)))]))]
        return None

    def facts(self, st, q):
        st.assume(z3.Implies(P_VALID(q), z3.And(P_DL(q) >= 1, P_DL(q) <= 10, P_ML(q) >= 0, P_ML(q) <= U64)))
        # a message without fields
        st.assume(z3.Implies(z3.And(P_VALID(q), P_ML(q) == 0), z3.And(P_PAYOK(q), P_MSG(q) == P_DEFAULT)))

    def default_of_param(self, ex, st, ty):
        return Opq("M", P_DEFAULT)

    def run(self, ex):
        dec = self.find_impl(ex, self.crate, "Deserializer", "decode", "ProstSerializer")
        enc = self.find_impl(ex, self.crate, "Serializer", "encode", "ProstSerializer")
        P = self.props
        # ---- decode, any window
        st = St()
        P0, n = fint("P0"), fint("n")
        st.g["P0"] = P0
        st.assume(z3.And(P0 >= 0, n >= 0, n <= ISIZE))
        self.facts(st, P0)
        DL, ML, V = P_DL(P0), P_ML(P0), P_VALID(P0)
        me = ex.alloc(st, Struct(None, [Opq("PhantomData", I(0))]))
        complete = z3.And(V, DL + ML <= n)
        w = dec.where()
        for s, kind, x in self.outcomes(ex, dec, st, me, P0, n):
            s.note("decode returns " + kind)
            if kind == "ok":
                ex.oblige(s, P, "a message is only returned when its frame is complete and valid", z3.And(complete, P_PAYOK(P0)), w)
                ex.oblige(s, P, "the consumed length is delimiter plus announced length", x[0] == DL + ML, w)
                t = self.msg_term(x[1])
                ex.oblige(s, P, "the message is the one in the frame", t == P_MSG(P0) if t is not None else z3.BoolVal(False), w)
            elif kind == "IncompleteBuffer":
                ex.oblige(s, P, "incomplete only when the frame is not complete", z3.Not(complete), w)
                ex.oblige(s, P, "incomplete only while more bytes could complete a frame", z3.Or(V, n < 10), w)
                ex.oblige(s, P, "the wanted size is positive and at most the frame (or an unread delimiter)",
                          z3.And(x >= 1, z3.If(z3.And(V, DL <= n), z3.And(x >= ML, x <= DL + ML), x <= 10)), w)
            elif kind == "InvalidBuffer":
                ex.oblige(s, P, "invalid only for an unreadable delimiter or message",
                          z3.Or(z3.And(complete, z3.Not(P_PAYOK(P0))), z3.And(z3.Not(V), n >= 10)), w)
            else:
                ex.oblige(s, P, "the protobuf decoder never skips", z3.BoolVal(False), w)
        # ---- encode
        st = St()
        L, D, BL, cap = fint("L"), fint("D"), fint("BL"), fint("cap")
        st.assume(z3.And(D >= 1, D <= 10, BL >= 0, L == D + BL, L <= ISIZE, cap >= 0, cap <= ISIZE))
        st.g.update(L=L, D=D, BL=BL)
        me = ex.alloc(st, Struct(None, [Opq("PhantomData", I(0))]))
        buf = ex.alloc(st, Seq(None, ex.lib.u8(ex), I(0), cap, ()))
        w = enc.where()
        for s, r in ex.exec_fn(st, enc, [me, Opq("M", fint("message")), buf]):
            v = ex.load1(s, buf)
            from loops import buf_pos
            q = buf_pos(ex, s, v)
            ex.oblige(s, P, "the encoding is exactly delimiter and message", z3.And(v.len == L, q == 0) if q is not None else z3.BoolVal(False), w)


class MsgPack(Codec):
    name = "messagepack codec"
    props = ("C07",)
    setlen_props = ("C07", "C19")
    crate = "protosocket_messagepack"

    def assumptions(self):
        return ["rmp::decode::read_u32 succeeds iff the first five bytes are a u32, and consumes five bytes",
                "rmp_serde::decode::from_read/from_slice depends only on the bytes its reader can yield",
                "rmp_serde::encode::write to a Vec succeeds and appends the body; bodies are shorter than 2^32-5 bytes",
                "rmp::encode::write_u32 to a Vec succeeds and appends five bytes",
                "Serializer::encode is called with an empty buffer (an obligation of the connection's contract)"]

    def body(self, ex, st, q, n):
        out = []
        P = st.g["P0"]
        for s, yes in ex.split(st, M_OK(q, n)):
            s = s.fork()
            out.append((s, ok(Opq("M", M_MSG(q, n))) if yes else err(Opq("RmpError", I(0)))))
        return out

    def codec_env(self, ex, st, n, sn, ref, crate, args, where):
        path = ref["path"]
        if not path.startswith("rmp"):
            return None
        if n == "read_u32":
            hold, p, v, lim = self.holder(ex, st, args[0])
            if lim is not None:
                raise Unsupported("read_u32 from a limited reader")
            if z3.is_true(simp(v.len == 0)):
                return [(st, err(Opq("RmpError", I(0))))]
            q = self.pos0(ex, st, p, v)
            out = []
            for s, yes in ex.split(st, z3.And(v.len >= 5, M_MARK(q))):
                s = s.fork()
                if yes:
                    s.assume(z3.And(M_LEN(q) >= 0, M_LEN(q) <= (1 << 32) - 1))
                    self.consume(ex, s, hold, p, v, I(5))
                    out.append((s, ok(M_LEN(q))))
                else:
                    k = fint("consumed")
                    s.assume(z3.And(k >= 0, k <= v.len, k <= 5))
                    self.consume(ex, s, hold, p, v, k)
                    out.append((s, err(Opq("RmpError", I(0)))))
            return out
        if n in ("from_read", "from_slice"):
            a = args[0]
            hold, p, v, lim = self.holder(ex, st, a)
            m = v.len if lim is None else zmin(v.len, lim)
            out = []
            # an empty window has no position: nothing can be read from it
            q = self.pos0(ex, st, p, v)
            return self.body(ex, st, q, m)
        if n == "write" and "encode" in path:
            p, v = ex.lib.seq(ex, st, args[0])
            BL = st.g["BL"]
            ex.store(st, p, ex.lib.append(ex, st, v, BL, [(I(0), BL, Stream(I(SRC_BODY), I(0)))]))
            return [(st, ok(unit()))]
        if n == "to_vec":
            BL = st.g["BL"]
            return [(st, ok(Seq(None, ex.lib.u8(ex), BL, BL, [(I(0), BL, Stream(I(SRC_BODY), I(0)))])))]
        if n == "write_u32":
            hold, p, v, _ = self.holder(ex, st, args[0])
            st.assume(MSG(I(SRC_U32), 8 * args[1]) == 206)
            if crate.ty(ref["args"][0]).s.replace("mut ", "").lstrip("&").endswith("[u8]"):
                # Write for &mut [u8]: overwrites the slice's first bytes and advances the slice
                out = []
                for s, yes in ex.split(st, v.len >= 5):
                    s = s.fork()
                    if yes:
                        ex.store(s, ex.lib.subslice(p, I(0), I(5)),
                                 Seq(None, v.ety, I(5), I(5), [(I(0), I(5), Stream(I(SRC_U32), simp(8 * args[1])))]))
                        self.consume(ex, s, hold, p, v, I(5))
                    out.append((s, ok(unit()) if yes else err(Opq("RmpError", I(0)))))
                return out
            ex.store(st, p, ex.lib.append(ex, st, v, I(5), [(I(0), I(5), Stream(I(SRC_U32), simp(8 * args[1])))]))
            return [(st, ok(unit()))]
        return None

    def run(self, ex):
        P = self.props
        dec = self.find_impl(ex, self.crate, "Deserializer", "decode", "ProtosocketMessagePackDeserializer")
        dflt = self.find_impl(ex, self.crate, "Default", "default", "ProtosocketMessagePackDeserializer")
        enc = self.find_impl(ex, self.crate, "Serializer", "encode", "ProtosocketMessagePackSerializer")
        self.run_decode(ex, dec, dflt)
        # ---- encode
        st = St()
        BL, cap = fint("BL"), fint("cap")
        st.assume(z3.And(BL >= 1, BL < (1 << 32) - 5, cap >= 0, cap <= ISIZE))
        st.g.update(BL=BL)
        me = ex.alloc(st, Struct(None, [Opq("PhantomData", I(0))]))
        buf = ex.alloc(st, Seq(None, ex.lib.u8(ex), I(0), cap, ()))
        w = enc.where()
        for s, r in ex.exec_fn(st, enc, [me, Opq("M", fint("message")), buf]):
            v = ex.load1(s, buf)
            from loops import stream_window, nonempty_segs, shape_of
            ex.oblige(s, P, "the encoding is five bytes and the body", v.len == BL + 5, w)
            conds = []
            for lo, hi, src, pos in ((I(0), I(5), SRC_U32, simp(8 * BL)), (I(5), simp(BL + 5), SRC_BODY, I(0))):
                segs = nonempty_segs(ex, s, Seq(None, v.ety, simp(hi - lo), v.cap, move(clip(v.segs, lo, hi), simp(-lo))))
                r_ = stream_window(ex, s, segs)
                if r_ is None:
                    conds.append(z3.BoolVal(False))
                    continue
                a, b, q, sr, d = r_
                conds.append(z3.And(I(sr) == src, q == pos, a == 0, b == hi - lo) if d == 1 else z3.BoolVal(False))
            ex.oblige(s, P, "the prefix announces exactly the length of the body", conds[0], w)
            ex.oblige(s, P, "the body follows the prefix", conds[1], w)

    def run_decode(self, ex, dec, dflt):
        P = self.props
        w = dec.where()
        from loops import same
        def start(P0, facts, heap=None):
            """a state that knows only the facts"""
            st = St()
            if heap is not None:
                st.heap = dict(heap)
            st.g["P0"] = P0
            n = fint("n")
            st.assume(z3.And(P0 >= 0, n >= 0, n <= ISIZE, M_LEN(P0) >= 0, M_LEN(P0) <= (1 << 32) - 1))
            for f in facts:
                st.assume(FACTS[f](P0, n))
            return st, n
        FACTS = {"prefix": lambda P0, n: n >= 5, "mark": lambda P0, n: M_MARK(P0)}
        P0 = fint("P0")
        st, n0 = start(P0, ())
        (st, d0), = ex.exec_fn(st, dflt, [])
        work = [(st, P0, d0, n0, 0)]
        seen = [(d0, P0, frozenset())]
        while work:
            st, P0, d, n, depth = work.pop()
            LEN, MARK = M_LEN(P0), M_MARK(P0)
            ex.tick()
            if depth > 6:
                raise Unsupported("decoder state does not settle")
            me = ex.alloc(st, d)
            for s, kind, x in self.outcomes(ex, dec, st, me, P0, n):
                s.note("decode #%d returns %s" % (depth + 1, kind))
                after = ex.load1(s, me)
                full = z3.And(n >= 5, MARK, n >= 5 + LEN)
                if kind == "ok":
                    ex.oblige(s, P, "a message is only returned when its frame is complete", full, w)
                    ex.oblige(s, P, "the consumed length is five plus the announced length", x[0] == 5 + LEN, w)
                    t = self.msg_term(x[1])
                    ex.oblige(s, P, "the message is the body of the frame and nothing else",
                              z3.And(t == M_MSG(P0 + 5, LEN), M_OK(P0 + 5, LEN)) if t is not None else z3.BoolVal(False), w)
                    # the next frame is decoded with the state that this one left
                    if not same(after, d0):
                        P1 = fint("P0")
                        s2, n2 = start(P1, (), s.heap)
                        s2.note("next frame; the decoder remembers %r" % (after,))
                        work.append((s2, P1, after, n2, depth + 1))
                elif kind == "IncompleteBuffer":
                    ex.oblige(s, P, "incomplete only when the frame is not complete",
                              z3.And(z3.Not(full), z3.Or(n < 5, MARK)), w)
                    ex.oblige(s, P, "the wanted size is that of the prefix or of the frame",
                              z3.And(x >= 1, z3.If(n < 5, x <= 5, z3.And(x <= 5 + LEN, x > n))), w)
                    # the connection offers the same position again, with at least as many bytes
                    known = frozenset(f for f, t in FACTS.items() if ex.known(s, t(P0, n)))
                    if not any((q is P0 or v is d0) and fs <= known and same(v, after) for v, q, fs in seen):
                        seen.append((after, P0, known))
                        s2, n2 = start(P0, known, s.heap)
                        s2.note("more bytes; the decoder remembers %r" % (after,))
                        work.append((s2, P0, after, n2, depth + 1))
                elif kind == "InvalidBuffer":
                    ex.oblige(s, P, "invalid only for an unreadable prefix or body",
                              z3.Or(z3.And(n >= 5, z3.Not(MARK)), z3.And(full, z3.Not(M_OK(P0 + 5, LEN)))), w)
                else:
                    ex.oblige(s, P, "the messagepack decoder never skips", z3.BoolVal(False), w)
