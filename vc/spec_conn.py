"""C01..C05, C19: the connection.

The root is `loop { poll }` from the state that `Connection::new` builds, for every
configuration, every behaviour of socket, channel, codec and reactor. The invariant between
polls is inferred (see loops.py) over whatever fields the connection has; ghosts say what the
environment saw.

 rx      bytes received from the socket           cons    bytes consumed by the decoder
 dec     messages decoded                         delv    messages handed to the reactor
 recvd   messages taken from the channel          enc     messages encoded
 W       bytes accepted by the socket             PS(k)   total encoded length of messages 0..k
"""
import z3

from spec_base import Spec, Missing
from val import *
from core import St
from lib import ok, err, unit, some, none, ready, pending, U64, ISIZE
import loops
from loops import stream_window, nonempty_segs, run_cut, join

RX = ("C01", "C02", "C03", "C04", "C05")
T, F = z3.BoolVal(True), z3.BoolVal(False)
INTS = ("rx", "cons", "dec", "delv", "recvd", "enc", "W", "bigpos")
FLAGS = ("woken", "rreg", "wreg", "creg", "owed", "eof", "sockfail", "disc", "invalid", "toolong",
         "toolarge", "closed", "waiting", "idle", "untried", "rdead", "wdead")
SLACK = 64 << 20


class Conn(Spec):
    name = "connection"
    props = ("C01", "C02", "C03", "C04", "C05", "C19")
    setlen_props = ("C19",)
    joins = True
    budget = 700
    crate = "protosocket"

    def assumptions(self):
        return [
            "tokio TcpStream: try_read/try_write_vectored transfer a prefix of what they are offered, Ok(0) from a nonempty read is the end of the stream, poll_*_ready registers the task when it returns Pending",
            "tokio mpsc Receiver: poll_recv_many yields the queued messages in order, 0 only when closed and empty, and registers the task when it returns Pending",
            "a Deserializer consumes between 1 and all of the bytes it is shown; a Serializer appends at least one byte",
            "a MessageReactor takes all messages of its batch (MessageReactor documentation)",
            "1 <= max_buffer_length <= 2^62 and 1 <= max_queued_send_messages <= 2^62",
            "Vec::with_capacity(n) allocates room for exactly n elements (messages are not zero sized)",
            "every poll that returns Pending must register anew for what it waits for",
        ]

    # ------------------------------------------------------------ environment
    def env(self, ex, st, sn, ref, crate, args, where):
        n, path = ref["name"], ref["path"]
        tr = (ref.get("trait") or "").split("<")[0].split("::")[-1]
        g = st.g
        if tr == "Deserializer" and n == "decode":
            return self.decode(ex, st, args, where)
        if tr == "Serializer" and n == "encode":
            return self.encode(ex, st, args, where)
        if tr == "MessageReactor" and n == "on_inbound_messages":
            return self.react(ex, st, args, ref, crate, where)
        if "TcpStream" in path:
            h = getattr(self, "tcp_" + n, None)
            if h is None:
                raise Unsupported("TcpStream::" + n)
            return h(ex, st, args, where)
        if "mpsc" in path and "Receiver" in path:
            h = getattr(self, "rx_" + n, None)
            if h is None:
                raise Unsupported("Receiver::" + n)
            return h(ex, st, args, ref, crate, where)
        if sn == "Context::waker":
            return [(st, ex.alloc(st, Opq("Waker", I(0))))]
        if sn in ("Waker::wake_by_ref", "Waker::wake"):
            g["woken"] = T
            st.note("wake")
            return [(st, unit())]
        if sn == "IoSlice::new":
            return [(st, Struct(None, [args[0]], "ioslice"))]
        if tr == "Clone" and isinstance(args[0], Ptr) and isinstance(ex.load1(st, args[0]), Opq) and ex.load1(st, args[0]).ty == "Waker":
            return [(st, Opq("Waker", I(0)))]
        return None

    def flag(self, st, k, v=T):
        st.g[k] = simp(z3.Or(st.g[k], v)) if not z3.is_true(v) else T

    def tcp_poll_read_ready(self, ex, st, args, where):
        st.g["owed"] = F
        return self.ready(ex, st, "rreg", "read")

    def tcp_poll_write_ready(self, ex, st, args, where):
        return self.ready(ex, st, "wreg", "write")

    def ready(self, ex, st, reg, what):
        a, b, c = st.fork(), st.fork(), st.fork()
        a.note("%s ready" % what)
        b.note("%s readiness fails" % what)
        b.g["sockfail"] = T
        b.g[what[0] + "dead"] = T
        c.note("not %s ready, registered" % what)
        c.g[reg] = T
        return [(a, ready(ok(unit()))), (b, ready(err(ex.lib.ioerr(b)))), (c, pending())]

    def io_errors(self, ex, st, what):
        st.g["untried"] = F      # the socket was tried: what it says is news
        out = []
        for kind in ("WouldBlock", "Interrupted"):
            s = st.fork()
            s.note("%s: %s" % (what, kind))
            out.append((s, err(Struct(None, [I(ex.lib.kind_index(ex, kind))], "ioerr"))))
        s = st.fork()
        s.note(what + " fails")
        e = ex.lib.ioerr(s)
        s.assume(z3.And(e.fields[0] != ex.lib.kind_index(ex, "WouldBlock"), e.fields[0] != ex.lib.kind_index(ex, "Interrupted")))
        s.g["sockfail"] = T
        s.g[what[0] + "dead"] = T
        out.append((s, err(e)))
        return out

    def tcp_try_read(self, ex, st, args, where):
        p, v = ex.lib.seq(ex, st, args[1])
        ex.oblige(st, ("C04",), "a socket that failed or ended is not read again", z3.Not(st.g["rdead"]), where)
        out = self.io_errors(ex, st, "read")
        s = st.fork()
        if ex.feasible(s, v.len > 0):
            s.assume(v.len > 0)
            n = fint("read")
            s.assume(z3.And(n >= 1, n <= v.len))
            rx = s.g["rx"]
            ex.store(s, p, ex.seq_write(v, I(0), n, Seq(None, v.ety, n, n, [(I(0), n, Stream(I(SRC_IN), rx))])))
            s.g["rx"] = simp(rx + n)
            s.g["waiting"] = F
            s.note("read some bytes")
            out.append((s, ok(n)))
            s2 = st.fork()
            s2.assume(v.len > 0)
            s2.g["eof"] = T
            s2.g["rdead"] = T
            s2.note("read: end of stream")
            out.append((s2, ok(I(0))))
        if ex.feasible(st, v.len == 0):
            s3 = st.fork()
            s3.assume(v.len == 0)
            s3.note("read into an empty slice")
            out.append((s3, ok(I(0))))
        return out

    def out_window(self, ex, st, p):
        """(start position, length) of a byte slice of the outbound stream"""
        _, v = ex.lib.seq(ex, st, p)
        return loops.buf_pos(ex, st, v), v

    def written(self, ex, st, start, total, where):
        g = st.g
        ex.oblige(st, ("C04",), "a socket that failed is not written to again", z3.Not(g["wdead"]), where)
        was = g["untried"]
        out = self.io_errors(ex, st, "write")
        s = st.fork()
        s.g["untried"] = was
        s.note("write: 0 bytes")
        s.g["sockfail"] = simp(z3.Or(s.g["sockfail"], total > 0))
        s.g["wdead"] = simp(z3.Or(s.g["wdead"], total > 0))
        out.append((s, ok(I(0))))
        if ex.feasible(st, total > 0):
            s = st.fork()
            n = fint("written")
            s.assume(z3.And(n >= 1, n <= total, n <= ISIZE))
            s.g["W"] = simp(s.g["W"] + n)
            s.note("wrote some bytes")
            out.append((s, ok(n)))
        return out

    def offered(self, ex, st, start, end, where):
        g = st.g
        ex.oblige(st, ("C03", "C19"), "bytes offered to the socket start at the first unwritten byte",
                  start == g["W"] if start is not None else F, where)
        if end is not None:
            ex.oblige(st, ("C05",), "no byte of a message that is too large is offered to the socket",
                      z3.Or(z3.Not(g["toolarge"]), end <= g["bigpos"]), where)

    def tcp_try_write(self, ex, st, args, where):
        pos, v = self.out_window(ex, st, args[1])
        if pos is None and ex.known(st, v.len == 0):
            return self.written(ex, st, None, I(0), where)
        self.offered(ex, st, pos, simp(pos + v.len) if pos is not None else None, where)
        return self.written(ex, st, pos, v.len, where)

    def slice_of(self, ex, st, x):
        """[(state, byte sequence)] of an IoSlice value or of a pointer to one"""
        out = []
        if isinstance(x, Struct) and x.tag == "ioslice":
            return self.slice_of(ex, st, x.fields[0])
        if isinstance(x, Seq):
            return [(st, x)]
        if isinstance(x, Ptr):
            for s, y in ex.load(st, x):
                out.extend(self.slice_of(ex, s.fork(), y))
            return out
        raise Unsupported("IoSlice expected")

    def elem_bytes(self, ex, st, v, i):
        """[(state, start position or None, byte sequence)] of element i of a slice of IoSlices"""
        out = []
        for s1, x in ex.elem(st, v, i):
            for s2, q in self.slice_of(ex, s1.fork(), x):
                out.append((s2, loops.buf_pos(ex, s2, q), q))
        return out

    def increasing(self, ex, st, pos, end):
        """instances of: PS is strictly increasing"""
        t = loops.find_msg(ex, st, pos, end)
        if t is not None:
            self.mono(st, simp(t + 1), st.g["enc"])

    def mono(self, st, i, j):
        st.assume(z3.And(z3.Implies(i < j, PS(i) < PS(j)), z3.Implies(i == j, PS(i) == PS(j)), z3.Implies(i > j, PS(i) > PS(j))))

    def tcp_try_write_vectored(self, ex, st, args, where):
        p, v = ex.lib.seq(ex, st, args[1])
        out = []
        for s0, some_ in ex.split(st, v.len > 0):
            s0 = s0.fork()
            if not some_:
                s0.note("write of no buffers")
                out.extend(self.written(ex, s0, None, I(0), where))
                continue
            # adjoining buffers: element j ends where element j + 1 starts
            j = fint("j")
            sj = s0.fork()
            sj.assume(z3.And(j >= 0, j + 1 < v.len))
            if ex.feasible(sj):
                for s1, pa, va in self.elem_bytes(ex, sj, v, j):
                    for s2, pb, vb in self.elem_bytes(ex, s1, v, simp(j + 1)):
                        ex.oblige(s2, ("C03", "C19"), "consecutive buffers offered to the socket adjoin in the stream",
                                  pa + va.len == pb if pa is not None and pb is not None else F, where)
            for s1, pa, va in self.elem_bytes(ex, s0.fork(), v, I(0)):
                for s2, pb, vb in self.elem_bytes(ex, s1, v, simp(v.len - 1)):
                    end = simp(pb + vb.len) if pb is not None else None
                    if end is not None:
                        self.increasing(ex, s2, pb, end)
                    self.offered(ex, s2, pa, end, where)
                    total = simp(end - pa) if pa is not None and pb is not None else fint("total")
                    # nonempty, adjoining buffers
                    s2.assume(total >= va.len)
                    if ex.feasible(s2):
                        out.extend(self.written(ex, s2, pa, total, where))
        return join(ex, out)

    # channel
    def rx_poll_recv_many(self, ex, st, args, ref, crate, where):
        p, v = ex.lib.seq(ex, st, args[2])
        lim = args[3]
        g = st.g
        out = []
        if ex.feasible(st, lim == 0):
            s = st.fork()
            s.assume(lim == 0)
            out.append((s, ready(I(0))))
        s = st.fork()
        s.assume(z3.And(z3.Not(g["closed"]), lim > 0))
        if ex.feasible(s):
            n = fint("count")
            s.assume(z3.And(n >= 1, n <= lim, n <= ISIZE))
            r = g["recvd"]
            ex.store(s, p, ex.lib.append(ex, s, v, n, [(I(0), n, Stream(I(SRC_CH), r))]))
            s.g["recvd"] = simp(r + n)
            s.note("received messages from the channel")
            out.append((s, ready(n)))
            s = st.fork()
            s.assume(z3.And(z3.Not(g["closed"]), lim > 0))
            s.g["creg"] = T
            s.note("channel empty, registered")
            out.append((s, pending()))
        s = st.fork()
        s.assume(lim > 0)
        s.g["closed"] = T
        s.note("channel closed")
        out.append((s, ready(I(0))))
        return out

    def rx_poll_recv(self, ex, st, args, ref, crate, where):
        g = st.g
        out = []
        s = st.fork()
        s.assume(z3.Not(g["closed"]))
        if ex.feasible(s):
            r = g["recvd"]
            s.g["recvd"] = simp(r + 1)
            s.note("received a message from the channel")
            out.append((s, ready(some(Opq("CH", MSG(I(SRC_CH), r))))))
            s = st.fork()
            s.assume(z3.Not(g["closed"]))
            s.g["creg"] = T
            out.append((s, pending()))
        s = st.fork()
        s.g["closed"] = T
        s.note("channel closed")
        out.append((s, ready(none())))
        return out

    def rx_try_recv(self, ex, st, args, ref, crate, where):
        g = st.g
        out = []
        s = st.fork()
        s.assume(z3.Not(g["closed"]))
        if ex.feasible(s):
            r = g["recvd"]
            s.g["recvd"] = simp(r + 1)
            out.append((s, ok(Opq("CH", MSG(I(SRC_CH), r)))))
            s = st.fork()
            s.assume(z3.Not(g["closed"]))
            out.append((s, err(Enum(None, 0, {0: (), 1: ()}))))
        s = st.fork()
        s.g["closed"] = T
        out.append((s, err(Enum(None, 1, {0: (), 1: ()}))))
        return out

    # codec
    def decode(self, ex, st, args, where):
        p, v = ex.lib.seq(ex, st, args[1])
        g = st.g
        w = stream_window(ex, st, nonempty_segs(ex, st, v))
        good = F
        if w is not None and w[4] == 1:
            a, b, pos, src, d = w
            good = z3.And(I(src) == SRC_IN, z3.Implies(v.len > 0, z3.And(a == 0, b == v.len, pos == g["cons"])))
        elif ex.known(st, v.len == 0):
            good = T
        ex.oblige(st, ("C01", "C19"), "the decoder is shown received bytes from the end of the previous frame", good, where)
        ex.oblige(st, ("C01",), "nothing is decoded after an invalid buffer", z3.Not(g["invalid"]), where)
        ex.oblige(st, ("C01", "C02"), "the decoder is shown everything that was received", v.len == g["rx"] - g["cons"], where)
        out = []
        s = st.fork()
        if ex.feasible(s, v.len > 0):
            s.assume(v.len > 0)
            n = fint("frame")
            s.assume(z3.And(n >= 1, n <= v.len))
            k = s.g["dec"]
            s.g["dec"] = simp(k + 1)
            s.g["cons"] = simp(s.g["cons"] + n)
            s.g["waiting"] = F
            s.note("decoded a message")
            out.append((s, ok(Struct(None, [n, Opq("DEC", MSG(I(SRC_DEC), k))]))))
        E = self.derr
        s = st.fork()
        size = fint("next_size")
        s.assume(z3.And(size >= 0, size <= U64))
        s.g["waiting"] = T
        s.g["toolong"] = simp(z3.Or(s.g["toolong"], size > self.maxb, v.len >= self.maxb))
        s.g["mustclose"] = simp(z3.Or(s.g["mustclose"], size > self.maxb, v.len >= self.maxb))
        s.note("decode: incomplete")
        i = E.variant_index("IncompleteBuffer")
        out.append((s, err(Enum(E, i, {i: (size,)}))))
        s = st.fork()
        s.g["invalid"] = T
        s.note("decode: invalid")
        i = E.variant_index("InvalidBuffer")
        out.append((s, err(Enum(E, i, {i: ()}))))
        i = E.variant_index("SkipMessage")
        d = fint("distance")
        s = st.fork()
        s.assume(z3.And(d >= 1, d <= v.len))
        if ex.feasible(s):
            s.g["cons"] = simp(s.g["cons"] + d)
            s.g["waiting"] = F
            s.note("decode: skip buffered bytes")
            out.append((s, err(Enum(E, i, {i: (d,)}))))
        s = st.fork()
        s.assume(z3.And(d > v.len, d <= U64))
        if ex.feasible(s):
            s.g["waiting"] = T
            s.g["toolong"] = simp(z3.Or(s.g["toolong"], d > self.maxb, v.len >= self.maxb))
            s.g["mustclose"] = simp(z3.Or(s.g["mustclose"], v.len >= self.maxb))
            s.note("decode: skip beyond the buffered bytes")
            out.append((s, err(Enum(E, i, {i: (d,)}))))
        return out

    def encode(self, ex, st, args, where):
        p, v = ex.lib.seq(ex, st, args[2])
        g = st.g
        k = g["enc"]
        t = args[1].term if isinstance(args[1], Opq) else None
        ok_ = F
        if t is not None and z3.is_app(t) and t.decl().eq(MSG):
            ok_ = z3.And(t.arg(0) == SRC_CH, t.arg(1) == k)
        elif t is not None:
            ok_ = t == MSG(I(SRC_CH), k)
        ex.oblige(st, ("C03",), "messages are encoded in queue order, each once", ok_, where)
        ex.oblige(st, ("C03", "C19"), "the encoder gets an empty buffer", v.len == 0, where)
        L = simp(PS(k + 1) - PS(k))
        st.assume(z3.And(L >= 1, L <= ISIZE // 2))
        ex.store(st, p, ex.lib.append(ex, st, v, L, [(I(0), L, Stream(I(SRC_OUT), PS(k)))]))
        g["enc"] = simp(k + 1)
        big = simp(L > self.maxb)
        g["bigpos"] = simp(z3.If(z3.And(z3.Not(g["toolarge"]), big), PS(k), g["bigpos"]))
        g["toolarge"] = simp(z3.Or(g["toolarge"], big))
        g["_msgs"] = tuple(g.get("_msgs", ()))[-3:] + (k,)
        st.note("encoded a message")
        return [(st, unit())]

    def react(self, ex, st, args, ref, crate, where):
        it = args[1]
        g = st.g
        it = ex.lib.f_IntoIterator_into_iter(ex, st, [it], ref, crate, where)[0][1]
        if isinstance(it, Struct) and it.tag == "it_own":
            q = ex.lib.collect(ex, st, it)
        elif isinstance(it, Struct) and it.tag == "it_opt":
            out = []
            for s, k, pay in ex.lib.cases(ex, st, it.fields[0]):
                s = s.fork()
                if k == 1:
                    one = Seq(None, None, I(1), I(1), [(I(0), I(1), ex.gen_of(pay[0]))])
                    out.extend(self.delivered(ex, s, one, where))
                else:
                    out.extend(self.delivered(ex, s, Seq(None, None, I(0), I(0), ()), where))
            return out
        else:
            raise Unsupported("reactor is given %r" % (it,))
        return self.delivered(ex, st, q, where)

    def delivered(self, ex, st, q, where):
        g = st.g
        w = stream_window(ex, st, nonempty_segs(ex, st, q))
        good = q.len == 0
        if w is not None:
            a, b, pos, src, d = w
            one = z3.Or(z3.BoolVal(d == 1), q.len <= 1)
            good = z3.Or(q.len == 0, z3.And(I(src) == SRC_DEC, a == 0, b == q.len, pos == g["delv"], one))
        ex.oblige(st, ("C01",), "the reactor is handed exactly the next decoded messages, in order", good, where)
        ex.oblige(st, ("C01", "C02"), "a reactor that asked to disconnect is handed nothing more", z3.Or(z3.Not(g["disc"]), q.len == 0), where)
        g["delv"] = simp(g["delv"] + q.len)
        a, b = st.fork(), st.fork()
        R = self.rstat
        i, j = R.variant_index("Continue"), R.variant_index("Disconnect")
        a.note("delivered; reactor continues")
        b.note("delivered; reactor disconnects")
        b.g["disc"] = T
        return [(a, Enum(R, i, {i: ()})), (b, Enum(R, j, {j: ()}))]

    # ------------------------------------------------------------ shapes and candidates
    def live_segs(self, ex, st, seq, segs):
        """of received bytes only positions [cons, rx) matter"""
        if not segs or not any(isinstance(g, Stream) and loops.teq(I(g.src), I(SRC_IN)) for _, _, g in segs):
            return segs
        rx, cons = st.g["rx"], st.g["cons"]
        out = []
        for lo, hi, g in segs:
            if not isinstance(g, Stream) or not loops.teq(I(g.src), I(SRC_IN)):
                continue
            end = simp(g.pos + (hi - lo))
            if ex.known(st, z3.Or(lo >= hi, end <= cons)):
                continue
            if ex.known(st, z3.Or(lo >= hi, g.pos >= cons)):
                out.append((lo, hi, g))
            elif ex.known(st, z3.Or(lo >= hi, g.pos <= cons)):
                nlo = zmin(simp(lo + (cons - g.pos)), hi)
                out.append((nlo, hi, Stream(g.src, simp(g.pos + (nlo - lo)))))
            else:
                out.append((lo, hi, g))
        return out

    cats = {"rx": "src%d" % SRC_IN, "cons": "src%d" % SRC_IN, "W": "src%d" % SRC_OUT, "bigpos": "src%d" % SRC_OUT,
            "dec": "src%d" % SRC_DEC, "delv": "src%d" % SRC_DEC, "recvd": "src%d" % SRC_CH, "enc": "src%d" % SRC_CH}

    def empty_queue(self, st):
        return st.g["enc"]

    def atoms(self, ex, st):
        return {k: st.g[k] for k in ("woken", "rreg", "wreg", "creg", "waiting", "closed", "owed", "idle",
                                     "toolong", "mustclose", "toolarge", "eof", "sockfail", "disc", "invalid", "rdead", "wdead") if k in st.g}

    def loop_candidates(self, ex, inf):
        names = {v.name: i for i, v in enumerate(inf.vars)}
        out = []
        skip = {v for v in names if v.startswith("const:")}
        # int valued leaves by name, read in any state
        leaves, windows, queues, flags = [], [], [], []
        for (space, key, path), kind in inf.mod.items():
            if space == "g":
                continue
            leaf = loops.Leaf(space, key, path, kind)
            if kind == "t":
                try:
                    t = loops.read(inf.st, leaf)
                    if z3.is_int(t):
                        leaves.append((inf.leaf_name(leaf), lambda st, leaf=leaf: loops.read(st, leaf)))
                    elif z3.is_bool(t):
                        flags.append((inf.leaf_name(leaf), lambda st, leaf=leaf: loops.read(st, leaf)))
                except (KeyError, AttributeError, IndexError):
                    pass
            elif kind == "seq":
                leaves.append((inf.leaf_name(leaf) + ".len", lambda st, leaf=leaf: loops.read(st, leaf).len))
                if inf.kinds.get((space, key, path), (None,))[0] == "stream":
                    windows.append((inf.leaf_name(leaf) + ".w", lambda st, leaf=leaf: self.width(ex, st, loops.read(st, leaf))))
                if inf.kinds.get((space, key, path), (None,))[0] == "queue":
                    queues.append((inf.leaf_name(leaf), lambda st, leaf=leaf: loops.read(st, leaf)))
        for nm, t in inf.consts():
            if nm.startswith("h"):
                leaves.append((nm, lambda st, t=t: t))

        def add(name, f):
            f.__name__ = name
            out.append(f)

        def val(f, st):
            v = f(st)
            return v if is_term(v) else None

        def const(n, f):
            if n.endswith(".len") or n.startswith("h"):
                return False
            return loops.const_term(f(inf.st))
        maxb, maxq = self.maxb, self.maxq
        for n, f in leaves:
            add("delv + %s == dec" % n, lambda inf, st, f=f: st.g["delv"] + f(st) == st.g["dec"])
            add("enc + %s == recvd" % n, lambda inf, st, f=f: st.g["enc"] + f(st) == st.g["recvd"])
            add("%s == rx - cons" % n, lambda inf, st, f=f: f(st) == st.g["rx"] - st.g["cons"])
            add("rx == cons => %s == 0" % n, lambda inf, st, f=f: z3.Implies(st.g["rx"] == st.g["cons"], f(st) == 0))
            add("%s == 0 => W == PS(enc)" % n, lambda inf, st, f=f: z3.Implies(f(st) == 0, st.g["W"] == PS(st.g["enc"])))
            add("W == PS(enc) => %s == 0" % n, lambda inf, st, f=f: z3.Implies(st.g["W"] == PS(st.g["enc"]), f(st) == 0))
            add("waiting => %s < max" % n, lambda inf, st, f=f: z3.Implies(st.g["waiting"], f(st) < maxb))
            add("idle => %s < max" % n, lambda inf, st, f=f: z3.Implies(st.g["idle"], f(st) < maxb))
            add("owed => %s < max" % n, lambda inf, st, f=f: z3.Implies(st.g["owed"], f(st) < maxb))
            if const(n, f):
                e = f(inf.st)
                add("owed => %s as at the start" % n, lambda inf, st, f=f, e=e: z3.Implies(st.g["owed"], f(st) == e))
                add("untried => %s as at the start" % n, lambda inf, st, f=f, e=e: z3.Implies(st.g["untried"], f(st) == e))
            add("%s <= max_queued" % n, lambda inf, st, f=f: f(st) <= maxq)
            for c in self.literals(ex):
                add("%s < max + %d" % (n, c), lambda inf, st, f=f, c=c: f(st) < maxb + c)
        for n, f in leaves:
            for m, h in leaves:
                if n != m:
                    add("%s - %s == rx - cons" % (n, m), lambda inf, st, f=f, h=h: f(st) - h(st) == st.g["rx"] - st.g["cons"])
        # an offset into the first queued buffer
        sizes = [(n, f) for n, f in leaves if not n.endswith(".len") and not n.startswith("const")]
        for qn, q in queues:
            def fp(st, q=q):
                s = self.once(st, ("queue", id(q)), lambda: loops.shape_of(ex, st, q(st), "queue"))
                return (s["k"][0], s["fp"][0]) if s is not None else (fint("k"), fint("fp"))
            add("%s is whole" % qn, lambda inf, st, fp=fp: fp(st)[1] == PS(fp(st)[0]))
            for i, (n, f) in enumerate(sizes):
                add("%s from %s" % (qn, n), lambda inf, st, fp=fp, f=f: fp(st)[1] + f(st) == st.g["W"])
                add("%s beyond %s" % (qn, n), lambda inf, st, fp=fp, f=f, q=q: z3.Implies(
                    z3.And(q(st).len > 0, PS(fp(st)[0]) < PS(fp(st)[0] + 1)), fp(st)[1] + f(st) < PS(fp(st)[0] + 1)))
                add("%s empty => %s == 0" % (qn, n), lambda inf, st, f=f, q=q: z3.Implies(q(st).len == 0, f(st) == 0))
                for m, h in sizes[:i]:
                    add("%s from %s + %s" % (qn, n, m), lambda inf, st, fp=fp, f=f, h=h: fp(st)[1] + f(st) + h(st) == st.g["W"])
        for n, f in windows:
            add("%s == rx - cons" % n, lambda inf, st, f=f: f(st) == st.g["rx"] - st.g["cons"])
        for n, f in flags:
            add("%s or all is handed over" % n, lambda inf, st, f=f: z3.Or(f(st), self.handed_over(st.g)))
            add("not %s or all is handed over" % n, lambda inf, st, f=f: z3.Or(z3.Not(f(st)), self.handed_over(st.g)))
        add("untried => untried at the start", lambda inf, st: z3.Implies(st.g["untried"], inf.st.g["untried"]))
        add("W <= PS(enc)", lambda inf, st: st.g["W"] <= PS(st.g["enc"]))
        return out

    def once(self, st, key, f):
        if self._memo[0] is not st:
            self._memo = (st, {})
        m = self._memo[1]
        if key not in m:
            m[key] = f()
        return m[key]

    _memo = (None, {})

    def width(self, ex, st, seq):
        ps = loops.shape_of(ex, st, seq, "stream")
        return ps["w"][0] if ps is not None else fint("width")

    def literals(self, ex):
        """integer constants of the connection's code that can be a buffer increment"""
        if self._lits is None:
            seen = set()

            def rec(j):
                if isinstance(j, dict):
                    if isinstance(j.get("int"), int) and 1024 <= j["int"] <= SLACK:
                        seen.add(j["int"])
                    for x in j.values():
                        rec(x)
                elif isinstance(j, list):
                    for x in j:
                        rec(x)
            for f in ex.prog.crates[self.crate].fns:
                if f.body:
                    rec(f.body["blocks"])
            self._lits = sorted(seen)[:6]
        return self._lits

    _lits = None

    # ------------------------------------------------------------ the root
    def run(self, ex):
        poll = self.find_impl(ex, self.crate, "Future", "poll", "Connection")
        new = self.find(ex, self.crate, name="new", impl_self="Connection")
        dfn = [f for f in ex.prog.crates[self.crate].fns]
        self.derr = self.find_ty(ex, "DeserializeError")
        self.rstat = self.find_ty(ex, "ReactorStatus")
        st = St()
        args = []
        self.maxb, self.maxq = z3.Int("max_buffer_length"), z3.Int("max_queued")
        st.assume(z3.And(self.maxb >= 1, self.maxb <= 1 << 62, self.maxq >= 1, self.maxq <= 1 << 62))
        ints = 0
        for i in range(1, new.argc + 1):
            t = new.local_ty(i)
            if t.k == "int":
                n = (new.local_name(i) or "")
                if "queue" in n or "send" in n:
                    args.append(self.maxq)
                elif "buffer" in n or "max" in n:
                    args.append(self.maxb)
                else:
                    raise Unsupported("parameter %s of Connection::new" % n)
                ints += 1
            else:
                args.append(Opq(t, I(0)))
        if ints != 2:
            raise Unsupported("Connection::new has %d sizes" % ints)
        for k in INTS:
            st.g[k] = I(0)
        for k in FLAGS + ("mustclose",):
            st.g[k] = F
        st.assume(PS(I(0)) == 0)
        outs = ex.exec_fn(st, new, args)
        if len(outs) != 1:
            raise Unsupported("Connection::new branches")
        st, conn = outs[0]
        cell = ex.alloc(st, conn)
        ctx = ex.alloc(st, Opq("Context", I(0)))
        self.cell = cell
        # drop scratch cells
        keep = {cell.cell, ctx.cell}
        st.heap = {k: v for k, v in st.heap.items() if k in keep}
        pinned = poll.local_ty(1).k == "adt"

        def step(s):
            s = s.fork()
            s.g["owed"] = s.g["waiting"]
            s.g["untried"] = T
            for k in ("woken", "rreg", "wreg", "creg"):
                s.g[k] = F
            res = []
            for s2, r in ex.exec_fn(s, poll, [Struct(None, [cell], "pin"), ctx]):
                for s3, k, pay in ex.lib.cases(ex, s2, r):
                    s3 = s3.fork()
                    for c in [c for c in s3.heap if c not in keep and c not in s.heap]:
                        del s3.heap[c]
                    if k == 1:
                        self.at_pending(ex, s3, s)
                        res.append(("back", s3))
                    else:
                        self.at_ready(ex, s3)
            return res
        run_cut(ex, st, None, step, "between polls")

    def find_ty(self, ex, name):
        c = ex.prog.crates[self.crate]
        for i, t in enumerate(c.types):
            if t["k"] == "adt" and t["path"].split("::")[-1] == name and t.get("variants"):
                return c.ty(i)
        raise Missing("type " + name)

    def lemmas(self, st, s0=None):
        g = st.g
        a = g["enc"] - self.maxq
        # PS is strictly increasing: instances for the first unwritten message, now and when the poll started
        ks, ms = [], [simp(a), simp(a + 1), g["enc"]]

        def rec(x, d=0):
            if isinstance(x, Struct):
                for f in x.fields:
                    rec(f, d + 1)
            elif isinstance(x, Seq):
                for lo, hi, gen in x.segs:
                    if isinstance(gen, EncBuf):
                        ks.append(gen.k)
                        ks.append(simp(gen.k - 1))
        if s0 is not None:
            rec(s0.heap[self.cell.cell])
            ms += ks
            ks = []
        rec(st.heap[self.cell.cell])
        for k in ks:
            for m in ms:
                if k.eq(m):
                    continue
                st.assume(z3.Implies(k < m, PS(k) < PS(m)))
                st.assume(z3.Implies(k == m, PS(k) == PS(m)))
                st.assume(z3.Implies(k > m, PS(k) > PS(m)))
        return st

    def at_pending(self, ex, st, s0):
        g, g0 = st.g, s0.g
        st.note("poll returns Pending")
        self.lemmas(st, s0)
        w = g["woken"]
        P = lambda props, name, c: ex.oblige(st, props, name, c, "poll returns Pending")
        P(("C04",), "pending: woken or registered for readability", z3.Or(w, g["rreg"]))
        P(("C04",), "pending: every received byte was offered to the decoder, or woken", z3.Or(w, g["cons"] == g["rx"], g["waiting"]))
        P(("C01", "C04"), "pending: every decoded message was handed over, or woken", z3.Or(w, g["delv"] == g["dec"]))
        P(("C04",), "pending: woken or registered for writability while bytes are unwritten", z3.Or(w, g["wreg"], g["W"] == PS(g["enc"])))
        full = g["W"] < PS(g["enc"] - self.maxq + 1)
        P(("C04",), "pending: woken or registered with the channel while the send queue has room",
          z3.Or(w, g["creg"], g["closed"], full))
        P(("C04",), "pending: taken messages are encoded while the send queue has room, or woken",
          z3.Or(w, g["recvd"] == g["enc"], full))
        P(("C02", "C04"), "pending: not when the channel is closed and everything is written",
          z3.Or(w, z3.Not(g["closed"]), g["recvd"] != g["enc"], g["W"] != PS(g["enc"])))
        idle = simp(z3.And(w, g["untried"], *[g[k] == g0[k] for k in ("rx", "cons", "dec", "delv", "recvd", "enc", "W")]))
        P(("C04",), "pending: the connection does not wake itself twice without progress", z3.Not(z3.And(g0["idle"], idle)))
        g["idle"], g["untried"] = idle, F
        P(("C02",), "pending: a reactor that asks to disconnect finishes the connection", z3.Not(g["disc"]))
        P(("C04",), "pending: a socket that failed or ended finishes the connection", z3.Not(z3.Or(g["rdead"], g["wdead"])))
        P(("C05",), "pending: a frame that cannot fit closes the connection", z3.Not(g["mustclose"]))
        P(("C05",), "pending: a message that is too large closes the connection", z3.Not(g["toolarge"]))
        P(("C01", "C05"), "pending: an invalid frame closes the connection", z3.Not(g["invalid"]))
        P(("C05", "C04"), "pending: a connection that waits for the rest of a frame reads", z3.Not(g["owed"]))
        P(("C05",), "pending: received bytes are bounded", g["rx"] - g["cons"] < self.maxb + SLACK)
        P(("C05",), "pending: the decoded batch is bounded", g["dec"] - g["delv"] <= self.maxq)
        P(("C05",), "pending: the send queue is bounded", z3.Or(g["enc"] <= self.maxq, g["W"] >= PS(g["enc"] - self.maxq)))
        P(("C05",), "pending: taken messages are bounded", g["recvd"] - g["enc"] <= self.maxq)

    def at_ready(self, ex, st):
        g = st.g
        st.note("poll returns Ready")
        R = lambda props, name, c: ex.oblige(st, props, name, c, "poll returns Ready")
        done = z3.And(g["closed"], g["recvd"] == g["enc"], g["W"] == PS(g["enc"]))
        cause = z3.Or(g["sockfail"], g["eof"], g["disc"], g["invalid"], g["toolong"], g["toolarge"])
        R(("C02", "C05"), "finishes only for a reason, or when the channel is closed and everything is written", z3.Or(cause, done))
        R(("C02",), "at the end of the stream every complete message was handed over",
          z3.Or(z3.Not(g["eof"]), self.handed_over(g)))

    def handed_over(self, g):
        """every complete message received was handed over, unless something stopped the connection"""
        return z3.Or(g["disc"], g["sockfail"], g["invalid"], g["toolong"], g["toolarge"],
                     z3.And(g["delv"] == g["dec"], z3.Or(g["cons"] == g["rx"], g["waiting"])))

    def on_with_capacity(self, ex, st, v, n):
        st.assume(v.cap == n)
