"""C13..C16: the rpc server of one connection."""
import z3

from spec_rpc import *
from core import St, DROPPED, Abort
from loops import run_cut, same, shape_of, concretize, Leaf


class Mon:
    def __init__(self, **kw):
        self.uid = ident()
        self.__dict__.update(kw)

    def but(self, **kw):
        m = Mon(**self.__dict__)
        m.__dict__.update(kw)
        return m

    def __eq__(self, o):
        if self is o:
            return True
        a, b = self.__dict__, getattr(o, "__dict__", None)
        return type(o) is Mon and a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)

    __hash__ = object.__hash__


def alike(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(alike(a, b) for a, b in zip(x, y))
    if x is None or y is None:
        return x is y
    return same(x, y)


def arcs(v):
    """cells of the shared objects in a value"""
    out = []
    if isinstance(v, Struct):
        if v.tag == "arc":
            return [v.fields[0].cell]
        for x in v.fields:
            out += arcs(x)
    elif isinstance(v, Enum) and isinstance(v.tag, int):
        for x in v.pay.get(v.tag, ()):
            out += arcs(x)
    return out


class Submitter(Rpc):
    """C13: what the connection's reactor does with a batch of requests"""
    name = "rpc submitter"
    props = ("C13",)
    needs = {"C13": ("each request is forwarded",)}

    def assumptions(self):
        return ["tokio unbounded mpsc: send queues the message behind the earlier ones, or fails when the receiver is gone"]

    def run(self, ex):
        fn = self.find_impl(ex, CRATE, "MessageReactor", "on_inbound_messages", "RpcSubmitter")
        st = St()
        rp = ex.alloc(st, ex.fresh(st, self.ty(ex, "RpcSubmitter"), "submitter"))
        st.g.update(mon=None, failed=F, done=F)
        for s, v in ex.exec_fn(st, fn, [rp, Struct(None, [I(0)], "batch")]):
            if s.g["mon"] is not None:
                self.settle(ex, s, "return")
            i = self.variant(v.ty, "Continue")
            cont = B(v.tag == i) if isinstance(v.tag, int) else v.tag == i
            ex.oblige(s, self.props, "each request is forwarded: the whole batch, unless the rpc server is gone", z3.Or(s.g["done"], s.g["failed"]), None)
            ex.oblige(s, self.props, "the connection goes on exactly while the rpc server takes requests", cont == z3.Not(s.g["failed"]), None)

    def settle(self, ex, st, where):
        m = st.g["mon"]
        st.g["mon"] = None
        ex.oblige(st, self.props, "each request is forwarded exactly once, in order", z3.Or(B(m.sent == 1), st.g["failed"]), where)

    def env2(self, ex, st, sn, tr, n, path, ref, crate, args, where):
        if tr == "IntoIterator" and n == "into_iter" and isinstance(args[0], Struct) and args[0].tag == "batch":
            return [(st, args[0])]
        if tr == "Iterator":
            p = args[0]
            v = ex.load1(st, p) if isinstance(p, Ptr) else p
            if isinstance(v, Struct) and v.tag == "batch":
                if n == "next":
                    return self.next(ex, st, where)
        if n == "is_closed" and "Sender" in path:
            a, b = st.fork(), st.fork()
            b.g["failed"] = T
            b.note("the rpc server is gone")
            return ([(a, F)] if not z3.is_true(st.g["failed"]) else []) + [(b, T)]
        if n == "send" and "Sender" in path:
            m = st.g["mon"]
            t = self.mterm(ex, st, args[1])
            ex.oblige(st, self.props, "each request is forwarded unchanged and nothing else is", B(m is not None and m.sent == 0 and t.eq(m.t)), where)
            if m is None:
                return []
            a, b = st.fork(), st.fork()
            a.g["mon"] = m.but(sent=m.sent + 1)
            b.g["failed"] = T
            b.note("the rpc server is gone")
            if z3.is_true(st.g["failed"]):
                return [(b, err(Struct(None, [args[1]], "senderror")))]
            return [(a, ok(unit())), (b, err(Struct(None, [args[1]], "senderror")))]
        return None

    def next(self, ex, st, where):
        if st.g["mon"] is not None:
            self.settle(ex, st, where)
        a, b = st.fork(), st.fork()
        a.g["done"] = T
        t = fint("m")
        self.facts(ex, b, t)
        b.g["mon"] = Mon(t=t, sent=0)
        return [(a, none()), (b, some(Opq("message", t)))]


class Server(Rpc):
    """C13, C14, C16: one poll of the connection's rpc server, from every state between polls"""
    name = "rpc connection server"
    props = ("C13", "C14", "C15", "C16", "C20")
    needs = {
        "C13": ("requests are handled", "each normal request", "a control message", "a cancel", "other rpcs", "the abort handle", "every received request"),
        "C14": ("a response is taken", "only the response", "a response is queued", "a finished stream"),
        "C15": ("a cancel cancels", "other rpcs are not affected by the end"),
        "C20": ("a finished unary rpc is forgotten", "a finished stream is forgotten", "a cancelled rpc is forgotten", "a request without an rpc"),
        "C16": ("a pending server", "the server finishes", "the server fails"),
    }
    seq_dirs = (-1, 1)
    seq_ghosts = ("handled", "recvd")

    def assumptions(self):
        return [
            "tokio UnboundedReceiver::poll_recv_many appends queued messages in order, returns 0 only when closed and drained, registers the task when Pending",
            "tokio_util PollSender: poll_reserve reserves room, registers the task when Pending, and fails only when the receiver is gone; send_item queues into reserved room or fails when the receiver is gone",
            "futures FuturesUnordered and SelectAll yield what their members yield, register the task with every member when Pending, and hold a pushed member without polling it",
            "members of the two sets behave as IdentifiableAbortable is shown to behave (C15)",
            "an id is not used for a new rpc while an rpc with it is outstanding",
        ]

    # ------------------------------------------------------------ state
    def run(self, ex):
        poll = self.find_impl(ex, CRATE, "Future", "poll", "RpcConnectionServer")
        new = self.find(ex, CRATE, name="new", impl_self="RpcConnectionServer")
        anew = self.find(ex, CRATE, name="new", impl_self="IdentifiableAbortable")
        sty = self.ty(ex, "RpcConnectionServer")
        s0 = St()
        s0.g.update(mon=None)
        r = ex.exec_fn(s0, anew, [I(0), Opq("future", I(0))])
        ap = ex.alloc(r[0][0], r[0][1])
        at = self.objects(ex, r[0][0], ap, "atomic")
        if not at:
            raise Missing("no abort state")
        self.v0 = at[0][1].fields[0]
        # a new server
        st = St()
        st.assume(z3.And(K >= 0, K <= U64))
        st.g.update(mon=None)
        for s, v in ex.exec_fn(st, new, [Opq("service", I(0)), Opq("Receiver", fint("rx")), Opq("Sender", fint("tx"))]):
            sp = ex.alloc(s, v)
            _, buf, mp = self.parts(ex, s, sp)
            e = ex.load1(s, mp).fields[0]
            ex.oblige(s, self.props, "every received request: a new server has none", ex.load1(s, buf).len == 0, None)
            ex.oblige(s, self.props, "other rpcs: a new server has none", B(e.tag == 0) if isinstance(e.tag, int) else e.tag == 0, None)
        # any server between polls, with requests left over in the buffer or not
        first = None
        for d in (0, -1, 1):
            n = {k: (o.paths, o.proved, o.failed) for k, o in ex.obs.items()}
            obs = dict(ex.obs)
            try:
                good = self.polls(ex, poll, sty, d)
            except (Unsupported, Abort):
                # what fails from a state that may not be reachable says nothing
                for k, o in ex.obs.items():
                    if o.failed is not None and k not in n and (o.name == self.LEFT if first is None else k not in first):
                        o.failed = ("unknown",) + tuple(o.failed[1:])
                raise
            if good or d == 1:
                return
            if first is None:
                first = {k for k, o in ex.obs.items() if o.failed is not None and o.name != self.LEFT}
            # not an invariant: try another one
            ex.obs = obs
            for k, o in ex.obs.items():
                o.paths, o.proved, o.failed = n[k]

    LEFT = "every received request: those left in the buffer are those not handled yet"

    def parts(self, ex, st, sp):
        v = ex.load1(st, sp)
        buf, mp = None, None
        for i, (x, t) in enumerate(zip(v.fields, v.ty.field_tys())):
            p = Ptr(sp.cell, sp.path + (("f", i),))
            if isinstance(x, Seq):
                if buf is not None:
                    raise Missing("several buffers")
                buf = p
            elif isinstance(x, Struct) and x.tag == "kmap":
                if mp is not None:
                    raise Missing("several maps")
                mp = p
        if buf is None or mp is None:
            raise Missing("no buffer of requests and map of abort handles")
        return v, buf, mp

    def window(self, ex, st, old, d):
        h, r = st.g["handled"], st.g["recvd"]
        n = simp(r - h)
        st.assume(z3.And(h >= 0, n >= 0, n <= 1 << 60))
        cap = fint("cap")
        st.assume(cap >= n)
        return Seq(old.ty, old.ety, n, cap, [(I(0), n, Stream(I(SRC_REQ), simp(r - 1), -1) if d == -1 else Stream(I(SRC_REQ), h))])

    seq_head = window

    def seq_inv(self, ex, st, v, d):
        h, r = st.g["handled"], st.g["recvd"]
        base = z3.And(h >= 0, r >= h, r - h <= 1 << 60, v.len == r - h, v.cap >= v.len)
        if ex.known(st, v.len == 0):
            return base
        ps = shape_of(ex, st, v, "stream")
        if ps is None or ps["src"] is None or not z3.is_true(simp(I(ps["src"]) == SRC_REQ)):
            return F
        one = ex.known(st, v.len <= 1)
        if ps["d"] != d and not one:
            return F
        a, b, p = ps["a"][0], ps["b"][0], ps["p"][0]
        return z3.And(base, z3.Implies(v.len > 0, z3.And(a == 0, b == v.len, p == (r - 1 if d == -1 else h))))

    def polls(self, ex, poll, sty, d):
        st = St()
        st.assume(z3.And(K >= 0, K <= U64))
        sp = ex.alloc(st, ex.fresh(st, sty, "server"))
        _, buf, mp = self.parts(ex, st, sp)
        h, r = fint("handled"), fint("recvd")
        st.g.update(mon=None, handled=h, recvd=r if d else h, chclosed=F, oclosed=F, ireg=F, oreg=F, ureg=F, sreg=F,
                    woken=F, reserved=fbool("reserved"))
        st.assume(h >= 0)
        ex.store(st, buf, self.window(ex, st, ex.load1(st, buf), d or -1))
        good = True
        for s0 in concretize(ex, st, Leaf("h", mp.cell, mp.path + (("f", 0),), "enum")):
            for s, _ in ex.split(s0, s0.g["reserved"]):
                s = s.fork()
                s.g["reserved"] = B(_)
                self.mp, self.buf = mp, buf
                e = ex.load1(s, mp).fields[0]
                hp = ex.alloc(s, e.pay[1][0] if e.tag == 1 else ex.fresh(s, ex.load1(s, mp).ty.args[1], "handle"))
                self.canon = ex.load1(s, hp)
                self.atom = self.objects(ex, s, hp, "atomic")
                if len(self.atom) != 1:
                    raise Missing("no abort state in the handle")
                s.note("an rpc K is outstanding" if e.tag == 1 else "no rpc K")
                cx = ex.alloc(s, Opq("Context", I(0)))
                for s1, v in ex.exec_fn(s, poll, [Struct(None, [sp], "pin"), cx]):
                    good &= self.result(ex, s1, v, d)
        return good

    def entry(self, ex, st):
        e = ex.load1(st, self.mp).fields[0]
        if not isinstance(e.tag, int):
            raise Unsupported("entry at K is not concrete")
        return e

    def value(self, ex, st):
        """the abort state of the rpc at K at the start"""
        return ex.load1(st, self.atom[0][0]).fields[0]

    def normalise(self, ex, st):
        """a handle registered meanwhile is like the one at the start, in any state"""
        e = self.entry(ex, st)
        if e.tag == 1 and not same(e.pay[1][0], self.canon):
            ex.lib.set_k(ex, st, self.mp, self.canon)
        a = self.atom[0]
        x = ex.load1(st, a[0])
        v = x.fields[0]
        if e.tag == 1 and not (z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            t = fint("abort")
            st.assume(z3.And(t >= 0, t <= U64))
            ex.store(st, a[0], Struct(x.ty, [t], x.tag))

    def same_mon(self, a, b):
        return b.g["mon"] is not None and a.g["mon"].uid == b.g["mon"].uid

    def on_back(self, ex, st, was_pending):
        super().on_back(ex, st, was_pending)
        if not was_pending:
            self.normalise(ex, st)

    # ------------------------------------------------------------ requests
    def env(self, ex, st, sn, ref, crate, args, where):
        tr = (ref.get("trait") or "").split("<")[0].split("::")[-1]
        n = ref["name"]
        if tr == "Message" and n in ("message_id", "control_code", "set_message_id") or tr == "ConnectionService" and n == "new_rpc":
            t = self.mterm(ex, st, args[0] if tr == "Message" else args[1])
            out = []
            for s in self.touch(ex, st, t, where):
                r = self.new_rpc(ex, s, t, ref, crate, where) if n == "new_rpc" else super().env(ex, s, sn, ref, crate, args, where)
                out.extend(r)
            return out
        return super().env(ex, st, sn, ref, crate, args, where)

    def touch(self, ex, st, t, where):
        if not (z3.is_app(t) and t.decl().eq(MSG) and z3.is_true(simp(t.arg(0) == SRC_REQ))):
            return [st]
        m = st.g["mon"]
        if m is not None and m.kind == "request" and (m.t.eq(t) or ex.known(st, m.j == t.arg(1))):
            return [st]
        if m is not None:
            self.settle(ex, st, where)
        j = t.arg(1)
        ex.oblige(st, ("C13",), "requests are handled in arrival order, each once", z3.And(j == st.g["handled"], j < st.g["recvd"]), where)
        st.g["handled"] = simp(st.g["handled"] + 1)
        self.facts(ex, st, t)
        out = []
        for s, yes in ex.split(st, MID(t) == K):
            s = s.fork()
            s.note("a request for %s" % ("K" if yes else "another id"))
            s.g["mon"] = Mon(kind="request", t=t, j=j, isk=yes, started=0, rpc=None, pushed=(), entry=self.entry(ex, s),
                             value=self.value(ex, s), woke=())
            out.append(s)
        return out

    def new_rpc(self, ex, st, t, ref, crate, where):
        m = st.g["mon"]
        codes, _ = self.codes(ex)
        good = m is not None and m.kind == "request" and m.started == 0
        ex.oblige(st, ("C13",), "each normal request starts one rpc, with the unchanged request", z3.And(B(good), t == m.t) if good else F, where)
        ex.oblige(st, ("C13",), "a control message starts no rpc", CODE(t) == codes["Normal"], where)
        if not good:
            return []
        kty = self.ty(ex, "RpcKind")
        out = []
        for i, v in enumerate(kty.variants):
            s = st.fork()
            n = len(kty.field_tys(i))
            f = fint("rpc")
            s.g["mon"] = m.but(started=1, rpc=(v["name"], f))
            s.note("the service starts: " + v["name"])
            out.append((s, Enum(kty, i, {i: (Opq(kty.field_tys(i)[0], f),) if n else ()})))
        return out

    def push(self, ex, st, args, which, where):
        m = st.g["mon"]
        st.g["ureg" if which == "Unary" else "sreg"] = F
        if m is None or m.kind != "request":
            ex.oblige(st, ("C13",), "each normal request starts one rpc (an rpc is added without a request)", F, where)
            return []
        v = args[1]
        cells = arcs(v)
        p = ex.alloc(st, v)
        at = self.objects(ex, st, p, "atomic")
        ints = [x for x in v.fields if is_int(x)] if isinstance(v, Struct) else []
        inner = [x.term for x in v.fields if isinstance(x, Opq)] if isinstance(v, Struct) else []
        ok_ = z3.And(B(m.rpc is not None and m.rpc[0] == which and any(t.eq(m.rpc[1]) for t in inner)),
                     *[x == MID(m.t) for x in ints])
        ex.oblige(st, ("C13",), "each normal request starts one rpc: what is added is the service's rpc, under the request's id", ok_, where)
        ex.oblige(st, ("C13",), "each normal request starts one rpc, which is not cancelled yet",
                  z3.And(*[ex.load1(st, q).fields[0] == self.v0 for q, _ in at]) if at else F, where)
        st.g["mon"] = m.but(pushed=m.pushed + ((which, tuple(cells)),))
        return [(st, unit())]

    # ------------------------------------------------------------ the environment
    def env2(self, ex, st, sn, tr, n, path, ref, crate, args, where):
        g = st.g
        if "Receiver" in path:
            if n == "poll_recv_many":
                return self.recv_many(ex, st, args, where)
            if n == "poll_recv":
                return self.recv(ex, st, args, where)
            raise Unsupported("Receiver::" + n)
        if "PollSender" in path:
            if n == "new":
                return [(st, Opq("PollSender", fint("out")))]
            if n == "poll_reserve":
                return self.reserve(ex, st, where)
            if n == "send_item":
                return self.send_item(ex, st, args, where)
            raise Unsupported("PollSender::" + n)
        for set_, which in (("FuturesUnordered", "Unary"), ("SelectAll", "Streaming")):
            if set_ in path or self.self_is(ex, ref, crate, set_):
                if n == "push":
                    return self.push(ex, st, args, which, where)
                if n == "poll_next" or n == "poll_next_unpin":
                    return self.items(ex, st, which, where)
                if n in ("new", "default"):
                    return [(st, Opq(set_, fint("set")))]
                if n in ("is_empty", "len"):
                    # an empty set has nothing to be registered with
                    a, b = st.fork(), st
                    a.g["ureg" if which == "Unary" else "sreg"] = T
                    a.note("no %s rpcs" % which)
                    t = fint("len")
                    b.assume(z3.And(t >= 1, t <= 1 << 62))
                    return [(a, T if n == "is_empty" else I(0)), (b, F if n == "is_empty" else t)]
                raise Unsupported(set_ + "::" + n)
        if "AtomicWaker" in path:
            if n == "new":
                return [(st, Opq("AtomicWaker", fint("aw")))]
            if n == "wake":
                m = g["mon"]
                p = args[0]
                if m is not None and isinstance(p, Ptr):
                    st.g["mon"] = m.but(woke=m.woke + (p.cell,))
                return [(st, unit())]
            if n == "take":
                a, b = st.fork(), st.fork()
                m = g["mon"]
                p = args[0]
                if m is not None and isinstance(p, Ptr):
                    # nobody is registered: there is nobody to wake
                    a.g["mon"] = m.but(woke=m.woke + (p.cell,))
                return [(a, none()), (b, some(Struct(None, [p], "taken waker")))]
            if n == "register":
                raise Unsupported("AtomicWaker::" + n)
        return None

    def wake_taken(self, ex, st, p):
        m = st.g["mon"]
        if m is not None and isinstance(p, Ptr):
            st.g["mon"] = m.but(woke=m.woke + (p.cell,))

    def self_is(self, ex, ref, crate, name):
        if "self" not in ref:
            return False
        t = crate.ty(ref["self"])
        for _ in range(4):
            if t.k == "adt" and t.last() == name:
                return True
            if t.k == "adt" and t.last() == "Pin" and t.args:
                t = t.args[0]
            elif t.k in ("ref", "ptr"):
                t = t.inner
            else:
                break
        return False

    def recv_many(self, ex, st, args, where):
        p, v = ex.lib.seq(ex, st, args[2])
        lim = args[3]
        g = st.g
        out = []
        ex.oblige(st, ("C13",), "every received request is asked for with a limit", lim > 0, where)
        s = st.fork()
        s.assume(z3.Not(g["chclosed"]))
        if ex.feasible(s):
            n = fint("count")
            s.assume(z3.And(n >= 1, n <= lim))
            r = g["recvd"]
            s.assume(r + n <= 1 << 59)
            ex.store(s, p, ex.lib.append(ex, s, v, n, [(I(0), n, Stream(I(SRC_REQ), r))]))
            s.g["recvd"] = simp(r + n)
            s.g["ireg"] = F
            s.note("received requests")
            out.append((s, ready(n)))
            s = st.fork()
            s.assume(z3.Not(g["chclosed"]))
            s.g["ireg"] = T
            s.note("no request, registered")
            out.append((s, pending()))
        s = st.fork()
        s.g["chclosed"] = T
        s.note("inbound closed")
        out.append((s, ready(I(0))))
        return out

    def recv(self, ex, st, args, where):
        g = st.g
        out = []
        s = st.fork()
        s.assume(z3.Not(g["chclosed"]))
        if ex.feasible(s):
            r = g["recvd"]
            s.g["recvd"] = simp(r + 1)
            s.g["ireg"] = F
            out.append((s, ready(some(Opq("message", MSG(I(SRC_REQ), r))))))
            s = st.fork()
            s.assume(z3.Not(g["chclosed"]))
            s.g["ireg"] = T
            out.append((s, pending()))
        s = st.fork()
        s.g["chclosed"] = T
        out.append((s, ready(none())))
        return out

    def reserve(self, ex, st, where):
        if st.g["mon"] is not None:
            self.settle(ex, st, where)
        out = []
        # once the queue is closed only a permit already held can be used
        a = st.fork()
        a.assume(z3.Or(z3.Not(a.g["oclosed"]), a.g["reserved"]))
        a.g["reserved"] = T
        # room that came up after the task registered for it has woken the task
        a.g["woken"] = simp(z3.Or(a.g["woken"], a.g["oreg"]))
        a.g["oreg"] = F
        a.note("room in the outbound queue")
        out.append((a, ready(ok(unit()))))
        if not z3.is_true(st.g["reserved"]):
            a = st.fork()
            a.g["oclosed"] = T
            a.note("outbound closed")
            out.append((a, ready(err(Opq("PollSendError", I(0))))))
            a = st.fork()
            a.assume(z3.Not(a.g["oclosed"]))
            a.g["oreg"] = T
            a.note("no room in the outbound queue, registered")
            out.append((a, pending()))
        return out

    def items(self, ex, st, which, where):
        if st.g["mon"] is not None:
            self.settle(ex, st, where)
        ex.oblige(st, ("C14",), "a response is taken from an rpc only when there is room for it", st.g["reserved"], where)
        reg = "ureg" if which == "Unary" else "sreg"
        out = []
        a = st.fork()
        a.g[reg] = T
        a.note("no %s rpc has anything, registered" % which)
        out.append((a, pending()))
        a = st.fork()
        a.g[reg] = T
        a.note("no %s rpcs" % which)
        out.append((a, ready(none())))
        aty = self.ty(ex, "AbortableState")
        ety = self.ty(ex, "Error")
        kinds = ["Ok", "Abort", "Aborted"] + (["Finished"] if which == "Streaming" else [])
        for kind in kinds:
            for isk in (True, False):
                s = st.fork()
                id_ = fint("id")
                s.assume(z3.And(id_ >= 0, id_ <= U64, id_ == K if isk else id_ != K))
                s.note("%s rpc %s: %s" % (which, "K" if isk else "(another)", kind))
                e = self.entry(ex, s)
                t = fint("response")
                self.facts(ex, s, t)
                if kind == "Finished" and isk and e.tag == 0:
                    continue       # not cancelled, so its handle is still there
                i = self.variant(aty, "Ready" if kind in ("Ok", "Finished") else kind)
                if kind == "Ok":
                    pay = (ok(Opq("message", t)),)
                elif kind == "Finished":
                    j = self.variant(ety, "Finished")
                    pay = (err(Enum(ety, j, {j: ()})),)
                else:
                    pay = ()
                s.g["mon"] = Mon(kind="item", what=kind, which=which, t=t, id=id_, isk=isk, sent=0, failed=False, entry=e,
                                 value=self.value(ex, s), woke=())
                s.g[reg] = F
                out.append((s, ready(some(Struct(None, [id_, Enum(aty, i, {i: pay})], "tuple")))))
        return out

    def send_item(self, ex, st, args, where):
        m = st.g["mon"]
        t = self.mterm(ex, st, args[1])
        codes, _ = self.codes(ex)
        P = ("C14",)
        ex.oblige(st, P, "a response is queued only into reserved room", st.g["reserved"], where)
        if m is None or m.kind != "item":
            good = F
        elif m.what == "Ok":
            good = t == m.t
        elif m.what == "Finished":
            good = z3.And(MID(t) == m.id, CODE(t) == codes["End"])
        else:
            good = F
        ex.oblige(st, P, "only the response or the end of an rpc is queued, unchanged", good, where)
        if m is None or m.kind != "item":
            return []
        ex.oblige(st, P, "a response is queued once", B(m.sent == 0 and not m.failed), where)
        a, b = st.fork(), st.fork()
        for s in (a, b):
            s.g["reserved"] = F
        a.g["mon"] = m.but(sent=m.sent + 1)
        a.note("queued")
        b.g["mon"] = m.but(failed=True)
        b.g["oclosed"] = T
        b.note("outbound closed")
        return [(a, ok(unit())), (b, err(Opq("PollSendError", I(0))))]

    # ------------------------------------------------------------ obligations
    def settle(self, ex, st, where):
        m = st.g["mon"]
        st.g["mon"] = None
        e = self.entry(ex, st)
        now = self.value(ex, st)
        unchanged = z3.And(B(same(e, m.entry)), now == m.value)
        if m.kind == "item":
            if not m.isk:
                ex.oblige(st, ("C13", "C14", "C15"), "other rpcs are not affected by the progress of an rpc", unchanged, where)
            if m.what == "Ok":
                ex.oblige(st, ("C14",), "a response is queued exactly once", B(m.sent == 1 or m.failed), where)
                if m.isk and m.which == "Unary":
                    ex.oblige(st, ("C20",), "a finished unary rpc is forgotten", B(e.tag == 0 or m.failed), where)
                if m.isk and m.which == "Streaming":
                    ex.oblige(st, ("C14",), "a response is queued and its stream goes on", unchanged, where)
            elif m.what == "Finished" and m.isk:
                ex.oblige(st, ("C14",), "a finished stream is ended with exactly one end message", B(m.sent == 1 or m.failed), where)
                ex.oblige(st, ("C20",), "a finished stream is forgotten", B(e.tag == 0 or m.failed), where)
            elif m.what == "Aborted" and m.isk:
                ex.oblige(st, ("C13", "C15"), "other rpcs are not affected by the end of a cancelled rpc with the same id", unchanged, where)
            return
        P = ("C13",)
        codes, cty = self.codes(ex)
        for i in range(len(cty.variants)):
            if not ex.feasible(st, CODE(m.t) == i):
                continue
            s = st.fork()
            s.assume(CODE(m.t) == i)
            name = cty.variants[i]["name"]
            if not m.isk:
                ex.oblige(s, P, "other rpcs are not affected by a request", unchanged, where)
            if name == "Normal":
                ex.oblige(s, P, "each normal request starts exactly one rpc", B(m.started == 1), where)
                kinds = [k for k, _ in m.pushed]
                if m.rpc is not None:
                    want = [m.rpc[0]] if m.rpc[0] in ("Unary", "Streaming") else []
                    ex.oblige(s, P, "each normal request starts exactly one rpc: it is added once to the outstanding rpcs", B(kinds == want), where)
                    if m.isk and want and kinds == want:
                        mine = set(arcs(e.pay[1][0])) if e.tag == 1 else set()
                        ex.oblige(s, P, "the abort handle of a started rpc is registered under its id",
                                  B(bool(mine) and mine <= set(m.pushed[0][1])), where)
                    elif m.isk and not want:
                        ex.oblige(s, P, "an unknown rpc is skipped", unchanged, where)
                        ex.oblige(s, ("C20",), "a request without an rpc leaves nothing behind", B(e.tag <= m.entry.tag), where)
            else:
                ex.oblige(s, P, "a control message starts no rpc", B(m.started == 0 and not m.pushed), where)
                if m.isk and name == "Cancel" and m.entry.tag == 1:
                    cancelled = now != self.v0
                    ex.oblige(s, ("C20",), "a cancelled rpc is forgotten", B(e.tag == 0), where)
                    ex.oblige(s, P + ("C15",), "a cancel cancels the rpc with its id", cancelled, where)
                    wk = [c for c in arcs(m.entry.pay[1][0]) if c != self.atom[0][0].cell]
                    ex.oblige(s, P + ("C15", "C16"), "a cancel wakes the rpc with its id", B(all(c in m.woke for c in wk)), where)
                elif m.isk:
                    ex.oblige(s, P, "a control message without effect changes nothing", unchanged, where)
                    ex.oblige(s, ("C20",), "a request without an rpc leaves nothing behind", B(e.tag <= m.entry.tag), where)

    def result(self, ex, st, v, d):
        if st.g["mon"] is not None:
            self.settle(ex, st, "return")
        good = True
        for s, i, pay in ex.lib.cases(ex, st, v):
            g = s.g
            if i == 1:
                ex.oblige(s, ("C16",), "a pending server is woken, or registered for requests and for room or the progress of every rpc",
                          z3.Or(g["woken"], z3.And(g["ireg"], z3.Or(g["oreg"], z3.And(g["ureg"], g["sreg"])))), None)
                ex.oblige(s, ("C16",), "a pending server has not seen a side closed", z3.And(z3.Not(g["chclosed"]), z3.Not(g["oclosed"])), None)
                ex.oblige(s, ("C13",), "every received request is handled (or the server is woken)", z3.Or(g["handled"] == g["recvd"], g["woken"]), None)
                buf = ex.load1(s, self.buf)
                inv = self.seq_inv(ex, s, buf, d) if d else z3.And(buf.len == 0, g["handled"] == g["recvd"])
                if not ex.known(s, inv):
                    good = False
                ex.oblige(s, ("C13",), self.LEFT, inv, None)
                continue
            for s2, k, pay2 in ex.lib.cases(ex, s, pay[0]):
                g = s2.g
                if k == 0:
                    ex.oblige(s2, ("C16",), "the server finishes only when the inbound side is closed", g["chclosed"], None)
                    ex.oblige(s2, ("C13",), "every received request is handled before the server finishes", g["handled"] == g["recvd"], None)
                else:
                    ex.oblige(s2, ("C16",), "the server fails only when the outbound side is closed",
                              z3.And(g["oclosed"], self.is_error(ex, pay2[0], "ConnectionIsClosed")), None)
        return good


class Abortable(Rpc):
    """C15: an rpc and its abort handle, for any sequence of polls and cancellations"""
    name = "abortable rpc"
    props = ("C15",)
    needs = {"C15": ("an rpc that is not cancelled", "a cancelled rpc", "a stream ends", "a pending rpc", "a cancellation wakes")}

    def assumptions(self):
        return ["futures AtomicWaker: wake wakes the task that was registered last",
                "an rpc and its abort handle are used by one task (the connection's server), so polls and cancellations do not overlap",
                "FuturesUnordered drops a member that is ready, SelectAll one that returned None"]

    def run(self, ex):
        aty = self.ty(ex, "IdentifiableAbortable")
        new = self.find(ex, CRATE, name="new", impl_self="IdentifiableAbortable")
        cancels = [f for f in ex.prog.crates[CRATE].fns if f.body and f.j.get("impl_self") == "IdentifiableAbortHandle"
                   and f.argc == 1 and not f.j.get("impl_trait") and "::{" not in f.path]
        # private helpers of the handle are not a way to cancel, nor are queries
        mentioned = set()

        def mentions(x):
            if isinstance(x, dict):
                for k in ("path", "resolved"):
                    if isinstance(x.get(k), str):
                        mentioned.add(x[k])
                for y in x.values():
                    mentions(y)
            elif isinstance(x, list):
                for y in x:
                    mentions(y)
        for f in ex.prog.crates[CRATE].fns:
            if f.body and f.j.get("impl_self") != "IdentifiableAbortHandle":
                mentions(f.j["body"])
        named, mentioned = mentioned, set()
        does = {}
        for f in cancels:
            mentioned.clear()
            mentions(f.j["body"])
            does[f] = f.local_ty(0).s == "()" or any(w in m.split("::")[-1] for m in mentioned for w in ("store", "swap", "exchange", "fetch", "wake"))
        cancels = [f for f in cancels if f.path in named and does[f]] or cancels
        if not cancels:
            raise Missing("no way to cancel an rpc")
        fpoll = self.find_impl(ex, CRATE, "Future", "poll", "IdentifiableAbortable")
        spoll = self.find_impl(ex, CRATE, "Stream", "poll_next", "IdentifiableAbortable")
        for kind, fn in (("future", fpoll), ("stream", spoll)):
            st = St()
            id_ = fint("id")
            st.assume(z3.And(id_ >= 0, id_ <= U64))
            self.id, self.kind = id_, kind
            st.g.update(mon=None, cancelled=F, fin=F, silent=I(0), polled=I(0), got=I(0), areg=F, awoke=F, woken=F, ireg=F)
            for s, v in ex.exec_fn(st, new, [id_, Opq("inner", fint("inner"))]):
                a, h = v.fields[0], v.fields[1]
                if not (isinstance(a, Struct) and a.ty is not None and a.ty.last() == "IdentifiableAbortable"):
                    a, h = h, a
                ap, hp = ex.alloc(s, a), ex.alloc(s, h)
                cx = ex.alloc(s, Opq("Context", I(0)))

                def step(s):
                    out = []
                    for f in cancels:
                        s1 = s.fork()
                        s1.note(f.name + "()")
                        s1.g["awoke"] = F
                        was = s1.g["areg"]
                        for s2, _ in ex.exec_fn(s1, f, [hp]):
                            ex.oblige(s2, self.props, "a cancellation wakes the rpc's task", z3.Or(z3.Not(was), s2.g["awoke"]), None)
                            s2.g["cancelled"] = T
                            s2.g["silent"] = I(0)
                            s2.g["awoke"] = F
                            out.append(("back", s2))
                    s1 = s.fork()
                    s1.note("poll")
                    s1.g.update(polled=I(0), got=I(0), areg=F, awoke=F, woken=F, ireg=F)
                    for s2, r in ex.exec_fn(s1, fn, [Struct(None, [ap], "pin"), cx]):
                        out.extend(("back", x) for x in self.result(ex, s2, r))
                    return out
                run_cut(ex, s, None, step, "between polls and cancellations of a " + kind)

    def inner(self, ex, st, what):
        st.g["polled"] = simp(st.g["polled"] + 1)
        out = []
        for got in ((1, 2, 3) if what == "stream" else (1, 3)):
            s = st.fork()
            s.g["got"] = I(got)
            if got == 1:
                t = z3.Int("item!")
                s.note("the service has an item")
                v = Opq("message", t)
                out.append((s, ready(some(v)) if what == "stream" else ready(v)))
            elif got == 2:
                s.note("the service's stream is done")
                out.append((s, ready(none())))
            else:
                s.note("the service is pending")
                s.g["ireg"] = T
                out.append((s, pending()))
        return out

    def poll_future(self, ex, st, p, v, cx, where):
        if v.ty == "inner":
            return self.inner(ex, st, "future")
        return None

    def env2(self, ex, st, sn, tr, n, path, ref, crate, args, where):
        if tr in ("Stream", "StreamExt") and n in ("poll_next", "poll_next_unpin"):
            p = args[0]
            for _ in range(6):
                if isinstance(p, Opq):
                    break
                p = ex.load1(st, p) if isinstance(p, Ptr) else p.fields[0] if isinstance(p, Struct) and len(p.fields) == 1 else None
            if isinstance(p, Opq) and p.ty == "inner":
                return self.inner(ex, st, "stream")
        if "AtomicWaker" in path:
            if n in ("new", "default"):
                return [(st, Opq("AtomicWaker", fint("aw")))]
            if n == "register":
                st.g["areg"] = T
                return [(st, unit())]
            if n == "wake":
                st.g["awoke"] = T
                return [(st, unit())]
            if n == "take":
                a, b = st.fork(), st.fork()
                a.g["awoke"] = T     # nobody is registered: there is nobody to wake
                return [(a, none()), (b, some(Struct(None, [args[0]], "taken waker")))]
        return None

    def wake_taken(self, ex, st, p):
        st.g["awoke"] = T

    def result(self, ex, st, v):
        P = self.props
        g = st.g
        active = z3.And(z3.Not(g["cancelled"]), z3.Not(g["fin"]))
        ex.oblige(st, P, "an rpc that is not cancelled is polled once per poll", z3.Implies(active, g["polled"] == 1), None)
        ex.oblige(st, P, "a cancelled rpc (or a finished stream) is not polled again", z3.Implies(z3.Not(active), g["polled"] == 0), None)
        out = []
        aty = self.ty(ex, "AbortableState")
        for s, i, pay in ex.lib.cases(ex, st, v):
            g = s.g
            if i == 1:
                ex.oblige(s, P, "a cancelled rpc is released at once", active, None)
                ex.oblige(s, P, "a pending rpc is registered for its progress and for a cancellation",
                          z3.And(g["got"] == 3, z3.Or(g["woken"], z3.And(g["ireg"], g["areg"]))), None)
                out.append(s)
                continue
            item = pay[0]
            if self.kind == "stream":
                for s2, j, pay2 in ex.lib.cases(ex, s, item):
                    if j == 0:
                        ex.oblige(s2, P, "a stream ends only when it was finished or cancelled", z3.Not(active), None)
                    else:
                        out.extend(self.item(ex, s2, pay2[0], aty))
            else:
                self.item(ex, s, item, aty)
        return out

    def item(self, ex, st, it, aty):
        P = self.props
        out = []
        ex.oblige(st, P, "an rpc that is not cancelled: what it yields carries its id", it.fields[0] == self.id, None)
        for s, i, pay in ex.lib.cases(ex, st, it.fields[1]):
            g = s.g
            active = z3.And(z3.Not(g["cancelled"]), z3.Not(g["fin"]))
            if aty.variants[i]["name"] != "Ready":
                ex.oblige(s, P, "an rpc that is not cancelled is not reported as cancelled", z3.Not(active), None)
                ex.oblige(s, P, "a cancelled rpc is released after at most two silent items", g["silent"] <= 2, None)
                s.g["silent"] = simp(z3.If(g["silent"] >= 3, I(3), g["silent"] + 1))
                if self.kind == "stream":
                    out.append(s)
                continue
            ex.oblige(s, P, "a cancelled rpc is silent", active, None)
            for s2, k, pay2 in ex.lib.cases(ex, s, pay[0]):
                g = s2.g
                if k == 0:
                    good = z3.And(g["got"] == 1, pay2[0].term == z3.Int("item!")) if isinstance(pay2[0], Opq) else F
                    ex.oblige(s2, P, "an rpc that is not cancelled yields what the service yields", good, None)
                else:
                    ex.oblige(s2, P, "a stream ends: finished exactly once, when the service's stream is done",
                              z3.And(B(self.kind == "stream"), g["got"] == 2, z3.Not(g["fin"]), self.is_error(ex, pay2[0], "Finished")), None)
                    s2.g["fin"] = T
                if self.kind == "stream":
                    out.append(s2)
        return out
