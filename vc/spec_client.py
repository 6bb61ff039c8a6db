"""C08..C12: the rpc client (completion reactor, registry, completions, client)."""
import z3

from spec_rpc import *
from core import St, DROPPED
from loops import run_cut
from libsync import SyncLib


class Batch:
    """what is being checked about the message that is being processed"""


class Reactor(Rpc):
    """C08: one batch of inbound messages, for every registry state and an arbitrary id K"""
    name = "rpc completion reactor"
    props = ("C08", "C20")
    needs = {"C08": ("a response goes", "registered rpcs are found", "a control message", "the whole batch", "loop", "other messages"),
             "C20": ("a control message", "a unary rpc is complete", "nothing is left over", "registered rpcs are found", "a response without")}

    def assumptions(self):
        return [
            "HashMap, Arc and Mutex behave as documented (contracts in libsync.py), maps are followed at one arbitrary key",
            "an id is not registered again while an rpc with it is outstanding",
            "tokio oneshot and unbounded mpsc senders: send moves the value to the receiver in order, or fails without effect",
        ]

    def maps(self, ex, st, rp):
        sub, buf, live = [], [], []
        locked = self.objects(ex, st, rp, "mutex")
        for p, v in self.objects(ex, st, rp, "kmap"):
            vt = v.ty.args[1].last()
            inlock = any(q.cell == p.cell and p.path[:len(q.path)] == q.path for q, _ in locked)
            if vt == "CompletionState":
                (sub if inlock else buf).append(p)
            elif vt == "Completion" and not inlock:
                live.append(p)
        if len(sub) != 1 or len(live) != 1:
            raise Missing("the registry's maps are not recognized")
        return sub[0], buf, live[0]

    def entry(self, ex, st, p):
        return ex.load1(st, p).fields[0]

    def flat(self, e):
        """entry of the live map -> (kind or None, sender term)"""
        if e.tag == 0:
            return (None, None)
        c = e.pay[1][0]
        return (c.tag, c.pay[c.tag][0].term)

    def map_value(self, ex, st, p, key, v):
        """registry invariant: completions are registered under the id of their own rpc"""
        def rec(v):
            if isinstance(v, Opq):
                st.assume(OWNER(v.term) == key)
            elif isinstance(v, Enum):
                for fs in v.pay.values():
                    for x in fs:
                        rec(x)
            elif isinstance(v, Struct):
                for x in v.fields:
                    rec(x)
        rec(v)

    def run(self, ex):
        fn = self.find_impl(ex, CRATE, "MessageReactor", "on_inbound_messages", "RpcCompletionReactor")
        rty = self.ty(ex, "RpcCompletionReactor")
        st0 = St()
        st0.assume(z3.And(K >= 0, K <= U64))
        rp = ex.alloc(st0, ex.fresh(st0, rty, "reactor"))
        sub, buf, live = self.maps(ex, st0, rp)
        # concrete cases of the entry at K
        from loops import concretize, Leaf
        states = [st0]
        for p in [sub, live] + buf:
            states = [y for x in states for y in concretize(ex, x, Leaf("h", p.cell, p.path + (("f", 0),), "enum"))]
        codes, cty = self.codes(ex)
        self.CST = self.ty(ex, "CompletionState")
        for st in states:
            if any(self.entry(ex, st, p).tag != 0 for p in buf):
                continue          # nothing is left over in a private buffer between batches
            for p in buf:
                m = ex.load1(st, p)
                ex.store(st, p, Struct(m.ty, [m.fields[0], F], "kmap"))
            for p in (sub, live):
                e = self.entry(ex, st, p)
                if e.tag == 1:
                    self.map_value(ex, st, p, K, e.pay[1][0])
            self.sub, self.live, self.buf = sub, live, buf
            se, le = self.entry(ex, st, sub), self.entry(ex, st, live)
            want = self.flat(le)
            if se.tag == 1:
                cs = se.pay[1][0]
                if cs.tag == self.variant(self.CST, "InProgress"):
                    c = cs.pay[cs.tag][0]
                    want = (c.tag, c.pay[c.tag][0].term)
                else:
                    want = (None, None)
            st.note("K is %s, submitted: %s" % ("not in flight" if le.tag == 0 else "in flight as " + self.cname(ex, le.pay[1][0].tag),
                                                 se.tag == 1 and self.CST.variants[se.pay[1][0].tag]["name"]))
            self.want = want
            st.g.update(mon=None, first=T, done=F, pos=I(0))
            it = Struct(None, [I(0)], "batch")
            outs = ex.exec_fn(st, fn, [rp, it])
            for s, v in outs:
                self.finish(ex, s, v)

    def cname(self, ex, tag):
        return self.ty(ex, "Completion").variants[tag]["name"]

    def finish(self, ex, s, v):
        self.start_check(ex, s, "return")
        if s.g["mon"] is not None:
            self.settle(ex, s, "return")
        ex.oblige(s, ("C08",), "the whole batch is processed", s.g["done"], None)
        if isinstance(v, Enum):
            i = self.variant(v.ty, "Continue")
            ex.oblige(s, ("C08",), "responses never disconnect the client", B(v.tag == i) if isinstance(v.tag, int) else v.tag == i, None)
        for p in self.buf:
            m = ex.load1(s, p)
            e = m.fields[0]
            ex.oblige(s, ("C08", "C20"), "nothing is left over in a private buffer",
                      z3.And(B(e.tag == 0) if isinstance(e.tag, int) else e.tag == 0, z3.Not(m.fields[1])), None)

    # ------------------------------------------------------------ the batch iterator
    def start_check(self, ex, st, where):
        if not z3.is_true(st.g["first"]):
            return
        st.g["first"] = F
        got = self.flat(self.entry(ex, st, self.live)) if isinstance(self.entry(ex, st, self.live).tag, int) else "unknown"
        ex.oblige(st, ("C08", "C20"), "registered rpcs are found: K is in flight exactly as registered before the batch",
                  B(got != "unknown" and got[0] == self.want[0]) if got == "unknown" or got[1] is None or self.want[1] is None
                  else z3.And(B(got[0] == self.want[0]), got[1] == self.want[1]), where)

    def env2(self, ex, st, sn, tr, n, path, ref, crate, args, where):
        if tr == "IntoIterator" and n == "into_iter" and isinstance(args[0], Struct) and args[0].tag == "batch":
            return [(st, args[0])]
        if tr == "Iterator" and n == "next":
            p = args[0]
            v = ex.load1(st, p) if isinstance(p, Ptr) else None
            if isinstance(v, Struct) and v.tag == "batch":
                return self.next_message(ex, st, where)
        if tr == "Iterator" and n == "collect" and isinstance(args[0], Struct) and args[0].tag == "batch" \
                and any(w in crate.ty(ref["args"][-1]).s for w in ("Vec<", "VecDeque<")):
            # the same messages in the same order; all of them have to be processed in any case
            return [(st, args[0])]
        if n == "len" and "Vec" in path and isinstance(args[0], Ptr):
            v = ex.load1(st, args[0])
            if isinstance(v, Struct) and v.tag == "batch":
                k = fint("batch length")
                st.assume(z3.And(k >= 0, k < (1 << 63)))
                return [(st, k)]
        if tr == "Iterator" and n in ("for_each",) and isinstance(args[0], Struct) and args[0].tag == "batch":
            return self.for_each_message(ex, st, args[1], where)
        if tr == "UnregisteredMessageHandler" and n == "on_message":
            fs = [f for f in ex.prog.crates[CRATE].fns if f.body and f.name == "on_message" and "test" not in f.path
                  and (f.j.get("impl_trait") or "").split("::")[-1].split("<")[0] == "UnregisteredMessageHandler"]
            if len(fs) != 1:
                raise Unsupported("several handlers of unregistered messages")
            return ex.exec_fn(st, fs[0], args)
        if n == "send" and ("UnboundedSender" in path or ("mpsc" in path and "Sender" in path)) or n == "send" and "oneshot" in path:
            return self.send(ex, st, args, "oneshot" in path, where)
        if n == "is_closed" and "Sender" in path:
            return self.is_closed(ex, st, args[0])
        return None

    def is_closed(self, ex, st, tx):
        for _ in range(4):
            if isinstance(tx, Ptr):
                tx = ex.load1(st, tx)
        m = st.g.get("mon")
        if m is None or not isinstance(tx, Opq):
            return [(st, fbool("closed"))]
        out = [(st.fork(), F)]
        for s, yes in ex.split(st, OWNER(tx.term) == K):
            s = s.fork()
            s.note("the completion is gone")
            if yes:
                # nobody can be told about this response any more
                m1 = Batch()
                m1.__dict__.update(m.__dict__)
                m1.failed = True
                s.g["mon"] = m1
            out.append((s, T))
        return out

    def for_each_message(self, ex, st, f, where):
        cell = ex.alloc(st, f)

        def step(s):
            out = []
            for s1, x in self.next_message(ex, s, where):
                if x.tag == 0:
                    out.append(("exit", s1, None))
                else:
                    for s2, _ in ex.call_value(s1, cell, [x.pay[1][0]], where):
                        out.append(("back", s2))
            return out
        return [(o[1], unit()) for o in run_cut(ex, st, None, step, "for_each over the batch")]

    def next_message(self, ex, st, where):
        self.start_check(ex, st, where)
        if st.g["mon"] is not None:
            self.settle(ex, st, where)
        a, b = st.fork(), st.fork()
        a.g["done"] = T
        a.note("end of the batch")
        out = [(a, none())]
        t = fint("m")
        self.facts(ex, b, t)
        for s, yes in ex.split(b, MID(t) == K):
            s = s.fork()
            s.note("message for %s" % ("K" if yes else "another id"))
            e = self.entry(ex, s, self.live)
            if not isinstance(e.tag, int):
                raise Unsupported("entry at K is not concrete")
            self.map_value(ex, s, self.live, K, e.pay[1][0]) if e.tag == 1 else None
            m = Batch()
            m.t, m.isk, m.entry, m.sent, m.failed, m.bad = t, yes, self.flat(e), 0, False, None
            s.g["mon"] = m
            out.append((s, some(Opq("message", t))))
        return out

    def send(self, ex, st, args, oneshot, where):
        tx = args[0]
        for _ in range(4):
            if isinstance(tx, Ptr):
                tx = ex.load1(st, tx)
        val_ = args[1]
        if not isinstance(tx, Opq):
            raise Unsupported("sender %r" % (tx,))
        m = st.g.get("mon")
        if m is None:
            ex.oblige(st, ("C08",), "other messages are not affected: nothing is sent without a message", F, where)
            return []
        # what is sent is the message (for unary in Ok)
        good = F
        v = val_
        if oneshot:
            if isinstance(v, Enum) and v.tag == 0:
                v = v.pay[0][0]
            else:
                v = None
        if isinstance(v, Opq):
            good = v.term == m.t
        ex.oblige(st, ("C08",), "what is delivered is the unchanged response", good, where)
        codes, _ = self.codes(ex)
        ex.oblige(st, ("C08",), "a control message is not delivered", CODE(m.t) == codes["Normal"], where)
        ex.oblige(st, ("C08",), "a response goes to the rpc with its id and to no other", OWNER(tx.term) == MID(m.t), where)
        out = []
        for s, yes in ex.split(st, OWNER(tx.term) == K):
            for fail in (False, True):
                s1 = s.fork()
                m1 = Batch()
                m1.__dict__.update(m.__dict__)
                s1.g["mon"] = m1
                s1.note("send %s" % ("fails" if fail else "succeeds"))
                if yes:
                    m1.sent = m.sent + 1
                    m1.failed = m.failed or fail
                out.append((s1, err(Struct(None, [val_], "senderror") if not oneshot else val_) if fail else ok(unit())))
        return out

    def settle(self, ex, st, where):
        m = st.g["mon"]
        st.g["mon"] = None
        codes, _ = self.codes(ex)
        e = self.entry(ex, st, self.live)
        if not isinstance(e.tag, int):
            raise Unsupported("entry at K is not concrete")
        after = self.flat(e)
        same = B(after[0] == m.entry[0]) if after[1] is None or m.entry[1] is None else z3.And(B(after[0] == m.entry[0]), after[1] == m.entry[1])
        if not m.isk:
            ex.oblige(st, ("C08",), "other messages are not affected: a message for another id leaves K registered as it was", same, where)
            ex.oblige(st, ("C08",), "other messages are not affected: nothing is delivered to K for another id", B(m.sent == 0), where)
            return
        kind, _ = m.entry
        name = self.cname(ex, kind) if kind is not None else None
        for s, normal in ex.split(st, CODE(m.t) == codes["Normal"]):
            if not normal:
                ex.oblige(s, ("C08", "C20"), "a control message (end, cancel) completes the rpc", B(after[0] is None), where)
                ex.oblige(s, ("C08",), "a control message delivers no response", B(m.sent == 0), where)
            elif kind is None:
                ex.oblige(s, ("C08", "C20"), "a response without an rpc disturbs nothing", z3.And(same, B(m.sent == 0)), where)
            elif name == "Unary":
                ex.oblige(s, ("C08",), "a response goes to its unary rpc exactly once", B(m.sent == 1 or m.failed and m.sent == 0), where)
                ex.oblige(s, ("C08", "C20"), "a unary rpc is complete after its response", B(after[0] is None), where)
            else:
                ex.oblige(s, ("C08",), "a response goes to its streaming rpc exactly once", B(m.sent == 1 or m.failed and m.sent == 0), where)
                ex.oblige(s, ("C08",), "a streaming rpc stays registered", z3.Or(B(m.failed), same), where)


class Guarded(Rpc):
    """shared by the specifications in which a completion guard is dropped"""

    def on_insert(self, ex, st, p, key, v, where):
        st.g["inserts"] = simp(st.g["inserts"] + 1)

    def submission(self, ex, st, rp):
        ms = [(p, v) for p, v in self.objects(ex, st, rp, "kmap") if v.ty.args[1].last() == "CompletionState"]
        if not ms:
            raise Missing("no submission map")
        return ms[0][0]

    def channel_query(self, ex, st, n):
        """what a channel says about itself may be anything"""
        if n in ("capacity", "max_capacity", "len", "strong_count", "weak_count"):
            x = fint(n)
            st.assume(z3.And(x >= 0, x <= (1 << 61) - 1))
            return [(st, x)]
        if n in ("is_closed", "is_empty"):
            return [(st, fbool(n))]
        return None

    def outbound(self, ex, st, n, path, args, where):
        """the queue that cancels go to"""
        if "Permit" in path and n == "send":
            return [(s, unit()) for s, v in self.try_send(ex, st, args, where)[:1]]
        if "Sender" not in path:
            return None
        if n == "try_send":
            return self.try_send(ex, st, args, where)
        if n == "try_reserve":
            out = []
            for i, why in enumerate(("no room for the cancel", "the outbound queue is closed")):
                s = st.fork()
                s.note(why)
                s.g["noroom"] = T
                out.append((s, err(Enum(None, i, {i: (unit(),)}))))
            s = st.fork()
            s.note("there is room")
            return [(s, ok(Opq("Permit", I(0))))] + out
        r = self.channel_query(ex, st, n)
        if r is not None and n in ("is_closed", "capacity"):
            # nothing can be queued to a queue that is closed or full
            s, v = r[0]
            s.g["noroom"] = simp(z3.Or(s.g.get("noroom", F), v if n == "is_closed" else v == 0))
        return r

    def try_send(self, ex, st, args, where):
        t = self.mterm(ex, st, args[1])
        g = st.g
        g["queued"] = simp(g["queued"] + 1)
        codes, _ = self.codes(ex)
        good = z3.And(CODE(t) == codes["Cancel"], MID(t) == g["id"])
        ex.oblige(st, ("C10",), "what a dropped completion queues is a cancel with its own id", good, where)
        a, b = st.fork(), st.fork()
        a.note("the cancel is queued")
        b.note("no room for the cancel")
        c = st.fork()
        c.note("the outbound queue is closed")
        return [(a, ok(unit())), (b, err(Enum(None, 0, {0: (args[1],)}))), (c, err(Enum(None, 1, {1: (args[1],)})))]

    def dropped(self, ex, st, cp, observed, sub, before):
        """drop the completion at cp and check C10"""
        st = st.fork()
        st.g["queued"] = I(0)
        st.g["noroom"] = F
        st.note("the completion is dropped")
        v = ex.load1(st, cp)
        for s in ex.drop_value(st, v, cp):
            ex.oblige(s, ("C10",), "an unobserved rpc queues exactly one cancel when its completion is dropped",
                      z3.Or(observed, s.g["queued"] == 1, z3.And(s.g["queued"] == 0, s.g["noroom"])), None)
            ex.oblige(s, ("C10",), "an observed rpc queues no cancel when its completion is dropped",
                      z3.Or(z3.Not(observed), s.g["queued"] == 0), None)
            e = ex.load1(s, sub).fields[0]
            done = self.variant(self.ty(ex, "CompletionState"), "Done")
            d = F
            if isinstance(e.tag, int) and e.tag == 1:
                x = e.pay[1][0]
                d = B(x.tag == done) if isinstance(x.tag, int) else x.tag == done
            from loops import same
            ex.oblige(s, ("C10", "C20"), "a dropped completion withdraws its rpc from the registry", z3.Implies(s.g["id"] == K, d), None)
            ex.oblige(s, ("C10",), "dropping a completion affects no other rpc", z3.Or(s.g["id"] == K, B(same(e, before))), None)


class Streaming(Guarded):
    """C09, C10: loop { poll the streaming completion } and drop it after any number of polls"""
    name = "streaming completion"
    props = ("C09", "C10")
    needs = {"C09": ("responses are yielded", "the stream finishes", "the stream ends", "a pending"),
             "C10": ("an unobserved rpc", "an observed rpc", "a dropped completion", "dropping a completion", "what a dropped"),
             "C20": ("a dropped completion",)}

    def assumptions(self):
        return [
            "tokio UnboundedReceiver: poll_recv_many appends the queued messages in order, returns 0 only when closed and empty, and registers the task when it returns Pending",
            "tokio Sender::try_send queues the message or fails without effect",
        ]

    cats = {"recvd": "src%d" % SRC_RESP, "yielded": "src%d" % SRC_RESP}

    def fresh_adt(self, ex, st, ty, hint):
        return None

    def run(self, ex):
        cty = self.ty(ex, "StreamingCompletion")
        gty = self.ty(ex, "CompletionGuard")
        poll = self.find_impl(ex, CRATE, "Stream", "poll_next", "StreamingCompletion")
        new = self.find(ex, CRATE, name="new", impl_self="StreamingCompletion")
        st0 = St()
        st0.assume(z3.And(K >= 0, K <= U64))
        gv = ex.fresh(st0, gty, "guard")
        st0.g.update(mon=None, recvd=I(0), yielded=I(0), fin=F, chclosed=F, reg=F, woken=F, queued=I(0), inserts=I(0))
        self.guard_id(ex, st0, gv)
        rxty = cty.field_tys()[self.rx_field(cty)]
        rx = Opq(rxty, fint("rx"))
        for st, c in ex.exec_fn(st0, new, [rx, gv]):
            cp = ex.alloc(st, c)
            sub = self.submission(ex, st, cp)
            before = ex.load1(st, sub).fields[0]
            cx = ex.alloc(st, Opq("Context", I(0)))

            def step(s):
                self.dropped(ex, s, cp, s.g["fin"], sub, before)
                s = s.fork()
                s.g["reg"] = F
                s.g["woken"] = F
                out = []
                for s1, v in ex.exec_fn(s, poll, [Struct(None, [cp], "pin"), cx]):
                    out.extend(self.result(ex, s1, v))
                return [("back", x) for x in out]
            run_cut(ex, st, None, step, "between polls of a streaming completion")

    def rx_field(self, cty):
        for i, t in enumerate(cty.field_tys()):
            if t.k == "adt" and t.last() == "UnboundedReceiver":
                return i
        raise Missing("no receiver in the streaming completion")

    def guard_id(self, ex, st, gv):
        f = self.fields(gv)
        st.g["id"] = f["message_id"] if "message_id" in f else next(x for x in gv.fields if is_int(x))
        for n, x in f.items():
            if is_bool(x):
                st.assume(z3.Not(x))     # as register_completion leaves it (checked in Client)

    def env2(self, ex, st, sn, tr, n, path, ref, crate, args, where):
        if "UnboundedReceiver" in path:
            if n == "poll_recv_many":
                return self.recv_many(ex, st, args, where)
            if n == "poll_recv":
                return self.recv(ex, st, args, where)
            r = self.channel_query(ex, st, n)
            if r is not None:
                return r
            raise Unsupported("UnboundedReceiver::" + n)
        return self.outbound(ex, st, n, path, args, where)

    def recv_many(self, ex, st, args, where):
        p, v = ex.lib.seq(ex, st, args[2])
        lim = args[3]
        g = st.g
        out = []
        s = st.fork()
        s.assume(z3.And(z3.Not(g["chclosed"]), lim > 0))
        if ex.feasible(s):
            n = fint("count")
            s.assume(z3.And(n >= 1, n <= lim))
            r = g["recvd"]
            ex.store(s, p, ex.lib.append(ex, s, v, n, [(I(0), n, Stream(I(SRC_RESP), r))]))
            s.g["recvd"] = simp(r + n)
            s.note("received responses")
            out.append((s, ready(n)))
            s = st.fork()
            s.assume(z3.And(z3.Not(g["chclosed"]), lim > 0))
            s.g["reg"] = T
            s.note("no response yet, registered")
            out.append((s, pending()))
        s = st.fork()
        s.assume(lim > 0)
        s.g["chclosed"] = T
        s.note("channel closed")
        out.append((s, ready(I(0))))
        if ex.feasible(st, lim == 0):
            s = st.fork()
            s.assume(lim == 0)
            out.append((s, ready(I(0))))
        return out

    def recv(self, ex, st, args, where):
        g = st.g
        out = []
        s = st.fork()
        s.assume(z3.Not(g["chclosed"]))
        if ex.feasible(s):
            r = g["recvd"]
            s.g["recvd"] = simp(r + 1)
            out.append((s, ready(some(Opq("message", MSG(I(SRC_RESP), r))))))
            s = st.fork()
            s.assume(z3.Not(g["chclosed"]))
            s.g["reg"] = T
            out.append((s, pending()))
        s = st.fork()
        s.g["chclosed"] = T
        out.append((s, ready(none())))
        return out

    def result(self, ex, st, v):
        """[states] after checking one result of poll_next"""
        out = []
        P = ("C09",)
        for s, i, pay in ex.lib.cases(ex, st, v):
            g = s.g
            if i == 1:
                ex.oblige(s, P, "a pending stream is registered (or woken) and nothing is withheld",
                          z3.And(z3.Or(g["reg"], g["woken"]), g["yielded"] == g["recvd"], z3.Not(g["fin"]), z3.Not(g["chclosed"])), None)
                out.append(s)
                continue
            for s2, j, pay2 in ex.lib.cases(ex, s, pay[0]):
                g = s2.g
                if j == 0:
                    ex.oblige(s2, P, "the stream ends only after it was finished", g["fin"], None)
                    out.append(s2)
                    continue
                for s3, k, pay3 in ex.lib.cases(ex, s2, pay2[0]):
                    g = s3.g
                    if k == 0:
                        ex.oblige(s3, P, "responses are yielded in order, each once, before the end",
                                  z3.And(pay3[0].term == MSG(I(SRC_RESP), g["yielded"]), g["yielded"] < g["recvd"], z3.Not(g["fin"]))
                                  if isinstance(pay3[0], Opq) else F, None)
                        s3.g["yielded"] = simp(g["yielded"] + 1)
                    else:
                        ex.oblige(s3, P, "the stream finishes once, when closed, after every response",
                                  z3.And(self.is_error(ex, pay3[0], "Finished"), g["yielded"] == g["recvd"], g["chclosed"], z3.Not(g["fin"])), None)
                        s3.g["fin"] = T
                    out.append(s3)
        return out

    # inference
    def atoms(self, ex, st):
        g = st.g
        return {"fin": g["fin"], "chclosed": g["chclosed"]}


class Unary(Guarded):
    """C09, C10: the unary completion"""
    name = "unary completion"
    props = ("C09", "C10")
    needs = {"C09": ("a unary rpc resolves", "a pending unary"),
             "C10": ("an unobserved rpc", "an observed rpc", "a dropped completion", "dropping a completion", "what a dropped"),
             "C20": ("a dropped completion",)}

    def assumptions(self):
        return ["tokio oneshot Receiver: resolves with the sent value, or with an error when the sender was dropped, and registers the task when it returns Pending"]

    def run(self, ex):
        cty = self.ty(ex, "UnaryCompletion")
        poll = self.find_impl(ex, CRATE, "Future", "poll", "UnaryCompletion")
        new = self.find(ex, CRATE, name="new", impl_self="UnaryCompletion")
        gty = self.ty(ex, "CompletionGuard")
        st0 = St()
        st0.assume(z3.And(K >= 0, K <= U64))
        gv = ex.fresh(st0, gty, "guard")
        st0.g.update(mon=None, reg=F, woken=F, queued=I(0), inserts=I(0), fin=F)
        Streaming.guard_id(self, ex, st0, gv)
        rxty = next((t for t in cty.field_tys() if t.k == "adt" and t.last() == "Receiver"), None)
        if rxty is None:
            raise Missing("no receiver in the unary completion")
        self.t = fint("response")
        for st, c in ex.exec_fn(st0, new, [Opq(rxty, fint("rx")), gv]):
            cp = ex.alloc(st, c)
            sub = self.submission(ex, st, cp)
            before = ex.load1(st, sub).fields[0]
            cx = ex.alloc(st, Opq("Context", I(0)))

            def step(s):
                self.dropped(ex, s, cp, s.g["fin"], sub, before)
                s = s.fork()
                s.g["reg"] = F
                s.g["woken"] = F
                s.g["got"] = I(0)
                out = []
                for s1, v in ex.exec_fn(s, poll, [Struct(None, [cp], "pin"), cx]):
                    out.extend(self.result(ex, s1, v, cp, sub, before))
                return [("back", x) for x in out]
            st.g["got"] = I(0)
            run_cut(ex, st, None, step, "between polls of a unary completion")

    def env2(self, ex, st, sn, tr, n, path, ref, crate, args, where):
        if "oneshot" in path and n == "try_recv":
            raise Unsupported("try_recv")
        if "mpsc" in path:
            return self.outbound(ex, st, n, path, args, where)
        return None

    def poll_future(self, ex, st, p, v, cx, where):
        if not (hasattr(v.ty, "last") and v.ty.last() == "Receiver"):
            return None
        outs = []
        for got, r in ((1, lambda s: ready(ok(ok(Opq("message", self.t))))), (2, lambda s: ready(err(Opq("RecvError", I(0)))))):
            s = st.fork()
            s.g["got"] = I(got)
            s.note("the response arrived" if got == 1 else "the sender was dropped")
            outs.append((s, r(s)))
        s = st.fork()
        ety = self.ty(ex, "Error")
        ev = ex.fresh(s, ety, "e")
        s.g["got"] = I(3)
        s.note("an error arrived")
        self.ev = ev
        outs.append((s, ready(ok(err(ev)))))
        s = st.fork()
        s.g["reg"] = T
        s.note("nothing yet, registered")
        outs.append((s, pending()))
        return outs

    def result(self, ex, st, v, cp, sub, before):
        out = []
        P = ("C09",)
        for s, i, pay in ex.lib.cases(ex, st, v):
            g = s.g
            if i == 1:
                ex.oblige(s, P, "a pending unary rpc is registered (or woken)", z3.And(z3.Or(g["reg"], g["woken"]), g["got"] == 0), None)
                out.append(s)
                continue
            for s2, k, pay2 in ex.lib.cases(ex, s, pay[0]):
                g = s2.g
                if k == 0:
                    good = z3.And(g["got"] == 1, pay2[0].term == self.t) if isinstance(pay2[0], Opq) else F
                    ex.oblige(s2, P, "a unary rpc resolves with its response", good, None)
                else:
                    ex.oblige(s2, P, "a unary rpc resolves as cancelled when it was closed without a response",
                              z3.Or(z3.And(g["got"] == 2, self.is_error(ex, pay2[0], "CancelledRemotely")), g["got"] == 3), None)
                # resolved: may be dropped, is not polled again
                s2.g["fin"] = T
                self.dropped(ex, s2, cp, T, sub, before)
        return out


class Client(Guarded):
    """C11: send_unary and send_streaming, also when their future is dropped before it is done"""
    name = "rpc client"
    props = ("C11", "C12")
    needs = {"C12": ("registered before",),
             "C11": ("registered before", "the request is queued", "a failed send", "the returned completion", "a dropped send", "another rpc"),
             "C20": ("a dropped send", "a failed send")}

    def assumptions(self):
        return [
            "tokio mpsc Sender::send queues the message when it resolves with Ok, and never queues it when it fails or is dropped while pending; it fails once the receiver is gone",
            "is_alive is false only after the receiver of the outbound queue is gone (checked in Ending)",
            "an id is not registered again while an rpc with it is outstanding",
            "an await is collapsed to its outcomes (done, or dropped while pending); what other tasks do meanwhile is covered by the registry's lock",
        ]

    def run(self, ex):
        cty = self.ty(ex, "RpcClient")
        for name, kind in (("send_unary", "Unary"), ("send_streaming", "RemoteStreaming")):
            fns = [f for f in ex.prog.crates[CRATE].fns if f.body and f.name == name and f.j.get("impl_self") == "RpcClient"]
            if not fns:
                raise Missing("no RpcClient::" + name)
            for same_id in (True, False):
                self.one(ex, fns[0], kind, cty, same_id)

    def one(self, ex, fn, kind, cty, same_id):
        st = St()
        st.assume(z3.And(K >= 0, K <= U64))
        st.note("%s, %s" % (fn.name, "id K" if same_id else "another id"))
        cp = ex.alloc(st, ex.fresh(st, cty, "client"))
        sub = self.submission(ex, st, cp)
        alive = self.objects(ex, st, cp, "atomic")
        if len(alive) != 1:
            raise Missing("no alive flag in the client")
        t = fint("request")
        self.facts(ex, st, t)
        st.assume(MID(t) == K if same_id else MID(t) != K)
        self.kind, self.t, self.sub, self.alive, self.same_id = kind, t, sub, alive[0][0], same_id
        from loops import concretize, Leaf
        for s in concretize(ex, st, Leaf("h", sub.cell, sub.path + (("f", 0),), "enum")):
            e = ex.load1(s, sub).fields[0]
            if same_id and e.tag == 1 and e.pay[1][0].tag == self.variant(self.ty(ex, "CompletionState"), "InProgress"):
                continue
            self.before = e
            s.g.update(mon=None, queued=I(0), cancels=I(0), inserts=I(0), sendfail=F, id=MID(t), reg=F, woken=F,
                       chan=I(-1), dropping=F, open=F)
            for s1, fut in ex.exec_fn(s, fn, [cp, Opq("message", t)]):
                fp = ex.alloc(s1, fut)
                cx = ex.alloc(s1, Opq("Context", I(0)))
                v = ex.load1(s1, fp)
                if not (isinstance(v, Struct) and v.ty is not None and v.ty.k == "coroutine"):
                    raise Unsupported("not an async fn")
                for s2, r in ex.lib.poll_coroutine(ex, s1, fp, v, cx, None):
                    self.result(ex, s2, r)

    def env2(self, ex, st, sn, tr, n, path, ref, crate, args, where):
        if n in ("channel", "unbounded_channel") and ("mpsc" in path or "oneshot" in path):
            t = fint("channel")
            st.assume(OWNER(t) == MID(self.t))
            return [(st, Struct(None, [Opq("Sender", t), Opq("Receiver", t)], "tuple"))]
        if n == "send" and "Sender" in path:
            return [(st, Struct(None, [args[0], args[1]], "sendfut"))]
        if n == "try_send" and "Sender" in path:
            return self.try_send(ex, st, args, where)
        if n == "is_closed" and "Sender" in path:
            c = fbool("closed")
            st.assume(z3.Implies(z3.Not(ex.load1(st, self.alive).fields[0]), c))
            self.seen_open(ex, st, z3.Not(c))
            # a closed queue is a closed connection: a reason to fail
            st.g["sendfail"] = simp(z3.Or(st.g["sendfail"], c))
            return [(st, c)]
        if n == "reserve" and "Sender" in path:
            return [(st, Struct(None, [args[0]], "reservefut"))]
        if n == "try_reserve" and "Sender" in path:
            out = []
            for i, why in enumerate(("full", "closed")):
                s = st.fork()
                s.note("the outbound queue is " + why)
                if why == "closed":
                    s.g["sendfail"] = T
                out.append((s, err(Enum(None, i, {i: (unit(),)}))))
            s = st.fork()
            s.note("there is room")
            self.seen_open(ex, s, T)
            return [(s, ok(Opq("Permit", I(0))))] + out
        if n == "send" and "Permit" in path:
            t = self.mterm(ex, st, args[1])
            if not z3.is_true(simp(t == self.t)):
                codes, _ = self.codes(ex)
                ex.oblige(st, ("C11",), "the request is queued unchanged (other than it only its own cancel)",
                          z3.And(MID(t) == MID(self.t), CODE(t) == codes["Cancel"]), where)
                st.g["cancels"] = simp(st.g["cancels"] + 1)
                return [(st, unit())]
            if self.same_id:
                ex.oblige(st, ("C11", "C12"), "registered before the connection was last seen open (a permit outlives the connection)", st.g["open"], where)
            self.queue(ex, st, t, where)
            return [(st, unit())]
        if "Sender" in path and n in ("capacity", "max_capacity", "strong_count"):
            x = fint(n)
            st.assume(z3.And(x >= 0, x <= (1 << 61) - 1))
            return [(st, x)]
        if tr == "Future" and n == "poll":
            p = args[0]
            for _ in range(6):
                if isinstance(p, Struct) and p.tag in ("sendfut", "reservefut"):
                    break
                p = p.fields[0] if isinstance(p, Struct) and len(p.fields) == 1 else ex.load1(st, p) if isinstance(p, Ptr) else None
            if isinstance(p, Struct) and p.tag == "reservefut":
                a, b, c = (self.drift(ex, st.fork()) for _ in range(3))
                a.note("there is room")
                self.seen_open(ex, a, T)
                b.note("the outbound queue is closed")
                b.g["sendfail"] = T
                c.note("no room, the future is dropped")
                c.g["dropping"] = T
                return [(a, ready(ok(Opq("Permit", I(0))))), (b, ready(err(Struct(None, [unit()], "senderror")))), (c, pending())]
            if isinstance(p, Struct) and p.tag == "sendfut":
                return self.poll_send(ex, st, p, where)
        return None

    def seen_open(self, ex, st, cond):
        """if cond, the connection has not ended yet: it will resolve what is registered by now"""
        if self.same_id:
            st.g["open"] = simp(z3.Or(st.g["open"], z3.And(cond, self.registered(ex, st))))

    def on_load(self, ex, st, p, v):
        if "open" in st.g and p.cell == self.alive.cell:
            self.seen_open(ex, st, v)

    def drift(self, ex, st):
        """the connection may end at any time"""
        v = ex.load1(st, self.alive)
        now = fbool("alive")
        st.assume(z3.Implies(now, v.fields[0]))
        ex.store(st, self.alive, Struct(v.ty, [now], v.tag))
        return st

    def poll_send(self, ex, st, fut, where):
        return [(self.drift(ex, s), v) for s, v in self.poll_send1(ex, self.drift(ex, st), fut, where)]

    def poll_send1(self, ex, st, fut, where):
        out = []
        flag = ex.load1(st, self.alive).fields[0]
        t = self.mterm(ex, st, fut.fields[1])
        if ex.feasible(st, flag):
            s = st.fork()
            s.assume(flag)
            s.note("the message is queued")
            self.queue(ex, s, t, where)
            out.append((s, ready(ok(unit()))))
        s = st.fork()
        s.note("the outbound queue is closed")
        s.g["sendfail"] = T
        out.append((s, ready(err(Struct(None, [fut.fields[1]], "senderror")))))
        s = st.fork()
        s.note("the send is pending, its future is dropped")
        s.g["dropping"] = T
        out.append((s, pending()))
        return out

    def queue(self, ex, st, t, where):
        P = ("C11",)
        ex.oblige(st, P, "the request is queued unchanged", t == self.t, where)
        st.g["queued"] = simp(st.g["queued"] + 1)
        ex.oblige(st, P, "the request is queued at most once", st.g["queued"] <= 1, where)
        if self.same_id:
            ex.oblige(st, P + ("C12",), "registered before the request is queued", self.registered(ex, st), where)

    def try_send(self, ex, st, args, where):
        """a cancel for the request, or the request itself"""
        t = self.mterm(ex, st, args[1])
        flag = ex.load1(st, self.alive).fields[0]
        out = []
        codes, _ = self.codes(ex)
        isreq = z3.is_true(simp(t == self.t))      # a message that is made is not the request
        for s in (st,):
            if ex.feasible(s, flag):
                s1 = s.fork()
                s1.assume(flag)
                if isreq:
                    self.queue(ex, s1, t, where)
                else:
                    ex.oblige(s1, ("C11",), "the request is queued unchanged (other than it only its own cancel)",
                              z3.And(MID(t) == MID(self.t), CODE(t) == codes["Cancel"]), where)
                    s1.g["cancels"] = simp(s1.g["cancels"] + 1)
                out.append((s1, ok(unit())))
            for i, why in enumerate(("full", "closed")):
                s1 = s.fork()
                s1.note("the outbound queue is " + why)
                if isreq and why == "closed":
                    s1.g["sendfail"] = T
                out.append((s1, err(Enum(None, i, {i: (args[1],)}))))
        return out

    def registered(self, ex, st):
        e = ex.load1(st, self.sub).fields[0]
        if not isinstance(e.tag, int):
            raise Unsupported("entry at K is not concrete")
        if e.tag == 0:
            return F
        cs = e.pay[1][0]
        if cs.tag != self.variant(self.ty(ex, "CompletionState"), "InProgress"):
            return F
        c = cs.pay[cs.tag][0]
        if c.tag != self.variant(self.ty(ex, "Completion"), self.kind):
            return F
        return OWNER(c.pay[c.tag][0].term) == K

    def sender(self, ex, st):
        e = ex.load1(st, self.sub).fields[0]
        cs = e.pay[1][0]
        c = cs.pay[cs.tag][0]
        return c.pay[c.tag][0].term

    def result(self, ex, st, v):
        from loops import same
        P = ("C11",)
        e = ex.load1(st, self.sub).fields[0]
        if not self.same_id:
            ex.oblige(st, P, "another rpc is not affected", B(same(e, self.before)), None)
        gone = B(e.tag == 0 or e.pay[1][0].tag == self.variant(self.ty(ex, "CompletionState"), "Done"))
        for s, i, pay in ex.lib.cases(ex, st, v):
            if i == 1:
                ex.oblige(s, P, "a dropped send is not queued", s.g["queued"] == 0, None)
                if self.same_id:
                    ex.oblige(s, P + ("C20",), "a dropped send leaves no rpc registered", gone, None)
                continue
            for s2, k, pay2 in ex.lib.cases(ex, s, pay[0]):
                g = s2.g
                if k == 1:
                    ex.oblige(s2, P, "a failed send reports that the connection is closed", self.is_error(ex, pay2[0], "ConnectionIsClosed"), None)
                    ex.oblige(s2, P, "a failed send is not queued", g["queued"] == 0, None)
                    ex.oblige(s2, P, "a failed send has a reason", z3.Or(g["sendfail"], z3.Not(ex.load1(s2, self.alive).fields[0])), None)
                    if self.same_id:
                        ex.oblige(s2, P + ("C20",), "a failed send leaves no rpc registered", gone, None)
                    continue
                ex.oblige(s2, P, "the request is queued exactly once when the send succeeds", z3.And(g["queued"] == 1, g["cancels"] == 0), None)
                c = pay2[0]
                rp = ex.alloc(s2, c)
                guards, rxs = [], []

                def rec(v):
                    if isinstance(v, Struct):
                        if v.ty is not None and v.ty.k == "adt" and v.ty.last() == "CompletionGuard":
                            guards.append(v)
                        elif v.tag != "arc":
                            for x in v.fields:
                                rec(x)
                    elif isinstance(v, Opq) and v.ty == "Receiver":
                        rxs.append(v)
                    elif isinstance(v, Enum) and isinstance(v.tag, int):
                        for x in v.pay.get(v.tag, ()):
                            rec(x)
                rec(c)
                if len(guards) != 1 or len(rxs) != 1:
                    raise Missing("the completion has no guard and receiver")
                f = self.fields(guards[0])
                ints = [x for x in f.values() if is_int(x)]
                bools = [x for x in f.values() if is_bool(x)]
                ex.oblige(s2, P, "the returned completion is for the request", z3.And(*[x == MID(self.t) for x in ints]), None)
                ex.oblige(s2, P, "the returned completion is open", z3.And(*[z3.Not(x) for x in bools]) if bools else T, None)
                if self.same_id:
                    ex.oblige(s2, P, "the returned completion is connected to the registered rpc",
                              z3.And(self.registered(ex, s2), self.sender(ex, s2) == rxs[0].term)
                              if not z3.is_false(self.registered(ex, s2)) else F, None)
                    gs = self.objects(ex, s2, rp, "kmap")
                    ex.oblige(s2, P, "the returned completion withdraws from the registry it is registered in",
                              B(bool(gs) and all(p.cell == self.sub.cell for p, _ in gs)), None)


class Ending(Rpc):
    """C12: what the end of a connection does to the rpcs of its client"""
    name = "end of an rpc client's connection"
    props = ("C12",)
    needs = {"C12": ("an ended connection", "every rpc", "a new client", "the outbound queue", "is_alive")}

    def assumptions(self):
        return ["the receiver of a tokio channel resolves when the last sender is dropped; dropping a Receiver closes the channel",
                "a value is dropped by running its Drop implementation and then dropping its fields in declaration order"]

    def run(self, ex):
        self.new_client(ex)
        self.flag(ex)
        self.death(ex)
        self.order(ex)

    def new_client(self, ex):
        st = St()
        st.assume(z3.And(K >= 0, K <= U64))
        rnew = self.find(ex, CRATE, name="new", impl_self="RpcCompletionReactor")
        cnew = self.find(ex, CRATE, name="new", impl_self="RpcClient")
        for s, r in ex.exec_fn(st, rnew, [Opq("handler", I(0))]):
            rp = ex.alloc(s, r)
            for s1, c in ex.exec_fn(s, cnew, [Opq("Sender", fint("q")), rp]):
                cp = ex.alloc(s1, c)
                a, b = self.objects(ex, s1, rp, "atomic"), self.objects(ex, s1, cp, "atomic")
                if len(a) != 1 or len(b) != 1:
                    raise Missing("no alive flag")
                ex.oblige(s1, self.props, "a new client shares the alive flag of its connection", B(a[0][0].cell == b[0][0].cell), None)
                ex.oblige(s1, self.props, "a new client is alive", a[0][1].fields[0], None)
                ms = [(p, v) for p, v in self.objects(ex, s1, rp, "kmap")]
                locked = [p.cell for p, _ in self.objects(ex, s1, rp, "mutex")]
                mc = [p for p, v in self.objects(ex, s1, cp, "kmap") if v.ty.args[1].last() == "CompletionState"]
                ex.oblige(s1, self.props, "a new client registers its rpcs with its connection",
                          B(len(mc) == 1 and any(p.cell == mc[0].cell and p.cell in locked for p, _ in ms)), None)
                ex.oblige(s1, self.props, "a new client has no rpcs",
                          B(all(v.fields[0].tag == 0 and z3.is_false(v.fields[1]) for _, v in ms)), None)

    def flag(self, ex):
        f = self.find(ex, CRATE, name="is_alive", impl_self="RpcClient")
        st = St()
        cp = ex.alloc(st, ex.fresh(st, self.ty(ex, "RpcClient"), "client"))
        a = self.objects(ex, st, cp, "atomic")
        if len(a) != 1:
            raise Missing("no alive flag")
        for s, v in ex.exec_fn(st, f, [cp]):
            ex.oblige(s, self.props, "is_alive returns the flag", v == a[0][1].fields[0], None)

    def death(self, ex):
        st = St()
        st.assume(z3.And(K >= 0, K <= U64))
        rp = ex.alloc(st, ex.fresh(st, self.ty(ex, "RpcCompletionReactor"), "reactor"))
        a = self.objects(ex, st, rp, "atomic")
        maps = self.objects(ex, st, rp, "kmap")
        shared = [p for p, _ in self.objects(ex, st, rp, "mutex")]
        from loops import concretize, Leaf
        states = [st]
        for p, _ in maps:
            states = [y for x in states for y in concretize(ex, x, Leaf("h", p.cell, p.path + (("f", 0),), "enum"))]
        self.mode = "death"
        inp = self.variant(self.ty(ex, "CompletionState"), "InProgress")
        for s in states:
            want = []
            for p, _ in maps:
                e = ex.load1(s, p).fields[0]
                if e.tag == 1:
                    v = e.pay[1][0]
                    if v.ty.last() == "CompletionState":
                        if v.tag != inp:
                            continue
                        v = v.pay[inp][0]
                    want.append(v.pay[v.tag][0].term)
            s.g.update(mon=None, gone=())
            s.note("connection with %d rpc registered under K" % len(want))
            for s1 in ex.drop_value(s, ex.load1(s, rp), rp):
                ex.oblige(s1, self.props, "an ended connection is not alive", z3.Not(ex.load1(s1, a[0][0]).fields[0]), None)
                gone = s1.g["gone"]
                ex.oblige(s1, self.props, "every rpc is resolved when the connection ends: its sender is dropped",
                          B(all(any(t.eq(u) for u in gone) for t in want)), None)
        self.mode = None

    def order(self, ex):
        try:
            cty = self.ty(ex, "Connection", "protosocket")
        except Missing:
            raise
        st = St()
        cp = ex.alloc(st, ex.fresh(st, cty, "connection"))
        names = list(cty.field_names())
        v = ex.load1(st, cp)
        rx, re = None, None

        def look(v, tys):
            nonlocal rx, re
            for x, t in zip(v.fields, tys):
                if isinstance(x, Opq):
                    if t.k == "adt" and t.last() == "Receiver":
                        rx = x.term
                    elif t.k != "adt" and "Reactor" in t.s:
                        re = x.term
                elif isinstance(x, Struct) and x.ty is not None and x.ty.k == "adt" and x.tag is None:
                    try:
                        look(x, x.ty.field_tys())
                    except (AttributeError, KeyError):
                        pass
        look(v, cty.field_tys())
        if rx is None or re is None:
            raise Missing("no receiver and reactor in the connection")
        self.mode = "order"
        st.g.update(mon=None, gone=())
        for s in ex.drop_value(st, v, cp):
            gone = list(s.g["gone"])
            a = next((i for i, t in enumerate(gone) if t.eq(rx)), None)
            b = next((i for i, t in enumerate(gone) if t.eq(re)), None)
            ex.oblige(s, self.props, "the outbound queue is closed before the reactor is dropped", B(a is not None and b is not None and a < b), None)
        self.mode = None

    mode = None

    def drop_hook(self, ex, v):
        return self.mode is not None and isinstance(v, Opq)

    def on_drop(self, ex, st, v):
        if self.mode is None or not isinstance(v, Opq):
            return None
        st = st.fork()
        st.g["gone"] = st.g["gone"] + (v.term,)
        return [st]
