"""C17: how servers and clients set connections up.

The limits are located by the setters that users call: `set_…(x)` must change exactly one field,
to x.  Every accepted connection is followed by a monitor that is created when the listener
yields it and settled at the end of the loop's iteration.
"""
import z3

from spec_rpc import *
from spec_server import Mon
from core import St, DROPPED

SERVER, PROST = "protosocket_server", "protosocket_prost"
LIM = (1 << 62)


def terms(v, out=None):
    """terms of the opaque values in a value (not through Arcs)"""
    out = [] if out is None else out
    if isinstance(v, Opq):
        out.append(v.term)
    elif isinstance(v, Struct):
        if v.tag != "arc":
            for x in v.fields:
                terms(x, out)
    elif isinstance(v, Enum) and isinstance(v.tag, int):
        for x in v.pay.get(v.tag, ()):
            terms(x, out)
    return out


def has(v, t):
    return any(t.eq(x) for x in terms(v))


class Setup(Rpc):
    props = ("C17",)

    def assumptions(self):
        return ["tokio TcpListener::poll_accept yields a connection, an error, or Pending having registered the task; TcpStream::connect and TcpListener::bind resolve with a socket or an error",
                "tokio::spawn and Handle::spawn run the future",
                "mpsc::channel(n) makes a channel of its own with room for n messages",
                "the service or connector returns a value of its own from each call of its factory methods"]

    # ------------------------------------------------------------ limits
    def setters(self, ex, crate, tname, pairs):
        """{which: field index}"""
        ty = self.ty(ex, tname, crate)
        out = {}
        for which, name in pairs:
            fn = self.find(ex, crate, name=name, impl_self=tname)
            st = St()
            st.g.update(mon=None)
            p = ex.alloc(st, ex.fresh(st, ty, "holder"))
            before = ex.load1(st, p)
            x = fint("x")
            st.assume(z3.And(x >= 1, x <= LIM))
            for s, _ in ex.exec_fn(st, fn, [p, x]):
                after = ex.load1(s, p)
                ints = [i for i, v in enumerate(before.fields) if is_int(v)]
                ch = [i for i in ints if not before.fields[i].eq(after.fields[i])]
                ex.oblige(s, self.props, "%s::%s sets one limit" % (tname, name), B(len(ch) == 1), None)
                if len(ch) != 1:
                    raise Missing("the limit of " + name)
                ex.oblige(s, self.props, "%s::%s sets the limit it is given" % (tname, name), after.fields[ch[0]] == x, None)
                out[which] = ch[0]
        ex.oblige(St(), self.props, "%s: the limits are set separately" % tname, B(len(set(out.values())) == len(pairs)), None)
        return ty, out

    def limits(self, ex, st, v, idx):
        mb, mq = v.fields[idx["buffer"]], v.fields[idx["queue"]]
        st.assume(z3.And(mb >= 1, mb <= LIM, mq >= 1, mq <= LIM))
        return mb, mq

    # ------------------------------------------------------------ environment shared by all
    def call_fn(self, ex, st, f, args, where):
        if f.name == "new" and f.j.get("impl_self") == "Connection" and f.path.split("::")[0] == "connection":
            m = {}
            for i in range(1, f.argc + 1):
                t, n, a = f.local_ty(i), f.local_name(i) or "", args[i - 1]
                if t.k == "int":
                    k = "maxq" if "queue" in n or "send" in n else "maxb" if "buffer" in n or "max" in n else None
                elif t.k == "adt":
                    k = {"TcpStream": "stream", "SocketAddr": "address", "Receiver": "rx"}.get(t.last())
                else:
                    k = next((w for w in ("Deserializer", "Serializer", "Reactor") if w in t.s), None)
                if k is None or k in m:
                    raise Unsupported("parameter %s of Connection::new" % n)
                m[k] = a
            if len(m) != 8:
                raise Unsupported("Connection::new")
            st.note("Connection::new")
            return [(st, Struct(None, [m[k] for k in sorted(m)], "connection"))]
        return None

    def conn(self, v):
        if isinstance(v, Struct) and v.tag == "connection":
            return dict(zip(sorted(("maxq", "maxb", "stream", "address", "rx", "Deserializer", "Serializer", "Reactor")), v.fields))
        return None

    def is_server(self, v):
        return isinstance(v, Struct) and v.ty is not None and v.ty.k == "adt" and v.ty.last() == "RpcConnectionServer"

    def env2(self, ex, st, sn, tr, n, path, ref, crate, args, where):
        g = st.g
        if tr == "Future" and n == "poll":
            r = self.poll_member(ex, st, args)
            if r is not None:
                return r
        if "TcpListener" in path:
            if n == "poll_accept":
                return self.accept(ex, st, where)
            if n == "bind":
                return [(st, Opq("bind", I(0)))]
            raise Unsupported("TcpListener::" + n)
        if "TcpStream" in path:
            if n == "connect":
                g["addr"] = terms(args[0])[0] if terms(args[0]) else I(-1)
                return [(st, Opq("connect", I(0)))]
            if n == "set_nodelay":
                a, b = st.fork(), st.fork()
                b.note("set_nodelay fails")
                b.g["setfail"] = T
                return [(a, ok(unit())), (b, err(Opq("io::Error", fint("e"))))]
            if n in ("peer_addr", "local_addr", "nodelay", "ttl"):
                a, b = st.fork(), st.fork()
                v = Opq("SocketAddr", fint("address")) if n.endswith("addr") else fbool("nodelay") if n == "nodelay" else fint("ttl")
                return [(a, ok(v)), (b, err(Opq("io::Error", fint("e"))))]
            raise Unsupported("TcpStream::" + n)
        if n in ("channel", "unbounded_channel") and "mpsc" in path:
            t = fint("chan")
            g["chans"] = g["chans"] + ((t, args[0] if n == "channel" else None),)
            return [(st, Struct(None, [Opq("Sender", t), Opq("Receiver", t)], "tuple"))]
        if "PollSender" in path and n == "new":
            return [(st, args[0])]
        if n in ("new", "default"):
            for set_ in ("FuturesUnordered", "SelectAll", "AtomicWaker"):
                if set_ in path or ("self" in ref and crate.ty(ref["self"]).k == "adt" and crate.ty(ref["self"]).last() == set_):
                    return [(st, Opq(set_, fint("set")))]
        if n == "spawn" and path.split("::")[0] == "tokio":
            g["spawned"] = g["spawned"] + (self.driven(ex, st, args[-1], where),)
            st.note("spawn")
            return [(st, Opq("JoinHandle", fint("j")))]
        if tr in ("SocketService", "ServerConnector"):
            f = [t for a in args[1:] for t in terms(a)]
            r = fint(n)
            g["made"] = g["made"] + ((n, r, tuple(f)),)
            st.note(n)
            if n in ("maximum_message_length", "max_queued_outbound_messages"):
                st.assume(z3.And(r >= 0, r <= U64))
                return [(st, r)]
            return [(st, Opq(n, r))]
        if tr == "Default" and n == "default" and "self" in ref and crate.ty(ref["self"]).k not in ("adt", "tuple", "int", "bool"):
            r = fint("default")
            g["made"] = g["made"] + (("default", r, ()),)
            return [(st, Opq("default", r))]
        return None

    def driven(self, ex, st, v, where):
        """the connection or server that a spawned async block awaits, and which it cannot finish without"""
        if not (isinstance(v, Struct) and v.ty is not None and v.ty.k == "coroutine"):
            return v
        s = st.fork()
        s.g["driven"] = ()
        p = ex.alloc(s, v)
        found = []
        for s2, _ in ex.lib.poll_coroutine(ex, s, p, v, ex.alloc(s, Opq("Context", I(0))), where):
            found.append(s2.g["driven"])
            if s2.g["spawned"] is not st.g["spawned"] and len(s2.g["spawned"]) != len(st.g["spawned"]):
                raise Unsupported("a spawned task that spawns")
        if not found or any(len(f) != 1 for f in found):
            raise Unsupported("spawn of a wrapped future")
        return found[0][0]

    def poll_member(self, ex, st, args):
        """the poll of a connection or a connection's server by a wrapper: it finishes"""
        p = args[0]
        for _ in range(8):
            if isinstance(p, Struct) and self.conn(p) is None and not self.is_server(p) and len(p.fields) == 1:
                p = p.fields[0]
            elif isinstance(p, Ptr):
                p = ex.load1(st, p)
        if self.conn(p) is None and not self.is_server(p):
            return None
        if "driven" not in st.g:
            raise Unsupported("the connection is polled")
        st.g["driven"] = st.g["driven"] + (p,)
        if self.conn(p) is not None:
            return [(st, ready(unit()))]
        a, b = st.fork(), st.fork()
        return [(a, ready(ok(unit()))), (b, ready(err(Opq("Error", fint("e")))))]

    def accept(self, ex, st, where):
        raise Unsupported("poll_accept")

    def find_connection(self, ex, g, what):
        cs = [self.conn(v) for v in g["spawned"] if self.conn(v) is not None]
        for v in g["spawned"]:
            if self.conn(v) is None and not self.is_server(v):
                raise Unsupported("spawn of a wrapped future")
        return cs

    def check_connection(self, ex, s, c, stream, addr, mb, mq, who):
        P, g = self.props, s.g
        ex.oblige(s, P, who + " drives the socket that was set up", B(has(c["stream"], stream) and has(c["address"], addr)), None)
        ex.oblige(s, P, who + " has the configured buffer limit", c["maxb"] == mb, None)
        ex.oblige(s, P, who + " has the configured queue limit", c["maxq"] == mq, None)
        rx = terms(c["rx"])
        ch = [x for x in g["chans"] if len(rx) == 1 and x[0].eq(rx[0])]
        ex.oblige(s, P, who + " has an outbound queue of its own", B(len(ch) == 1), None)
        if ch:
            ex.oblige(s, P, who + " has an outbound queue with the configured room", ch[0][1] == mq if ch[0][1] is not None else F, None)
            return ch[0][0]
        return None


class Accept(Setup):
    name = "accept loops"
    needs = {"C17": ("SocketRpcServer::set", "ProtosocketServer::set", "an rpc connection", "a connection", "a sleeping server", "the server is never stopped")}

    def run(self, ex):
        for crate, tname in ((CRATE, "SocketRpcServer"), (SERVER, "ProtosocketServer")):
            ty, idx = self.setters(ex, crate, tname, (("buffer", "set_max_buffer_length"), ("queue", "set_max_queued_outbound_messages")))
            poll = self.find_impl(ex, crate, "Future", "poll", tname)
            st = St()
            st.g.update(mon=None, reg=F, woken=F, made=(), chans=(), spawned=(), setfail=F, accepted=None)
            sp = ex.alloc(st, ex.fresh(st, ty, "server"))
            self.mb, self.mq = self.limits(ex, st, ex.load1(st, sp), idx)
            self.kind = tname
            cx = ex.alloc(st, Opq("Context", I(0)))
            for s, v in ex.exec_fn(st, poll, [Struct(None, [sp], "pin"), cx]):
                if s.g["mon"] is not None:
                    self.settle(ex, s, "return")
                for s2, i, _ in ex.lib.cases(ex, s, v):
                    ex.oblige(s2, self.props, "the server is never stopped", B(i == 1), None)
                    ex.oblige(s2, self.props, "a sleeping server is registered for the next connection",
                              z3.Or(s2.g["reg"], s2.g["woken"]), None)
                after = ex.load1(s, sp)
                ex.oblige(s, self.props, "the server's limits stay as configured",
                          z3.And(after.fields[idx["buffer"]] == self.mb, after.fields[idx["queue"]] == self.mq), None)

    def accept(self, ex, st, where):
        if st.g["mon"] is not None:
            self.settle(ex, st, where)
        st.g["reg"] = F
        a, b, c = st.fork(), st.fork(), st.fork()
        t, ad = fint("stream"), fint("address")
        a.g.update(mon=Mon(stream=t, addr=ad), made=(), chans=(), spawned=(), setfail=F)
        a.note("a connection is accepted")
        b.note("accept fails")
        c.note("no connection is waiting")
        c.g["reg"] = T
        return [(a, ready(ok(Struct(None, [Opq("TcpStream", t), Opq("SocketAddr", ad)], "tuple")))),
                (b, ready(err(Opq("io::Error", fint("e"))))),
                (c, pending())]

    def settle(self, ex, s, where):
        g, P = s.g, self.props
        m = g["mon"]
        g["mon"] = None
        cs = self.find_connection(ex, g, "")
        srv = [v for v in g["spawned"] if self.is_server(v)]
        if z3.is_true(g["setfail"]) and not cs and not srv:
            g.update(made=(), chans=(), spawned=(), setfail=F)
            return
        rpc = self.kind == "SocketRpcServer"
        who = "an rpc connection" if rpc else "a connection"
        ex.oblige(s, P, who + " is started, once", B(len(cs) == 1), where)
        if rpc:
            ex.oblige(s, P, who + "'s rpc server is started, once", B(len(srv) == 1), where)
        if len(cs) != 1 or (rpc and len(srv) != 1):
            g.update(made=(), chans=(), spawned=(), setfail=F)
            return
        c = cs[0]
        out = self.check_connection(ex, s, c, m.stream, m.addr, self.mb, self.mq, who)
        made = {}
        for n, t, a in g["made"]:
            made.setdefault(n, []).append((t, a))
        for n, k in (("serializer", "Serializer"), ("deserializer", "Deserializer")):
            ex.oblige(s, P, who + " has a %s of its own" % n, B(any(has(c[k], t) for t, _ in made.get(n, ()))), where)
        if rpc:
            new = made.get("new_connection_service", [])
            ex.oblige(s, P, who + " has a service of its own, made for its address",
                      B(len(new) == 1 and has(srv[0], new[0][0]) and any(m.addr.eq(x) for x in new[0][1])), where)
            ins = [t for t, cap in g["chans"] if cap is None or out is None or not t.eq(out)]
            ex.oblige(s, P, who + "'s requests go to its own rpc server", B(any(has(c["Reactor"], t) and has(srv[0], t) for t in ins)), where)
            ex.oblige(s, P, who + "'s rpc server responds on it", B(out is not None and has(srv[0], out)), where)
        else:
            new = made.get("new_reactor", [])
            ex.oblige(s, P, who + " has a reactor of its own, that can send on it",
                      B(len(new) == 1 and has(c["Reactor"], new[0][0]) and out is not None and any(out.eq(x) for x in new[0][1])), where)
        g.update(made=(), chans=(), spawned=(), setfail=F)


class Connect(Setup):
    name = "client set-up and constructors"
    needs = {"C17": ("Configuration::", "ClientRegistry::", "a connected client", "a registered client", "SocketRpcServer::new", "ProtosocketServer::new")}

    def run(self, ex):
        self.connect(ex)
        self.register(ex)
        self.constructors(ex)

    def poll_future(self, ex, st, p, v, cx, where):
        if v.ty in ("connect", "bind"):
            a, b, c = st.fork(), st.fork(), st.fork()
            b.note("%s fails" % v.ty)
            b.g["setfail"] = T
            c.g["dropping"] = T
            return [(a, ready(ok(Opq("socket", z3.Int("socket!"))))), (b, ready(err(Opq("io::Error", fint("e"))))), (c, pending())]
        return None

    def go(self, ex, st, fn, args):
        st.g.update(mon=None, reg=F, made=(), chans=(), spawned=(), setfail=F, dropping=F, addr=I(-1), parsed=F)
        out = []
        for s1, fut in ex.exec_fn(st, fn, args):
            fp = ex.alloc(s1, fut)
            cx = ex.alloc(s1, Opq("Context", I(0)))
            v = ex.load1(s1, fp)
            if not (isinstance(v, Struct) and v.ty is not None and v.ty.k == "coroutine"):
                raise Unsupported("not an async fn")
            for s2, r in ex.lib.poll_coroutine(ex, s1, fp, v, cx, None):
                for s3, i, pay in ex.lib.cases(ex, s2, r):
                    if i == 0:
                        for s4, j, pay2 in ex.lib.cases(ex, s3, pay[0]):
                            out.append((s4, j, pay2[0]))
        return out

    def connect(self, ex):
        cty, idx = self.setters(ex, CRATE, "Configuration", (("buffer", "max_buffer_length"), ("queue", "max_queued_outbound_messages")))
        fns = [f for f in ex.prog.crates[CRATE].fns if f.body and f.name == "connect" and not f.j.get("impl_self") and "configuration" in f.path]
        if not fns:
            raise Missing("no connect")
        P = self.props
        st = St()
        st.assume(z3.And(K >= 0, K <= U64))
        cp = ex.alloc(st, ex.fresh(st, cty, "configuration"))
        mb, mq = self.limits(ex, st, ex.load1(st, cp), idx)
        ad = fint("address")
        for s, j, v in self.go(ex, st, fns[0], [Opq("SocketAddr", ad), cp]):
            if j == 1:
                ex.oblige(s, P, "a connected client: connecting fails only when the socket cannot be set up", s.g["setfail"], None)
                continue
            ex.oblige(s, P, "a connected client is connected to the address", s.g["addr"] == ad, None)
            cs = [x for x in v.fields if self.conn(x) is not None]
            cl = [x for x in v.fields if isinstance(x, Struct) and x.ty is not None and x.ty.k == "adt" and x.ty.last() == "RpcClient"]
            if len(cs) != 1 or len(cl) != 1:
                raise Missing("client and connection")
            c = self.conn(cs[0])
            who = "a connected client"
            out = self.check_connection(ex, s, c, z3.Int("socket!"), ad, mb, mq, who)
            made = [t for n, t, _ in s.g["made"]]
            ex.oblige(s, P, who + " has codecs of its own", B(any(has(c["Serializer"], t) for t in made) and any(has(c["Deserializer"], t) for t in made)), None)
            ex.oblige(s, P, who + " sends on its own connection", B(out is not None and has(cl[0], out)), None)
            cp1, rp1 = ex.alloc(s, cl[0]), ex.alloc(s, c["Reactor"])
            a, b = self.objects(ex, s, cp1, "atomic"), self.objects(ex, s, rp1, "atomic")
            ms, mc = self.objects(ex, s, rp1, "kmap"), self.objects(ex, s, cp1, "kmap")
            ex.oblige(s, P, who + " gets its responses from its own connection",
                      B(len(a) == 1 and len(b) == 1 and a[0][0].cell == b[0][0].cell and bool(mc) and any(p.cell == mc[0][0].cell for p, _ in ms)), None)
        ds = [f for f in ex.prog.crates[CRATE].fns if f.body and f.name == "default" and f.j.get("impl_self") == "Configuration"]
        if ds:
            st = St()
            st.g.update(mon=None)
            for s, v in ex.exec_fn(st, ds[0], []):
                ex.oblige(s, P, "Configuration::default has limits", z3.And(*[v.fields[i] >= 1 for i in idx.values()]), None)

    def register(self, ex):
        cty, idx = self.setters(ex, PROST, "ClientRegistry", (("buffer", "set_max_read_buffer_length"), ("queue", "set_max_queued_outbound_messages")))
        fn = self.find(ex, PROST, name="register_client", impl_self="ClientRegistry")
        P = self.props
        st = St()
        cp = ex.alloc(st, ex.fresh(st, cty, "registry"))
        mb, mq = self.limits(ex, st, ex.load1(st, cp), idx)
        ad, re = fint("address"), fint("reactor")
        for s, j, v in self.go(ex, st, fn, [cp, Opq("address", ad), Opq("reactor", re)]):
            who = "a registered client"
            cs = self.find_connection(ex, s.g, "")
            if j == 1:
                ex.oblige(s, P, who + ": registering fails only when the connection cannot be set up", z3.Or(s.g["setfail"], s.g["parsed"]), None)
                ex.oblige(s, P, who + ": a failed client is not started", B(not cs), None)
                continue
            ex.oblige(s, P, who + "'s connection is started, once", B(len(cs) == 1), None)
            if len(cs) != 1:
                continue
            c = cs[0]
            ex.oblige(s, P, who + " is connected to the address", s.g["addr"] == ad, None)
            out = self.check_connection(ex, s, c, z3.Int("socket!"), ad, mb, mq, who)
            ex.oblige(s, P, who + " has the reactor that was given", B(has(c["Reactor"], re)), None)
            ex.oblige(s, P, who + " sends on its own connection", B(out is not None and has(v, out)), None)
        new = self.find(ex, PROST, name="new", impl_self="ClientRegistry")
        st = St()
        st.g.update(mon=None)
        for s, v in ex.exec_fn(st, new, [Opq("Handle", fint("h"))]):
            ex.oblige(s, P, "ClientRegistry::new has limits", z3.And(*[v.fields[i] >= 1 for i in idx.values()]), None)

    def constructors(self, ex):
        P = self.props
        for crate, tname in ((CRATE, "SocketRpcServer"), (SERVER, "ProtosocketServer")):
            fn = self.find(ex, crate, name="new", impl_self=tname)
            st = St()
            args, ts = [], []
            for i in range(1, fn.argc + 1):
                t = fn.local_ty(i)
                x = fint("arg")
                args.append(Opq(t, x))
                if not (t.k == "adt" and t.last() == "SocketAddr"):
                    ts.append(x)
            for s, j, v in self.go(ex, st, fn, args):
                if j == 1:
                    ex.oblige(s, P, tname + "::new fails only when it cannot listen", s.g["setfail"], None)
                    continue
                ex.oblige(s, P, tname + "::new listens, with what it was given", B(has(v, z3.Int("socket!")) and all(has(v, t) for t in ts)), None)
                ex.oblige(s, P, tname + "::new has limits", z3.And(*[x >= 1 for x in v.fields if is_int(x)]), None)

    def env2(self, ex, st, sn, tr, n, path, ref, crate, args, where):
        if n == "parse" and "str" in path:
            t = terms(args[0]) if not isinstance(args[0], Ptr) else terms(ex.load1(st, args[0]))
            a, b = st.fork(), st.fork()
            b.g["parsed"] = T
            b.note("the address cannot be parsed")
            return [(a, ok(Opq("SocketAddr", t[0]))), (b, err(Opq("AddrParseError", fint("e"))))]
        if tr in ("Into", "From", "Deref", "AsRef") and n in ("into", "from", "deref", "as_ref", "as_str"):
            v = args[0]
            p = ex.load1(st, v) if isinstance(v, Ptr) else v
            if isinstance(p, Opq) and p.ty in ("address",):
                return [(st, v)]
        if n == "bind" and "TcpListener" in path:
            return [(st, Opq("bind", I(0)))]
        return Setup.env2(self, ex, st, sn, tr, n, path, ref, crate, args, where)
