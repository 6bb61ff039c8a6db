//! C17: servers and clients over scripted listeners and sockets.
use crate::choices::{Choices, Flag, Out};
use crate::rpc_server::in_runtime;
use crate::service::{settle, value, Service, UNARY};
use crate::wire::{parse_all, Codec, Msg, LONG, SIZE};
use protosocket::{ConnectionBindings, MessageReactor, ReactorStatus};
use protosocket_rpc::server::SocketRpcServer;
use protosocket_server::{ProtosocketServer, ServerConnector};
use std::future::Future;
use std::io::{Error, ErrorKind};
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::mock::{Door, Peer};
use tokio::sync::mpsc;

const P: &[&str] = &["C17"];

pub fn script(ch: &mut Choices, out: &mut Out) {
    in_runtime(async {
        match ch.below(6) {
            0 | 1 => server(ch, out, true).await,
            2 | 3 => server(ch, out, false).await,
            4 => client(ch, out).await,
            _ => registry(ch, out).await,
        }
    });
}

// ------------------------------------------------------------------ the plain server's application

#[derive(Default)]
struct App {
    got: Vec<Msg>,
    sender: Option<mpsc::Sender<Msg>>,
    capacity: usize,
    dropped: bool,
}

#[derive(Clone, Default)]
struct Connector(Arc<Mutex<Vec<Arc<Mutex<App>>>>>);
struct Reactor(Arc<Mutex<App>>);
struct Bindings;

impl ConnectionBindings for Bindings {
    type Deserializer = Codec;
    type Serializer = Codec;
    type Reactor = Reactor;
}
impl MessageReactor for Reactor {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        let mut a = self.0.lock().unwrap();
        for m in messages {
            a.got.push(m);
            if m.code == 0 {
                if let Some(s) = &a.sender {
                    let _ = s.try_send(Msg { id: m.id, code: 0, value: 1 });
                }
            }
        }
        ReactorStatus::Continue
    }
}
impl Drop for Reactor {
    fn drop(&mut self) {
        let mut a = self.0.lock().unwrap();
        a.dropped = true;
        a.sender = None;
    }
}
impl ServerConnector for Connector {
    type Bindings = Bindings;
    fn serializer(&self) -> Codec {
        Codec
    }
    fn deserializer(&self) -> Codec {
        Codec
    }
    fn new_reactor(&self, outbound: mpsc::Sender<Msg>) -> Reactor {
        let a = Arc::new(Mutex::new(App { capacity: outbound.max_capacity(), sender: Some(outbound), ..Default::default() }));
        self.0.lock().unwrap().push(a.clone());
        Reactor(a)
    }
}

// ------------------------------------------------------------------ servers

enum Server {
    Rpc(SocketRpcServer<Service>),
    Plain(ProtosocketServer<Connector>),
}

struct Conn {
    peer: Peer,
    address: SocketAddr,
    /// what it was configured with, once accepted
    maxb: usize,
    maxq: usize,
    sent: Vec<Msg>,
    open: bool,
}

async fn quiet(peers: Vec<Peer>, service: Service) {
    for p in &peers {
        p.lock().calls = 0;
    }
    settle(move || {
        let mut n = service.lock().ticks << 32;
        for p in &peers {
            n = n.wrapping_add(p.lock().calls as u64);
        }
        n
    })
    .await
}

async fn server(ch: &mut Choices, out: &mut Out, rpc: bool) {
    let door = Door::default();
    tokio::mock::next_bind(Ok(door.clone()));
    let service = Service::default();
    let connector = Connector::default();
    let mut server = if rpc {
        match SocketRpcServer::new("127.0.0.1:9".parse().unwrap(), service.clone()).await {
            Ok(s) => Server::Rpc(s),
            Err(e) => return out.fail(P, format!("cannot listen: {e:?}")),
        }
    } else {
        match ProtosocketServer::new("127.0.0.1:9".parse().unwrap(), tokio::runtime::Handle::current(), connector.clone()).await {
            Ok(s) => Server::Plain(s),
            Err(e) => return out.fail(P, format!("cannot listen: {e:?}")),
        }
    };
    let mut maxb;
    let mut maxq;
    let flag = Flag::new();
    flag.waker().wake();
    let mut conns: Vec<Conn> = vec![];
    let mut waiting: Vec<Conn> = vec![];
    macro_rules! configure {
        () => {
            maxb = ch.pick(&[4000, 64, 100, 18, 200_000]);
            maxq = if rpc { ch.pick(&[3, 1, 2, 10, 70]) } else { ch.pick(&[3, 1, 2, 10, 70, 3000]) };
            out.note(|| format!("configured: buffer {maxb}, queue {maxq}"));
            match &mut server {
                Server::Rpc(s) => {
                    s.set_max_buffer_length(maxb);
                    s.set_max_queued_outbound_messages(maxq);
                }
                Server::Plain(s) => {
                    s.set_max_buffer_length(maxb);
                    s.set_max_queued_outbound_messages(maxq);
                }
            }
        };
    }
    macro_rules! run {
        () => {
            let mut n = 0;
            while flag.take() && n < 5000 {
                n += 1;
                let w = flag.waker();
                let mut cx = Context::from_waker(&w);
                let r = match &mut server {
                    Server::Rpc(s) => Pin::new(s).poll(&mut cx),
                    Server::Plain(s) => Pin::new(s).poll(&mut cx),
                };
                if let Poll::Ready(r) = r {
                    out.fail(P, format!("the server stops with {r:?}"));
                    return;
                }
            }
            if !door.lock().waiting.is_empty() {
                out.fail(P, "the server sleeps although a connection waits to be accepted");
                return;
            }
            for mut c in waiting.drain(..) {
                c.maxb = maxb;
                c.maxq = maxq;
                conns.push(c);
            }
            quiet(conns.iter().map(|c| c.peer.clone()).collect(), service.clone()).await;
        };
    }
    configure!();
    let mut id = 0;
    for _ in 0..ch.range(1, 20) {
        let e = ch.below(12);
        out.feel(e as u64 + 16 * rpc as u64);
        match e {
            0..=3 => {
                // now and then a long run of the same
                let run = if ch.chance(12) { Some(ch.below(3)) } else { None };
                let knocks = if run.is_some() { ch.range(20, 150) } else { ch.range(1, 4) };
                for _ in 0..knocks {
                    match run.unwrap_or_else(|| ch.below(5)) {
                        0 => {
                            let k = ch.pick(&[ErrorKind::ConnectionAborted, ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::PermissionDenied]);
                            out.note(|| format!("accept fails: {k:?}"));
                            door.knock(Err(Error::from(k)));
                        }
                        1 => {
                            out.note(|| "a connection cannot be set up".into());
                            let p = Peer::default();
                            p.lock().nodelay_fails = true;
                            door.knock(Ok((p, "127.0.0.1:6".parse().unwrap())));
                        }
                        _ => {
                            let n = conns.len() + waiting.len();
                            let address: SocketAddr = format!("127.0.0.1:{}", 1000 + n).parse().unwrap();
                            out.note(|| format!("connection {n} from {address}"));
                            let peer = Peer::default();
                            peer.grant(1 << 40);
                            door.knock(Ok((peer.clone(), address)));
                            waiting.push(Conn { peer, address, maxb: 0, maxq: 0, sent: vec![], open: true });
                        }
                    }
                }
                if ch.chance(2) {
                    run!();
                }
            }
            4 | 5 => {
                run!();
                if conns.is_empty() {
                    continue;
                }
                let i = ch.below(conns.len());
                if conns[i].open {
                    let mut b = vec![];
                    for _ in 0..ch.range(1, 3) {
                        id += 1;
                        let m = Msg { id, code: 0, value: value(UNARY, 1, false, id) };
                        conns[i].sent.push(m);
                        b.extend(m.bytes());
                        out.note(|| format!("connection {i} sends request {id}"));
                        conns[i].peer.send(&b);
                        b.clear();
                        run!();
                        let c = &conns[i];
                        let w = parse_all(&c.peer.lock().written);
                        if w.iter().filter(|m| m.code == 0).count() != c.sent.len() || w.last().map(|m| m.id) != Some(id) {
                            out.fail(P, format!("connection {i}: request {id} is not answered"));
                        }
                    }
                }
            }
            6 => {
                run!();
                configure!();
            }
            7 => {
                run!();
                let open: Vec<usize> = (0..conns.len()).filter(|i| conns[*i].open).collect();
                if open.is_empty() {
                    continue;
                }
                let i = open[ch.below(open.len())];
                let n = conns[i].maxb + ch.below(2);
                let too_long = n > conns[i].maxb;
                if n <= SIZE {
                    continue;
                }
                let m = Msg { id: 0, code: LONG, value: n as u64 };
                out.note(|| format!("connection {i} (buffer {}) sends a frame of {n} bytes", conns[i].maxb));
                conns[i].peer.send(&m.bytes());
                run!();
                if conns[i].peer.lock().closed != too_long {
                    out.fail(P, format!("connection {i} is configured for {} bytes; a frame of {n} announced: closed {}", conns[i].maxb, !too_long));
                    return;
                }
                if too_long {
                    conns[i].open = false;
                } else {
                    conns[i].peer.send(&vec![7; n - SIZE]);
                    run!();
                    if conns[i].peer.lock().closed {
                        out.fail(P, format!("connection {i} is configured for {} bytes and closes on a frame of {n}", conns[i].maxb));
                        return;
                    }
                }
            }
            8 => {
                run!();
                let open: Vec<usize> = (0..conns.len()).filter(|i| conns[*i].open).collect();
                if open.is_empty() {
                    continue;
                }
                let i = open[ch.below(open.len())];
                out.note(|| format!("connection {i} ends"));
                conns[i].peer.eof();
                conns[i].open = false;
                run!();
            }
            9 => {
                // the outbound queue
                run!();
                let open: Vec<usize> = (0..conns.len()).filter(|i| conns[*i].open).collect();
                if open.is_empty() || rpc {
                    continue;
                }
                let i = open[ch.below(open.len())];
                let app = connector.0.lock().unwrap()[i].clone();
                let (q, b) = (conns[i].maxq, conns[i].maxb);
                let sender = app.lock().unwrap().sender.clone();
                let Some(sender) = sender else { continue };
                if q > 500 {
                    continue;
                }
                out.note(|| format!("connection {i} cannot write, its queue is filled"));
                conns[i].peer.lock().credit = 0;
                let mut n = 0;
                for _ in 0..3 {
                    while n < 1000 && sender.try_send(Msg { id: 0, code: 1, value: 0 }).is_ok() {
                        n += 1;
                    }
                    run!();
                }
                drop(sender);
                if n < q || n > 3 * q + 1 {
                    out.fail(P, format!("connection {i} is configured to queue {q} messages; {n} were accepted while nothing could be written"));
                }
                conns[i].peer.lock().slices = 0;
                conns[i].peer.grant(1 << 40);
                run!();
                let slices = conns[i].peer.lock().slices;
                if slices > q {
                    out.fail(P, format!("connection {i} is configured to queue {q} messages and writes {slices} at once"));
                }
                if ch.chance(4) {
                    let n = b.max(SIZE) + ch.below(2);
                    out.note(|| format!("connection {i} (buffer {b}) is given a message of {n} bytes"));
                    let s = app.lock().unwrap().sender.clone();
                    if let Some(s) = s {
                        if s.try_send(Msg { id: 0, code: LONG, value: n as u64 }).is_err() {
                            out.fail(P, "no room in a drained queue");
                        }
                    }
                    run!();
                    if conns[i].peer.lock().closed != (n > b) {
                        out.fail(P, format!("connection {i} is configured for {b} bytes; a message of {n} was queued: closed {}", n <= b));
                        return;
                    }
                    if n > b {
                        conns[i].open = false;
                    }
                }
            }
            10 => {
                run!();
                let open: Vec<usize> = (0..conns.len()).filter(|i| conns[*i].open).collect();
                if open.is_empty() || rpc {
                    continue;
                }
                let i = open[ch.below(open.len())];
                out.note(|| format!("connection {i}'s application drops its sender"));
                let app = connector.0.lock().unwrap()[i].clone();
                app.lock().unwrap().sender = None;
                conns[i].open = false;
                run!();
            }
            _ => {
                // nothing but a spurious wake
                flag.waker().wake();
                run!();
            }
        }
    }
    run!();
    for (i, c) in conns.iter().enumerate() {
        let s = c.peer.lock();
        if s.nodelay != Some(true) {
            out.fail(P, format!("connection {i} is not set up: no nodelay"));
        }
        if s.closed == c.open {
            out.fail(P, format!("connection {i} is closed: {}, expected {}", s.closed, !c.open));
        }
        let w = parse_all(&s.written);
        let answers: Vec<u64> = w.iter().filter(|m| m.code == 0).map(|m| m.id).collect();
        if answers != c.sent.iter().map(|m| m.id).collect::<Vec<_>>() {
            out.fail(P, format!("connection {i} sent {:?} and was answered {answers:?}", c.sent));
        }
    }
    if rpc {
        let s = service.lock();
        if s.conns.len() != conns.len() {
            out.fail(P, format!("{} connections were accepted and {} services made", conns.len(), s.conns.len()));
            return;
        }
        for (i, (k, c)) in s.conns.iter().zip(&conns).enumerate() {
            let k = k.lock().unwrap();
            if k.address != Some(c.address) || k.requests != c.sent {
                out.fail(P, format!("the service of connection {i} saw {:?} from {:?}, expected {:?} from {}", k.requests, k.address, c.sent, c.address));
            }
            if (k.dropped > 0) == c.open {
                out.fail(P, format!("the service of connection {i} is dropped: {}, the connection is open: {}", k.dropped > 0, c.open));
            }
        }
    } else {
        let apps = connector.0.lock().unwrap();
        if apps.len() != conns.len() {
            out.fail(P, format!("{} connections were accepted and {} reactors made", conns.len(), apps.len()));
            return;
        }
        for (i, (a, c)) in apps.iter().zip(&conns).enumerate() {
            let a = a.lock().unwrap();
            let got: Vec<Msg> = a.got.iter().filter(|m| m.code == 0).copied().collect();
            if got != c.sent {
                out.fail(P, format!("the reactor of connection {i} saw {got:?}, expected {:?}", c.sent));
            }
            if a.capacity != c.maxq {
                out.fail(P, format!("connection {i} is configured to queue {} messages, its queue holds {}", c.maxq, a.capacity));
            }
            if a.dropped == c.open {
                out.fail(P, format!("the reactor of connection {i} is dropped: {}, the connection is open: {}", a.dropped, c.open));
            }
        }
    }
    for c in &conns {
        c.peer.eof();
    }
    drop(server);
    quiet(conns.iter().map(|c| c.peer.clone()).collect(), service.clone()).await;
}

// ------------------------------------------------------------------ clients

async fn client(ch: &mut Choices, out: &mut Out) {
    use protosocket_rpc::client::{connect, Configuration};
    let peer = Peer::default();
    let address: SocketAddr = "127.0.0.1:7".parse().unwrap();
    let maxb = ch.pick(&[4000, 64, 100]);
    let maxq = ch.pick(&[3, 1, 2, 10, 70]);
    out.feel((maxb * 1000 + maxq) as u64);
    let mut c = Configuration::default();
    c.max_buffer_length(maxb);
    c.max_queued_outbound_messages(maxq);
    match ch.below(4) {
        1 => {
            tokio::mock::next_connect(Err(Error::from(ErrorKind::ConnectionRefused)));
            if connect::<Codec, Codec>(address, &c).await.is_ok() {
                out.fail(P, "a refused connection connects");
            }
            return;
        }
        _ => {}
    }
    tokio::mock::next_connect(Ok(peer.clone()));
    let Ok((client, conn)) = connect::<Codec, Codec>(address, &c).await else {
        out.fail(P, "connect fails on a good socket");
        return;
    };
    if tokio::mock::connected().last().map(|s| s.as_str()) != Some("127.0.0.1:7") {
        out.fail(P, "connected to another address");
    }
    if peer.lock().nodelay != Some(true) {
        out.fail(P, "the connection is not set up: no nodelay");
    }
    let mut conn = Box::pin(conn);
    let w = futures::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut done = vec![];
    let mut n = 0;
    loop {
        n += 1;
        let mut f = Box::pin(client.send_unary(Msg { id: n as u64, code: 0, value: 0 }));
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(Ok(d)) => done.push(d),
            Poll::Ready(Err(e)) => {
                out.fail(P, format!("send fails: {e:?}"));
                return;
            }
            Poll::Pending => break,
        }
        if n > 300 {
            break;
        }
    }
    if done.len() != maxq {
        out.fail(P, format!("the client is configured to queue {maxq} messages, {} are", done.len()));
    }
    // nothing can be written: what the connection takes is limited too
    for _ in 0..4 {
        peer.lock().calls = 0;
        if conn.as_mut().poll(&mut cx).is_ready() {
            out.fail(P, "the connection ends");
            return;
        }
        let mut f = Box::pin(client.send_unary(Msg { id: 1000 + n as u64, code: 0, value: 0 }));
        while let Poll::Ready(Ok(d)) = f.as_mut().poll(&mut cx) {
            done.push(d);
            n += 1;
            if n > 400 {
                break;
            }
            f = Box::pin(client.send_unary(Msg { id: 1000 + n as u64, code: 0, value: 0 }));
        }
    }
    if done.len() > 3 * maxq + 1 {
        out.fail(P, format!("the client is configured to queue {maxq} messages, {} are accepted while nothing can be written", done.len()));
    }
    peer.lock().slices = 0;
    peer.grant(1 << 40);
    for _ in 0..4 {
        peer.lock().calls = 0;
        let _ = conn.as_mut().poll(&mut cx);
    }
    if peer.lock().slices > maxq {
        out.fail(P, format!("the client is configured to queue {maxq} messages, {} are written at once", peer.lock().slices));
    }
    let n = maxb + ch.below(2);
    peer.send(&Msg { id: 0, code: LONG, value: n as u64 }.bytes());
    peer.lock().calls = 0;
    let r = conn.as_mut().poll(&mut cx);
    if r.is_ready() != (n > maxb) {
        out.fail(P, format!("the client is configured for {maxb} bytes; a frame of {n} announced: connection ends {}", r.is_ready()));
    }
}

#[derive(Clone, PartialEq, prost::Message)]
struct Proto {
    #[prost(uint64, tag = "1")]
    id: u64,
    #[prost(bytes, tag = "2")]
    body: Vec<u8>,
}

struct Sink(Arc<Mutex<Vec<Proto>>>);
impl MessageReactor for Sink {
    type Inbound = Proto;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Proto>) -> ReactorStatus {
        self.0.lock().unwrap().extend(messages);
        ReactorStatus::Continue
    }
}

async fn registry(ch: &mut Choices, out: &mut Out) {
    use protosocket_prost::ClientRegistry;
    let mut r = ClientRegistry::new(tokio::runtime::Handle::current());
    let mut all = vec![];
    for k in 0..ch.range(1, 3) {
        let maxb = ch.pick(&[4000, 64, 100]);
        let maxq = ch.pick(&[3, 1, 2, 10, 70, 3000]);
        out.feel((maxb * 1000 + maxq) as u64);
        r.set_max_read_buffer_length(maxb);
        r.set_max_queued_outbound_messages(maxq);
        let peer = Peer::default();
        let got = Arc::new(Mutex::new(vec![]));
        tokio::mock::next_connect(Ok(peer.clone()));
        let Ok(s) = r.register_client::<Proto, Proto, Sink>(format!("127.0.0.1:{}", 50 + k), Sink(got.clone())).await else {
            out.fail(P, "connect fails on a good socket");
            return;
        };
        if tokio::mock::connected().last() != Some(&format!("127.0.0.1:{}", 50 + k)) {
            out.fail(P, "connected to another address");
        }
        all.push((s, peer, got, maxb, maxq));
    }
    let peers: Vec<Peer> = all.iter().map(|a| a.1.clone()).collect();
    let none = Service::default();
    quiet(peers.clone(), none.clone()).await;
    for (i, (s, peer, _, _, maxq)) in all.iter().enumerate() {
        if peer.lock().nodelay != Some(true) {
            out.fail(P, "the connection is not set up: no nodelay");
        }
        if s.max_capacity() != *maxq {
            out.fail(P, format!("client {i} is configured to queue {maxq} messages, its queue holds {}", s.max_capacity()));
        }
        let mut n = 0;
        for _ in 0..3 {
            while n < 400 && s.try_send(Proto { id: i as u64, body: vec![] }).is_ok() {
                n += 1;
            }
            quiet(peers.clone(), none.clone()).await;
        }
        if n > 3 * maxq + 1 {
            out.fail(P, format!("client {i} is configured to queue {maxq} messages, {n} are accepted while nothing can be written"));
        }
        peer.grant(1 << 40);
        quiet(peers.clone(), none.clone()).await;
        if peer.lock().slices > *maxq {
            out.fail(P, format!("client {i} is configured to queue {maxq} messages, {} are written at once", peer.lock().slices));
        }
    }
    use prost::Message;
    for (i, (s, peer, got, maxb, _)) in all.iter().enumerate() {
        let m = Proto { id: i as u64 + 1, body: vec![1; 9] };
        peer.send(&m.encode_length_delimited_to_vec());
        quiet(peers.clone(), none.clone()).await;
        if *got.lock().unwrap() != vec![m] {
            out.fail(P, format!("client {i} received {:?}", got.lock().unwrap()));
        }
        // a frame whose announced length is over the limit, and one that is not
        let long = ch.chance(2);
        let n = if long { maxb + 1 } else { maxb - 10 };
        let mut b = vec![];
        prost::encoding::encode_varint(n as u64, &mut b);
        peer.send(&b);
        quiet(peers.clone(), none.clone()).await;
        if peer.lock().closed != long {
            out.fail(P, format!("client {i} is configured for {maxb} bytes; {n} bytes announced: closed {}", !long));
        }
        let r = s.try_send(Proto { id: 1, body: vec![] });
        if r.is_ok() == long {
            out.fail(P, format!("client {i}: its queue is open: {}", r.is_ok()));
        }
    }
    drop(all);
    quiet(peers.clone(), none).await;
    for p in &peers {
        if !p.lock().closed {
            out.fail(P, "a client that nobody uses is not closed");
        }
        p.eof();
    }
}
