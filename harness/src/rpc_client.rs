//! C08..C12: an rpc client over a scripted socket.
use crate::choices::{Choices, Flag, Out};
use crate::wire::{parse_all, Codec, Msg, SIZE};
use futures::Stream;
use protosocket_rpc::client::{connect, Configuration, RpcClient, StreamingCompletion, UnaryCompletion};
use protosocket_rpc::Error;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{mpsc, Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;
use tokio::mock::Peer;

type Client = RpcClient<Msg, Msg>;
type Task = Pin<Box<dyn Future<Output = ()> + Send>>;

fn noop() -> Waker {
    futures::task::noop_waker()
}

pub fn open(peer: &Peer, maxb: usize, maxq: usize) -> Option<(Client, Task)> {
    tokio::mock::next_connect(Ok(peer.clone()));
    let mut c = Configuration::default();
    c.max_buffer_length(maxb);
    c.max_queued_outbound_messages(maxq);
    let mut f = Box::pin(async move { connect::<Codec, Codec>("127.0.0.1:7".parse().unwrap(), &c).await });
    match f.as_mut().poll(&mut Context::from_waker(&noop())) {
        Poll::Ready(Ok((client, conn))) => Some((client, Box::pin(conn))),
        _ => None,
    }
}

enum Done {
    Unary(UnaryCompletion<Msg, Msg>),
    Stream(StreamingCompletion<Msg, Msg>),
}
type Sending = Pin<Box<dyn Future<Output = Result<Done, Error>>>>;

fn send(client: &'static Client, stream: bool, m: Msg) -> Sending {
    if stream {
        Box::pin(async move { client.send_streaming(m).await.map(Done::Stream) })
    } else {
        Box::pin(async move { client.send_unary(m).await.map(Done::Unary) })
    }
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum St {
    Sending,
    Open,
    Observed,
    Ended,
    Gone,
}

struct Rpc {
    id: u64,
    stream: bool,
    sending: Option<Sending>,
    done: Option<Done>,
    state: St,
    queue: VecDeque<u64>,
    closed: bool,
    killed: bool,
    flag: Arc<Flag>,
    /// a poll returned Pending and something happened since
    owed: bool,
    waiting: bool,
}

enum Wire {
    Must(Msg),
    May(Msg),
}

struct World<'a> {
    out: &'a mut Out,
    peer: Peer,
    client: &'static Client,
    conn: Option<Task>,
    flag: Arc<Flag>,
    rpcs: Vec<Rpc>,
    wire: Vec<Wire>,
    stalled: bool,
    /// messages that may be in the queue
    inq: usize,
    maxq: usize,
    next: u64,
}

const ALL: &[&str] = &["C08", "C09"];

impl World<'_> {
    fn run(&mut self) {
        let mut n = 0;
        while self.flag.is() && n < 500 {
            let Some(c) = self.conn.as_mut() else { break };
            self.flag.take();
            n += 1;
            self.peer.lock().calls = 0;
            let w = self.flag.waker();
            if c.as_mut().poll(&mut Context::from_waker(&w)).is_ready() {
                self.out.note(|| "the connection finishes".into());
                self.conn = None;
                self.killed();
            }
        }
        if !self.stalled {
            self.inq = 0;
        }
    }

    fn killed(&mut self) {
        for r in &mut self.rpcs {
            if r.state == St::Open && !r.closed {
                r.closed = true;
                r.killed = true;
                r.owed = r.waiting;
            }
        }
        if self.client.is_alive() {
            self.out.fail(&["C12"], "the connection ended but the client says it is alive");
        }
    }

    /// what the server sends
    fn receive(&mut self, m: Msg) {
        for r in &mut self.rpcs {
            if r.id == m.id && r.state == St::Open && !r.closed {
                if m.code == 0 {
                    r.queue.push_back(m.value);
                    if !r.stream {
                        r.closed = true;
                    }
                } else {
                    r.closed = true;
                }
                r.owed = r.waiting;
                return;
            }
        }
    }

    fn poll_send(&mut self, i: usize) {
        let alive = self.conn.is_some();
        let sending = self.rpcs.iter().enumerate().filter(|(k, r)| *k != i && r.state == St::Sending).count();
        let r = &mut self.rpcs[i];
        let Some(f) = r.sending.as_mut() else { return };
        let w = r.flag.waker();
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Pending => {
                if !alive {
                    self.out.fail(&["C11", "C12"], "a send hangs although the connection is gone");
                }
                if !self.stalled && self.inq + sending < self.maxq {
                    self.out.fail(&["C11"], "a send hangs although the queue has room");
                }
            }
            Poll::Ready(Ok(d)) => {
                r.sending = None;
                let ok = matches!((&d, r.stream), (Done::Unary(_), false) | (Done::Stream(_), true));
                r.done = Some(d);
                r.state = St::Open;
                let m = Msg { id: r.id, code: 0, value: r.id ^ 0xabc };
                if !alive {
                    self.out.fail(&["C11", "C12"], "a send succeeds although the connection is gone");
                    r.closed = true;
                    r.killed = true;
                } else {
                    self.wire.push(Wire::Must(m));
                    self.inq += 1;
                }
                if !ok {
                    self.out.fail(ALL, "wrong completion");
                }
                self.out.note(|| format!("send {} succeeds", m.id));
            }
            Poll::Ready(Err(e)) => {
                r.sending = None;
                r.state = St::Gone;
                let id = r.id;
                self.out.note(|| format!("send {id} fails: {e:?}"));
                if alive {
                    self.out.fail(&["C11"], format!("a send fails with {e:?} although the connection is up"));
                }
                if !matches!(e, Error::ConnectionIsClosed) {
                    self.out.fail(&["C11"], format!("a send on a closed connection fails with {e:?}"));
                }
            }
        }
    }

    fn start(&mut self, stream: bool, id: u64) {
        let m = Msg { id, code: 0, value: id ^ 0xabc };
        self.out.note(|| format!("send {} {id}", if stream { "streaming" } else { "unary" }));
        self.rpcs.push(Rpc {
            id,
            stream,
            sending: Some(send(self.client, stream, m)),
            done: None,
            state: St::Sending,
            queue: VecDeque::new(),
            closed: false,
            killed: false,
            flag: Flag::new(),
            owed: false,
            waiting: false,
        });
        self.poll_send(self.rpcs.len() - 1);
    }

    fn poll_done(&mut self, i: usize) {
        let r = &mut self.rpcs[i];
        let woken = r.flag.is();
        let lost = if r.killed { &["C12", "C09"] } else { ALL };
        if r.owed && !woken {
            self.out.fail(lost, format!("rpc {} has an outcome but its task is not woken", r.id));
        }
        r.owed = false;
        r.waiting = false;
        r.flag.take();
        let w = r.flag.waker();
        let mut cx = Context::from_waker(&w);
        let id = r.id;
        match r.done.as_mut() {
            Some(Done::Unary(c)) => {
                if r.state != St::Open {
                    return;
                }
                let got = Pin::new(c).poll(&mut cx);
                self.out.note(|| format!("poll unary {id}: {got:?}"));
                match (r.queue.pop_front(), r.closed, got) {
                    (Some(v), _, Poll::Ready(Ok(m))) if m.value == v && m.id == r.id => r.state = St::Observed,
                    (None, true, Poll::Ready(Err(Error::CancelledRemotely))) => r.state = St::Observed,
                    (None, false, Poll::Pending) => r.waiting = true,
                    (None, true, Poll::Pending) => {
                        self.out.fail(lost, format!("unary rpc {id} hangs after it was closed"));
                        r.state = St::Ended;
                    }
                    (v, c, g) => {
                        let p: &'static [&'static str] = if r.killed { &["C12", "C09"] } else { ALL };
                        self.out.fail(p, format!("unary rpc {id} yields {g:?}, its response is {v:?}, closed {c}"));
                        r.state = St::Ended;
                    }
                }
            }
            Some(Done::Stream(c)) => {
                if !matches!(r.state, St::Open | St::Observed) {
                    return;
                }
                let got = Pin::new(c).poll_next(&mut cx);
                self.out.note(|| format!("poll stream {id}: {got:?}"));
                let over = r.state == St::Observed;
                match (r.queue.front().copied(), r.closed, over, got) {
                    (Some(v), _, false, Poll::Ready(Some(Ok(m)))) if m.value == v && m.id == r.id => {
                        r.queue.pop_front();
                    }
                    (None, true, false, Poll::Ready(Some(Err(Error::Finished)))) => r.state = St::Observed,
                    (None, true, true, Poll::Ready(None)) => {}
                    (None, false, false, Poll::Pending) => r.waiting = true,
                    (None, true, false, Poll::Pending) => {
                        self.out.fail(lost, format!("streaming rpc {id} hangs after it was closed"));
                        r.state = St::Ended;
                    }
                    (v, c, o, g) => {
                        self.out.fail(lost, format!("streaming rpc {id} yields {g:?}, its next response is {v:?}, closed {c}, finished {o}"));
                        r.state = St::Ended;
                    }
                }
            }
            None => {}
        }
    }

    fn drop_rpc(&mut self, i: usize) {
        let alive = self.conn.is_some();
        let sending = self.rpcs.iter().filter(|r| r.state == St::Sending).count();
        let full = self.stalled || self.inq + sending >= self.maxq;
        if matches!(self.rpcs[i].state, St::Open | St::Sending) && alive {
            self.inq += 1;
        }
        let r = &mut self.rpcs[i];
        let id = r.id;
        self.out.note(|| format!("drop rpc {id} ({:?})", r.state));
        let c = Msg { id, code: 1, value: 0 };
        match r.state {
            St::Sending => {
                r.sending = None;
                if alive {
                    self.wire.push(Wire::May(c));
                }
            }
            St::Open => {
                r.done = None;
                if alive {
                    self.wire.push(if full { Wire::May(c) } else { Wire::Must(c) });
                }
            }
            _ => {
                r.done = None;
            }
        }
        r.state = St::Gone;
        r.owed = false;
    }

    fn check_wire(&mut self) {
        if self.conn.is_none() {
            return;
        }
        let b = self.peer.lock().written.clone();
        let got = parse_all(&b);
        let mut k = 0;
        for w in &self.wire {
            match w {
                Wire::Must(m) => {
                    if got.get(k) == Some(m) {
                        k += 1;
                    } else {
                        let props: &'static [&'static str] = if m.code == 0 { &["C11"] } else { &["C10"] };
                        let g = got.get(k).copied();
                        let p2: &'static [&'static str] = match g {
                            Some(x) if x.code != 0 => &["C10"],
                            _ => props,
                        };
                        self.out.fail(p2, format!("message {k} sent is {g:?}, expected {m:?}"));
                        return;
                    }
                }
                Wire::May(m) => {
                    if got.get(k) == Some(m) {
                        k += 1;
                    }
                }
            }
        }
        if k < got.len() {
            let props: &'static [&'static str] = if got[k].code == 0 { &["C11"] } else { &["C10"] };
            self.out.fail(props, format!("{:?} is sent although nothing asked for it", got[k]));
        }
        if b.len() % SIZE != 0 {
            self.out.fail(&["C11"], "a message is sent in part");
        }
    }
}

pub fn script(ch: &mut Choices, out: &mut Out) {
    let peer = Peer::default();
    let maxq = ch.pick(&[4, 1, 2, 64]);
    let Some((client, conn)) = open(&peer, ch.pick(&[1 << 16, 64]), maxq) else {
        out.fail(&["C11", "C12"], "connect fails on a good socket");
        return;
    };
    // the futures borrow the client: it is freed at the end, after them
    let raw = Box::into_raw(Box::new(client));
    let client: &'static Client = unsafe { &*raw };
    if !client.is_alive() {
        out.fail(&["C12"], "a new client is not alive");
    }
    peer.grant(1 << 40);
    let flag = Flag::new();
    futures::task::ArcWake::wake_by_ref(&Arc::new(FlagWake(flag.clone())));
    let mut w = World { out, peer, client, conn: Some(conn), flag, rpcs: vec![], wire: vec![], stalled: false, inq: 0, maxq, next: 1 };
    w.run();
    let mut value = 1000u64;
    let steps = ch.range(1, 40);
    for _ in 0..steps {
        let e = ch.below(20);
        w.out.feel(e as u64);
        match e {
            0..=4 => {
                // rarely a crowd of outstanding rpcs
                if ch.chance(80) && w.conn.is_some() && !w.stalled {
                    let stream = ch.chance(2);
                    for _ in 0..ch.range(100, 300) {
                        w.next += 1;
                        let id = w.next;
                        w.start(stream, id);
                        w.run();
                    }
                }
                let stream = ch.chance(2);
                let gone: Vec<u64> = w.rpcs.iter().filter(|r| r.state == St::Gone).map(|r| r.id).filter(|id| !w.rpcs.iter().any(|q| q.id == *id && q.state != St::Gone)).collect();
                let id = if !gone.is_empty() && ch.chance(5) && !w.stalled { gone[ch.below(gone.len())] } else {
                    w.next += 1;
                    match ch.below(8) { 7 => u64::MAX - w.next, _ => w.next }
                };
                w.start(stream, id);
                if ch.chance(2) {
                    w.run();
                }
            }
            5..=9 => {
                // a batch of responses
                let mut b = vec![];
                let burst = ch.chance(6);
                let count = if burst { ch.range(12, 52) } else { ch.range(1, 6) };
                let mut one = None;
                for _ in 0..count {
                    let ids: Vec<u64> = w.rpcs.iter().filter(|r| r.state != St::Sending).map(|r| r.id).filter(|id| !w.rpcs.iter().any(|q| q.id == *id && q.state == St::Sending)).collect();
                    let mut id = if ids.is_empty() || ch.chance(8) { 900_000 + ch.below(3) as u64 } else { ids[ch.below(ids.len())] };
                    value += 1;
                    let mut code = ch.pick(&[0, 0, 0, 0, 1, 2, 2, 77]);
                    if burst {
                        // one stream gets many responses before it is polled
                        id = *one.get_or_insert(id);
                        if !ch.chance(60) {
                            code = 0;
                        }
                    }
                    let m = Msg { id, code, value };
                    b.extend(m.bytes());
                    w.out.note(|| format!("the server sends {m:?}"));
                    if w.conn.is_some() {
                        w.receive(m);
                    }
                }
                w.peer.send(&b);
                w.run();
            }
            10..=13 => {
                if !w.rpcs.is_empty() {
                    let i = ch.below(w.rpcs.len());
                    if w.rpcs[i].state == St::Sending {
                        if w.stalled {
                            continue;
                        }
                        w.poll_send(i)
                    } else {
                        w.poll_done(i)
                    }
                }
            }
            14 | 15 => {
                if !w.rpcs.is_empty() {
                    let i = ch.below(w.rpcs.len());
                    if w.rpcs[i].state != St::Gone {
                        w.drop_rpc(i);
                        if ch.chance(2) {
                            w.run();
                        }
                    }
                }
            }
            16 => {
                w.run();
            }
            17 => {
                // stall or resume the writes
                if !w.stalled && ch.chance(3) {
                    w.run();
                    w.out.note(|| "nothing can be written".into());
                    w.peer.lock().credit = 0;
                    w.stalled = true;
                } else if w.stalled {
                    resume(&mut w);
                }
            }
            18 => {
                if !w.stalled {
                    w.run();
                    w.check_wire();
                }
            }
            _ => {
                if ch.chance(6) && w.conn.is_some() {
                    if w.stalled {
                        resume(&mut w);
                    }
                    w.run();
                    w.check_wire();
                    match ch.below(3) {
                        0 => {
                            w.out.note(|| "end of stream".into());
                            w.peer.eof();
                            w.run();
                        }
                        1 => {
                            w.out.note(|| "the connection is dropped".into());
                            // requests may be waiting in the queue
                            for k in 0..ch.below(3) {
                                w.next += 1;
                                let id = w.next;
                                w.start(k % 2 == 0, id);
                            }
                            w.conn = None;
                            w.killed();
                        }
                        _ => {
                            w.out.note(|| "the server sends garbage".into());
                            w.peer.send(&[1, 2, 3]);
                            w.run();
                        }
                    }
                    if w.conn.is_some() {
                        w.out.fail(&["C12"], "the connection does not end");
                        w.conn = None;
                    }
                }
            }
        }
    }
    if w.stalled {
        resume(&mut w);
    }
    w.run();
    w.check_wire();
    if ch.chance(2) && w.conn.is_some() {
        w.out.note(|| "the connection is dropped".into());
        w.conn = None;
        w.killed();
    }
    for i in 0..w.rpcs.len() {
        match w.rpcs[i].state {
            St::Sending => w.poll_send(i),
            St::Open => {
                for _ in 0..200 {
                    if w.rpcs[i].state != St::Open {
                        break;
                    }
                    w.poll_done(i);
                    if w.rpcs[i].waiting {
                        break;
                    }
                }
            }
            _ => {}
        }
    }
    for i in 0..w.rpcs.len() {
        if w.rpcs[i].state != St::Gone {
            w.drop_rpc(i);
            w.run();
        }
    }
    w.run();
    w.check_wire();
    w.rpcs.clear();
    w.conn = None;
    drop(w);
    drop(unsafe { Box::from_raw(raw) });
}

fn resume(w: &mut World<'_>) {
    w.out.note(|| "everything can be written again".into());
    w.stalled = false;
    w.peer.grant(1 << 40);
    w.run();
    for i in 0..w.rpcs.len() {
        if w.rpcs[i].state == St::Sending {
            w.poll_send(i);
            w.run();
        }
    }
}

struct FlagWake(Arc<Flag>);
impl futures::task::ArcWake for FlagWake {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.waker().wake_by_ref();
    }
}

// ------------------------------------------------------------------ another thread

/// The connection runs on a thread of its own. Whoever wakes it waits (a little) for it to have run: this is the
/// schedule in which the connection's thread is as fast as can be.
struct Eager {
    kick: Mutex<mpsc::Sender<mpsc::Sender<()>>>,
    own: std::thread::ThreadId,
}
impl Wake for Eager {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let (tx, rx) = mpsc::channel();
        let _ = self.kick.lock().unwrap().send(tx);
        if std::thread::current().id() != self.own {
            let _ = rx.recv_timeout(Duration::from_millis(40));
        }
    }
}

pub fn race(ch: &mut Choices, out: &mut Out) {
    let peer = Peer::default();
    let maxq = ch.pick(&[4, 1, 2]);
    let Some((client, mut conn)) = open(&peer, 1 << 16, maxq) else {
        out.fail(&["C11", "C12"], "connect fails on a good socket");
        return;
    };
    peer.grant(1 << 40);
    let die_at = if ch.chance(2) { ch.range(1, 6) } else { usize::MAX };
    let n = ch.range(1, 5);
    let streams: Vec<bool> = (0..n).map(|_| ch.chance(2)).collect();
    out.note(|| format!("connection dies at wake {die_at}, streaming {streams:?}"));
    out.feel((die_at as u64).wrapping_mul(64).wrapping_add(n as u64));
    let (ktx, krx) = mpsc::channel::<mpsc::Sender<()>>();
    let (stx, srx) = mpsc::channel();
    let p = peer.clone();
    let st = streams.clone();
    let quit = ktx.clone();
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let stop2 = stop.clone();
    let h = std::thread::spawn(move || {
        let waker = Waker::from(Arc::new(Eager { kick: Mutex::new(ktx), own: std::thread::current().id() }));
        let mut cx = Context::from_waker(&waker);
        let mut answered = 0;
        let mut wakes = 0;
        let mut dead = false;
        let mut live = conn.as_mut().poll(&mut cx).is_pending();
        let _ = stx.send(());
        let mut holder = Some(conn);
        while let Ok(ack) = krx.recv() {
            if stop2.load(std::sync::atomic::Ordering::SeqCst) {
                break;
            }
            wakes += 1;
            if wakes >= die_at && !dead {
                holder = None;
                dead = true;
            }
            if let (Some(c), true) = (holder.as_mut(), live) {
                for _ in 0..4 {
                    p.lock().calls = 0;
                    if c.as_mut().poll(&mut cx).is_ready() {
                        live = false;
                        break;
                    }
                    // the server answers at once
                    let w = p.lock().written.clone();
                    let ms = parse_all(&w);
                    let mut b = vec![];
                    for m in &ms[answered..] {
                        if m.code == 0 {
                            b.extend(Msg { id: m.id, code: 0, value: m.id + 1 }.bytes());
                            if st.get(m.id as usize).copied().unwrap_or(false) {
                                b.extend(Msg { id: m.id, code: 0, value: m.id + 2 }.bytes());
                                b.extend(Msg { id: m.id, code: 2, value: 0 }.bytes());
                            }
                        }
                    }
                    answered = ms.len();
                    if !b.is_empty() {
                        p.lock().inbound.extend(&b);
                        p.lock().rready = true;
                    }
                }
                if !live {
                    holder = None;
                }
            }
            let _ = ack.send(());
        }
        drop(holder);
    });
    let _ = srx.recv();
    let raw = Box::into_raw(Box::new(client));
    let client: &'static Client = unsafe { &*raw };
    let mut kept = vec![];
    for (i, stream) in streams.iter().enumerate() {
        let mut f = send(client, *stream, Msg { id: i as u64, code: 0, value: 5 });
        let fl = Flag::new();
        let w = fl.waker();
        let mut r = f.as_mut().poll(&mut Context::from_waker(&w));
        let mut k = 0;
        while r.is_pending() && k < 200 {
            kick(&quit);
            r = f.as_mut().poll(&mut Context::from_waker(&w));
            k += 1;
        }
        match r {
            Poll::Pending => out.fail(&["C11", "C12"], "a send hangs"),
            Poll::Ready(Err(e)) => {
                out.note(|| format!("send {i}: {e:?}"));
                if die_at == usize::MAX {
                    out.fail(&["C11"], format!("a send fails with {e:?} on a good connection"));
                }
                if !matches!(e, Error::ConnectionIsClosed) {
                    out.fail(&["C11"], format!("a send fails with {e:?}"));
                }
            }
            Poll::Ready(Ok(d)) => kept.push((i as u64, d)),
        }
    }
    kick(&quit);
    kick(&quit);
    let w = noop();
    let mut cx = Context::from_waker(&w);
    let dies = die_at != usize::MAX;
    let missed: &'static [&'static str] = if dies { &["C11", "C12"] } else { &["C11", "C08"] };
    if dies {
        for _ in 0..8 {
            kick(&quit);
        }
        if client.is_alive() {
            out.fail(&["C12"], "the connection ended but the client says it is alive");
        }
    }
    for (i, d) in kept {
        match d {
            Done::Unary(mut c) => match Pin::new(&mut c).poll(&mut cx) {
                Poll::Ready(Ok(m)) if m.id == i && m.value == i + 1 => {}
                Poll::Ready(Err(Error::CancelledRemotely)) if dies => {}
                r => out.fail(missed, format!("unary rpc {i} yields {r:?}{}", if dies { " after its connection ended" } else { " although it was answered" })),
            },
            Done::Stream(mut c) => {
                let mut k = 0;
                loop {
                    match Pin::new(&mut c).poll_next(&mut cx) {
                        Poll::Ready(Some(Ok(m))) if k < 2 && m.id == i && m.value == i + 1 + k => k += 1,
                        Poll::Ready(Some(Err(Error::Finished))) if k == 2 || dies => break,
                        r => {
                            out.fail(missed, format!("streaming rpc {i} yields {r:?} after {k} responses{}", if dies { ", its connection ended" } else { " although it was answered" }));
                            break;
                        }
                    }
                }
            }
        }
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    kick(&quit);
    drop(quit);
    let _ = h.join();
    drop(unsafe { Box::from_raw(raw) });
}

fn kick(quit: &mpsc::Sender<mpsc::Sender<()>>) {
    let (tx, rx) = mpsc::channel();
    let _ = quit.send(tx);
    let _ = rx.recv_timeout(Duration::from_secs(10));
}

/// lets the other thread go on, and waits (a little) for it to be done
struct Gate {
    go: Mutex<mpsc::Sender<()>>,
    done: Mutex<mpsc::Receiver<()>>,
}
impl Wake for Gate {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let _ = self.go.lock().unwrap().send(());
        let _ = self.done.lock().unwrap().recv_timeout(Duration::from_millis(60));
    }
}

/// One thread is inside of a send (it found the connection alive) while another one drops the connection. The send goes on at
/// the moment the end of the connection resolves an rpc.
pub fn ending(ch: &mut Choices, out: &mut Out) {
    let peer = Peer::default();
    let Some((client, mut conn)) = open(&peer, 1 << 16, ch.pick(&[4, 16, 64])) else {
        out.fail(&["C12"], "connect fails on a good socket");
        return;
    };
    peer.grant(1 << 40);
    let flag = Flag::new();
    let w = flag.waker();
    let taken = ch.chance(2);
    let n = ch.range(1, 3);
    let late_stream = ch.chance(2);
    let nw = noop();
    let mut cx = Context::from_waker(&nw);
    let _ = conn.as_mut().poll(&mut Context::from_waker(&w));
    let raw = Box::into_raw(Box::new(client));
    let client: &'static Client = unsafe { &*raw };
    let mut early = vec![];
    for i in 0..n as u64 {
        let mut f = send(client, ch.chance(2), Msg { id: i, code: 0, value: 5 });
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(Ok(d)) => early.push(d),
            _ => {
                out.fail(&["C11"], "a send fails on a good connection");
                return;
            }
        }
    }
    if taken {
        for _ in 0..4 {
            peer.lock().calls = 0;
            let _ = conn.as_mut().poll(&mut Context::from_waker(&w));
        }
    }
    out.note(|| format!("{n} rpcs, looked at by the connection: {taken}, late one streaming: {late_stream}"));
    out.feel(n as u64 * 4 + taken as u64 * 2 + late_stream as u64);
    let (inside_tx, inside_rx) = mpsc::channel();
    let (go_tx, go_rx) = mpsc::channel();
    let (done_tx, done_rx) = mpsc::channel();
    let go2 = go_tx.clone();
    let h = std::thread::spawn(move || {
        crate::wire::ASKED.with(|a| {
            *a.borrow_mut() = Some(Box::new(move || {
                let _ = inside_tx.send(());
                let _ = go_rx.recv_timeout(Duration::from_secs(5));
            }))
        });
        let nw = noop();
        let mut cx = Context::from_waker(&nw);
        let mut f = send(client, late_stream, Msg { id: 77, code: 0, value: 5 });
        let r = f.as_mut().poll(&mut cx);
        drop(f);
        let _ = done_tx.send(());
        match r {
            Poll::Ready(r) => Some(r),
            Poll::Pending => None,
        }
    });
    let _ = inside_rx.recv_timeout(Duration::from_secs(5));
    let gate = Waker::from(Arc::new(Gate { go: Mutex::new(go2), done: Mutex::new(done_rx) }));
    for (i, d) in early.iter_mut().enumerate() {
        let mut gcx = Context::from_waker(if i == 0 { &gate } else { &nw });
        let _ = match d {
            Done::Unary(c) => Pin::new(c).poll(&mut gcx).is_pending(),
            Done::Stream(c) => Pin::new(c).poll_next(&mut gcx).is_pending(),
        };
    }
    drop(conn);
    let _ = go_tx.send(());
    let late = h.join();
    early.extend(match late {
        Ok(Some(Ok(d))) => Some(d),
        Ok(Some(Err(Error::ConnectionIsClosed))) => None,
        Ok(Some(Err(e))) => {
            out.fail(&["C11"], format!("a send fails with {e:?}"));
            None
        }
        Ok(None) => {
            out.fail(&["C11", "C12"], "a send hangs although the connection ended");
            None
        }
        Err(_) => {
            out.fail(&["C11", "C12"], "a send panics");
            None
        }
    });
    for (i, d) in early.iter_mut().enumerate() {
        let hangs = match d {
            Done::Unary(c) => Pin::new(c).poll(&mut cx).is_pending(),
            Done::Stream(c) => Pin::new(c).poll_next(&mut cx).is_pending(),
        };
        if hangs {
            out.fail(&["C12"], format!("the connection ended, but {} hangs", if i < n { "an rpc" } else { "the rpc that was being sent at that moment" }));
        }
    }
    drop(early);
    drop(unsafe { Box::from_raw(raw) });
}

/// the client goes before its completions
pub fn gone(ch: &mut Choices, out: &mut Out) {
    let peer = Peer::default();
    let n = ch.range(1, 5);
    let Some((client, mut conn)) = open(&peer, 1 << 16, 16) else {
        out.fail(&["C10"], "connect fails on a good socket");
        return;
    };
    peer.grant(1 << 40);
    let flag = Flag::new();
    let w = flag.waker();
    let mut over = false;
    let run = |conn: &mut Task, over: &mut bool| {
        for _ in 0..30 {
            if *over || !flag.take() {
                break;
            }
            peer.lock().calls = 0;
            *over = conn.as_mut().poll(&mut Context::from_waker(&w)).is_ready();
        }
    };
    w.wake_by_ref();
    run(&mut conn, &mut over);
    let nw = noop();
    let mut cx = Context::from_waker(&nw);
    let mut open_ = vec![];
    let mut want = vec![];
    for i in 0..n as u64 {
        let id = i * 3 + 1;
        let stream = ch.chance(2);
        let m = Msg { id, code: 0, value: 5 };
        want.push(m);
        if stream {
            let mut f = Box::pin(client.send_streaming(m));
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(Ok(c)) => open_.push((id, Done::Stream(c))),
                _ => return,
            }
        } else {
            let mut f = Box::pin(client.send_unary(m));
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(Ok(c)) => open_.push((id, Done::Unary(c))),
                _ => return,
            }
        }
    }
    if ch.chance(2) {
        run(&mut conn, &mut over);
    }
    drop(client);
    if ch.chance(4) {
        // the connection ends before or after it looked at the rpcs
        if ch.chance(2) {
            run(&mut conn, &mut over);
        }
        drop(conn);
        for (id, d) in &mut open_ {
            let hangs = match d {
                Done::Unary(c) => Pin::new(c).poll(&mut cx).is_pending(),
                Done::Stream(c) => Pin::new(c).poll_next(&mut cx).is_pending(),
            };
            if hangs {
                out.fail(&["C12"], format!("the client and its connection are gone, rpc {id} hangs"));
            }
        }
        out.feel(n as u64);
        return;
    }
    run(&mut conn, &mut over);
    let mut shape = n as u64;
    while !open_.is_empty() {
        let (id, d) = open_.swap_remove(ch.below(open_.len()));
        let what = ch.below(3);
        shape = shape * 3 + what as u64;
        if what > 0 {
            peer.send(&Msg { id, code: 0, value: 9 }.bytes());
            run(&mut conn, &mut over);
        }
        match d {
            Done::Unary(mut c) => {
                if what == 2 {
                    match Pin::new(&mut c).poll(&mut cx) {
                        Poll::Ready(Ok(m)) if m.id == id && m.value == 9 => {}
                        r => out.fail(&["C08", "C09"], format!("the client is gone, unary rpc {id} yields {r:?} although it was answered")),
                    }
                } else {
                    want.push(Msg { id, code: 1, value: 0 });
                }
                drop(c);
            }
            Done::Stream(mut c) => {
                if what == 2 {
                    match Pin::new(&mut c).poll_next(&mut cx) {
                        Poll::Ready(Some(Ok(m))) if m.id == id && m.value == 9 => {}
                        r => out.fail(&["C08", "C09"], format!("the client is gone, streaming rpc {id} yields {r:?} although it was answered")),
                    }
                    if ch.chance(2) {
                        peer.send(&Msg { id, code: 2, value: 0 }.bytes());
                        run(&mut conn, &mut over);
                        match Pin::new(&mut c).poll_next(&mut cx) {
                            Poll::Ready(Some(Err(Error::Finished))) => {}
                            r => out.fail(&["C08", "C09"], format!("the client is gone, streaming rpc {id} yields {r:?} although it ended")),
                        }
                    } else {
                        want.push(Msg { id, code: 1, value: 0 });
                    }
                } else {
                    want.push(Msg { id, code: 1, value: 0 });
                }
                drop(c);
            }
        }
        run(&mut conn, &mut over);
    }
    out.feel(shape);
    let wire = parse_all(&peer.lock().written);
    if wire != want {
        out.fail(&["C10"], format!("the client is gone: {wire:?} is sent, expected {want:?}"));
    }
}
