//! An rpc service whose rpcs do what the scenario says, and which writes down what happens to them.
use crate::wire::{Codec, Msg};
use futures::Stream;
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketService};
use std::collections::VecDeque;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};

pub const UNARY: u64 = 0;
pub const STREAM: u64 = 1;
pub const UNKNOWN: u64 = 2;

/// a service may use the codes as it likes
pub fn code(v: u64) -> u8 {
    if v % 11 == 5 { (v / 11 % 3) as u8 } else { 0 }
}

#[derive(Default, Debug)]
pub struct RpcState {
    pub id: u64,
    pub kind: u64,
    pub ready: VecDeque<u64>,
    pub done: bool,
    pub waker: Option<Waker>,
    pub polls: usize,
    pub taken: Vec<u64>,
    pub over: bool,
    pub polled_after: bool,
    pub dropped: usize,
    /// wire order of everything taken, per connection
    pub cancelled: bool,
    pub frozen: Option<usize>,
}

#[derive(Default, Debug)]
pub struct ConnState {
    pub address: Option<SocketAddr>,
    pub requests: Vec<Msg>,
    pub rpcs: Vec<Arc<Mutex<RpcState>>>,
    pub dropped: usize,
}

#[derive(Default, Debug)]
pub struct Shared {
    pub conns: Vec<Arc<Mutex<ConnState>>>,
    pub decoders: usize,
    pub encoders: usize,
    pub items: u64,
    pub ticks: u64,
    /// responses with other control codes
    pub codes: bool,
}

#[derive(Clone, Default, Debug)]
pub struct Service(pub Arc<Mutex<Shared>>);

impl Service {
    pub fn lock(&self) -> MutexGuard<'_, Shared> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn tick(&self) {
        self.lock().ticks += 1;
    }
}

impl SocketService for Service {
    type RequestDeserializer = Codec;
    type ResponseSerializer = Codec;
    type ConnectionService = PerConnection;
    fn deserializer(&self) -> Codec {
        self.lock().decoders += 1;
        Codec
    }
    fn serializer(&self) -> Codec {
        self.lock().encoders += 1;
        Codec
    }
    fn new_connection_service(&self, address: SocketAddr) -> PerConnection {
        let c = Arc::new(Mutex::new(ConnState { address: Some(address), ..Default::default() }));
        self.lock().conns.push(c.clone());
        self.tick();
        PerConnection { s: self.clone(), c }
    }
}

#[derive(Debug)]
pub struct PerConnection {
    s: Service,
    c: Arc<Mutex<ConnState>>,
}

impl Drop for PerConnection {
    fn drop(&mut self) {
        self.c.lock().unwrap().dropped += 1;
        self.s.tick();
    }
}

/// kind, items ready at once, and whether there will be no more
pub fn value(kind: u64, items: u64, done: bool, tag: u64) -> u64 {
    kind + 3 * items + 12 * done as u64 + 24 * tag
}

impl ConnectionService for PerConnection {
    type Request = Msg;
    type Response = Msg;
    type UnaryFutureType = One;
    type StreamType = Many;
    fn new_rpc(&mut self, m: Msg) -> RpcKind<One, Many> {
        let kind = m.value % 3;
        let n = (m.value / 3) % 4;
        let done = (m.value / 12) % 2 == 1;
        let mut r = RpcState { id: m.id, kind, done, ..Default::default() };
        {
            let mut s = self.s.lock();
            s.ticks += 1;
            for _ in 0..n {
                s.items += 1;
                r.ready.push_back(s.items);
                if kind == UNARY {
                    break;
                }
            }
        }
        let r = Arc::new(Mutex::new(r));
        let mut c = self.c.lock().unwrap();
        c.requests.push(m);
        c.rpcs.push(r.clone());
        drop(c);
        match kind {
            UNARY => RpcKind::Unary(One(Body { s: self.s.clone(), r })),
            STREAM => RpcKind::Streaming(Many(Body { s: self.s.clone(), r })),
            _ => RpcKind::Unknown,
        }
    }
}

#[derive(Debug)]
struct Body {
    s: Service,
    r: Arc<Mutex<RpcState>>,
}

impl Drop for Body {
    fn drop(&mut self) {
        self.r.lock().unwrap().dropped += 1;
        self.s.tick();
    }
}

#[derive(Debug)]
pub struct One(Body);
#[derive(Debug)]
pub struct Many(Body);

impl Future for One {
    type Output = Msg;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Msg> {
        self.0.s.tick();
        let codes = self.0.s.lock().codes;
        let mut r = self.0.r.lock().unwrap();
        r.polls += 1;
        if r.over {
            r.polled_after = true;
        }
        match r.ready.pop_front() {
            Some(v) => {
                r.over = true;
                r.taken.push(v);
                Poll::Ready(Msg { id: r.id, code: if codes { code(v) } else { 0 }, value: v })
            }
            None => {
                r.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl Stream for Many {
    type Item = Msg;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Msg>> {
        self.0.s.tick();
        let codes = self.0.s.lock().codes;
        let mut r = self.0.r.lock().unwrap();
        r.polls += 1;
        if r.over {
            r.polled_after = true;
        }
        match r.ready.pop_front() {
            Some(v) => {
                r.taken.push(v);
                Poll::Ready(Some(Msg { id: r.id, code: if codes { code(v) } else { 0 }, value: v }))
            }
            None if r.done => {
                r.over = true;
                Poll::Ready(None)
            }
            None => {
                r.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

/// let the runtime run until nothing happens any more
pub async fn settle<F: FnMut() -> u64>(mut tick: F) {
    let mut last = tick();
    let mut idle = 0;
    let mut n = 0;
    while idle < 10 && n < 4000 {
        tokio::task::yield_now().await;
        let t = tick();
        if t == last {
            idle += 1;
        } else {
            idle = 0;
            last = t;
        }
        n += 1;
    }
}
