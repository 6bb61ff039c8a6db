//! C13..C16: an rpc server's connection over a scripted socket.
use crate::choices::{Choices, Out};
use crate::service::{code, settle, value, RpcState, Service, STREAM, UNARY, UNKNOWN};
use crate::wire::{parse_all, Msg, SIZE};
use protosocket_rpc::server::SocketRpcServer;
use std::io::ErrorKind;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Context;
use std::future::Future;
use tokio::mock::{Door, Peer};

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
}

/// A fresh runtime for every run would be slow: tasks of a run end with its connections.
pub fn in_runtime<T>(f: impl Future<Output = T>) -> T {
    RT.with(|rt| rt.block_on(f))
}

struct World<'a> {
    out: &'a mut Out,
    peer: Peer,
    service: Service,
    sent: Vec<Msg>,
    stalled: bool,
    maxq: usize,
    dups: bool,
}

impl World<'_> {
    async fn settle(&mut self) {
        self.peer.lock().calls = 0;
        let (p, s) = (self.peer.clone(), self.service.clone());
        settle(move || {
            let k = p.lock();
            let t = s.lock().ticks;
            (k.calls as u64).wrapping_mul(1 << 20).wrapping_add(t)
        })
        .await;
        // what was cancelled must not run any more
        for r in self.rpcs() {
            let mut r = r.lock().unwrap();
            if r.cancelled && r.frozen.is_none() {
                r.frozen = Some(r.polls);
            }
        }
    }

    fn rpcs(&self) -> Vec<Arc<Mutex<RpcState>>> {
        let s = self.service.lock();
        match s.conns.first() {
            Some(c) => c.lock().unwrap().rpcs.clone(),
            None => vec![],
        }
    }

    fn check_started(&mut self, all: bool) {
        let Some(c) = self.service.lock().conns.first().cloned() else {
            self.out.fail(&["C13"], "no service was asked for");
            return;
        };
        let got = c.lock().unwrap().requests.clone();
        let want: Vec<Msg> = self.sent.iter().filter(|m| m.code == 0).copied().collect();
        let ok = if all { got == want } else { want.starts_with(&got) };
        if !ok {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            self.out.fail(&["C13"], format!("request {k}: the service was given {:?}, expected {:?}", got.get(k), want.get(k)));
        }
    }

    /// everything settled and nothing blocks the writes
    fn check(&mut self) {
        self.check_started(true);
        let w = self.peer.lock().written.clone();
        let wire = parse_all(&w);
        if w.len() % SIZE != 0 {
            self.out.fail(&["C14"], "a response is written in part");
        }
        let rpcs = self.rpcs();
        let mut ids = vec![];
        for r in &rpcs {
            let mut r = r.lock().unwrap();
            let id = r.id;
            if !ids.contains(&id) {
                ids.push(id);
            }
            if r.polled_after {
                self.out.fail(&["C14", "C15"], format!("rpc {id} is polled after it finished"));
                r.polled_after = false;
            }
            if r.kind == UNKNOWN {
                continue;
            }
            if r.cancelled {
                if r.frozen.is_some_and(|p| p != r.polls) {
                    self.out.fail(&["C15"], format!("rpc {id} is polled after it was cancelled"));
                }
                if r.dropped == 0 {
                    self.out.fail(&["C15"], format!("rpc {id} was cancelled but not dropped"));
                }
            } else {
                if !r.over && !r.ready.is_empty() {
                    self.out.fail(&["C14", "C16"], format!("rpc {id} has a response that nobody takes"));
                } else if !r.over && r.done && r.kind == STREAM {
                    self.out.fail(&["C14", "C16"], format!("rpc {id} has ended but nobody asks"));
                }
                if r.over && r.dropped == 0 {
                    self.out.fail(&["C15", "C14"], format!("rpc {id} finished but is not dropped"));
                }
                if !r.over && r.dropped > 0 {
                    self.out.fail(&["C13", "C14"], format!("rpc {id} is dropped although it neither finished nor was cancelled"));
                }
            }
            if r.dropped > 1 {
                self.out.fail(&["C15"], "dropped twice");
            }
        }
        for m in &wire {
            if !ids.contains(&m.id) {
                self.out.fail(&["C14"], format!("{m:?} is sent for an rpc that does not exist"));
                return;
            }
        }
        for id in ids {
            let got: Vec<Msg> = wire.iter().filter(|m| m.id == id).copied().collect();
            let mut want = vec![];
            let mut cancelled = false;
            for r in &rpcs {
                let r = r.lock().unwrap();
                if r.id != id {
                    continue;
                }
                cancelled |= r.cancelled;
                want.extend(r.taken.iter().map(|v| Msg { id, code: code(*v), value: *v }));
                if r.kind == STREAM && r.over {
                    want.push(Msg { id, code: 2, value: 0 });
                }
            }
            let got = if self.dups { sorted(got) } else { got };
            let want = if self.dups { sorted(want) } else { want };
            if got != want {
                let p: &'static [&'static str] = if cancelled { &["C14", "C15"] } else { &["C14"] };
                let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                self.out.fail(p, format!("rpc {id}: message {k} sent is {:?}, expected {:?}", got.get(k), want.get(k)));
            }
        }
    }

    fn check_stalled(&mut self) {
        let mut produced = 0;
        for r in self.rpcs() {
            let r = r.lock().unwrap();
            produced += r.taken.len() + (r.kind == STREAM && r.over) as usize;
        }
        let written = self.peer.lock().written.len() / SIZE;
        if produced > written + 3 * self.maxq + 4 {
            self.out.fail(&["C14"], format!("{produced} responses are taken from their rpcs, {written} are written, the queue is limited to {}", self.maxq));
        }
        for r in self.rpcs() {
            let r = r.lock().unwrap();
            if r.cancelled && r.frozen.is_some_and(|p| p != r.polls) {
                self.out.fail(&["C15"], format!("rpc {} is polled after it was cancelled", r.id));
            }
        }
    }

    fn check_gone(&mut self, why: &str) {
        let c = self.service.lock().conns.first().cloned();
        if let Some(c) = c {
            let c = c.lock().unwrap();
            if c.dropped == 0 {
                self.out.fail(&["C16"], format!("the server does not finish: {why}"));
            }
            for r in &c.rpcs {
                let r = r.lock().unwrap();
                if r.kind != UNKNOWN && r.dropped == 0 {
                    self.out.fail(&["C16"], format!("rpc {} outlives its connection: {why}", r.id));
                }
            }
        }
        if !self.peer.lock().closed {
            self.out.fail(&["C16"], format!("the connection does not finish: {why}"));
        }
    }
}

fn sorted(mut v: Vec<Msg>) -> Vec<Msg> {
    v.sort_by_key(|m| (m.value, m.code));
    v
}

pub fn script(ch: &mut Choices, out: &mut Out) {
    in_runtime(run(ch, out));
}

async fn run(ch: &mut Choices, out: &mut Out) {
    let door = Door::default();
    tokio::mock::next_bind(Ok(door.clone()));
    let service = Service::default();
    service.lock().codes = true;
    let mut server = match SocketRpcServer::new("127.0.0.1:9".parse().unwrap(), service.clone()).await {
        Ok(s) => s,
        Err(e) => {
            out.fail(&["C13"], format!("cannot listen: {e:?}"));
            return;
        }
    };
    let maxq = ch.pick(&[4, 1, 2, 128]);
    server.set_max_buffer_length(ch.pick(&[1 << 16, 64, 1000]));
    server.set_max_queued_outbound_messages(maxq);
    let peer = Peer::default();
    door.knock(Ok((peer.clone(), "127.0.0.1:5".parse().unwrap())));
    let waker = futures::task::noop_waker();
    if Pin::new(&mut server).poll(&mut Context::from_waker(&waker)).is_ready() {
        out.fail(&["C13"], "the server finishes");
        return;
    }
    peer.grant(1 << 40);
    let mut w = World { out, peer, service, sent: vec![], stalled: false, maxq, dups: false };
    w.settle().await;
    let mut next = 0u64;
    let mut tag = 0;
    let mut ended = false;
    let steps = ch.range(1, 24);
    // several unary rpcs may have the same id: each has its response
    let dups = ch.chance(8);
    w.dups = dups;
    for _ in 0..steps {
        let e = ch.below(16);
        w.out.feel(e as u64);
        match e {
            0..=5 => {
                // a batch of messages
                let n = if ch.chance(10) { ch.range(100, 300) } else { ch.range(1, 12) };
                let mut b = vec![];
                // outstanding ids as the peer may know them
                let mut open: Vec<u64> = vec![];
                let mut used: Vec<u64> = vec![];
                for r in w.rpcs() {
                    let r = r.lock().unwrap();
                    used.push(r.id);
                    if r.kind == UNKNOWN {
                        continue;
                    }
                    open.retain(|i| *i != r.id);
                    if !r.cancelled && !r.over {
                        open.push(r.id);
                    }
                }
                // rarely a crowd of outstanding rpcs before the batch
                if !dups && ch.chance(400) {
                    let kind = ch.pick(&[UNARY, STREAM]);
                    for _ in 0..ch.pick(&[300, 1100]) {
                        tag += 1;
                        next += 1;
                        let m = Msg { id: next, code: 0, value: value(kind, 0, false, tag) };
                        b.extend(m.bytes());
                        w.sent.push(m);
                        open.push(next);
                        used.push(next);
                    }
                    w.out.note(|| format!("the client sends requests up to {next}"));
                }
                let mut late: Vec<u64> = vec![];
                for _ in 0..n {
                    tag += 1;
                    let k = ch.below(8);
                    let m = if k < 5 || dups {
                        let back: Vec<u64> = used.iter().chain(&late).filter(|i| !open.contains(i)).copied().collect();
                        let id = if !back.is_empty() && ch.chance(4) && !w.stalled {
                            back[ch.below(back.len())]
                        } else if dups && !used.is_empty() && ch.chance(2) {
                            used[ch.below(used.len())]
                        } else {
                            next += 1;
                            if ch.chance(8) { u64::MAX - next } else { next }
                        };
                        let kind = if dups { ch.pick(&[UNARY, UNARY, UNKNOWN]) } else { ch.pick(&[UNARY, STREAM, UNARY, STREAM, UNKNOWN]) };
                        let id = if kind == UNKNOWN && !open.is_empty() && ch.chance(3) { open[ch.below(open.len())] } else { id };
                        if kind != UNKNOWN {
                            open.push(id);
                        }
                        used.push(id);
                        Msg { id, code: 0, value: value(kind, ch.below(4) as u64, ch.chance(3), tag) }
                    } else if k < 7 {
                        // a cancel, of an open, an unknown or a finished rpc
                        let id = if !open.is_empty() && !ch.chance(5) {
                            open[ch.below(open.len())]
                        } else if !used.is_empty() && ch.chance(2) {
                            used[ch.below(used.len())]
                        } else {
                            777_777
                        };
                        open.retain(|i| *i != id);
                        late.push(id);
                        Msg { id, code: ch.pick(&[1, 1, 9]), value: 0 }
                    } else {
                        let id = if used.is_empty() { 5 } else { used[ch.below(used.len())] };
                        Msg { id, code: 2, value: 0 }
                    };
                    w.out.note(|| format!("the client sends {m:?}"));
                    b.extend(m.bytes());
                    w.sent.push(m);
                }
                let cut = if ch.chance(3) { ch.below(b.len()) } else { b.len() };
                w.peer.send(&b[..cut]);
                if cut < b.len() {
                    if ch.chance(2) {
                        w.settle().await;
                    } else {
                        tokio::task::yield_now().await;
                    }
                    w.peer.send(&b[cut..]);
                }
                w.settle().await;
                // which rpcs were cancelled: replay the messages
                mark(&w.sent, &w.rpcs());
                w.settle().await;
            }
            6..=9 => {
                let rs = w.rpcs();
                if rs.is_empty() {
                    continue;
                }
                for _ in 0..ch.range(1, 4) {
                    let r = &rs[ch.below(rs.len())];
                    let wk = {
                        let mut r = r.lock().unwrap();
                        if r.done || (r.kind == UNARY && (r.over || !r.ready.is_empty())) {
                            r.waker.take()
                        } else {
                            let n = if r.kind == UNARY { 1 } else { ch.below(4) };
                            for _ in 0..n {
                                let v = {
                                    let mut s = w.service.lock();
                                    s.items += 1;
                                    s.items
                                };
                                r.ready.push_back(v);
                            }
                            if r.kind == STREAM && ch.chance(3) {
                                r.done = true;
                            }
                            w.out.note(|| format!("rpc {} has {n} more, done {}", r.id, r.done));
                            r.waker.take()
                        }
                    };
                    if let Some(wk) = wk {
                        wk.wake();
                    }
                }
                if !ch.chance(3) {
                    w.settle().await;
                }
            }
            10 | 11 => {
                if w.stalled {
                    let n = ch.pick(&[SIZE, 1, 7, SIZE * 3]);
                    w.out.note(|| format!("{n} bytes can be written"));
                    w.peer.grant(n);
                    w.settle().await;
                    w.check_stalled();
                } else if ch.chance(2) {
                    w.settle().await;
                    w.out.note(|| "nothing can be written".into());
                    w.peer.lock().credit = 0;
                    w.stalled = true;
                }
            }
            12 => {
                if w.stalled {
                    resume(&mut w).await;
                }
            }
            13 => {
                w.settle().await;
                if w.stalled {
                    w.check_stalled();
                } else {
                    w.check();
                }
            }
            14 => {
                w.peer.lock().rchunks.extend((0..8).map(|i| [1, 18, 30, 500][(tag as usize + i) % 4]));
            }
            _ => {
                if ch.chance(8) {
                    ended = true;
                    break;
                }
            }
        }
    }
    if ended {
        match ch.below(3) {
            0 => {
                w.out.note(|| "the client closes its end".into());
                w.peer.eof();
                w.settle().await;
                w.check_started(false);
                w.check_gone("the peer ended its stream");
            }
            1 => {
                w.out.note(|| "the client sends garbage".into());
                w.peer.send(&[1, 2, 3]);
                w.settle().await;
                w.check_started(false);
                w.check_gone("the peer sent garbage");
            }
            _ => {
                // a failed write, once there is something to write
                w.peer.lock().credit = 0;
                w.peer.write_error(ErrorKind::BrokenPipe);
                let m = Msg { id: 999_999, code: 0, value: value(UNARY, 1, false, 1) };
                w.out.note(|| "writes fail, and a response is ready".into());
                w.peer.send(&m.bytes());
                w.sent.push(m);
                w.settle().await;
                w.check_started(false);
                w.check_gone("the peer is gone");
            }
        }
    } else {
        if w.stalled {
            resume(&mut w).await;
        }
        w.settle().await;
        w.check();
    }
    // leave nothing behind
    w.peer.eof();
    w.peer.grant(1 << 40);
    w.settle().await;
    if !ended {
        w.check_gone("the peer ended its stream");
    }
    drop(server);
    w.settle().await;
}

async fn resume(w: &mut World<'_>) {
    w.out.note(|| "everything can be written again".into());
    w.stalled = false;
    w.peer.grant(1 << 40);
    w.settle().await;
    w.check();
}

/// mark the rpcs that a cancel was sent for while they were the newest with their id
fn mark(sent: &[Msg], rpcs: &[Arc<Mutex<RpcState>>]) {
    let mut k = 0;
    for m in sent {
        if m.code == 0 {
            k += 1;
        } else if m.code != 2 {
            for r in rpcs[..k.min(rpcs.len())].iter().rev() {
                let mut r = r.lock().unwrap();
                if r.id == m.id && r.kind != UNKNOWN {
                    r.cancelled |= !r.over;
                    break;
                }
            }
        }
    }
}
