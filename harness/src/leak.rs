//! C20: what finished rpcs leave behind, counted in bytes of live memory.
use crate::choices::{Choices, Flag, Out};
use crate::rpc_client::open;
use crate::rpc_server::in_runtime;
use crate::service::{settle, value, Service, STREAM, UNARY, UNKNOWN};
use crate::wire::Msg;
use futures::Stream;
use protosocket_rpc::server::SocketRpcServer;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::mock::{Door, Peer};

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

/// The system's allocator, counting the bytes each thread holds.
pub struct Counting;

fn count(n: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

fn live() -> isize {
    LIVE.with(|l| l.get())
}

const WARM: u64 = 300;
const ROUNDS: u64 = 1200;
/// less than a machine word for each rpc
const ALLOWED: isize = 4096;

pub fn client(ch: &mut Choices, out: &mut Out) {
    let peer = Peer::default();
    let Some((client, mut conn)) = open(&peer, 1 << 16, 64) else {
        out.fail(&["C20"], "connect fails on a good socket");
        return;
    };
    peer.grant(1 << 60);
    let mode = ch.below(14);
    let each = ch.range(1, 3) as u64;
    let step = ch.pick(&[1u64, 7, u64::MAX]);
    out.feel(mode as u64 * 8 + each);
    out.note(|| format!("client, mode {mode}, {each} rpcs at a time"));
    let flag = Flag::new();
    let w = flag.waker();
    let mut cx = Context::from_waker(&w);
    let noop = futures::task::noop_waker();
    let mut nx = Context::from_waker(&noop);
    let mut before = 0;
    for round in 0..WARM + ROUNDS {
        if round == WARM {
            before = live();
        }
        {
            let mut p = peer.lock();
            p.written.clear();
            p.handed.clear();
            p.calls = 0;
        }
        let ids: Vec<u64> = (0..each).map(|k| (10 + round * each + k).wrapping_mul(step)).collect();
        let stream = matches!(mode, 4..=7 | 12 | 13);
        let (mut us, mut ss) = (vec![], vec![]);
        for id in &ids {
            let m = Msg { id: *id, code: 0, value: 1 };
            if stream {
                let mut f = Box::pin(client.send_streaming(m));
                match f.as_mut().poll(&mut nx) {
                    Poll::Ready(Ok(c)) => ss.push(c),
                    _ => return,
                }
            } else {
                let mut f = Box::pin(client.send_unary(m));
                match f.as_mut().poll(&mut nx) {
                    Poll::Ready(Ok(c)) => us.push(c),
                    _ => return,
                }
            }
        }
        let mut b = vec![];
        let mut say = |id: u64, code: u8| b.extend(Msg { id, code, value: 9 }.bytes());
        if matches!(mode, 9 | 11 | 13) {
            us.clear(); // dropped before the connection ever saw them
            ss.clear();
        }
        for id in &ids {
            match mode {
                0 => say(*id, 0),
                1 => say(*id, 2),
                2 => say(*id, 1),
                3 => {}
                10..=13 => say(*id ^ (1 << 40), 0), // nothing ever comes for the rpc itself
                4 => { say(*id, 0); say(*id, 0); say(*id, 2) }
                5 => say(*id, 0),
                6 => { say(*id, 0); say(*id, 1) }
                7 => say(*id, 2),
                8 => { say(*id, 0); say(*id, 0); say(*id ^ (1 << 40), 0); say(*id, 2) }
                _ => say(*id, 0),
            }
        }
        let _ = conn.as_mut().poll(&mut cx);
        peer.send(&b);
        for _ in 0..20 {
            if !flag.is() {
                break;
            }
            flag.take();
            if conn.as_mut().poll(&mut cx).is_ready() {
                return;
            }
        }
        for u in &mut us {
            if mode != 8 {
                let _ = Pin::new(u).poll(&mut nx);
            }
        }
        for s in &mut ss {
            for _ in 0..6 {
                if mode != 7 {
                    let _ = Pin::new(&mut *s).poll_next(&mut nx);
                }
            }
        }
        drop(us);
        drop(ss);
        if mode == 3 || mode == 5 || mode >= 10 {
            // what comes for an rpc that is gone, or for none
            let mut b = vec![];
            for id in &ids {
                let id = if mode >= 10 { *id ^ (1 << 41) } else { *id };
                b.extend(Msg { id, code: 0, value: 9 }.bytes());
            }
            peer.send(&b);
        }
        for _ in 0..20 {
            if !flag.is() {
                break;
            }
            flag.take();
            if conn.as_mut().poll(&mut cx).is_ready() {
                return;
            }
        }
    }
    let after = live();
    if after - before > ALLOWED {
        let p: &'static [&'static str] = if mode == 3 || mode >= 9 { &["C20", "C10"] } else { &["C20"] };
        out.fail(p, format!("mode {mode}: {ROUNDS} rounds of {each} finished rpcs leave {} bytes behind in the client", after - before));
    }
}

pub fn server(ch: &mut Choices, out: &mut Out) {
    in_runtime(serve(ch, out));
}

async fn serve(ch: &mut Choices, out: &mut Out) {
    let door = Door::default();
    tokio::mock::next_bind(Ok(door.clone()));
    let service = Service::default();
    let Ok(mut server) = SocketRpcServer::new("127.0.0.1:9".parse().unwrap(), service.clone()).await else {
        out.fail(&["C20"], "cannot listen");
        return;
    };
    let peer = Peer::default();
    door.knock(Ok((peer.clone(), "127.0.0.1:5".parse().unwrap())));
    let noop = futures::task::noop_waker();
    if Pin::new(&mut server).poll(&mut Context::from_waker(&noop)).is_ready() {
        out.fail(&["C20"], "the server finishes");
        return;
    }
    peer.grant(1 << 60);
    let mode = ch.below(9);
    let each = ch.range(1, 3) as u64;
    let step = ch.pick(&[1u64, 7, u64::MAX]);
    out.feel(100 + mode as u64 * 8 + each);
    out.note(|| format!("server, mode {mode}, {each} rpcs at a time"));
    let rest = || {
        let (p, s) = (peer.clone(), service.clone());
        settle(move || {
            let k = p.lock();
            let t = s.lock().ticks;
            (k.calls as u64).wrapping_mul(1 << 20).wrapping_add(t)
        })
    };
    rest().await;
    let conn = service.lock().conns.first().cloned();
    let Some(conn) = conn else {
        out.fail(&["C20"], "no service was asked for");
        return;
    };
    let mut before = 0;
    for round in 0..WARM + ROUNDS {
        if round == WARM {
            before = live();
        }
        {
            let mut p = peer.lock();
            p.written.clear();
            p.handed.clear();
            p.calls = 0;
            let mut c = conn.lock().unwrap();
            c.requests.clear();
            c.rpcs.clear();
        }
        let ids: Vec<u64> = (0..each).map(|k| (10 + round * each + k).wrapping_mul(step)).collect();
        let mut b = vec![];
        let mut say = |id: u64, code: u8, value: u64| b.extend(Msg { id, code, value }.bytes());
        for id in &ids {
            match mode {
                0 => say(*id, 0, value(UNARY, 1, true, 0)),
                1 => say(*id, 0, value(UNARY, 0, false, 0)),
                2 => { say(*id, 0, value(UNARY, 0, false, 0)); say(*id, 1, 0) }
                3 => say(*id, 0, value(STREAM, 2, true, 0)),
                4 => say(*id, 0, value(STREAM, 2, false, 0)),
                5 => { say(*id, 0, value(STREAM, 0, false, 0)); say(*id, 1, 0) }
                6 => say(*id, 1, 0),
                7 => say(*id, 0, value(UNKNOWN, 0, false, 0)),
                _ => { say(*id, 0, value(STREAM, 1, true, 0)); say(*id, 2, 0) }
            }
        }
        peer.send(&b);
        rest().await;
        // finish what is open
        let rpcs = conn.lock().unwrap().rpcs.clone();
        for r in &rpcs {
            let mut r = r.lock().unwrap();
            if mode == 1 {
                r.ready.push_back(5);
            }
            if let Some(w) = r.waker.take() {
                w.wake();
            }
        }
        drop(rpcs);
        if matches!(mode, 4 | 0) {
            // cancelled in the middle, or too late
            let b: Vec<u8> = ids.iter().flat_map(|id| Msg { id: *id, code: 1, value: 0 }.bytes()).collect();
            peer.send(&b);
        }
        rest().await;
    }
    {
        let mut c = conn.lock().unwrap();
        c.requests.clear();
        c.rpcs.clear();
    }
    let after = live();
    if after - before > ALLOWED {
        out.fail(&["C20"], format!("mode {mode}: {ROUNDS} rounds of {each} finished rpcs leave {} bytes behind in the server", after - before));
    }
    peer.eof();
    rest().await;
    drop(server);
}
