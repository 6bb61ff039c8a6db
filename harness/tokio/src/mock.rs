//! Scripted sockets: the environment decides what is readable and writable and when tasks are woken.
//! Readiness follows tokio: it is cleared by an operation that would block, and a task is woken
//! only if it registered by getting Pending.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, IoSlice, IoSliceMut, Result};
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};

#[derive(Default, Debug)]
pub struct Sock {
    pub inbound: VecDeque<u8>,
    pub eof: bool,
    pub rerr: Option<ErrorKind>,
    pub rready: bool,
    pub rready_err: bool,
    pub rwaker: Option<Waker>,
    /// sizes of the next reads
    pub rchunks: VecDeque<usize>,
    pub rinterrupts: usize,
    pub handed: Vec<u8>,
    pub saw_eof: bool,
    pub saw_rerr: bool,
    pub offered: usize,
    /// most buffers in one write
    pub slices: usize,

    pub credit: usize,
    pub werr: Option<ErrorKind>,
    pub wzero: bool,
    pub wready: bool,
    pub wready_err: bool,
    pub wwaker: Option<Waker>,
    pub wchunks: VecDeque<usize>,
    pub winterrupts: usize,
    pub written: Vec<u8>,
    pub saw_werr: bool,

    pub nodelay: Option<bool>,
    pub nodelay_fails: bool,
    pub closed: bool,
    pub calls: usize,
}

/// The environment's end of a socket
#[derive(Clone, Default, Debug)]
pub struct Peer(pub Arc<Mutex<Sock>>);

impl Peer {
    pub fn lock(&self) -> MutexGuard<'_, Sock> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn wake_read(&self) {
        let w = {
            let mut s = self.lock();
            s.rready = true;
            s.rwaker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn wake_write(&self) {
        let w = {
            let mut s = self.lock();
            s.wready = true;
            s.wwaker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn send(&self, bytes: &[u8]) {
        self.lock().inbound.extend(bytes);
        self.wake_read();
    }
    pub fn eof(&self) {
        self.lock().eof = true;
        self.wake_read();
    }
    pub fn read_error(&self, k: ErrorKind) {
        self.lock().rerr = Some(k);
        self.wake_read();
    }
    pub fn grant(&self, n: usize) {
        {
            let mut s = self.lock();
            s.credit = s.credit.saturating_add(n);
        }
        self.wake_write();
    }
    pub fn write_error(&self, k: ErrorKind) {
        self.lock().werr = Some(k);
        self.wake_write();
    }
    pub fn write_zero(&self) {
        self.lock().wzero = true;
        self.wake_write();
    }
    pub fn stream(&self) -> TcpStream {
        TcpStream { peer: self.clone() }
    }
}

#[derive(Debug)]
pub struct TcpStream {
    peer: Peer,
}

/// more calls than any real schedule needs: the caller is spinning
const SPIN: usize = 200_000;

fn tick(s: &mut Sock) {
    s.calls += 1;
    if s.calls > SPIN {
        panic!("spinning: {SPIN} socket calls without returning to the executor");
    }
}

thread_local! {
    static CONNECTS: RefCell<VecDeque<Result<Peer>>> = const { RefCell::new(VecDeque::new()) };
    static CONNECTED: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static LISTENERS: RefCell<VecDeque<Result<Door>>> = const { RefCell::new(VecDeque::new()) };
}

/// script the next TcpStream::connect of this thread
pub fn next_connect(r: Result<Peer>) {
    CONNECTS.with(|c| c.borrow_mut().push_back(r));
}
pub fn connected() -> Vec<String> {
    CONNECTED.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
/// script the next TcpListener::bind of this thread
pub fn next_bind(r: Result<Door>) {
    LISTENERS.with(|c| c.borrow_mut().push_back(r));
}
pub fn reset() {
    CONNECTS.with(|c| c.borrow_mut().clear());
    CONNECTED.with(|c| c.borrow_mut().clear());
    LISTENERS.with(|c| c.borrow_mut().clear());
}

impl TcpStream {
    pub async fn connect<A: std::fmt::Debug>(addr: A) -> Result<TcpStream> {
        CONNECTED.with(|c| c.borrow_mut().push(format!("{addr:?}")));
        match CONNECTS.with(|c| c.borrow_mut().pop_front()) {
            Some(Ok(p)) => Ok(p.stream()),
            Some(Err(e)) => Err(e),
            None => Err(Error::from(ErrorKind::ConnectionRefused)),
        }
    }
    pub fn set_nodelay(&self, on: bool) -> Result<()> {
        let mut s = self.peer.lock();
        if s.nodelay_fails {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        s.nodelay = Some(on);
        Ok(())
    }
    pub fn nodelay(&self) -> Result<bool> {
        Ok(self.peer.lock().nodelay.unwrap_or(false))
    }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> Result<()> {
        Ok(())
    }
    pub fn set_ttl(&self, _: u32) -> Result<()> {
        Ok(())
    }
    pub fn peer_addr(&self) -> Result<SocketAddr> {
        Ok("127.0.0.1:1".parse().expect("address"))
    }
    pub fn local_addr(&self) -> Result<SocketAddr> {
        Ok("127.0.0.1:2".parse().expect("address"))
    }
    pub fn take_error(&self) -> Result<Option<Error>> {
        Ok(None)
    }

    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<Result<()>> {
        let mut s = self.peer.lock();
        tick(&mut s);
        if s.rready_err {
            s.saw_rerr = true;
            return Poll::Ready(Err(Error::from(ErrorKind::Other)));
        }
        if s.rready {
            Poll::Ready(Ok(()))
        } else {
            s.rwaker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<Result<()>> {
        let mut s = self.peer.lock();
        tick(&mut s);
        if s.wready_err {
            s.saw_werr = true;
            return Poll::Ready(Err(Error::from(ErrorKind::Other)));
        }
        if s.wready {
            Poll::Ready(Ok(()))
        } else {
            s.wwaker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    pub async fn readable(&self) -> Result<()> {
        std::future::poll_fn(|cx| self.poll_read_ready(cx)).await
    }
    pub async fn writable(&self) -> Result<()> {
        std::future::poll_fn(|cx| self.poll_write_ready(cx)).await
    }
    pub fn try_read(&self, buf: &mut [u8]) -> Result<usize> {
        let mut s = self.peer.lock();
        tick(&mut s);
        s.offered = s.offered.max(buf.len());
        if !s.rready {
            return Err(Error::from(ErrorKind::WouldBlock));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if s.rinterrupts > 0 {
            s.rinterrupts -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if s.inbound.is_empty() {
            if let Some(k) = s.rerr {
                s.saw_rerr = true;
                return Err(Error::from(k));
            }
            if s.eof {
                s.saw_eof = true;
                return Ok(0);
            }
            s.rready = false;
            return Err(Error::from(ErrorKind::WouldBlock));
        }
        let mut n = buf.len().min(s.inbound.len());
        if let Some(c) = s.rchunks.pop_front() {
            n = n.min(c.max(1));
        }
        for (i, b) in s.inbound.drain(..n).enumerate() {
            buf[i] = b;
        }
        s.handed.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    pub fn try_read_vectored(&self, bufs: &mut [IoSliceMut<'_>]) -> Result<usize> {
        for b in bufs.iter_mut() {
            if !b.is_empty() {
                return self.try_read(b);
            }
        }
        Ok(0)
    }
    pub fn try_write(&self, buf: &[u8]) -> Result<usize> {
        self.try_write_vectored(&[IoSlice::new(buf)])
    }
    pub fn try_write_vectored(&self, bufs: &[IoSlice<'_>]) -> Result<usize> {
        let mut s = self.peer.lock();
        tick(&mut s);
        if !s.wready {
            return Err(Error::from(ErrorKind::WouldBlock));
        }
        // as std does
        let bufs = &bufs[..bufs.len().min(1024)];
        s.slices = s.slices.max(bufs.len());
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        if total == 0 {
            return Ok(0);
        }
        if s.winterrupts > 0 {
            s.winterrupts -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if s.credit == 0 {
            if let Some(k) = s.werr {
                s.saw_werr = true;
                return Err(Error::from(k));
            }
            if s.wzero {
                s.saw_werr = true;
                return Ok(0);
            }
            s.wready = false;
            return Err(Error::from(ErrorKind::WouldBlock));
        }
        let mut n = total.min(s.credit);
        if let Some(c) = s.wchunks.pop_front() {
            n = n.min(c.max(1));
        }
        s.credit -= n;
        let mut left = n;
        for b in bufs {
            let k = left.min(b.len());
            s.written.extend_from_slice(&b[..k]);
            left -= k;
        }
        Ok(n)
    }
}

impl real::io::AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut real::io::ReadBuf<'_>) -> Poll<Result<()>> {
        loop {
            match self.poll_read_ready(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => {}
            }
            match self.try_read(buf.initialize_unfilled()) {
                Ok(n) => {
                    buf.advance(n);
                    return Poll::Ready(Ok(()));
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => continue,
                Err(e) => return Poll::Ready(Err(e)),
            }
        }
    }
}

impl real::io::AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        self.poll_write_vectored(cx, &[IoSlice::new(buf)])
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize>> {
        loop {
            match self.poll_write_ready(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => {}
            }
            match self.try_write_vectored(bufs) {
                Err(e) if e.kind() == ErrorKind::WouldBlock => continue,
                r => return Poll::Ready(r),
            }
        }
    }
    fn is_write_vectored(&self) -> bool {
        true
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(Ok(()))
    }
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        self.peer.lock().closed = true;
    }
}

#[derive(Default, Debug)]
pub struct DoorState {
    pub waiting: VecDeque<Result<(Peer, SocketAddr)>>,
    pub waker: Option<Waker>,
    pub calls: usize,
    pub closed: bool,
}

/// The environment's end of a listener
#[derive(Clone, Default, Debug)]
pub struct Door(pub Arc<Mutex<DoorState>>);

impl Door {
    pub fn lock(&self) -> MutexGuard<'_, DoorState> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn knock(&self, r: Result<(Peer, SocketAddr)>) {
        let w = {
            let mut s = self.lock();
            s.waiting.push_back(r);
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}

#[derive(Debug)]
pub struct TcpListener {
    door: Door,
}

impl TcpListener {
    pub async fn bind<A>(_addr: A) -> Result<TcpListener> {
        match LISTENERS.with(|c| c.borrow_mut().pop_front()) {
            Some(Ok(door)) => Ok(TcpListener { door }),
            Some(Err(e)) => Err(e),
            None => Err(Error::from(ErrorKind::AddrInUse)),
        }
    }
    pub fn local_addr(&self) -> Result<SocketAddr> {
        Ok("127.0.0.1:3".parse().expect("address"))
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<Result<(TcpStream, SocketAddr)>> {
        let mut s = self.door.lock();
        s.calls += 1;
        match s.waiting.pop_front() {
            Some(Ok((p, a))) => Poll::Ready(Ok((p.stream(), a))),
            Some(Err(e)) => Poll::Ready(Err(e)),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub async fn accept(&self) -> Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
}

impl Drop for TcpListener {
    fn drop(&mut self) {
        self.door.lock().closed = true;
    }
}
