//! C01..C05, C19: one connection with scripted socket, decoder, encoder, reactor and queue.
use crate::choices::{mix, Choices, Flag, Out};
use protosocket::{Connection, ConnectionBindings, DeserializeError, Deserializer, MessageReactor, ReactorStatus, Serializer};
use std::future::Future;
use std::io::ErrorKind;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::mock::Peer;
use tokio::sync::mpsc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Msg,
    Long,
    Skip,
    Bad,
}

#[derive(Clone, Copy, Debug)]
struct Frame {
    kind: Kind,
    at: usize,
    head: usize,
    total: usize,
}

#[derive(Default)]
struct Shared {
    stream: Vec<u8>,
    frames: Vec<Frame>,
    peer: Peer,
    pos: usize,
    decoded: usize,
    delivered: usize,
    maxb: usize,
    maxq: usize,
    eager_skip: bool,
    body_hint: bool,
    header_hint: usize,
    invalid: bool,
    rejected: bool,
    mayclose: bool,
    disconnect_after: Option<usize>,
    disconnected: bool,
    fails: Vec<(&'static [&'static str], String)>,
    encoded: Vec<u32>,
    oversize: bool,
    lens: Vec<usize>,
}

type Sh = Arc<Mutex<Shared>>;

fn body(i: usize, n: usize) -> impl Iterator<Item = u8> {
    let s = mix(i as u64 + 77);
    (0..n).map(move |k| (s >> ((k % 7) * 8)) as u8 ^ (k as u8).wrapping_mul(31) ^ ((k >> 8) as u8))
}

fn encoding(id: u32, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = body(id as usize + 100_000, n).collect();
    for (k, b) in id.to_le_bytes().iter().enumerate() {
        if k < n {
            v[k] = *b;
        }
    }
    v
}

struct De(Sh);
struct Inbound {
    index: usize,
    payload: Vec<u8>,
}

impl Deserializer for De {
    type Message = Inbound;
    fn decode(&mut self, mut buffer: impl bytes::Buf) -> Result<(usize, Inbound), DeserializeError> {
        let mut g = self.0.lock().unwrap();
        let s = &mut *g;
        let n = buffer.remaining();
        let shown = buffer.copy_to_bytes(n);
        let peer = s.peer.clone();
        let sock = peer.lock();
        let got = &sock.handed[s.pos.min(sock.handed.len())..];
        if shown.len() > got.len() {
            s.fails.push((&["C01", "C19"], format!("the decoder is shown {} bytes from offset {}, only {} were received", shown.len(), s.pos, sock.handed.len())));
            return Err(DeserializeError::InvalidBuffer);
        }
        if shown[..] != got[..shown.len()] {
            s.fails.push((&["C01", "C19"], format!("the decoder is shown other bytes than those received at offset {}", s.pos)));
            return Err(DeserializeError::InvalidBuffer);
        }
        drop(sock);
        if s.invalid {
            s.fails.push((&["C01"], "the decoder is used after it reported an invalid stream".into()));
            return Err(DeserializeError::InvalidBuffer);
        }
        if s.rejected {
            s.fails.push((&["C05"], "the decoder is used again after it announced a frame over the limit".into()));
        }
        if shown.is_empty() {
            return Err(DeserializeError::IncompleteBuffer { next_message_size: 1 });
        }
        let pos = s.pos;
        let (i, f) = match s.frames.iter().enumerate().find(|(_, f)| f.at == pos) {
            Some((i, f)) => (i, *f),
            None => {
                s.fails.push((&["C01"], format!("the decoder is shown a buffer that starts inside a frame (offset {pos})")));
                return Err(DeserializeError::InvalidBuffer);
            }
        };
        if f.kind == Kind::Bad {
            s.invalid = true;
            return Err(DeserializeError::InvalidBuffer);
        }
        if shown.len() < f.head {
            let h = s.header_hint.max(f.head);
            if h > s.maxb {
                s.rejected = true;
            }
            return Err(DeserializeError::IncompleteBuffer { next_message_size: h });
        }
        if f.kind == Kind::Skip && (s.eager_skip || shown.len() >= f.total) {
            if shown.len() < f.total {
                if f.total > s.maxb {
                    s.mayclose = true;
                }
            } else {
                s.pos += f.total;
                s.decoded += 1;
            }
            return Err(DeserializeError::SkipMessage { distance: f.total });
        }
        if shown.len() < f.total {
            let hint = if s.body_hint { f.total - f.head } else { f.total };
            if hint > s.maxb {
                s.rejected = true;
            } else if f.total > s.maxb {
                s.mayclose = true;
            }
            return Err(DeserializeError::IncompleteBuffer { next_message_size: hint });
        }
        s.pos += f.total;
        s.decoded += 1;
        Ok((f.total, Inbound { index: i, payload: shown[f.head..f.total].to_vec() }))
    }
}

struct Ser(Sh);
impl Serializer for Ser {
    type Message = u32;
    fn encode(&mut self, m: u32, buffer: &mut Vec<u8>) {
        let mut s = self.0.lock().unwrap();
        let n = s.lens[m as usize];
        s.encoded.push(m);
        if n > s.maxb {
            s.oversize = true;
        }
        if buffer.is_empty() && m % 2 == 0 {
            *buffer = encoding(m, n);
        } else {
            buffer.extend(encoding(m, n));
        }
    }
}

struct Re(Sh);
impl MessageReactor for Re {
    type Inbound = Inbound;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Inbound>) -> ReactorStatus {
        let mut n = 0;
        for m in messages {
            n += 1;
            let mut g = self.0.lock().unwrap();
            let s = &mut *g;
            let want = s.frames.iter().enumerate().filter(|(_, f)| matches!(f.kind, Kind::Msg | Kind::Long)).nth(s.delivered).map(|(i, f)| (i, *f));
            match want {
                Some((i, f)) if i == m.index && m.payload[..] == s.stream[f.at + f.head..f.at + f.total] => {}
                w => s.fails.push((&["C01"], format!("message {} (frame {}) is delivered out of order, expected {:?}", s.delivered, m.index, w.map(|x| x.0)))),
            }
            if s.disconnected {
                s.fails.push((&["C01", "C02"], "a message is delivered after the reactor asked to disconnect".into()));
            }
            s.delivered += 1;
        }
        let mut s = self.0.lock().unwrap();
        if n > 2 * s.maxq + 4 {
            let q = s.maxq;
            s.fails.push((&["C05"], format!("a batch of {n} messages with a limit of {q}")));
        }
        if s.disconnect_after.is_some_and(|k| s.delivered >= k) {
            s.disconnected = true;
            return ReactorStatus::Disconnect;
        }
        ReactorStatus::Continue
    }
}

struct Bind;
impl ConnectionBindings for Bind {
    type Deserializer = De;
    type Serializer = Ser;
    type Reactor = Re;
}

struct World<'a> {
    sh: Sh,
    peer: Peer,
    conn: Option<Connection<Bind>>,
    flag: Arc<Flag>,
    tx: Option<mpsc::Sender<u32>>,
    cap: usize,
    sent: Vec<u32>,
    finished: bool,
    senders_gone: bool,
    out: &'a mut Out,
    polls: usize,
    want: Vec<u8>,
    over: bool,
    checked: usize,
    enc_checked: usize,
}

impl World<'_> {
    fn poll(&mut self) {
        let Some(c) = self.conn.as_mut() else { return };
        self.flag.take();
        self.polls += 1;
        self.peer.lock().calls = 0;
        let w = self.flag.waker();
        let r = Pin::new(c).poll(&mut Context::from_waker(&w));
        let fs = std::mem::take(&mut self.sh.lock().unwrap().fails);
        for (p, m) in fs {
            self.out.fail(p, m);
        }
        self.check_written();
        if r == Poll::Ready(()) {
            self.finished = true;
            self.out.note(|| "the connection finishes".into());
            self.on_finish();
            self.conn = None;
        }
    }

    fn idle(&mut self) {
        let mut n = 0;
        while self.conn.is_some() && self.flag.is() && n < 2000 {
            self.poll();
            n += 1;
        }
        self.out.feel(n as u64);
        if self.conn.is_some() {
            self.at_rest();
        }
    }

    fn queued(&mut self, m: u32) {
        self.sent.push(m);
        let s = self.sh.lock().unwrap();
        let n = s.lens[m as usize];
        if n > s.maxb {
            self.over = true;
        }
        if !self.over {
            self.want.extend(encoding(m, n));
        }
    }

    /// (all bytes to write, fully written messages)
    fn check_written(&mut self) {
        let maxb = self.sh.lock().unwrap().maxb;
        let (want, oversize) = (&self.want, self.over);
        let sock = self.peer.lock();
        let wr = &sock.written;
        if wr.len() > want.len() {
            let l = wr.len();
            let p: &'static [&'static str] = if oversize { &["C03", "C05", "C19"] } else { &["C03", "C19"] };
            drop(sock);
            let n = want.len();
            self.out.fail(p, format!("{l} bytes are written, the queued messages within the limit ({maxb}) encode to {n}"));
            return;
        }
        if wr[self.checked..] != want[self.checked..wr.len()] {
            let at = wr.iter().zip(want).position(|(a, b)| a != b);
            drop(sock);
            self.out.fail(&["C03"], format!("the bytes written differ from the encodings at offset {at:?}"));
            return;
        }
        let n = wr.len();
        self.checked = n;
        let offered = sock.offered;
        drop(sock);
        let s = self.sh.lock().unwrap();
        for (i, m) in s.encoded.iter().enumerate().skip(self.enc_checked) {
            if self.sent.get(i) != Some(m) {
                let m = *m;
                drop(s);
                self.out.fail(&["C03"], format!("message {m} is encoded out of queue order"));
                return;
            }
        }
        self.enc_checked = s.encoded.len();
        let mut full = 0;
        let mut k = 0;
        for m in &s.encoded {
            k += s.lens[*m as usize];
            if k <= n {
                full += 1;
            }
        }
        let pending = s.encoded.len() - full;
        let maxq = s.maxq;
        drop(s);
        if pending > maxq {
            self.out.fail(&["C05"], format!("{pending} encoded messages wait to be written, the limit is {maxq}"));
        }
        if offered > maxb + (4 << 20) {
            self.out.fail(&["C05"], format!("the receive buffer offers {offered} bytes with a limit of {maxb}"));
        }
    }

    fn complete(&self) -> usize {
        let s = self.sh.lock().unwrap();
        let n = s.peer.lock().handed.len();
        let mut c = 0;
        for f in &s.frames {
            if f.kind == Kind::Bad || f.at + f.total > n {
                break;
            }
            if matches!(f.kind, Kind::Msg | Kind::Long) {
                c += 1;
            }
        }
        c
    }

    fn bad_received(&self) -> bool {
        let s = self.sh.lock().unwrap();
        let n = s.peer.lock().handed.len();
        s.frames.iter().any(|f| f.kind == Kind::Bad && f.at < n)
    }

    /// not woken and not finished: nothing may be left to do
    fn at_rest(&mut self) {
        let (readable, eof, credit, werr, handed, maxb, maxq);
        {
            let s = self.peer.lock();
            readable = s.inbound.len();
            eof = s.eof || s.rerr.is_some() || s.rready_err;
            credit = s.credit;
            werr = s.werr.is_some() || s.wzero || s.wready_err;
            handed = s.handed.len();
        }
        let (delivered, invalid, rejected, disconnected, oversize, enc, full);
        {
            let s = self.sh.lock().unwrap();
            delivered = s.delivered;
            invalid = s.invalid;
            rejected = s.rejected;
            disconnected = s.disconnected;
            oversize = s.oversize;
            enc = s.encoded.len();
            maxb = s.maxb;
            maxq = s.maxq;
            let n = self.peer.lock().written.len();
            let mut k = 0;
            full = s.encoded.iter().filter(|m| { k += s.lens[**m as usize]; k <= n }).count();
        }
        if readable > 0 || eof {
            self.out.fail(&["C04", "C05"], format!("the connection sleeps with {readable} readable bytes{} (received {handed}, max {maxb})", if eof { " and an end or error" } else { "" }));
        }
        let c = self.complete();
        if delivered < c && !invalid && !rejected {
            self.out.fail(&["C01", "C04"], format!("the connection sleeps with {} complete messages received but not delivered", c - delivered));
        }
        if invalid {
            self.out.fail(&["C01", "C05"], "the connection goes on after an invalid frame");
        }
        if rejected {
            self.out.fail(&["C05"], "the connection goes on after a frame over the limit was announced");
        }
        if disconnected {
            self.out.fail(&["C02"], "the connection goes on after the reactor asked to disconnect");
        }
        if oversize {
            self.out.fail(&["C05"], "the connection goes on after a message encoded to more than the maximum");
        }
        let want = self.want.len();
        let wr = self.peer.lock().written.len();
        if wr < want && (credit > 0 || (werr && enc > full)) {
            self.out.fail(&["C04"], format!("the connection sleeps with {} unwritten bytes on a writable socket", want - wr));
        }
        if enc < self.sent.len() && enc - full < maxq {
            self.out.fail(&["C04"], format!("the connection sleeps with {} queued messages and room in the send queue ({} of {maxq})", self.sent.len() - enc, enc - full));
        }
        if self.senders_gone && wr == want && enc == self.sent.len() {
            self.out.fail(&["C02", "C04"], "all senders are gone and everything is written, but the connection does not finish");
        }
    }

    fn on_finish(&mut self) {
        let (saw_eof, io);
        {
            let s = self.peer.lock();
            saw_eof = s.saw_eof;
            io = s.saw_rerr || s.saw_werr;
        }
        let (delivered, invalid, rejected, mayclose, disconnected, oversize, enc);
        {
            let s = self.sh.lock().unwrap();
            delivered = s.delivered;
            invalid = s.invalid;
            rejected = s.rejected;
            mayclose = s.mayclose;
            disconnected = s.disconnected;
            oversize = s.oversize;
            enc = s.encoded.len();
        }
        let broken = io || invalid || rejected || mayclose || disconnected || oversize;
        if !broken && !saw_eof {
            if !self.senders_gone {
                self.out.fail(&["C02", "C05"], "the connection finishes for no reason");
            } else {
                let want = self.want.len();
                let wr = self.peer.lock().written.len();
                if wr != want || enc != self.sent.len() {
                    self.out.fail(&["C02"], format!("the connection finishes with {} of {want} bytes written after all senders are gone", wr));
                }
            }
        }
        if saw_eof && !broken && !self.bad_received() {
            let c = self.complete();
            if delivered < c {
                self.out.fail(&["C02"], format!("{delivered} of {c} messages received before the end of the stream are delivered"));
            }
        }
        if rejected {
            // the frame that was announced is not delivered
            let s = self.sh.lock().unwrap();
            if s.delivered > s.decoded {
                drop(s);
                self.out.fail(&["C05"], "a frame over the limit is delivered");
            }
        }
    }
}

pub fn small(ch: &mut Choices, out: &mut Out) {
    let maxb = match ch.below(6) {
        0 => ch.range(1, 12),
        1..=3 => ch.range(8, 64),
        4 => ch.range(60, 300),
        _ => 2 << 20,
    };
    let maxq = if maxb == 2 << 20 && ch.chance(6) { MANY } else { ch.pick(&[1, 2, 3, 5, 8, 130, 300]) };
    go(ch, out, maxb, maxq, false)
}

const MANY: usize = 3000;

pub fn big(ch: &mut Choices, out: &mut Out) {
    let maxb = ch.range(1, 7) << 20;
    let maxb = maxb + ch.pick(&[0, 1, 4096]) - ch.pick(&[0, 1]);
    let maxq = ch.range(1, 4);
    go(ch, out, maxb, maxq, true)
}

fn go(ch: &mut Choices, out: &mut Out, maxb: usize, maxq: usize, big: bool) {
    let peer = Peer::default();
    let mut sh = Shared { peer: peer.clone(), maxb, maxq, ..Default::default() };
    sh.eager_skip = ch.chance(2);
    sh.body_hint = ch.chance(2);
    sh.header_hint = if maxb >= 10 && ch.chance(3) { 10 } else { 0 };
    if ch.chance(12) {
        sh.disconnect_after = Some(ch.range(1, 5));
    }
    let many = maxq == MANY;
    let nframes = if many && ch.chance(2) { ch.range(500, 2400) } else if big { ch.range(1, 7) } else if ch.chance(12) { ch.range(1, 200) } else { ch.range(0, 14) };
    let bad = if ch.chance(8) { ch.below(nframes + 1) } else { usize::MAX };
    let over = if ch.chance(8) { ch.below(nframes + 1) } else { usize::MAX };
    for i in 0..nframes {
        let at = sh.stream.len();
        if i == bad {
            sh.stream.push(0xFF);
            sh.frames.push(Frame { kind: Kind::Bad, at, head: 1, total: 1 });
            continue;
        }
        let long = big || ch.chance(20);
        let kind = if ch.chance(5) { Kind::Skip } else if long { Kind::Long } else { Kind::Msg };
        let head = if long { 5 } else { 2 };
        let room = maxb.saturating_sub(head);
        let mut n = if big {
            match ch.below(4) {
                0 => ch.range(0, 100),
                1 => room - ch.below(3).min(room),
                _ => ch.below(room + 1),
            }
        } else {
            match ch.below(8) {
                0 => 0,
                1 => room.min(250) - ch.below(3).min(room.min(250)),
                2..=4 => ch.below(6),
                _ => ch.below(room.min(120) + 1),
            }
        };
        if many {
            n = n.min(4);
        }
        n = n.min(if maxb == (2 << 20) && !big { 200 } else { room });
        if i == over {
            n = room + 1 + ch.below(40);
        }
        if !long {
            n = n.min(255);
        }
        if long {
            sh.stream.push(if kind == Kind::Skip { 3 } else { 2 });
            sh.stream.extend((n as u32).to_le_bytes());
        } else {
            sh.stream.push(if kind == Kind::Skip { 1 } else { 0 });
            sh.stream.push(n as u8);
        }
        sh.stream.extend(body(i, n));
        if i != over && head + n > maxb {
            // does not fit at all (the header alone is over the limit)
            sh.mayclose = true;
        }
        sh.frames.push(Frame { kind, at, head, total: head + n });
    }
    let nout = if big { ch.range(0, 4) } else if many && ch.chance(2) { ch.range(500, 2400) } else if maxq > 100 && ch.chance(2) { ch.range(100, 400) } else { ch.range(0, 14) };
    let outover = if ch.chance(10) { ch.below(nout + 1) } else { usize::MAX };
    for i in 0..nout {
        let n = if i == outover {
            maxb + 1 + ch.below(20)
        } else if big {
            1 + ch.below(maxb)
        } else {
            match ch.below(4) {
                0 => 1,
                1 if maxb < 1000 => maxb - ch.below(2).min(maxb - 1),
                _ => 1 + ch.below(maxb.min(40)),
            }
        };
        sh.lens.push(n);
    }
    let cap = ch.pick(&[1, 2, 4, 500]);
    let (tx, rx) = mpsc::channel(cap);
    let total = sh.stream.len();
    let stream = sh.stream.clone();
    out.note(|| format!("max buffer {maxb}, max queued {maxq}, channel {cap}, eager skip {}, body hint {}, header hint {}", sh.eager_skip, sh.body_hint, sh.header_hint));
    out.note(|| format!("inbound frames (kind, total): {:?}", sh.frames.iter().map(|f| (f.kind, f.total)).take(60).collect::<Vec<_>>()));
    out.note(|| format!("outbound sizes: {:?}", sh.lens.iter().take(60).collect::<Vec<_>>()));
    let sh = Arc::new(Mutex::new(sh));
    let conn = Connection::<Bind>::new(peer.stream(), "127.0.0.1:9".parse().unwrap(), De(sh.clone()), Ser(sh.clone()), maxb, maxq, rx, Re(sh.clone()));
    let mut w = World { sh, peer, conn: Some(conn), flag: Flag::new(), tx: Some(tx), cap, sent: vec![], finished: false, senders_gone: false, out, polls: 0, want: vec![], over: false, checked: 0, enc_checked: 0 };
    w.poll();
    let mut fed = 0;
    let mut next = 0u32;
    let mut ended = false;
    let steps = ch.range(0, if big { 20 } else { 30 });
    let smallreads = ch.chance(3);
    let smallwrites = ch.chance(3);
    for _ in 0..steps {
        if w.finished {
            break;
        }
        let e = ch.below(24);
        w.out.feel(e as u64);
        match e {
            0..=4 => {
                let left = total - fed;
                let n = if big {
                    ch.pick(&[1, 5, 4096, 1 << 20, 3 << 20, (2 << 20) + 1]).min(left)
                } else if ch.chance(3) {
                    left
                } else {
                    ch.range(1, maxb.min(300) + 8).min(left)
                };
                if n > 0 && !ended {
                    if smallreads && !big {
                        for _ in 0..5 {
                            let c = ch.range(1, 9);
                            w.peer.lock().rchunks.push_back(c);
                        }
                    }
                    w.out.note(|| format!("{n} bytes arrive"));
                    w.peer.send(&stream[fed..fed + n]);
                    fed += n;
                }
            }
            5..=7 => {
                let n = if big { ch.pick(&[1, 100_000, 3 << 20]) } else { ch.range(1, maxb.min(100) * 2) };
                if smallwrites {
                    for _ in 0..4 {
                        let c = ch.range(1, 9);
                        w.peer.lock().wchunks.push_back(c);
                    }
                }
                w.out.note(|| format!("room for {n} bytes"));
                w.peer.grant(n);
            }
            8..=12 => {
                let k = if ch.chance(3) { ch.range(1, 200) } else { 1 };
                for _ in 0..k {
                    if next as usize >= nout {
                        break;
                    }
                    if let Some(tx) = &w.tx {
                        if tx.try_send(next).is_ok() {
                            w.queued(next);
                            next += 1;
                        }
                    }
                }
                w.out.note(|| format!("{next} messages queued so far"));
            }
            13..=15 => {
                w.out.note(|| "run".into());
                w.idle()
            }
            16 | 17 => {
                if w.flag.is() {
                    w.out.note(|| "poll".into());
                    w.poll()
                }
            }
            18 => {
                w.out.note(|| "spurious poll".into());
                w.poll()
            }
            19 => {
                w.out.note(|| "spurious readiness".into());
                if ch.chance(2) {
                    w.peer.wake_read()
                } else {
                    w.peer.wake_write()
                }
            }
            20 => {
                w.out.note(|| "interrupts".into());
                let (a, b) = (ch.below(3), ch.below(3));
                let mut s = w.peer.lock();
                s.rinterrupts += a;
                s.winterrupts += b;
            }
            21 => {
                if ch.chance(4) && !ended {
                    let kind = ch.pick(&[ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::Other]);
                    match ch.below(7) {
                        0 | 1 => {
                            ended = true;
                            w.out.note(|| "end of stream".into());
                            w.peer.eof();
                        }
                        2 => {
                            ended = true;
                            w.out.note(|| "read error".into());
                            w.peer.read_error(kind)
                        }
                        3 => {
                            w.out.note(|| "write error".into());
                            w.peer.write_error(kind)
                        }
                        4 => {
                            w.out.note(|| "writes return 0".into());
                            w.peer.write_zero()
                        }
                        5 => {
                            w.out.note(|| "write readiness fails".into());
                            w.peer.lock().wready_err = true;
                            w.peer.wake_write();
                        }
                        _ => {
                            w.out.note(|| "readiness fails".into());
                            w.peer.lock().rready_err = true;
                            w.peer.wake_read();
                        }
                    }
                }
            }
            22 => {
                if ch.chance(4) && w.tx.is_some() {
                    w.out.note(|| "all senders are dropped".into());
                    w.tx = None;
                    w.senders_gone = true;
                }
            }
            _ => {
                let n = total - fed;
                if n > 0 && !ended {
                    w.out.note(|| format!("{n} bytes arrive"));
                    w.peer.send(&stream[fed..]);
                    fed = total;
                }
            }
        }
    }
    // let it come to rest
    w.idle();
    if !w.finished && fed < total && !ended && ch.below(4) > 0 {
        w.out.note(|| "the rest arrives".into());
        w.peer.send(&stream[fed..]);
        w.idle();
    }
    if !w.finished {
        w.out.note(|| "everything can be written".into());
        w.peer.grant(1 << 30);
        w.idle();
        while !w.finished && (next as usize) < nout && w.tx.is_some() {
            while (next as usize) < nout && w.tx.as_ref().is_some_and(|t| t.try_send(next).is_ok()) {
                w.queued(next);
                next += 1;
            }
            let before = w.tx.as_ref().map(|t| t.capacity());
            w.idle();
            if !w.finished && w.tx.as_ref().map(|t| t.capacity()) == before && before == Some(0) {
                w.out.fail(&["C04"], "queued messages are not taken");
                break;
            }
        }
    }
    match ch.below(3) {
        0 if !w.finished => {
            w.out.note(|| "all senders are dropped".into());
            w.tx = None;
            w.senders_gone = true;
            w.idle();
            if !w.finished {
                w.out.fail(&["C02"], "all senders are gone and everything can be written, but the connection does not finish");
            }
        }
        1 if !w.finished && !ended => {
            w.out.note(|| "end of stream".into());
            w.peer.eof();
            w.idle();
            if !w.finished {
                w.out.fail(&["C02", "C04"], "the stream ended but the connection does not finish");
            }
        }
        _ => {}
    }
    let _ = w.cap;
    let f = (w.finished as u64) << 32 | w.sent.len() as u64;
    w.out.feel(f);
}
