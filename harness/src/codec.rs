//! C06, C07, C18: the codecs against reference framings.
use crate::choices::{Choices, Out};
use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_messagepack::{ProtosocketMessagePackDeserializer, ProtosocketMessagePackSerializer};
use protosocket_prost::ProstSerializer;
use protosocket_rpc::ProtosocketControlCode;
use ::prost::Message;

#[derive(Clone, PartialEq, ::prost::Message)]
pub struct P {
    #[prost(uint64, tag = "1")]
    id: u64,
    #[prost(string, tag = "2")]
    name: String,
    #[prost(bytes = "vec", tag = "3")]
    data: Vec<u8>,
}

#[derive(Debug, PartialEq)]
enum Want<M> {
    Message(usize, M),
    Incomplete,
    Invalid,
}

/// a type that reads nothing of what it is given
#[derive(Debug, Clone, PartialEq)]
pub struct Nothing;

impl<'a> serde::Deserialize<'a> for Nothing {
    fn deserialize<D: serde::Deserializer<'a>>(_: D) -> Result<Self, D::Error> {
        Ok(Nothing)
    }
}

fn hint<M>(r: &Result<(usize, M), DeserializeError>) -> Option<usize> {
    match r {
        Err(DeserializeError::IncompleteBuffer { next_message_size }) => Some(*next_message_size),
        _ => None,
    }
}

fn got<M>(r: Result<(usize, M), DeserializeError>) -> Option<Want<M>> {
    Some(match r {
        Ok((n, m)) => Want::Message(n, m),
        Err(DeserializeError::IncompleteBuffer { .. }) => Want::Incomplete,
        Err(DeserializeError::InvalidBuffer) => Want::Invalid,
        Err(DeserializeError::SkipMessage { .. }) => return None,
    })
}

fn short(b: &[u8]) -> String {
    format!("{:02x?}{}", &b[..b.len().min(40)], if b.len() > 40 { format!("… ({} bytes)", b.len()) } else { String::new() })
}

fn prost_reference(b: &[u8]) -> Want<P> {
    let mut len: u128 = 0;
    for i in 0..10 {
        match b.get(i) {
            None => return Want::Incomplete,
            Some(x) => {
                len |= ((x & 0x7f) as u128) << (7 * i);
                if i == 9 && *x > 1 {
                    return Want::Invalid;
                }
                if x & 0x80 == 0 {
                    let total = len + i as u128 + 1;
                    if (b.len() as u128) < total {
                        return Want::Incomplete;
                    }
                    let total = total as usize;
                    return match P::decode(&b[i + 1..total]) {
                        Ok(m) => Want::Message(total, m),
                        Err(_) => Want::Invalid,
                    };
                }
            }
        }
    }
    Want::Invalid
}

fn prost_check(out: &mut Out, b: &[u8]) -> Option<usize> {
    let mut d: ProstSerializer<P, P> = Default::default();
    let want = prost_reference(b);
    let r = d.decode(b);
    if let Some(h) = hint(&r) {
        // what is awaited, when it is known: the message, with or without its delimiter
        let mut at = b;
        match ::prost::decode_length_delimiter(&mut at) {
            Ok(n) if h < n || n.saturating_add(b.len() - at.len()) < h => {
                out.fail(&["C06"], format!("decode({}) waits for {h} bytes", short(b)))
            }
            _ if h == 0 => out.fail(&["C06"], format!("decode({}) waits for nothing", short(b))),
            _ => {}
        }
    }
    let r = got(r);
    if r.as_ref() != Some(&want) {
        out.fail(&["C06"], format!("decode({}) gives {:?}, the framing says {:?}", short(b), r, want));
    }
    match want {
        Want::Message(n, _) => Some(n),
        _ => None,
    }
}

fn size(ch: &mut Choices) -> usize {
    match ch.below(6) {
        0 => 0,
        1 => ch.range(100, 140),
        2 => ch.range(1, 8),
        3 if ch.chance(8) => ch.range(16350, 16400),
        _ => ch.range(0, 60),
    }
}

fn p(ch: &mut Choices) -> P {
    let n = size(ch);
    let id = match ch.below(4) {
        0 => 0,
        1 => u64::MAX - ch.below(2) as u64,
        _ => ch.below(300) as u64,
    };
    let x = ch.below(256) as u8;
    let k = ch.below(4);
    P { id, name: "é".repeat(k), data: (0..n).map(|i| (i as u8).wrapping_mul(7) ^ x).collect() }
}

pub fn prost(ch: &mut Choices, out: &mut Out) {
    let ms: Vec<P> = (0..ch.range(1, 3)).map(|_| p(ch)).collect();
    let mut s: ProstSerializer<P, P> = Default::default();
    let mut stream = vec![];
    for m in &ms {
        let mut b = vec![];
        s.encode(m.clone(), &mut b);
        if b != m.encode_length_delimited_to_vec() {
            out.fail(&["C06"], format!("the encoding of {m:?} is {}", short(&b)));
        }
        // every prefix is incomplete
        let cuts: Vec<usize> = if b.len() < 80 { (0..b.len()).collect() } else { (0..12).map(|_| ch.below(b.len())).collect() };
        for c in cuts {
            if c > 0 {
                prost_check(out, &b[..c]);
            }
        }
        stream.extend(b);
    }
    let mut at = 0;
    for m in &ms {
        let mut d: ProstSerializer<P, P> = Default::default();
        let n = m.encode_length_delimited_to_vec().len();
        match d.decode(&stream[at..]) {
            Ok((k, x)) if k == n && x == *m => at += k,
            r => {
                out.fail(&["C06"], format!("decoding the encoding of {m:?} ({n} bytes, followed by {}) gives {r:?}", stream.len() - at - n));
                return;
            }
        }
    }
    out.feel(stream.len() as u64);
    out.note(|| format!("messages {ms:?}"));
}

pub fn prost_any(ch: &mut Choices, out: &mut Out) {
    let mut b = vec![];
    match ch.below(4) {
        0 => {
            for _ in 0..ch.range(0, 14) {
                b.push(ch.below(256) as u8);
            }
        }
        1 => {
            // a padded delimiter
            let mut body = p(ch).encode_to_vec();
            if ch.chance(3) && !body.is_empty() {
                let i = ch.below(body.len());
                body[i] = ch.below(256) as u8;
            }
            let n = body.len();
            let pad = ch.range(0, 9);
            let mut l = n as u64;
            let mut v = vec![];
            loop {
                v.push((l & 0x7f) as u8);
                l >>= 7;
                if l == 0 {
                    break;
                }
            }
            while v.len() < pad {
                v.push(0);
            }
            let k = v.len();
            for x in &mut v[..k - 1] {
                *x |= 0x80;
            }
            b.extend(v);
            b.extend(body);
            for _ in 0..ch.below(5) {
                b.push(ch.below(256) as u8);
            }
        }
        2 => {
            // long delimiters
            for _ in 0..ch.range(0, 11) {
                b.push(0x80 | ch.below(128) as u8);
            }
            for _ in 0..ch.range(0, 14) {
                b.push(ch.below(4) as u8);
            }
        }
        _ => {
            let mut m = p(ch).encode_length_delimited_to_vec();
            for _ in 0..ch.below(4) {
                let i = ch.below(m.len());
                m[i] = ch.below(256) as u8;
            }
            let c = ch.below(m.len() + 1);
            if ch.chance(2) {
                m.truncate(c);
            }
            b = m;
        }
    }
    if b.is_empty() {
        return;
    }
    out.note(|| format!("bytes {}", short(&b)));
    out.feel(b.iter().fold(0, |a, x| crate::choices::mix(a ^ *x as u64)));
    let n = prost_check(out, &b);
    // what follows a frame doesn't matter
    if let Some(n) = n {
        prost_check(out, &b[..n]);
        for c in 1..n.min(30) {
            prost_check(out, &b[..c]);
        }
    }
}

#[derive(Clone, PartialEq, Debug, serde::Serialize, serde::Deserialize)]
struct M {
    id: u64,
    name: String,
    list: Vec<i32>,
    opt: Option<bool>,
}

fn m(ch: &mut Choices) -> M {
    let n = size(ch);
    let k = ch.below(4);
    M { id: ch.below(100_000) as u64, name: "x".repeat(n), list: (0..k as i32).map(|x| x * 1000 - 7).collect(), opt: ch.pick(&[None, Some(true), Some(false)]) }
}

fn mp_reference(b: &[u8]) -> Want<M> {
    if b.len() < 5 {
        return Want::Incomplete;
    }
    if b[0] != 0xce {
        return Want::Invalid;
    }
    let n = u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize;
    if b.len() - 5 < n {
        return Want::Incomplete;
    }
    match rmp_serde::decode::from_read(&b[5..5 + n]) {
        Ok(m) => Want::Message(5 + n, m),
        Err(_) => Want::Invalid,
    }
}

/// feed a stream to a decoder, more and more of each frame at a time
fn mp_stream(ch: &mut Choices, out: &mut Out, stream: &[u8]) {
    let mut d: ProtosocketMessagePackDeserializer<M> = Default::default();
    let mut at = 0;
    let mut have = 0;
    let mut steps = 0;
    while at < stream.len() && steps < 200 {
        steps += 1;
        if have <= at || ch.chance(2) {
            let left = stream.len() - have.max(at);
            let n = match ch.below(4) {
                0 => 1,
                1 => left,
                2 => ch.range(1, 6),
                _ => ch.range(1, left.max(1)),
            };
            have = (have.max(at) + n).min(stream.len());
        }
        if have <= at {
            return;
        }
        let b = &stream[at..have];
        let want = mp_reference(b);
        let r = d.decode(b);
        if let (Some(h), Want::Incomplete) = (hint(&r), &want) {
            let (least, most) = if b.len() < 5 {
                (1, 5)
            } else {
                (b.len() + 1, 5 + u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize)
            };
            if h < least || h > most {
                out.fail(&["C07"], format!("decode({}) at offset {at} waits for {h} bytes, not {least} to {most}", short(b)));
                return;
            }
        }
        let r = got(r);
        if r.as_ref() != Some(&want) {
            out.fail(&["C07"], format!("decode({}) at offset {at} gives {:?}, the framing says {:?}", short(b), r, want));
            return;
        }
        match want {
            Want::Message(n, _) => at += n,
            Want::Invalid => return,
            Want::Incomplete if have == stream.len() => return,
            Want::Incomplete => {
                let left = stream.len() - have;
                let k = ch.range(1, left.min(9));
                have += k;
            }
        }
    }
}

pub fn messagepack(ch: &mut Choices, out: &mut Out) {
    let ms: Vec<M> = (0..ch.range(1, 4)).map(|_| m(ch)).collect();
    let mut s: ProtosocketMessagePackSerializer<M> = Default::default();
    let mut stream = vec![];
    let mut reused = vec![];
    for x in &ms {
        let mut b = if ch.chance(2) { std::mem::take(&mut reused) } else { vec![] };
        b.clear();
        s.encode(x.clone(), &mut b);
        let body = rmp_serde::to_vec(x).expect("reference");
        let mut want = vec![0xce];
        want.extend((body.len() as u32).to_be_bytes());
        want.extend(body);
        if b != want {
            out.fail(&["C07", "C19"], format!("the encoding of {x:?} is {}", short(&b)));
            return;
        }
        stream.extend_from_slice(&b);
        reused = b;
    }
    out.feel(stream.len() as u64);
    out.note(|| format!("messages {ms:?}"));
    mp_stream(ch, out, &stream);
}

/// frames of any length, of a type that needs no bytes
pub fn messagepack_empty(ch: &mut Choices, out: &mut Out) {
    let mut stream = vec![];
    let lens: Vec<usize> = (0..ch.range(1, 5)).map(|_| ch.below(4)).collect();
    for n in &lens {
        stream.push(0xce);
        stream.extend((*n as u32).to_be_bytes());
        stream.extend(std::iter::repeat(0xc0).take(*n));
    }
    out.note(|| format!("frames of {lens:?} bytes"));
    out.feel(lens.iter().fold(0, |a, x| a * 4 + *x as u64));
    let mut d: ProtosocketMessagePackDeserializer<Nothing> = Default::default();
    let mut at = 0;
    for n in lens {
        if ch.chance(2) {
            let have = at + ch.range(1, 4);
            match d.decode(&stream[at..have]) {
                Err(DeserializeError::IncompleteBuffer { .. }) => {}
                r => out.fail(&["C07"], format!("a part of a prefix gives {r:?}")),
            }
        }
        let have = if ch.chance(2) { stream.len() } else { at + 5 + n };
        match d.decode(&stream[at..have]) {
            Ok((k, Nothing)) if k == 5 + n => at += k,
            r => {
                out.fail(&["C07"], format!("the frame of {n} bytes at {at} gives {r:?}"));
                return;
            }
        }
    }
}

pub fn messagepack_any(ch: &mut Choices, out: &mut Out) {
    let mut b = vec![];
    for _ in 0..ch.range(1, 3) {
        match ch.below(3) {
            0 => {
                for _ in 0..ch.range(0, 12) {
                    b.push(ch.below(256) as u8);
                }
            }
            1 => {
                b.push(if ch.chance(10) { 0xcd } else { 0xce });
                let n = if ch.chance(8) { u32::MAX - ch.below(6) as u32 } else { ch.below(20) as u32 };
                b.extend(n.to_be_bytes());
                for _ in 0..ch.range(0, 24) {
                    b.push(ch.below(256) as u8);
                }
            }
            _ => {
                // a frame that announces more than its body needs, or less
                let body = rmp_serde::to_vec(&m(ch)).expect("reference");
                let extra = ch.range(0, 6) as i64 - 2;
                let n = (body.len() as i64 + extra).max(0) as usize;
                b.push(0xce);
                b.extend((n as u32).to_be_bytes());
                let mut body = body;
                body.resize(n, 0xc0);
                b.extend(body);
            }
        }
    }
    out.note(|| format!("bytes {}", short(&b)));
    out.feel(b.iter().fold(0, |a, x| crate::choices::mix(a ^ *x as u64)));
    mp_stream(ch, out, &b);
}

pub fn codes(ch: &mut Choices, out: &mut Out) {
    use ProtosocketControlCode::*;
    for (c, n) in [(Normal, "Normal"), (Cancel, "Cancel"), (End, "End")] {
        let w = c.as_u8();
        let back = format!("{:?}", ProtosocketControlCode::from_u8(w));
        if back != n {
            out.fail(&["C18"], format!("{n} is sent as {w}, which is read as {back}"));
        }
    }
    let assigned = [Normal.as_u8(), Cancel.as_u8(), End.as_u8()];
    for v in 0..=255u8 {
        if !assigned.contains(&v) {
            let r = format!("{:?}", ProtosocketControlCode::from_u8(v));
            if r != "Cancel" {
                out.fail(&["C18"], format!("the unassigned wire value {v} is read as {r}"));
            }
        }
    }
    let x = ch.below(256);
    out.feel(x as u64);
}
