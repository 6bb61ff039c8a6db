//! The rpc scenarios' message and its fixed size encoding
use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_rpc::{Message, ProtosocketControlCode};

pub const SIZE: usize = 18;
/// such a message is as long as its value says
pub const LONG: u8 = 0xee;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Msg {
    pub id: u64,
    pub code: u8,
    pub value: u64,
}

impl Msg {
    pub fn bytes(&self) -> [u8; SIZE] {
        let mut b = [0; SIZE];
        b[0] = 0x5a;
        b[1] = self.code;
        b[2..10].copy_from_slice(&self.id.to_le_bytes());
        b[10..].copy_from_slice(&self.value.to_le_bytes());
        b
    }
    pub fn parse(b: &[u8]) -> Option<Msg> {
        if b.len() < SIZE || b[0] != 0x5a {
            return None;
        }
        Some(Msg { code: b[1], id: u64::from_le_bytes(b[2..10].try_into().unwrap()), value: u64::from_le_bytes(b[10..18].try_into().unwrap()) })
    }
}

pub fn parse_all(b: &[u8]) -> Vec<Msg> {
    let mut v = vec![];
    let mut i = 0;
    while let Some(m) = b.get(i..).and_then(Msg::parse) {
        i += if m.code == LONG { m.value as usize } else { SIZE };
        v.push(m);
    }
    v
}

thread_local! {
    /// runs when a message of this thread is next asked for its id
    pub static ASKED: std::cell::RefCell<Option<Box<dyn FnOnce()>>> = const { std::cell::RefCell::new(None) };
}

impl Message for Msg {
    fn message_id(&self) -> u64 {
        let hook = ASKED.with(|a| a.borrow_mut().take());
        if let Some(hook) = hook {
            hook();
        }
        self.id
    }
    fn control_code(&self) -> ProtosocketControlCode {
        ProtosocketControlCode::from_u8(self.code)
    }
    fn set_message_id(&mut self, id: u64) {
        self.id = id;
    }
    fn cancelled(id: u64) -> Self {
        Msg { id, code: ProtosocketControlCode::Cancel.as_u8(), value: 0 }
    }
    fn ended(id: u64) -> Self {
        Msg { id, code: ProtosocketControlCode::End.as_u8(), value: 0 }
    }
}

#[derive(Default, Debug)]
pub struct Codec;

impl Serializer for Codec {
    type Message = Msg;
    fn encode(&mut self, m: Msg, buffer: &mut Vec<u8>) {
        buffer.extend_from_slice(&m.bytes());
        if m.code == LONG {
            buffer.resize(m.value as usize, 7);
        }
    }
}

impl Deserializer for Codec {
    type Message = Msg;
    fn decode(&mut self, mut buffer: impl bytes::Buf) -> Result<(usize, Msg), DeserializeError> {
        if buffer.remaining() > 0 && buffer.chunk()[0] != 0x5a {
            return Err(DeserializeError::InvalidBuffer);
        }
        if buffer.remaining() < SIZE {
            return Err(DeserializeError::IncompleteBuffer { next_message_size: SIZE });
        }
        let b = buffer.copy_to_bytes(SIZE);
        let m = Msg::parse(&b).ok_or(DeserializeError::InvalidBuffer)?;
        let n = if m.code == LONG { m.value as usize } else { SIZE };
        if buffer.remaining() < n - SIZE {
            return Err(DeserializeError::IncompleteBuffer { next_message_size: n });
        }
        Ok((n, m))
    }
}
