//! User-defined attributes whose hooks record what they are given, change their
//! value, fail or panic, as directed by the first two bytes of the value.
use crate::hash::crc32;
use crate::model;
use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
use bytecodec::{ByteCount, Decode, Encode, EncodeExt, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
use std::cell::{Cell, RefCell};
use bytecodec::DecodeExt;
use stun_codec::rfc5389::attributes::{Fingerprint, MessageIntegrity, XorMappedAddress};
use stun_codec::{Attribute, AttributeType, Message, MessageClass, MessageDecoder, MessageEncoder, RawAttribute, TransactionId};
use std::net::{Ipv6Addr, SocketAddr};
use stun_codec::rfc5389;

/// What a hook was given.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Event {
    pub decode: bool,
    pub ty: u16,
    /// The value of the attribute before the hook.
    pub value: Vec<u8>,
    /// The types of the known and of the unknown attributes of the message.
    pub known: Vec<u16>,
    pub unknown: Vec<u16>,
    /// The message, encoded (with the hooks of probes switched off).
    pub bytes: Vec<u8>,
}

thread_local! {
    static LOG: RefCell<Vec<Event>> = const { RefCell::new(vec![]) };
    static MUTE: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
pub fn take_log() -> Vec<Event> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// The number of probes that exist in this thread.
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}

/// Switches the hooks on again after one has panicked.
pub fn unmute() {
    MUTE.with(|f| f.set(false));
}
/// Leaves `n` probes out of the count.
pub fn forget(n: i64) {
    LIVE.with(|c| c.set(c.get() - n));
}

pub const NONE: u8 = 0;
pub const XOR: u8 = 1;
pub const LONGER: u8 = 2;
pub const SHORTER: u8 = 3;
pub const COUNT: u8 = 4;
pub const CRC: u8 = 5;
pub const FAIL: u8 = 6;
pub const PANIC: u8 = 7;
/// Integrity and fingerprint of the message, computed by the library.
pub const SIGN: u8 = 8;
/// Decodes the encoded message, and encodes it again; makes another message, with hooks.
pub const NEST: u8 = 9;
pub const PASSWORD: &str = "of the hook";

/// The effect of a hook. `bytes`: the message it is given, encoded.
pub fn apply(directive: u8, value: &mut Vec<u8>, count: usize, tid: &[u8; 12], bytes: &[u8]) -> std::result::Result<(), ()> {
    match directive {
        XOR => value[2..].iter_mut().for_each(|b| *b ^= 0x5a),
        LONGER => value.push(0xee),
        SHORTER => {
            if value.len() > 2 {
                value.pop();
            }
        }
        COUNT => {
            value.truncate(2);
            value.push(count as u8);
            value.push(tid[3]);
        }
        CRC => {
            value.truncate(2);
            value.extend_from_slice(&crc32(bytes).to_be_bytes());
        }
        SIGN => {
            value.truncate(2);
            value.extend_from_slice(&model::mac_of(bytes, PASSWORD.as_bytes()));
            value.extend_from_slice(&model::crc_of(bytes).to_be_bytes());
        }
        NEST => {
            value.truncate(2);
            value.push(bytes.len() as u8);
            let v = model::encode_value(0x0020, &model::Val::Addr(inner(bytes).ip(), inner(bytes).port()), &other(tid));
            value.extend_from_slice(&v);
        }
        FAIL => return Err(()),
        PANIC => panic!("hook"),
        _ => {}
    }
    Ok(())
}

fn signature<A: Attribute>(m: &Message<A>) -> Result<Vec<u8>> {
    let mut v = MessageIntegrity::new_short_term_credential(m, PASSWORD)?.hmac_sha1().to_vec();
    v.extend_from_slice(&Fingerprint::new(m)?.crc32().to_be_bytes());
    Ok(v)
}
/// An address to put into a message made by the hook.
fn inner(bytes: &[u8]) -> SocketAddr {
    let at = |i: usize| bytes.get(i).copied().unwrap_or(7);
    let ip = Ipv6Addr::new(0x2001, 0xdb8, 0, u16::from(at(3)), 5, u16::from(at(9)), u16::from(at(25)), 1);
    SocketAddr::new(ip.into(), u16::from(at(21)))
}
/// Another transaction ID.
fn other(tid: &[u8; 12]) -> [u8; 12] {
    tid.map(|b| !b)
}
fn nested(bytes: &[u8], tid: TransactionId) -> Result<Vec<u8>> {
    let m = MessageDecoder::<RawAttribute>::new().decode_from_bytes(bytes)??;
    let mut v = vec![MessageEncoder::new().encode_into_bytes(m)?.len() as u8];
    // A message with hooks of its own
    let mut m = Message::<rfc5389::Attribute>::new(MessageClass::Indication, rfc5389::methods::BINDING, TransactionId::new(other(tid.as_bytes())));
    m.add_attribute(XorMappedAddress::new(inner(bytes)));
    m.add_attribute(Fingerprint::new(&m)?);
    let b = MessageEncoder::new().encode_into_bytes(m)?;
    let m = MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&b)??;
    if m.get_attribute::<XorMappedAddress>().map(|a| a.address()) == Some(inner(bytes)) {
        v.extend_from_slice(&b[24..44]);
    }
    Ok(v)
}

/// `N`: the attribute type.
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Probe<const N: u16>(pub Vec<u8>);
impl<const N: u16> Probe<N> {
    pub const CODEPOINT: u16 = N;
    pub fn new(v: Vec<u8>) -> Self {
        LIVE.with(|c| c.set(c.get() + 1));
        Probe(v)
    }
    fn hook<A: Attribute>(&mut self, decode: bool, m: &Message<A>) -> Result<()> {
        if MUTE.with(|f| f.get()) || self.0.len() < 2 {
            return Ok(());
        }
        MUTE.with(|f| f.set(true));
        let copy = m.clone();
        let bytes = MessageEncoder::new().encode_into_bytes(copy);
        MUTE.with(|f| f.set(false));
        let bytes = bytes?;
        let known: Vec<u16> = m.attributes().map(|a| a.get_type().as_u16()).collect();
        let unknown: Vec<u16> = m.unknown_attributes().map(|a| a.get_type().as_u16()).collect();
        let count = known.len() + unknown.len();
        LOG.with(|l| l.borrow_mut().push(Event { decode, ty: N, value: self.0.clone(), known, unknown, bytes: bytes.clone() }));
        let d = self.0[usize::from(decode)];
        if d == SIGN || d == NEST {
            MUTE.with(|f| f.set(true));
            let r = if d == SIGN { signature(m) } else { nested(&bytes, m.transaction_id()) };
            MUTE.with(|f| f.set(false));
            let r = r?;
            self.0.truncate(2);
            self.0.extend_from_slice(&r);
            return Ok(());
        }
        apply(d, &mut self.0, count, m.transaction_id().as_bytes(), &bytes)
            .map_err(|()| bytecodec::Error::from(ErrorKind::Other))
    }
}
impl<const N: u16> Clone for Probe<N> {
    fn clone(&self) -> Self {
        Self::new(self.0.clone())
    }
}
impl<const N: u16> Drop for Probe<N> {
    fn drop(&mut self) {
        LIVE.with(|c| c.set(c.get() - 1));
    }
}
impl<const N: u16> Attribute for Probe<N> {
    type Decoder = ProbeDecoder<N>;
    type Encoder = ProbeEncoder<N>;
    fn get_type(&self) -> AttributeType {
        AttributeType::new(N)
    }
    fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        self.hook(false, m)
    }
    fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        self.hook(true, m)
    }
}

#[derive(Debug, Default)]
pub struct ProbeDecoder<const N: u16>(RemainingBytesDecoder);
impl<const N: u16> Decode for ProbeDecoder<N> {
    type Item = Probe<N>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<Probe<N>> {
        self.0.finish_decoding().map(Probe::new)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<const N: u16> TryTaggedDecode for ProbeDecoder<N> {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, t: AttributeType) -> Result<bool> {
        Ok(t.as_u16() == N)
    }
}

/// Keeps the probe until its bytes are written.
#[derive(Debug, Default)]
pub struct ProbeEncoder<const N: u16> {
    bytes: BytesEncoder<Vec<u8>>,
    item: Option<Probe<N>>,
}
impl<const N: u16> Encode for ProbeEncoder<N> {
    type Item = Probe<N>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let n = self.bytes.encode(buf, eos)?;
        if self.bytes.is_idle() {
            self.item = None;
        }
        Ok(n)
    }
    fn start_encoding(&mut self, item: Probe<N>) -> Result<()> {
        self.bytes.start_encoding(item.0.clone())?;
        self.item = Some(item);
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.exact_requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.bytes.is_idle()
    }
}
impl<const N: u16> SizedEncode for ProbeEncoder<N> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.bytes.exact_requiring_bytes()
    }
}
