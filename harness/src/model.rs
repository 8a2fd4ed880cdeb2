//! Reference model of the STUN wire format, written from the RFCs and
//! independent of stun_codec: encodes and decodes messages in terms of `Val`.
use crate::hash;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

pub const COOKIE: [u8; 4] = [0x21, 0x12, 0xA4, 0x42];

/// The value of an attribute.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Addr(IpAddr, u16),
    Text(String),
    U32(u32),
    U64(u64),
    Bytes(Vec<u8>),
    Empty,
    Channel(u16),
    Transport(u8),
    Even(bool),
    /// (change IP, change port)
    Change(bool, bool),
    Port(u16),
    /// true: IPv6
    Family(bool),
    Error(u16, String),
    Types(Vec<u16>),
    Mac([u8; 20]),
    Crc(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Addr,
    XorAddr,
    /// Fewer than this many bytes.
    TextBytes(usize),
    /// Fewer than this many characters.
    TextChars(usize),
    U32,
    U64,
    Bytes,
    Empty,
    Channel,
    Transport,
    Even,
    Change,
    Port,
    Family,
    Error,
    Types,
    Mac,
    Crc,
}

/// Every attribute type of the library: (type, name, value kind).
pub const ATTRS: &[(u16, &str, Kind)] = &[
    (0x0001, "MappedAddress", Kind::Addr),
    (0x0003, "ChangeRequest", Kind::Change),
    (0x0006, "Username", Kind::TextBytes(513)),
    (0x0008, "MessageIntegrity", Kind::Mac),
    (0x0009, "ErrorCode", Kind::Error),
    (0x000A, "UnknownAttributes", Kind::Types),
    (0x000C, "ChannelNumber", Kind::Channel),
    (0x000D, "Lifetime", Kind::U32),
    (0x0012, "XorPeerAddress", Kind::XorAddr),
    (0x0013, "Data", Kind::Bytes),
    (0x0014, "Realm", Kind::TextChars(128)),
    (0x0015, "Nonce", Kind::TextChars(128)),
    (0x0016, "XorRelayAddress", Kind::XorAddr),
    (0x0017, "RequestedAddressFamily", Kind::Family),
    (0x0018, "EvenPort", Kind::Even),
    (0x0019, "RequestedTransport", Kind::Transport),
    (0x001A, "DontFragment", Kind::Empty),
    (0x0020, "XorMappedAddress", Kind::XorAddr),
    (0x0022, "ReservationToken", Kind::U64),
    (0x0024, "Priority", Kind::U32),
    (0x0025, "UseCandidate", Kind::Empty),
    (0x0027, "ResponsePort", Kind::Port),
    (0x8000, "AdditionalAddressFamily", Kind::Family),
    (0x8020, "XorMappedAddress2", Kind::XorAddr),
    (0x8022, "Software", Kind::TextChars(128)),
    (0x8023, "AlternateServer", Kind::Addr),
    (0x8028, "Fingerprint", Kind::Crc),
    (0x8029, "IceControlled", Kind::U64),
    (0x802A, "IceControlling", Kind::U64),
    (0x802B, "ResponseOrigin", Kind::Addr),
    (0x802C, "OtherAddress", Kind::Addr),
    (0x8030, "MobilityTicket", Kind::Bytes),
];

pub const MI: u16 = 0x0008;
pub const FP: u16 = 0x8028;

pub fn kind(ty: u16) -> Option<Kind> {
    ATTRS.iter().find(|a| a.0 == ty).map(|a| a.2)
}
pub fn name(ty: u16) -> String {
    match ATTRS.iter().find(|a| a.0 == ty) {
        Some(a) => a.1.to_string(),
        None => format!("0x{ty:04x}"),
    }
}

fn xor_addr(ip: IpAddr, port: u16, tid: &[u8; 12]) -> (IpAddr, u16) {
    let port = port ^ 0x2112;
    let mut mask = [0u8; 16];
    mask[..4].copy_from_slice(&COOKIE);
    mask[4..].copy_from_slice(tid);
    let ip = match ip {
        IpAddr::V4(ip) => {
            let mut o = ip.octets();
            o.iter_mut().zip(mask).for_each(|(a, b)| *a ^= b);
            IpAddr::V4(Ipv4Addr::from(o))
        }
        IpAddr::V6(ip) => {
            let mut o = ip.octets();
            o.iter_mut().zip(mask).for_each(|(a, b)| *a ^= b);
            IpAddr::V6(Ipv6Addr::from(o))
        }
    };
    (ip, port)
}
/// RFC 5389 section 15.2.
pub fn xor(ip: IpAddr, port: u16, tid: &[u8; 12]) -> (IpAddr, u16) {
    xor_addr(ip, port, tid)
}

fn addr_bytes(ip: IpAddr, port: u16) -> Vec<u8> {
    let mut v = vec![0, if ip.is_ipv4() { 1 } else { 2 }];
    v.extend_from_slice(&port.to_be_bytes());
    match ip {
        IpAddr::V4(ip) => v.extend_from_slice(&ip.octets()),
        IpAddr::V6(ip) => v.extend_from_slice(&ip.octets()),
    }
    v
}

/// The wire form of a value, given the type it is sent as.
pub fn encode_value(ty: u16, val: &Val, tid: &[u8; 12]) -> Vec<u8> {
    let kind = kind(ty);
    match val {
        Val::Addr(ip, port) => {
            let (ip, port) = if kind == Some(Kind::XorAddr) { xor_addr(*ip, *port, tid) } else { (*ip, *port) };
            addr_bytes(ip, port)
        }
        Val::Text(s) => s.as_bytes().to_vec(),
        Val::U32(x) | Val::Crc(x) => x.to_be_bytes().to_vec(),
        Val::U64(x) => x.to_be_bytes().to_vec(),
        Val::Bytes(b) => b.clone(),
        Val::Empty => vec![],
        Val::Channel(x) | Val::Port(x) => vec![(x >> 8) as u8, *x as u8, 0, 0],
        Val::Transport(x) => vec![*x, 0, 0, 0],
        Val::Even(b) => vec![if *b { 0x80 } else { 0 }],
        Val::Change(ip, port) => vec![0, 0, 0, u8::from(*ip) * 4 + u8::from(*port) * 2],
        Val::Family(v6) => vec![if *v6 { 2 } else { 1 }, 0, 0, 0],
        Val::Error(code, phrase) => {
            let mut v = vec![0, 0, (code / 100) as u8, (code % 100) as u8];
            v.extend_from_slice(phrase.as_bytes());
            v
        }
        Val::Types(ts) => ts.iter().flat_map(|t| t.to_be_bytes()).collect(),
        Val::Mac(m) => m.to_vec(),
    }
}

/// The value spelled by the bytes of an attribute of a known type.
pub fn decode_value(kind: Kind, b: &[u8], tid: &[u8; 12]) -> Result<Val, String> {
    let fixed = |n: usize| {
        if b.len() == n {
            Ok(())
        } else {
            Err(format!("length {} instead of {n}", b.len()))
        }
    };
    let text = |b: &[u8]| String::from_utf8(b.to_vec()).map_err(|_| "not UTF-8".to_string());
    Ok(match kind {
        Kind::Addr | Kind::XorAddr => {
            if b.len() < 2 {
                return Err("short address".into());
            }
            let ip = match b[1] {
                1 => {
                    fixed(8)?;
                    IpAddr::V4(Ipv4Addr::new(b[4], b[5], b[6], b[7]))
                }
                2 => {
                    fixed(20)?;
                    let mut o = [0; 16];
                    o.copy_from_slice(&b[4..]);
                    IpAddr::V6(Ipv6Addr::from(o))
                }
                f => return Err(format!("address family {f}")),
            };
            let port = u16::from_be_bytes([b[2], b[3]]);
            let (ip, port) = if kind == Kind::XorAddr { xor_addr(ip, port, tid) } else { (ip, port) };
            Val::Addr(ip, port)
        }
        Kind::TextBytes(limit) => {
            let s = text(b)?;
            if b.len() >= limit {
                return Err("text too long".into());
            }
            Val::Text(s)
        }
        Kind::TextChars(limit) => {
            let s = text(b)?;
            if s.chars().count() >= limit {
                return Err("text too long".into());
            }
            Val::Text(s)
        }
        Kind::U32 => {
            fixed(4)?;
            Val::U32(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
        }
        Kind::Crc => {
            fixed(4)?;
            Val::Crc(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
        }
        Kind::U64 => {
            fixed(8)?;
            let mut o = [0; 8];
            o.copy_from_slice(b);
            Val::U64(u64::from_be_bytes(o))
        }
        Kind::Bytes => Val::Bytes(b.to_vec()),
        Kind::Empty => {
            fixed(0)?;
            Val::Empty
        }
        Kind::Channel => {
            fixed(4)?;
            let n = u16::from_be_bytes([b[0], b[1]]);
            if !(0x4000..=0x4FFF).contains(&n) {
                return Err(format!("channel number 0x{n:04x}"));
            }
            Val::Channel(n)
        }
        Kind::Port => {
            fixed(4)?;
            Val::Port(u16::from_be_bytes([b[0], b[1]]))
        }
        Kind::Transport => {
            fixed(4)?;
            Val::Transport(b[0])
        }
        Kind::Even => {
            fixed(1)?;
            Val::Even(b[0] & 0x80 != 0)
        }
        Kind::Change => {
            fixed(4)?;
            Val::Change(b[3] & 4 != 0, b[3] & 2 != 0)
        }
        Kind::Family => {
            fixed(4)?;
            match b[0] {
                1 => Val::Family(false),
                2 => Val::Family(true),
                f => return Err(format!("address family {f}")),
            }
        }
        Kind::Error => {
            if b.len() < 4 {
                return Err("short error code".into());
            }
            let class = u16::from(b[2] & 7);
            let number = u16::from(b[3]);
            if !(3..=5).contains(&class) || number > 99 {
                return Err(format!("error class {class} number {number}"));
            }
            Val::Error(class * 100 + number, text(&b[4..])?)
        }
        Kind::Types => {
            if b.len() % 2 != 0 {
                return Err("odd length".into());
            }
            Val::Types(b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect())
        }
        Kind::Mac => {
            fixed(20)?;
            let mut o = [0; 20];
            o.copy_from_slice(b);
            Val::Mac(o)
        }
    })
}

/// RFC 5389 figure 3: the position of each method and class bit.
pub fn message_type(class: u8, method: u16) -> u16 {
    // Bit i of the type, from the least significant one.
    const LAYOUT: [(char, u8); 14] = [
        ('M', 0),
        ('M', 1),
        ('M', 2),
        ('M', 3),
        ('C', 0),
        ('M', 4),
        ('M', 5),
        ('M', 6),
        ('C', 1),
        ('M', 7),
        ('M', 8),
        ('M', 9),
        ('M', 10),
        ('M', 11),
    ];
    let mut t = 0;
    for (i, (what, bit)) in LAYOUT.iter().enumerate() {
        let source = if *what == 'M' { method } else { u16::from(class) };
        t |= ((source >> bit) & 1) << i;
    }
    t
}
/// (class, method) of a message type below 0x4000.
pub fn split_type(t: u16) -> (u8, u16) {
    for class in 0..4u8 {
        let t2 = t & !message_type(3, 0);
        if (t ^ t2) == message_type(class, 0) {
            let mut method = 0;
            for bit in 0..12 {
                if t2 & message_type(0, 1 << bit) != 0 {
                    method |= 1 << bit;
                }
            }
            return (class, method);
        }
    }
    unreachable!()
}

pub fn pad_len(n: usize) -> usize {
    n.wrapping_neg() & 3
}

/// An attribute on the wire.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Wire {
    pub ty: u16,
    pub value: Vec<u8>,
    pub pad: Vec<u8>,
}
impl Wire {
    pub fn new(ty: u16, value: Vec<u8>) -> Self {
        let pad = vec![0; pad_len(value.len())];
        Wire { ty, value, pad }
    }
    pub fn len(&self) -> usize {
        4 + self.value.len() + self.pad.len()
    }
    pub fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.ty.to_be_bytes());
        out.extend_from_slice(&(self.value.len() as u16).to_be_bytes());
        out.extend_from_slice(&self.value);
        out.extend_from_slice(&self.pad);
    }
}

pub fn header(class: u8, method: u16, tid: &[u8; 12], len: usize) -> Vec<u8> {
    let mut v = message_type(class, method).to_be_bytes().to_vec();
    v.extend_from_slice(&(len as u16).to_be_bytes());
    v.extend_from_slice(&COOKIE);
    v.extend_from_slice(tid);
    v
}

pub fn encode(class: u8, method: u16, tid: &[u8; 12], attrs: &[Wire]) -> Vec<u8> {
    let len = attrs.iter().map(|a| a.len()).sum();
    let mut out = header(class, method, tid, len);
    for a in attrs {
        a.put(&mut out);
    }
    out
}

/// The bytes covered by an attribute of the given value length that follows `bytes`.
pub fn covered(bytes: &[u8], value_len: usize) -> Vec<u8> {
    let mut v = bytes.to_vec();
    let len = (bytes.len() - 20 + 4 + value_len) as u16;
    v[2..4].copy_from_slice(&len.to_be_bytes());
    v
}
pub fn crc_of(bytes: &[u8]) -> u32 {
    hash::crc32(&covered(bytes, 4)) ^ 0x5354_554e
}
pub fn mac_of(bytes: &[u8], key: &[u8]) -> [u8; 20] {
    hash::hmac_sha1(key, &covered(bytes, 20))
}
pub fn long_term_key(user: &str, realm: &str, password: &str) -> [u8; 16] {
    let mut v = user.as_bytes().to_vec();
    v.push(b':');
    v.extend_from_slice(realm.as_bytes());
    v.push(b':');
    v.extend_from_slice(password.as_bytes());
    hash::md5(&v)
}

/// What an attribute set knows.
#[derive(Clone, Copy)]
pub struct Known<'a> {
    /// The set takes every attribute, without interpreting it.
    pub raw: bool,
    pub types: &'a [u16],
}
impl Known<'_> {
    pub fn knows(&self, ty: u16) -> bool {
        self.raw || self.types.contains(&ty)
    }
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub ty: u16,
    pub known: bool,
    /// The value of a known attribute (`Val::Bytes` in a raw set).
    pub val: Option<Val>,
    pub wire: Vec<u8>,
    pub pad: Vec<u8>,
    /// The wire form with reserved bits cleared (differs from `wire` only in them).
    pub canon: Vec<u8>,
    /// Where the attribute starts in the message.
    pub offset: usize,
}
impl Attr {
    pub fn has_reserved(&self) -> bool {
        self.wire != self.canon
    }
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    /// The attributes, or why the attribute part is malformed.
    pub attrs: Result<Vec<Attr>, String>,
    /// Whether every known fingerprint is right for the received bytes.
    pub fp_strict: bool,
    /// Whether it would be right if reserved bits were cleared before.
    pub fp_canon: bool,
    /// Names of the known attributes with reserved bits set.
    pub reserved: Vec<String>,
}

/// Whether this reason for which a value is invalid lies in what it says, not in its length.
pub fn bad_content(why: &str) -> bool {
    ["address family", "channel number", "error class", "UTF-8", "too long"].iter().any(|x| why.contains(x))
}

/// Parses a header. `Err` if a decoder has to reject it.
pub fn parse_header(b: &[u8]) -> Result<(u8, u16, [u8; 12], usize), String> {
    if b.len() < 20 {
        return Err("incomplete header".into());
    }
    let t = u16::from_be_bytes([b[0], b[1]]);
    if t >> 14 != 0 {
        return Err("first two bits".into());
    }
    if b[4..8] != COOKIE {
        return Err("magic cookie".into());
    }
    let (class, method) = split_type(t);
    let mut tid = [0; 12];
    tid.copy_from_slice(&b[8..20]);
    Ok((class, method, tid, usize::from(u16::from_be_bytes([b[2], b[3]]))))
}

/// Parses one whole message (`b.len()` must be 20 plus the announced length).
pub fn parse(b: &[u8], known: Known) -> Result<Parsed, String> {
    let (class, method, tid, len) = parse_header(b)?;
    if b.len() != 20 + len {
        return Err(format!("{} bytes instead of {}", b.len(), 20 + len));
    }
    let mut p = Parsed { class, method, tid, attrs: Ok(vec![]), fp_strict: true, fp_canon: true, reserved: vec![] };
    let mut attrs = vec![];
    let mut at = 20;
    while at < b.len() {
        if b.len() - at < 4 {
            p.attrs = Err("truncated attribute header".into());
            return Ok(p);
        }
        let ty = u16::from_be_bytes([b[at], b[at + 1]]);
        let n = usize::from(u16::from_be_bytes([b[at + 2], b[at + 3]]));
        let end = at + 4 + n;
        let pad_end = end + pad_len(n);
        if pad_end > b.len() {
            p.attrs = Err(format!("attribute {} exceeds the message", name(ty)));
            return Ok(p);
        }
        let wire = b[at + 4..end].to_vec();
        let is_known = known.knows(ty);
        let mut val = None;
        let mut canon = wire.clone();
        if is_known {
            if known.raw {
                val = Some(Val::Bytes(wire.clone()));
            } else {
                match decode_value(kind(ty).expect("known type"), &wire, &tid) {
                    Ok(v) => {
                        canon = encode_value(ty, &v, &tid);
                        val = Some(v);
                    }
                    Err(e) => {
                        p.attrs = Err(format!("{}: {e}", name(ty)));
                        return Ok(p);
                    }
                }
            }
        }
        if canon != wire {
            p.reserved.push(name(ty));
        }
        attrs.push(Attr { ty, known: is_known, val, wire, pad: b[end..pad_end].to_vec(), canon, offset: at });
        at = pad_end;
    }
    for i in 0..attrs.len() {
        let a: &Attr = &attrs[i];
        if let Some(Val::Crc(crc)) = a.val {
            p.fp_strict &= crc == crc_of(&b[..a.offset]);
            p.fp_canon &= crc == crc_of(&canon_prefix(b, &attrs, i));
        }
    }
    p.attrs = Ok(attrs);
    Ok(p)
}

/// The bytes before attribute `i`, with the reserved bits of known attributes cleared.
pub fn canon_prefix(b: &[u8], attrs: &[Attr], i: usize) -> Vec<u8> {
    let mut v = b[..20].to_vec();
    for a in &attrs[..i] {
        Wire { ty: a.ty, value: a.canon.clone(), pad: a.pad.clone() }.put(&mut v);
    }
    v
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 400 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
