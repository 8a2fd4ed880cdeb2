//! C21: the attribute, set, socket-address and address-family codecs, used directly.
use super::*;
use crate::engine::{exhaustive, random, Cx, Prop, R};
use crate::gen;
use crate::model::{kind, Kind, Val};
use crate::sets::{codecs, Concrete, Set};
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, SizedEncode, TryTaggedDecode};
use std::fmt::Debug;
use std::net::{IpAddr, SocketAddr};
use stun_codec::net::{SocketAddrDecoder, SocketAddrEncoder};
use stun_codec::rfc5389::attributes::{Fingerprint, FingerprintDecoder, MessageIntegrity, MessageIntegrityDecoder};
use stun_codec::rfc8656::attributes::{AddressFamily, AddressFamilyDecoder, AddressFamilyEncoder};
use stun_codec::AttributeType;

type E = String;
fn err(e: bytecodec::Error) -> E {
    format!("{:?}", e.kind())
}

pub trait DynEnc1 {
    fn start(&mut self, ty: u16, v: &Val) -> Result<(), E>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize, E>;
    fn exact(&self) -> u64;
    fn requiring(&self) -> ByteCount;
    fn is_idle(&self) -> bool;
    fn whole(&mut self, ty: u16, v: &Val) -> Result<Vec<u8>, E>;
    fn debug(&self) -> String;
}
pub trait DynDec1 {
    fn try_start(&mut self, ty: u16) -> Result<bool, E>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize, E>;
    fn finish(&mut self) -> Result<(u16, Val), E>;
    fn requiring(&self) -> ByteCount;
    fn is_idle(&self) -> bool;
    fn whole(&mut self, b: &[u8]) -> Result<(u16, Val), E>;
    fn debug(&self) -> String;
}
pub trait DynCodec: Sync + Send {
    fn name(&self) -> &str;
    fn types(&self) -> &[u16];
    fn raw(&self) -> bool;
    fn enc(&self) -> Box<dyn DynEnc1>;
    fn dec(&self) -> Box<dyn DynDec1>;
}

/// An attribute with this value (integrity and fingerprint attributes can only be
/// decoded).
fn make<A: Set>(ty: u16, v: &Val) -> A {
    match v {
        Val::Mac(m) if !A::RAW => {
            let a: MessageIntegrity = MessageIntegrityDecoder::new().decode_from_bytes(m).expect("integrity value");
            A::from_mi(a).expect("integrity type")
        }
        Val::Crc(c) if !A::RAW => {
            let a: Fingerprint = FingerprintDecoder::new().decode_from_bytes(&c.to_be_bytes()).expect("fingerprint value");
            A::from_fp(a).expect("fingerprint type")
        }
        _ => A::build(ty, v).expect("value of the type").expect("valid value"),
    }
}

struct Enc1<A: Set>(A::Encoder);
impl<A: Set> DynEnc1 for Enc1<A>
where
    A::Encoder: Debug,
{
    fn start(&mut self, ty: u16, v: &Val) -> Result<(), E> {
        self.0.start_encoding(make::<A>(ty, v)).map_err(err)
    }
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize, E> {
        self.0.encode(buf, eos).map_err(err)
    }
    fn exact(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
    fn requiring(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
    fn whole(&mut self, ty: u16, v: &Val) -> Result<Vec<u8>, E> {
        self.0.encode_into_bytes(make::<A>(ty, v)).map_err(err)
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
}
struct Dec1<A: Set>(A::Decoder);
fn shown<A: Set>(a: A) -> (u16, Val) {
    (a.get_type().as_u16(), a.val())
}
impl<A: Set> DynDec1 for Dec1<A>
where
    A::Decoder: Debug,
{
    fn try_start(&mut self, ty: u16) -> Result<bool, E> {
        self.0.try_start_decoding(AttributeType::new(ty)).map_err(err)
    }
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize, E> {
        self.0.decode(buf, eos).map_err(err)
    }
    fn finish(&mut self) -> Result<(u16, Val), E> {
        self.0.finish_decoding().map(shown).map_err(err)
    }
    fn requiring(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
    fn whole(&mut self, b: &[u8]) -> Result<(u16, Val), E> {
        self.0.decode_from_bytes(b).map(shown).map_err(err)
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
}
struct CodecOf<A: Set> {
    name: &'static str,
    types: Vec<u16>,
    raw: bool,
    /// The constructors of the codec: `default` or `new`.
    make_enc: fn() -> A::Encoder,
    make_dec: fn() -> A::Decoder,
}
impl<A: Set> DynCodec for CodecOf<A>
where
    A::Encoder: Debug,
    A::Decoder: Debug,
{
    fn name(&self) -> &str {
        self.name
    }
    fn types(&self) -> &[u16] {
        &self.types
    }
    fn raw(&self) -> bool {
        self.raw
    }
    fn enc(&self) -> Box<dyn DynEnc1> {
        Box::new(Enc1::<A>((self.make_enc)()))
    }
    fn dec(&self) -> Box<dyn DynDec1> {
        Box::new(Dec1::<A>((self.make_dec)()))
    }
}
pub fn of<A: Set>(name: &'static str) -> Box<dyn DynCodec>
where
    A::Encoder: Debug,
    A::Decoder: Debug,
{
    with::<A>(name, Default::default, Default::default)
}
pub fn with<A: Set>(name: &'static str, make_dec: fn() -> A::Decoder, make_enc: fn() -> A::Encoder) -> Box<dyn DynCodec>
where
    A::Encoder: Debug,
    A::Decoder: Debug,
{
    Box::new(CodecOf::<A> { name, types: A::types(), raw: A::RAW, make_enc, make_dec })
}

/// The value alone: addresses are XORed by the message codecs.
fn plain(ty: u16) -> Kind {
    match kind(ty) {
        Some(Kind::XorAddr) => Kind::Addr,
        Some(k) => k,
        None => Kind::Bytes,
    }
}
fn bytes_of(ty: u16, v: &Val) -> Vec<u8> {
    let ty = if kind(ty) == Some(Kind::XorAddr) { 1 } else { ty };
    model::encode_value(ty, v, &[0; 12])
}
fn pick(s: &mut Src) -> &'static dyn DynCodec {
    &**s.pick(codecs())
}
/// A type and value of the codec, with the kind of the value.
fn typed(s: &mut Src, c: &dyn DynCodec) -> (u16, Kind, Val) {
    if c.raw() {
        let n = gen::byte_len(s);
        return (gen::attr_type(s), Kind::Bytes, Val::Bytes(s.bytes(n)));
    }
    let ty = c.types()[s.below(c.types().len())];
    let k = plain(ty);
    (ty, k, gen::val(s, k))
}

/// Encodes into buffers of any sizes, checking every announcement.
fn encode_pieces(s: &mut Src, e: &mut dyn DynEnc1, want: &[u8]) -> R<Vec<u8>> {
    let mut out = vec![];
    let mut spins = 0;
    loop {
        let left = (want.len() - out.len()) as u64;
        ensure!(e.exact() == left, "{} bytes announced before {left} are written", e.exact());
        ensure!(e.requiring() == ByteCount::Finite(left), "requiring_bytes is {:?} before {left} bytes", e.requiring());
        if left > 0 {
            ensure!(!e.is_idle(), "idle with {left} bytes to write");
        } else if e.is_idle() {
            return Ok(out);
        }
        // An encoder of nothing may need to be called once.
        let mut buf = vec![0xaa; if spins == 0 && s.chance(30) { 0 } else { 1 + s.below(9) }];
        if s.chance(20) {
            buf.resize(want.len() + 3, 0xaa);
        }
        let fits = out.len() + buf.len() >= want.len();
        let eos = if fits && s.bool() { Eos::new(true) } else { Eos::new(false) };
        let n = e.encode(&mut buf, eos).map_err(|k| Fail(format!("encode fails: {k}")))?;
        ensure!(n <= buf.len() && n as u64 <= left, "{n} bytes written into {} with {left} left", buf.len());
        ensure!(n == buf.len().min(left as usize), "{n} bytes written into {} with {left} left", buf.len());
        out.extend_from_slice(&buf[..n]);
        spins += 1;
        ensure!(spins <= want.len() + 100, "the encoder does not become idle");
    }
}

enum Got {
    Item(u16, Val),
    Not,
}
/// Decodes from pieces of any sizes, checking every announcement. `exact`: the
/// bytes are those of one value.
fn decode_pieces(s: &mut Src, d: &mut dyn DynDec1, k: Kind, b: &[u8], valid: bool) -> R<Got> {
    // The end of a list is the end of the stream: there may be another element.
    let more = if k == Kind::Types { 2 } else { 0 };

    let mut sizes = gen::pieces(s, b.len());
    // bytecodec's Collect does not notice an end of the stream that comes alone.
    while k == Kind::Types && sizes.len() > 1 && sizes.last() == Some(&0) {
        sizes.pop();
    }
    let mut at = 0;
    for (i, n) in sizes.iter().enumerate() {
        let last = i + 1 == sizes.len();
        let end = at + n;
        let eos = match s.below(3) {
            _ if last => Eos::new(true),
            0 => Eos::with_remaining_bytes(ByteCount::Finite((b.len() - end) as u64)),
            _ => Eos::new(false),
        };
        // A mark of no remaining bytes is the end.
        let eos = if !last && end == b.len() { Eos::new(false) } else { eos };
        loop {
            if valid {
                if let Some(n) = finite(d.requiring()) {
                    let left = (b.len() - at) as u64;
                    ensure!(n <= left.max(more), "{n} bytes required of {left} needed");
                    ensure!(n > 0 || d.is_idle() || left == 0, "no bytes required with {left} missing");
                }
            }
            let n = match d.decode(&b[at..end], eos) {
                Ok(n) => n,
                Err(_) => return Ok(Got::Not),
            };
            ensure!(n <= end - at, "{n} bytes consumed of {}", end - at);
            at += n;
            if at == end || n == 0 {
                break;
            }
        }
        if at < end {
            // No more is wanted.
            ensure!(d.is_idle(), "no progress although not idle");
            break;
        }
    }
    if !d.is_idle() {
        return Ok(Got::Not);
    }
    ensure!(finite(d.requiring()) == Some(0), "idle and requiring {:?}", d.requiring());
    if valid {
        ensure!(at == b.len(), "{at} bytes consumed of a value of {}", b.len());
    }
    Ok(match d.finish() {
        Ok((ty, v)) => Got::Item(ty, v),
        Err(_) => Got::Not,
    })
}

/// Values through one encoder and one decoder of any codec.
fn c21_round_trip(s: &mut Src, cx: &mut Cx) -> R {
    let c = pick(s);
    let mut e = c.enc();
    let mut d = c.dec();
    let n = 1 + s.below(5);
    cx.key(c.name().as_bytes());
    if n > 1 {
        cx.nontrivial();
    }
    for _ in 0..n {
        let (ty, k, v) = typed(s, c);
        let want = bytes_of(ty, &v);
        cx.key(&ty.to_be_bytes());
        cx.key(&want);
        cx.describe(|| format!("{} type 0x{ty:04x} {v:?}", c.name()));
        let what = format!("{} type 0x{ty:04x}", c.name());
        let out = if s.chance(60) {
            e.whole(ty, &v).map_err(|k| Fail(format!("{what}: encode_into_bytes fails: {k}")))?
        } else {
            e.start(ty, &v).map_err(|k| Fail(format!("{what}: start_encoding fails: {k}")))?;
            encode_pieces(s, &mut *e, &want).map_err(|f| Fail(format!("{what}: {}", f.0)))?
        };
        ensure!(out == want, "{what}: {v:?} is encoded as {} instead of {}", hex(&out), hex(&want));
        ensure!(e.is_idle() && e.exact() == 0, "{what}: not idle after {v:?}");
        if s.chance(40) {
            let _ = (e.debug(), d.debug());
        }
        // Back, perhaps with reserved bits set
        let mut b = out;
        if !c.raw() && s.chance(40) {
            gen::set_reserved(s, ty, &mut b);
            if model::decode_value(k, &b, &[0; 12]).as_ref() != Ok(&v) {
                b = want.clone();
            }
        }
        match d.try_start(ty) {
            Ok(true) => {}
            r => fail!("{what}: try_start_decoding gives {r:?}"),
        }
        let (ty2, v2) = if s.chance(60) {
            d.whole(&b).map_err(|k| Fail(format!("{what}: decode_from_bytes of {} fails: {k}", hex(&b))))?
        } else {
            match decode_pieces(s, &mut *d, k, &b, true).map_err(|f| Fail(format!("{what} decoding {}: {}", hex(&b), f.0)))? {
                Got::Item(t, v) => (t, v),
                Got::Not => fail!("{what}: {} is not accepted", hex(&b)),
            }
        };
        ensure!(ty2 == ty && v2 == v, "{what}: {v:?} comes back as type 0x{ty2:04x} {v2:?}");
    }
    Ok(())
}

/// Many thousands of values through one encoder and one decoder.
fn c21_long(s: &mut Src, cx: &mut Cx) -> R {
    let c = pick(s);
    let n = super::stream::history(s);
    let mut values = vec![];
    for _ in 0..1 + s.below(6) {
        let (ty, _, v) = typed(s, c);
        let b = bytes_of(ty, &v);
        cx.key(&ty.to_be_bytes());
        cx.key(&b);
        cx.describe(|| format!("{} type 0x{ty:04x} {v:?}", c.name()));
        values.push((ty, v, b));
    }
    let mut rng = crate::src::Rng::new(s.u64());
    cx.describe(|| format!("{n} times"));
    cx.nontrivial();
    cx.label_n("values", n as u64);
    let (mut e, mut d) = (c.enc(), c.dec());
    for i in 0..n {
        let r = rng.next() as usize;
        let (ty, v, b) = &values[r % values.len()];
        let what = || format!("{} value {i} (type 0x{ty:04x} {v:?})", c.name());
        let got = e.whole(*ty, v);
        ensure!(got.as_ref() == Ok(b), "{}: encoded as {got:?} instead of {}", what(), hex(b));
        ensure!(d.try_start(*ty) == Ok(true), "{}: refused", what());
        let got = d.whole(b);
        ensure!(got == Ok((*ty, v.clone())), "{}: comes back as {got:?}", what());
    }
    Ok(())
}

/// A stream that ends before the value is whole is an error, never a shorter value.
fn c21_cut_short(s: &mut Src, cx: &mut Cx) -> R {
    let c = pick(s);
    let (ty, _, v) = typed(s, c);
    let want = bytes_of(ty, &v);
    if want.is_empty() {
        return Ok(());
    }
    let what = format!("{} type 0x{ty:04x} {v:?}", c.name());
    let (first, last) = (s.below(want.len()), s.below(want.len()));
    let (first, last) = (first.min(last), first.max(last));
    cx.nontrivial();
    cx.key(c.name().as_bytes());
    cx.key(&want);
    cx.describe(|| format!("{what}, stream ending after {last} of {} bytes", want.len()));
    let mut e = c.enc();
    e.start(ty, &v).map_err(|k| Fail(format!("{what}: start_encoding fails: {k}")))?;
    let mut buf = vec![0xaa; last];
    let n = e.encode(&mut buf[..first], Eos::new(false)).map_err(|k| Fail(format!("{what}: encode fails: {k}")))?;
    ensure!(n == first, "{what}: {n} bytes written into {first}");
    let r = e.encode(&mut buf[first..], Eos::new(true));
    ensure!(r.is_err(), "{what}: {r:?} although the stream ends after {last} of {} bytes", want.len());
    ensure!(r == Err("UnexpectedEos".into()), "{what}: {r:?} at the end of the stream");
    Ok(())
}

/// Values that are wrong are not accepted, right ones are; a fresh decoder each.
fn c21_values(s: &mut Src, cx: &mut Cx) -> R {
    let c = pick(s);
    if c.raw() {
        return Ok(());
    }
    let (ty, k, v) = typed(s, c);
    let mut b = bytes_of(ty, &v);
    match s.below(5) {
        0 => {
            // Too short
            let n = s.below(b.len() + 1);
            b.truncate(n);
        }
        1 | 2 => b = gen::odd_value(s, ty, &[0; 12]),
        3 => {
            if !b.is_empty() {
                let i = s.below(b.len().min(6));
                b[i] = *s.pick(&[0u8, 1, 2, 3, 0xff, 0x80, 0x3f, 0x40, 0x4f, 0x50, 99, 100, 6]);
            }
        }
        _ => {}
    }
    cx.key(c.name().as_bytes());
    cx.key(&ty.to_be_bytes());
    cx.key(&b);
    cx.describe(|| format!("{} type 0x{ty:04x} bytes {}", c.name(), hex(&b)));
    let want = model::decode_value(k, &b, &[0; 12]);
    let what = format!("{} type 0x{ty:04x} bytes {}", c.name(), hex(&b));
    let mut d = c.dec();
    ensure!(d.try_start(ty) == Ok(true), "{what}: not started");
    let got = if s.chance(80) {
        match d.whole(&b) {
            Ok((t, v)) => Got::Item(t, v),
            Err(kind) => {
                if let Err(why) = &want {
                    if model::bad_content(why) {
                        ensure!(kind == "InvalidInput", "{what}: error {kind} although {why}");
                    }
                }
                Got::Not
            }
        }
    } else {
        decode_pieces(s, &mut *d, k, &b, want.is_ok()).map_err(|f| Fail(format!("{what}: {}", f.0)))?
    };
    match (&want, got) {
        (Ok(v), Got::Item(t, x)) => {
            cx.label("valid value");
            ensure!(*v == x && t == ty, "{what}: decoded as type 0x{t:04x} {x:?} instead of {v:?}")
        }
        (Ok(v), Got::Not) => fail!("{what}: not accepted although it spells {v:?}"),
        (Err(_), Got::Not) => {
            cx.nontrivial();
            cx.label("invalid value")
        }
        (Err(why), Got::Item(_, x)) => {
            // A codec used alone stops at the end of the value; what follows is not its
            // concern.
            let fixed = !matches!(k, Kind::TextBytes(_) | Kind::TextChars(_) | Kind::Bytes | Kind::Error | Kind::Types);
            let n = bytes_of(ty, &x).len();
            if fixed && n < b.len() {
                cx.label("value and more");
                ensure!(
                    model::decode_value(k, &b[..n], &[0; 12]).as_ref() == Ok(&x),
                    "{what}: decoded as {x:?} ({why})"
                );
            } else {
                fail!("{what}: accepted as {x:?} although {why}");
            }
        }
    }
    Ok(())
}

/// Every codec with every attribute type.
fn c21_types(_: &mut Src, cx: &mut Cx) -> R {
    let all = codecs();
    let c = &all[cx.idx as usize % all.len()];
    let high = (cx.idx as usize / all.len()) as u16;
    cx.nontrivial();
    cx.describe(|| format!("{} types 0x{high:02x}00 to 0x{high:02x}ff", c.name()));
    let mut reused = c.dec();
    for low in 0..256 {
        let ty = high << 8 | low;
        let want = c.raw() || c.types().contains(&ty);
        for d in [&mut c.dec(), &mut reused] {
            let r = d.try_start(ty);
            ensure!(r == Ok(want), "{}: try_start_decoding of type 0x{ty:04x} gives {r:?}", c.name());
        }
    }
    Ok(())
}

/// The socket-address codec.
fn c21_addresses(s: &mut Src, cx: &mut Cx) -> R {
    let mut e = SocketAddrEncoder::new();
    let mut d = SocketAddrDecoder::new();
    let n = 1 + s.below(4);
    if n > 1 {
        cx.nontrivial();
    }
    for _ in 0..n {
        let addr = SocketAddr::new(gen::ip(s), gen::port(s));
        let want = model::encode_value(1, &Val::Addr(addr.ip(), addr.port()), &[0; 12]);
        cx.key(&want);
        cx.describe(|| format!("{addr}"));
        let mut out = vec![];
        e.start_encoding(addr).map_err(|e| Fail(format!("{addr}: {:?}", e.kind())))?;
        while !e.is_idle() {
            let left = (want.len() - out.len()) as u64;
            ensure!(e.exact_requiring_bytes() == left, "{addr}: {} bytes announced of {left}", e.exact_requiring_bytes());
            ensure!(e.requiring_bytes() == ByteCount::Finite(left), "{addr}: {:?} of {left}", e.requiring_bytes());
            let mut buf = vec![0xaa; 1 + s.below(24)];
            let n = e.encode(&mut buf, Eos::new(false)).map_err(|e| Fail(format!("{addr}: {:?}", e.kind())))?;
            ensure!(n == buf.len().min(left as usize), "{addr}: {n} bytes written");
            out.extend_from_slice(&buf[..n]);
        }
        ensure!(e.exact_requiring_bytes() == 0, "{addr}: bytes announced when idle");
        ensure!(out == want, "{addr} is encoded as {} instead of {}", hex(&out), hex(&want));
        // The first byte is to be ignored
        if s.bool() {
            out[0] = s.u8();
        }
        let sizes = gen::pieces(s, out.len());
        let mut at = 0;
        for (p, eos) in plan(s, &out, &sizes) {
            if let Some(n) = finite(d.requiring_bytes()) {
                ensure!(n <= (out.len() - at) as u64, "{addr}: {n} bytes required of {}", out.len() - at);
            }
            let n = d.decode(p, eos).map_err(|e| Fail(format!("{addr}: decode fails: {:?}", e.kind())))?;
            ensure!(n == p.len(), "{addr}: {n} bytes consumed of {}", p.len());
            at += n;
            ensure!(d.is_idle() == (at == out.len()), "{addr}: idle {} after {at} bytes", d.is_idle());
        }
        let back = d.finish_decoding().map_err(|e| Fail(format!("{addr}: {:?}", e.kind())))?;
        ensure!(back == addr, "{addr} comes back as {back}");
    }
    // Something else
    let mut b = s.bytes(20);
    b[1] = s.u8();
    let n = s.below(21);
    b.truncate(n);
    let want = match (b.get(1), b.len()) {
        (Some(1), n) if n >= 8 => Some(8),
        (Some(2), 20) => Some(20),
        _ => None,
    };
    let mut d = SocketAddrDecoder::new();
    let r = d.decode(&b, Eos::new(true));
    match (want, r) {
        (Some(n), Ok(k)) => {
            ensure!(k == n && d.is_idle(), "{k} bytes consumed of {}", hex(&b));
            let a = d.finish_decoding().map_err(|e| Fail(format!("{}: {:?}", hex(&b), e.kind())))?;
            let ip: IpAddr = if n == 8 {
                IpAddr::from(<[u8; 4]>::try_from(&b[4..8]).unwrap())
            } else {
                IpAddr::from(<[u8; 16]>::try_from(&b[4..20]).unwrap())
            };
            let port = u16::from_be_bytes([b[2], b[3]]);
            ensure!(a == SocketAddr::new(ip, port), "{} is decoded as {a}", hex(&b));
        }
        (Some(_), Err(e)) => fail!("{} is not accepted: {:?}", hex(&b), e.kind()),
        (None, Err(_)) => cx.label("invalid address"),
        (None, Ok(_)) => {
            cx.label("invalid address");
            ensure!(!d.is_idle() || d.finish_decoding().is_err(), "{} is accepted", hex(&b));
        }
    }
    Ok(())
}

/// The address-family codec, with every first byte and every cut.
fn c21_families(s: &mut Src, cx: &mut Cx) -> R {
    let (family, cut) = ((cx.idx / 5) as u8, (cx.idx % 5) as usize);
    let rest = [s.u8(), s.u8(), s.u8()];
    cx.nontrivial();
    let b = [family, rest[0], rest[1], rest[2]];
    cx.describe(|| format!("{} cut at {cut}", hex(&b)));
    let want = match family {
        1 => Some(AddressFamily::V4),
        2 => Some(AddressFamily::V6),
        _ => None,
    };
    let mut d = AddressFamilyDecoder::default();
    for round in 0..2 {
        let r = (|| {
            let n = d.decode(&b[..cut], Eos::new(false))?;
            if n != cut || (cut < 4 && d.is_idle()) {
                return Ok(None);
            }
            if let ByteCount::Finite(n) = d.requiring_bytes() {
                if n > 4 - cut as u64 {
                    return Ok(None);
                }
            }
            let n = d.decode(&b[cut..], Eos::new(true))?;
            if n != 4 - cut || !d.is_idle() {
                return Ok(None);
            }
            d.finish_decoding().map(Some)
        })();
        match (want, r) {
            (Some(w), Ok(Some(g))) => {
                ensure!(w == g, "{}: {g:?} instead of {w:?}", hex(&b));
                let mut e = AddressFamilyEncoder::default();
                let out = e.encode_into_bytes(w).map_err(|e| Fail(format!("{w:?}: {:?}", e.kind())))?;
                ensure!(out == [family, 0, 0, 0], "{w:?} is encoded as {}", hex(&out));
                e.start_encoding(w).map_err(|e| Fail(format!("{w:?}: {:?}", e.kind())))?;
                let mut buf = [0; 4];
                let n = e.encode(&mut buf[..cut], Eos::new(false)).map_err(|e| Fail(format!("{w:?}: {:?}", e.kind())))?;
                ensure!(n == cut && e.exact_requiring_bytes() == 4 - cut as u64, "{w:?}: {n} bytes of {cut} written");
                let n = e.encode(&mut buf[cut..], Eos::new(true)).map_err(|e| Fail(format!("{w:?}: {:?}", e.kind())))?;
                ensure!(n == 4 - cut && buf == out[..], "{w:?} is encoded as {}", hex(&buf));
            }
            (Some(_), r) => fail!("{}: {r:?} in round {round}", hex(&b)),
            (None, Ok(Some(g))) => fail!("{}: accepted as {g:?}", hex(&b)),
            (None, _) => break,
        }
    }
    Ok(())
}

/// Calls in any order on one attribute codec (for C04): nothing is checked but that
/// they return and report possible sizes.
pub fn c04_codecs(s: &mut Src, cx: &mut Cx) -> R {
    let c = pick(s);
    let (mut e, mut d) = (c.enc(), c.dec());
    cx.key(c.name().as_bytes());
    let mut calls = 0;
    for _ in 0..1 + s.below(24) {
        if !s.has_more() {
            break;
        }
        calls += 1;
        match s.below(12) {
            0 | 1 => {
                let ty = if c.types().is_empty() || s.chance(30) { gen::attr_type(s) } else { *s.pick(c.types()) };
                let _ = d.try_start(ty);
            }
            2..=4 => {
                let (ty, _, v) = typed(s, c);
                let mut b = if s.bool() { bytes_of(ty, &v) } else { gen::odd_value(s, ty, &[0; 12]) };
                let n = s.below(b.len() + 1);
                if s.bool() {
                    b.truncate(n);
                }
                let eos = if s.bool() { Eos::new(true) } else { Eos::new(false) };
                cx.key(&b);
                if let Ok(n) = d.decode(&b, eos) {
                    ensure!(n <= b.len(), "{}: {n} bytes consumed of {}", c.name(), b.len());
                }
            }
            5 => {
                let _ = d.finish();
            }
            6 => {
                let n = s.below(24);
                let b = s.bytes(n);
                cx.key(&b);
                let _ = d.whole(&b);
            }
            7 | 8 => {
                let (ty, _, v) = typed(s, c);
                let _ = e.start(ty, &v);
            }
            9 => {
                let mut buf = vec![0; s.below(30)];
                if let Ok(n) = e.encode(&mut buf, Eos::new(s.chance(60))) {
                    ensure!(n <= buf.len(), "{}: {n} bytes written into {}", c.name(), buf.len());
                }
            }
            10 => {
                let (ty, _, v) = typed(s, c);
                let _ = e.whole(ty, &v);
            }
            _ => {
                let _ = (d.requiring(), d.is_idle(), d.debug(), e.exact(), e.requiring(), e.is_idle(), e.debug());
            }
        }
    }
    cx.describe(|| format!("{} with {calls} calls", c.name()));
    if calls > 1 {
        cx.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let n = codecs().len() as u64;
    let _ = <Fingerprint as Concrete>::TY;
    vec![Prop {
        id: "C21",
        rule: "A case sends values through one encoder and one decoder of an attribute type or set, a socket address or an address family, in pieces, comparing bytes, sizes and values with the model; or gives a decoder a value that may be invalid; or offers it 256 attribute types. Non-trivial: at least two values through the same codec, an invalid value, or an exhaustive case.",
        assumptions: &[
            "The value of an attribute is followed by the end of the stream, as the message decoder arranges it",
            "UNKNOWN-ATTRIBUTES decoded on its own: the end of the stream is marked with the last byte, not afterwards (bytecodec's Collect ignores half an element otherwise)",
        ],
        parts: vec![
            random("round trips", 120_000, c21_round_trip),
            random("long histories", 3, c21_long),
            random("values valid and invalid", 120_000, c21_values),
            exhaustive("every attribute type", 256 * n, c21_types),
            random("streams that end too early", 60_000, c21_cut_short),
            random("socket addresses", 60_000, c21_addresses),
            exhaustive("address families", 256 * 5, c21_families),
        ],
    }]
}
