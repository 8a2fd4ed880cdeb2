//! C04 (no input makes the library misbehave) and C19 (cost).
use super::*;
use crate::alloc::{Meter, Usage};
use crate::engine::{exhaustive, random, Cx, Prop, R};
use crate::gen::{CLEAN, MIXED};
use crate::model::{pad_len, Kind, Wire, ATTRS, FP, MI};
use crate::sets::{set_named, sets, El};
use bytecodec::{EncodeExt, ErrorKind};
use std::io::{self, Read, Write};
use std::net::SocketAddr;
use std::time::Duration;
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;
use stun_codec::{AttributeType, Message, MessageClass, MessageEncoder, Method, RawAttribute, TransactionId};

/// Any end-of-stream mark (right or wrong).
fn any_eos(s: &mut Src) -> Eos {
    match s.below(8) {
        0..=3 => Eos::new(false),
        4 => Eos::new(true),
        5 => Eos::with_remaining_bytes(ByteCount::Unknown),
        6 => Eos::with_remaining_bytes(ByteCount::Infinite),
        _ => Eos::with_remaining_bytes(ByteCount::Finite(s.below(70_000) as u64)),
    }
}

/// A stream of messages and garbage.
fn stream(s: &mut Src, set: &dyn DynSet) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..1 + s.below(4) {
        b.extend(gen::message_bytes(s, set.known()));
        if s.chance(30) {
            let n = s.below(30);
            b.extend(s.bytes(n));
        }
    }
    b
}

/// Everything there is to ask of a message.
fn inspect(s: &mut Src, cx: &mut Cx, m: &dyn DynMsg) -> R {
    let v = m.view();
    let d = m.debug();
    ensure!(!d.is_empty(), "empty Debug output");
    for (ty, _) in ATTRS.iter().map(|a| (a.0, a.1)) {
        let _ = m.get(ty);
    }
    let c = m.clone_box();
    ensure!(c.view() == v, "a clone differs");
    let _ = c.encode();
    let _ = m.new_fp();
    let pw = gen::password(s);
    let _ = m.new_mi_short(&pw);
    let u = Username::new(gen::text_bytes(s, 513)).map_err(|_| Fail("username".into()))?;
    let r = Realm::new(gen::text_chars(s, 128)).map_err(|_| Fail("realm".into()))?;
    let _ = m.new_mi_long(&u, &r, &pw);
    let mis = m.mis();
    cx.label_n("credential checks", mis.len() as u64 * 2);
    for (_, mi) in mis.iter().take(8) {
        let _ = mi.check_short_term_credential(&pw).map_err(|e| format!("{e:?}").len());
        let _ = mi.check_long_term_credential(&u, &r, &pw).map_err(|e| format!("{e:?}").len());
        let _ = format!("{mi:?}").len() + mi.hmac_sha1().len();
    }
    drop(mis);
    // Going on with a message that was received
    let mut c = c;
    for _ in 0..s.below(3) {
        let e = match s.below(3) {
            0 => El::Fp,
            1 => El::MiShort(gen::password(s)),
            _ => El::MiLong(gen::text_bytes(s, 513), gen::text_chars(s, 128), gen::password(s)),
        };
        c.add(&e);
    }
    let _ = c.encode();
    Ok(())
}
fn inspect_broken(b: &crate::sets::Broken) -> R {
    let e = b.msg.error();
    let _ = format!("{:?} {:?} {e} {e:?}", b.msg, b.msg.clone()).len();
    let e: bytecodec::Error = b.msg.clone().into();
    let _ = format!("{e} {e:?}").len();
    let c: ErrorCode = e.into();
    let _ = format!("{c:?}").len();
    Ok(())
}
fn inspect_decoded(s: &mut Src, cx: &mut Cx, d: Decoded) -> R {
    match d {
        Decoded::Msg(m) => {
            cx.label("message inspected");
            inspect(s, cx, &*m)
        }
        Decoded::Broken(b) => {
            cx.label("report inspected");
            inspect_broken(&b)
        }
    }
}

/// A reader that returns pieces, interruptions and errors.
struct Bad<'a> {
    data: &'a [u8],
    script: Vec<u8>,
    at: usize,
    given: usize,
}
impl Read for Bad<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let c = self.script.get(self.at).copied().unwrap_or(9);
        self.at += 1;
        match c {
            0 => return Err(io::ErrorKind::Interrupted.into()),
            1 => return Err(io::ErrorKind::WouldBlock.into()),
            2 if self.given > 30 => return Err(io::ErrorKind::ConnectionReset.into()),
            _ => {}
        }
        let n = match c {
            3..=5 => usize::from(c) - 2,
            _ => buf.len(),
        }
        .min(buf.len())
        .min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.given += n;
        Ok(n)
    }
}
impl Write for Bad<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let c = self.script.get(self.at).copied().unwrap_or(9);
        self.at += 1;
        match c {
            0 => return Err(io::ErrorKind::Interrupted.into()),
            1 => return Err(io::ErrorKind::WouldBlock.into()),
            2 => return Ok(0),
            _ => {}
        }
        let n = if c <= 6 { usize::from(c) - 2 } else { buf.len() }.min(buf.len());
        self.given += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn bad<'a>(s: &mut Src, data: &'a [u8]) -> Bad<'a> {
    let n = s.below(12);
    Bad { data, script: (0..n).map(|_| s.u8() % 10).collect(), at: 0, given: 0 }
}

/// Calls in any order on one decoder.
fn c04_decoder(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let data = stream(s, set);
    describe_bytes(cx, set, &data);
    let mut d = set.decoder();
    let mut at = 0;
    // The bytes of the current message, while nothing out of order has happened.
    let mut orderly = true;
    let mut current: Vec<u8> = vec![];
    let n = 1 + s.below(40);
    let mut calls = 0;
    for _ in 0..n {
        if !s.has_more() {
            break;
        }
        match s.weighted(&[30, 8, 2, 2, 1, 1]) {
            0 => {
                let k = match s.below(4) {
                    0 => s.below(4),
                    1 => s.below(30),
                    2 => s.below(300),
                    _ => data.len(),
                }
                .min(data.len() - at);
                let eos = any_eos(s);
                calls += 1;
                match d.decode(&data[at..at + k], eos) {
                    Ok(n) => {
                        ensure!(n <= k, "decode reports {n} bytes consumed of {k}");
                        ensure!(
                            n > 0 || k == 0 || d.is_idle() || !orderly,
                            "decode makes no progress with {k} bytes although it is not idle"
                        );
                        current.extend_from_slice(&data[at..at + n]);
                        at += n;
                        if orderly && current.len() >= 20 {
                            if let Some(all) = announced(&current) {
                                ensure!(
                                    current.len() <= all,
                                    "{} bytes consumed of a message of {all}",
                                    current.len()
                                );
                            }
                        }
                    }
                    Err(_) => {
                        orderly = false;
                        cx.label("decode error");
                    }
                }
            }
            1 => {
                calls += 1;
                let idle = d.is_idle();
                match d.finish() {
                    Ok(x) => {
                        ensure!(
                            idle || matches!(x, Decoded::Broken(_)),
                            "finish_decoding gives a message although the decoder is not idle"
                        );
                        inspect_decoded(s, cx, x)?;
                    }
                    Err(_) => orderly = false,
                }
                current.clear();
            }
            2 => {
                let _ = (d.requiring(), d.is_idle());
            }
            3 => {
                let _ = d.debug();
            }
            4 => {
                let mut r = bad(s, &data[at..]);
                calls += 1;
                let x = d.decode_exact(&mut r);
                at += r.given;
                orderly = false;
                if let Ok(x) = x {
                    inspect_decoded(s, cx, x)?;
                }
            }
            _ => {
                calls += 1;
                orderly = false;
                if let Ok(x) = d.from_bytes(&data[at..]) {
                    inspect_decoded(s, cx, x)?;
                }
                at = data.len();
            }
        }
        if at == data.len() && s.bool() {
            at = 0;
            orderly = orderly && current.is_empty();
        }
    }
    cx.label_n("decoder calls", calls);
    if calls > 1 {
        cx.nontrivial();
    }
    Ok(())
}

/// A message to encode: built, received, or too large.
fn any_message(s: &mut Src, set: &dyn DynSet) -> R<Box<dyn DynMsg>> {
    Ok(match s.weighted(&[6, 4, 1]) {
        0 => {
            let sp = gen::spec(s, set, &gen::SpecOpts { auth: true, big: true });
            build(set, &sp)?
        }
        1 => {
            let b = gen::wires(s, set.known(), &CLEAN).bytes();
            match crate::sets::decode_once(set, &b) {
                Ok(Decoded::Msg(m)) => m,
                _ => set.message(gen::class(s), gen::method(s), gen::tid(s)),
            }
        }
        _ => {
            // Around the limit of the length field
            let mut m = set.message(gen::class(s), gen::method(s), gen::tid(s));
            let known = set.known();
            let ty = if known.raw {
                Some(gen::attr_type(s))
            } else {
                known.types.iter().copied().find(|t| model::kind(*t) == Some(Kind::Bytes))
            };
            if let Some(ty) = ty {
                let n = 65490 + s.below(60);
                m.add(&El::Plain(ty, model::Val::Bytes(vec![s.u8(); n])));
            }
            for _ in 0..s.below(4) {
                m.add(&El::MiShort("x".into()));
                m.add(&El::Fp);
            }
            m
        }
    })
}

/// Calls in any order on one encoder.
fn c04_encoder(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    cx.key(set.name().as_bytes());
    cx.describe(|| format!("set {}", set.name()));
    let mut e = set.encoder();
    let n = 1 + s.below(30);
    let mut calls = 0;
    for _ in 0..n {
        if !s.has_more() {
            break;
        }
        calls += 1;
        match s.weighted(&[6, 16, 2, 1, 1]) {
            0 => {
                let m = any_message(s, set)?;
                cx.key(&m.encode().unwrap_or_default());
                let _ = e.start(&*m);
            }
            1 => {
                let k = match s.below(4) {
                    0 => s.below(4),
                    1 => s.below(30),
                    2 => s.below(300),
                    _ => s.below(70_000),
                };
                let mut buf = vec![0xaa; k];
                let eos = any_eos(s);
                let left = e.exact();
                match e.encode(&mut buf, eos) {
                    Ok(n) => {
                        ensure!(n <= k, "encode reports {n} bytes written into {k}");
                        ensure!(n as u64 <= left, "encode writes {n} bytes of {left} announced");
                        ensure!(n > 0 || k == 0 || e.is_idle(), "encode makes no progress although it is not idle");
                    }
                    Err(_) => cx.label("encode error"),
                }
            }
            2 => {
                let _ = (e.requiring(), e.exact(), e.is_idle(), e.debug());
            }
            3 => {
                let m = any_message(s, set)?;
                let _ = e.into_bytes(&*m);
            }
            _ => {
                let m = any_message(s, set)?;
                if e.start(&*m).is_ok() || s.bool() {
                    let mut w = bad(s, &[]);
                    let _ = e.encode_all(&mut w);
                }
            }
        }
    }
    cx.label_n("encoder calls", calls);
    if calls > 1 {
        cx.nontrivial();
    }
    Ok(())
}

/// Bytes to a message to everything one may do with it.
fn c04_inspect(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let b = match s.weighted(&[6, 3, 1]) {
        0 => gen::message_bytes(s, set.known()),
        1 => gen::wires(s, set.known(), &MIXED).bytes(),
        _ => {
            // As large as can be
            let mut r = gen::wires(s, set.known(), &CLEAN);
            let size = r.bytes().len() - 20;
            let n = 65532usize.saturating_sub(size + s.below(40));
            if n > 8 {
                r.attrs.push(Wire::new(gen::attr_type(s), vec![s.u8(); n - 4 - s.below(4)]));
            }
            let mut b = r.bytes();
            b.truncate(20 + 65532);
            b
        }
    };
    describe_bytes(cx, set, &b);
    let mut d = set.decoder();
    let (o, n) = feed_once(&mut *d, &b)?;
    ensure!(n <= b.len(), "{n} bytes consumed of {}", b.len());
    if let Some(all) = announced(&b) {
        ensure!(n <= all, "{n} bytes consumed of a message of {all}");
    }
    cx.label(o.tag());
    match o {
        Outcome::Msg(m) => {
            cx.nontrivial();
            inspect(s, cx, &*m)
        }
        Outcome::Broken(b) => {
            cx.nontrivial();
            inspect_broken(&b)
        }
        _ => Ok(()),
    }
}

/// Every attribute type of every set with values of every small length.
const LENS: u64 = 50;
const FILLS: u64 = 6;
fn c04_every_length_n() -> u64 {
    ATTRS.len() as u64 * LENS * FILLS
}
fn c04_every_length(_: &mut Src, cx: &mut Cx) -> R {
    let i = cx.idx;
    let (ty, n, fill) = (ATTRS[(i / LENS / FILLS) as usize].0, (i / FILLS % LENS) as usize, i % FILLS);
    let value: Vec<u8> = match fill {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n as u8).collect(),
        3 => vec![1; n],
        4 => vec![0x40; n],
        _ => vec![2; n],
    };
    let w = Wire::new(ty, value);
    let b = model::encode(1, 3, &[7; 12], &[w]);
    cx.nontrivial();
    let mut src = Src::replay(&[]);
    for set in sets().iter().filter(|set| set.known().raw || set.known().knows(ty)) {
        // All at once, byte by byte, and cut short at every place
        let mut d = set.decoder();
        let (o, _) = feed_once(&mut *d, &b)?;
        if let Outcome::Msg(m) = o {
            inspect(&mut src, cx, &*m)?;
        } else if let Outcome::Broken(b) = o {
            inspect_broken(&b)?;
        }
        for cut in 1..b.len() {
            let mut d = set.decoder();
            let mut r = d.decode(&b[..cut], Eos::new(false));
            if r.is_ok() {
                r = d.decode(&b[cut..], Eos::new(true));
            }
            let _ = (r, d.finish().is_ok(), d.debug(), d.requiring());
            let mut d = set.decoder();
            let _ = (d.decode(&b[..cut], Eos::new(true)), d.finish().is_ok(), d.debug(), d.requiring());
        }
    }
    Ok(())
}

fn long_text(s: &mut Src) -> String {
    match s.below(4) {
        0 => {
            let n = s.below(20);
            gen::chars(s, n)
        }
        1 => {
            let n = 100 + s.below(60);
            gen::chars(s, n)
        }
        2 => {
            let n = 500 + s.below(30);
            gen::text_of_bytes(s, n)
        }
        _ => {
            let n = 65_000 + s.below(1000);
            gen::text_of_bytes(s, n)
        }
    }
}
fn long_bytes(s: &mut Src) -> Vec<u8> {
    let n = match s.below(4) {
        0 => s.below(40),
        1 => s.below(3000),
        2 => 65_500 + s.below(50),
        _ => 131_000 + s.below(200),
    };
    vec![s.u8(); n]
}

use crate::sets::user::all::Attr;
fn any_attribute(s: &mut Src) -> Option<Attr> {
    let addr = SocketAddr::new(gen::ip(s), gen::port(s));
    Some(match s.below(34) {
        0 => MappedAddress::new(addr).into(),
        1 => XorMappedAddress::new(addr).into(),
        2 => XorMappedAddress2::new(addr).into(),
        3 => AlternateServer::new(addr).into(),
        4 => XorPeerAddress::new(addr).into(),
        5 => XorRelayAddress::new(addr).into(),
        6 => ResponseOrigin::new(addr).into(),
        7 => OtherAddress::new(addr).into(),
        8 => Username::new(long_text(s)).ok()?.into(),
        9 => Realm::new(long_text(s)).ok()?.into(),
        10 => Nonce::new(long_text(s)).ok()?.into(),
        11 => Software::new(long_text(s)).ok()?.into(),
        12 | 13 => ErrorCode::new(s.u16() % 1200, long_text(s)).ok()?.into(),
        14 | 15 => {
            let n = match s.below(3) {
                0 => s.below(8),
                1 => s.below(600),
                _ => 32_000 + s.below(2000),
            };
            let t = s.u16();
            UnknownAttributes::new((0..n).map(|i| AttributeType::new(t.wrapping_add(i as u16))).collect()).into()
        }
        16 => Priority::new(gen::u32v(s)).into(),
        17 => UseCandidate::new().into(),
        18 => IceControlled::new(gen::u64v(s)).into(),
        19 => IceControlling::new(gen::u64v(s)).into(),
        20 => ChannelNumber::new(s.u16()).ok()?.into(),
        21 | 22 => {
            let d = match s.below(4) {
                0 => Duration::new(u64::from(gen::u32v(s)), s.u32() % 1_000_000_000),
                1 => Duration::from_secs(gen::u64v(s)),
                2 => Duration::MAX,
                _ => Duration::new((1 << 32) - 1 + s.below(3) as u64, 999_999_999),
            };
            Lifetime::new(d).ok()?.into()
        }
        23 | 24 => Data::new(long_bytes(s)).ok()?.into(),
        25 => EvenPort::new(s.bool()).into(),
        26 => RequestedTransport::new(s.u8()).into(),
        27 => DontFragment.into(),
        28 => ReservationToken::new(gen::u64v(s)).into(),
        29 => ChangeRequest::new(s.bool(), s.bool()).into(),
        30 => ResponsePort::new(s.u16()).into(),
        31 | 32 => MobilityTicket::new(long_bytes(s)).ok()?.into(),
        _ => RequestedAddressFamily::new(if s.bool() { AddressFamily::V6 } else { AddressFamily::V4 }).into(),
    })
}
/// Constructors with arguments within and beyond what they document, and messages
/// made of the results.
fn c04_constructors(s: &mut Src, cx: &mut Cx) -> R {
    let method = Method::new(s.u16()).unwrap_or_else(|_| Method::from(s.u8()));
    let class = *s.pick(&[
        MessageClass::Request,
        MessageClass::Indication,
        MessageClass::SuccessResponse,
        MessageClass::ErrorResponse,
    ]);
    let mut m = Message::<Attr>::new(class, method, TransactionId::new(gen::tid(s)));
    let mut raw = Message::<RawAttribute>::new(class, method, TransactionId::new(gen::tid(s)));
    for _ in 0..1 + s.below(6) {
        match any_attribute(s) {
            Some(a) => {
                let _ = format!("{a:?}").len();
                cx.key(format!("{:?}", stun_codec::Attribute::get_type(&a)).as_bytes());
                m.add_attribute(a);
            }
            None => cx.label("refused value"),
        }
        if s.chance(40) {
            if let Ok(a) = MessageIntegrity::new_short_term_credential(&m, &long_text(s)) {
                m.add_attribute(a);
            } else {
                cx.label("no integrity");
            }
        }
        if s.chance(40) {
            if let Ok(a) = Fingerprint::new(&m) {
                m.add_attribute(a);
            } else {
                cx.label("no fingerprint");
            }
        }
        if s.chance(40) {
            raw.add_attribute(RawAttribute::new(AttributeType::new(s.u16()), long_bytes(s)));
        }
    }
    cx.nontrivial();
    cx.describe(|| format!("class {class} method {method} with {} attributes", m.attributes().count()));
    let _ = (format!("{m:?}").len(), format!("{raw:?}").len(), format!("{class} {method} {:?}", m.transaction_id()).len());
    for (ok, size) in [
        MessageEncoder::new().encode_into_bytes(m).map_or((false, 0), |b| (true, b.len())),
        MessageEncoder::new().encode_into_bytes(raw).map_or((false, 0), |b| (true, b.len())),
    ] {
        ensure!(size <= 20 + 65535, "{size} bytes encoded");
        cx.label(if ok { "encoded" } else { "refused to encode" });
    }
    let kind = *s.pick(&[
        ErrorKind::InvalidInput,
        ErrorKind::InconsistentState,
        ErrorKind::UnexpectedEos,
        ErrorKind::EncoderFull,
        ErrorKind::DecoderTerminated,
        ErrorKind::IncompleteDecoding,
        ErrorKind::Other,
    ]);
    let _ = format!("{:?}", ErrorCode::from(bytecodec::Error::from(kind)));
    let c = ChannelNumber::new(0x4000 + (s.u16() & 0xfff)).map_err(|_| Fail("channel".into()))?;
    let _ = (c.wrapping_increment(), ChannelNumber::max().wrapping_increment());
    Ok(())
}

// ---- C19

/// What is allowed: bytes at all, and then bytes in all and at once per byte of
/// message and integrity attribute, an attribute counting for `ATTRIBUTE` bytes more.
/// About five times what was measured.
#[derive(Clone, Copy)]
struct Allowed {
    constant: u64,
    total: u64,
    peak: u64,
}
/// bytecodec reserves what the length of the attribute being decoded announces.
const DECODING: Allowed = Allowed { constant: 65_536, total: 50, peak: 25 };
const ENCODING: Allowed = Allowed { constant: 0, total: 80, peak: 70 };
const AUTHENTICATING: Allowed = Allowed { constant: 0, total: 160, peak: 70 };
const CHECKING: Allowed = Allowed { constant: 0, total: 25, peak: 25 };
const RETAINING: Allowed = Allowed { constant: 0, total: 0, peak: 10 };
/// The size of the smallest message is taken for this.
const BASE: u64 = 512;
const ATTRIBUTE: u64 = 16;

/// What there is to decode or encode: bytes, attributes, and known integrity and
/// fingerprint attributes among them.
#[derive(Clone, Copy)]
struct Load {
    size: u64,
    attrs: u64,
    macs: u64,
}
/// That of the first attributes that `b` has room for.
fn load(b: &[u8], set: &dyn DynSet) -> Load {
    let known = set.known();
    let mut p = 20;
    let mut l = Load { size: b.len() as u64, attrs: 0, macs: 0 };
    while p + 4 <= b.len() {
        let ty = u16::from_be_bytes([b[p], b[p + 1]]);
        l.attrs += 1;
        if !known.raw && (ty == MI || ty == FP) && known.knows(ty) {
            l.macs += 1;
        }
        let n = usize::from(u16::from_be_bytes([b[p + 2], b[p + 3]]));
        p += 4 + n + pad_len(n);
    }
    l
}
fn within(allowed: Allowed, u: Usage, l: Load, what: &str) -> R {
    let Load { size, attrs, macs } = l;
    let unit = (size + BASE + ATTRIBUTE * attrs) * (1 + macs);
    if std::env::var_os("STUNPBT_MEASURE").is_some() {
        eprintln!("RATIO {what} total {} peak {} size {size} attributes {attrs} macs {macs}", u.total as f64 / unit as f64, u.peak as f64 / unit as f64);
        return Ok(());
    }
    ensure!(
        u.total <= allowed.constant + allowed.total * unit,
        "{what} of {size} bytes with {attrs} attributes, {macs} of them integrity or fingerprint, allocates {} bytes in all",
        u.total
    );
    ensure!(
        u.peak <= (allowed.constant + allowed.peak * unit) as i64,
        "{what} of {size} bytes with {attrs} attributes, {macs} of them integrity or fingerprint, has {} bytes allocated at once",
        u.peak
    );
    Ok(())
}

/// Bytes whose cost is to be seen.
fn costly(s: &mut Src, set: &dyn DynSet) -> Vec<u8> {
    match s.weighted(&[5, 3, 3, 3, 2]) {
        0 => gen::message_bytes(s, set.known()),
        1 => {
            // Many of one attribute
            let known = set.known();
            let ty = if known.types.is_empty() || s.chance(60) { gen::attr_type(s) } else { *s.pick(known.types) };
            let (mut r, n) = (gen::wires(s, known, &CLEAN), 1 + s.below(400));
            let v = match model::kind(ty) {
                Some(k) => model::encode_value(ty, &gen::val(s, k), &r.tid),
                None => vec![s.u8(); s.below(5)],
            };
            for _ in 0..n {
                if r.bytes().len() + v.len() + 8 > 65000 {
                    break;
                }
                r.attrs.push(Wire::new(ty, v.clone()));
            }
            if n < 60 && known.knows(FP) && !known.raw && s.bool() {
                let crc = model::crc_of(&r.bytes());
                r.attrs.push(Wire::new(FP, crc.to_be_bytes().to_vec()));
            }
            r.bytes()
        }
        2 => {
            // Lengths announced and not kept
            let mut b = gen::wires(s, set.known(), &CLEAN).bytes();
            let n = *s.pick(&[0xffffu16, 0xfffc, 0x8000, 0x7ffc]);
            b[2..4].copy_from_slice(&n.to_be_bytes());
            let known = set.known();
            let ty = if known.types.is_empty() || s.chance(60) { gen::attr_type(s) } else { *s.pick(known.types) };
            b.extend_from_slice(&ty.to_be_bytes());
            b.extend_from_slice(&s.pick(&[0xffffu16, 0xfff0, 0x8000, 0x2000]).to_be_bytes());
            let k = s.below(40);
            b.extend(s.bytes(k));
            if s.bool() {
                let k = s.below(b.len() + 1);
                b.truncate(k);
            }
            b
        }
        3 => {
            // Integrity attributes after other content
            let mut r = gen::wires(s, set.known(), &CLEAN);
            for _ in 0..1 + s.below(30) {
                if r.bytes().len() > 60000 {
                    break;
                }
                r.attrs.push(Wire::new(MI, vec![s.u8(); 20]));
                if s.chance(100) {
                    let k = s.below(60);
                    let ty = gen::attr_type(s);
                    r.attrs.push(Wire::new(ty, s.bytes(k)));
                }
            }
            r.bytes()
        }
        _ => {
            let mut b = gen::wires(s, set.known(), &MIXED).bytes();
            gen::mutate(s, &mut b);
            b
        }
    }
}

/// What decoding allocates and keeps.
fn c19_decode(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let inputs: Vec<(Vec<u8>, Vec<usize>, Vec<Eos>)> = (0..1 + s.below(3))
        .map(|_| {
            let b = costly(s, set);
            describe_bytes(cx, set, &b);
            let sizes = gen::pieces(s, b.len());
            let marks = plan(s, &b, &sizes).iter().map(|p| p.1).collect();
            (b, sizes, marks)
        })
        .collect();
    cx.nontrivial();
    // Everything below is metered: nothing else may be allocated.
    let all = Meter::start();
    let (mut accepted, mut broken, mut other, mut with_macs) = (0, 0, 0, 0);
    {
        let mut d = set.decoder();
        let mut kept: [Option<Box<dyn DynMsg>>; 4] = [None, None, None, None];
        for (i, (b, sizes, marks)) in inputs.iter().enumerate() {
            let l = load(b, set);
            with_macs += u64::from(l.macs > 0);
            let m = Meter::start();
            let mut outcome = None;
            let (mut at, mut consumed) = (0, 0);
            'pieces: for (k, eos) in sizes.iter().zip(marks) {
                let end = at + k;
                loop {
                    match d.decode(&b[at..end], *eos) {
                        Ok(n) => {
                            at += n;
                            consumed += n;
                            if d.is_idle() {
                                outcome = d.finish().ok();
                                break 'pieces;
                            }
                            if n == 0 || at == end {
                                break;
                            }
                        }
                        Err(_) => break 'pieces,
                    }
                }
                at = end;
            }
            let l = if outcome.is_some() { load(&b[..consumed], set) } else { l };
            within(DECODING, m.read(), l, "decoding")?;
            match outcome {
                Some(Decoded::Msg(msg)) => {
                    accepted += 1;
                    let c = Meter::start();
                    let x = msg.encode();
                    drop(x);
                    within(ENCODING, c.read(), l, "cloning and encoding")?;
                    let c = Meter::start();
                    let _ = msg.new_mi_short("password");
                    let _ = msg.new_fp();
                    within(AUTHENTICATING, c.read(), l, "authenticating")?;
                    if l.macs <= 20 {
                        let c = Meter::start();
                        for (_, mi) in msg.mis() {
                            let _ = mi.check_short_term_credential("password");
                        }
                        within(CHECKING, c.read(), l, "checking the credentials of a message")?;
                    }
                    kept[i] = Some(msg);
                }
                Some(Decoded::Broken(_)) => broken += 1,
                None => {
                    other += 1;
                    d = set.decoder();
                }
            }
        }
    }
    let live = all.read().live;
    ensure!(live == 0, "{live} bytes are still allocated after everything has been dropped");
    cx.label_n("accepted", accepted);
    cx.label_n("broken", broken);
    cx.label_n("rejected or unfinished", other);
    cx.label_n("with integrity or fingerprint", with_macs);
    Ok(())
}

/// What a decoder keeps between messages.
fn c19_stream(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let n = 2 + s.below(60);
    let o = gen::WireOpts { big: false, ..MIXED };
    let msgs: Vec<Vec<u8>> = (0..1 + s.below(4)).map(|_| gen::wires(s, set.known(), &o).bytes()).collect();
    msgs.iter().for_each(|b| describe_bytes(cx, set, b));
    cx.key(&[n as u8]);
    cx.nontrivial();
    let loads: Vec<Load> = msgs.iter().map(|b| load(b, set)).collect();
    let most = |f: fn(&Load) -> u64| loads.iter().map(f).max().unwrap();
    let largest = Load { size: most(|l| l.size), attrs: most(|l| l.attrs), macs: most(|l| l.macs) };
    let mut d = set.decoder();
    let m = Meter::start();
    for i in 0..n {
        let b = &msgs[i % msgs.len()];
        let one = Meter::start();
        let (o, k) = feed_once(&mut *d, b)?;
        within(DECODING, one.read(), loads[i % msgs.len()], "decoding one message of many")?;
        ensure!(k <= b.len(), "{k} bytes consumed of {}", b.len());
        drop(o);
        let u = Usage { total: 0, peak: m.read().live, ..Usage::default() };
        within(RETAINING, u, largest, "keeping a decoder after messages")?;
    }
    drop(d);
    Ok(())
}

/// What encoding allocates and keeps.
fn c19_encode(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let mut inputs = vec![];
    for _ in 0..1 + s.below(4) {
        let m = any_message(s, set)?;
        let l = match m.encode() {
            Ok(b) => {
                describe_bytes(cx, set, &b);
                Load { macs: 0, ..load(&b, set) }
            }
            Err(_) => {
                cx.label("refused");
                Load { size: 4 * 65552, attrs: 0, macs: 0 }
            }
        };
        let stop = if s.chance(30) { s.below(20) } else { usize::MAX };
        inputs.push((m, l, stop, s.below(400)));
    }
    cx.nontrivial();
    let mut buf = [0; 400];
    let mut interrupted = 0;
    // Everything below is metered: nothing else may be allocated.
    let all = Meter::start();
    {
        let mut e = set.encoder();
        for (m, l, stop, k) in &inputs {
            let u = Meter::start();
            let r = e.start(&**m);
            within(ENCODING, u.read(), *l, "starting to encode")?;
            if r.is_err() {
                continue;
            }
            let u = Meter::start();
            for _ in 0..*stop {
                if e.is_idle() || e.encode(&mut buf[..=*k], Eos::new(false)).is_err() {
                    break;
                }
            }
            within(ENCODING, u.read(), *l, "encoding")?;
            if !e.is_idle() {
                interrupted += 1;
                e = set.encoder();
            }
        }
    }
    let live = all.read().live;
    ensure!(live == 0, "{live} bytes are still allocated after the encoder has been dropped");
    cx.label_n("interrupted", interrupted);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = set_named("raw");
    vec![
        Prop {
            id: "C04",
            rule: "A case is a sequence of calls in any order (decode with any piece and end-of-stream mark, finish, size queries, Debug, I/O helpers with interrupted and failing readers and writers; encoders likewise), or bytes decoded and then inspected, formatted, cloned, re-encoded, authenticated and checked in every way, or constructors with values within and beyond their limits. It fails on a panic, an overflow, an impossible byte count, missing progress or 100 s of CPU time. Non-trivial: at least two calls, or bytes that came to a message or a report.",
            assumptions: &["A hint of bytes remaining in the stream is below 2^17 (bytecodec itself overflows with larger ones)"],
            parts: vec![
                random("decoder calls in any order", 60_000, c04_decoder),
                random("encoder calls in any order", 20_000, c04_encoder),
                random("decode and inspect", 60_000, c04_inspect),
                exhaustive("every type and length", c04_every_length_n(), c04_every_length),
                random("constructors", 8_000, c04_constructors),
                random("attribute codecs called in any order", 60_000, super::codecs::c04_codecs),
            ],
        },
        Prop {
            id: "C19",
            rule: "A case decodes or encodes messages under a counting allocator; bytes requested and bytes live at once are compared with the size of the message and the number of its attributes, times one plus the number of known integrity and fingerprint attributes, and nothing may be live once all is dropped. Every case is non-trivial; cases with an empty input are not generated.",
            assumptions: &[],
            parts: vec![
                random("decoding", 40_000, c19_decode),
                random("one decoder for many messages", 4_000, c19_stream),
                random("encoding", 15_000, c19_encode),
            ],
        },
    ]
}
