//! C14, C15, C22: values, their limits and the registered numbers.
use super::*;
use crate::engine::{directed, exhaustive, guarded, random, Cx, Prop, R};
use crate::gen::{self, SpecOpts};
use crate::model::{encode_value, kind, Kind, Val, Wire, ATTRS};
use crate::sets::{self, set_named, sets, El};
use bytecodec::ErrorKind;
use std::net::{IpAddr, SocketAddr};
use std::time::Duration;
use stun_codec::rfc5245::errors::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5389::errors::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5766::errors::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8016::errors::*;
use stun_codec::rfc8656::errors::*;
use stun_codec::{MessageClass, Method, TransactionId};

// ---------------------------------------------------------------- C14

/// The XOR of an address by its definition, bit by bit of the wire form.
fn xor_wire(ip: IpAddr, port: u16, tid: &[u8; 12]) -> Vec<u8> {
    let mut mask = vec![0x21, 0x12, 0xA4, 0x42];
    mask.extend_from_slice(tid);
    let mut v = vec![0, if ip.is_ipv4() { 1 } else { 2 }];
    v.extend_from_slice(&(port ^ 0x2112).to_be_bytes());
    let octets = match ip {
        IpAddr::V4(x) => x.octets().to_vec(),
        IpAddr::V6(x) => x.octets().to_vec(),
    };
    v.extend(octets.iter().zip(&mask).map(|(a, b)| a ^ b));
    v
}
fn plain_wire(ip: IpAddr, port: u16) -> Vec<u8> {
    let mut v = vec![0, if ip.is_ipv4() { 1 } else { 2 }];
    v.extend_from_slice(&port.to_be_bytes());
    match ip {
        IpAddr::V4(x) => v.extend_from_slice(&x.octets()),
        IpAddr::V6(x) => v.extend_from_slice(&x.octets()),
    }
    v
}

fn c14_function(s: &mut Src, cx: &mut Cx) -> R {
    let (ip, port, tid) = (gen::ip(s), gen::port(s), gen::tid(s));
    let addr = SocketAddr::new(ip, port);
    cx.key(format!("{addr} {tid:?}").as_bytes());
    cx.describe(|| format!("{addr} transaction {}", hex(&tid)));
    cx.nontrivial();
    let t = TransactionId::new(tid);
    let x = stun_codec::net::socket_addr_xor(addr, t);
    ensure!(x.is_ipv4() == addr.is_ipv4(), "{addr} becomes {x}: another family");
    let got = plain_wire(x.ip(), x.port());
    let want = xor_wire(ip, port, &tid);
    ensure!(got == want, "{addr} becomes {x}, that is {} instead of {}", hex(&got), hex(&want));
    let back = stun_codec::net::socket_addr_xor(x, t);
    ensure!((back.ip(), back.port()) == (ip, port), "{addr} becomes {back} when XORed twice");
    cx.label(if ip.is_ipv4() { "IPv4" } else { "IPv6" });
    Ok(())
}

fn is_addr(ty: u16) -> Option<bool> {
    match kind(ty) {
        Some(Kind::XorAddr) => Some(true),
        Some(Kind::Addr) => Some(false),
        _ => None,
    }
}

fn c14_wire(s: &mut Src, cx: &mut Cx) -> R {
    // Any set with address attributes
    let with: Vec<&dyn DynSet> =
        sets().iter().map(|x| &**x).filter(|x| x.known().types.iter().any(|t| is_addr(*t).is_some())).collect();
    let set = if s.bool() { with[s.below(with.len())] } else { with[0] };
    let mut sp = gen::spec(s, set, &SpecOpts { auth: true, big: false });
    while gen::size_of(&sp.els, &sp.tid) > 65_400 {
        sp.els.pop();
    }
    let types: Vec<u16> = set.known().types.iter().copied().filter(|t| is_addr(*t).is_some()).collect();
    for _ in 0..1 + s.below(4) {
        let ty = types[s.below(types.len())];
        let at = s.below(sp.els.len() + 1);
        sp.els.insert(at, El::Plain(ty, Val::Addr(gen::ip(s), gen::port(s))));
    }
    describe_spec(cx, set, &sp);
    cx.nontrivial();
    let m = build(set, &sp)?;
    let view = m.view();
    let bytes = m.encode().map_err(|e| Fail(format!("not encoded: {:?}", e.kind)))?;
    // Building and encoding leave the message as it is.
    ensure!(m.view() == view, "encoding alters the message");
    // The bytes of each address attribute, found by walking the length fields.
    let mut at = 20;
    for (i, e) in sp.els.iter().enumerate() {
        ensure!(at + 4 <= bytes.len(), "attribute {i} is missing");
        let ty = u16::from_be_bytes([bytes[at], bytes[at + 1]]);
        let n = usize::from(u16::from_be_bytes([bytes[at + 2], bytes[at + 3]]));
        ensure!(at + 4 + n <= bytes.len(), "attribute {i} exceeds the message");
        let value = &bytes[at + 4..at + 4 + n];
        if let El::Plain(t, Val::Addr(ip, port)) = e {
            ensure!(ty == *t, "attribute {i} has type 0x{ty:04x} instead of 0x{t:04x}");
            let want = if is_addr(*t) == Some(true) { xor_wire(*ip, *port, &sp.tid) } else { plain_wire(*ip, *port) };
            ensure!(value == want, "{} of {ip} port {port} is {} instead of {}", model::name(*t), hex(value), hex(&want));
            cx.label(if is_addr(*t) == Some(true) { "XORed address" } else { "plain address" });
        }
        at += 4 + n + model::pad_len(n);
    }
    // And every set that knows them restores them.
    for set in [set, set_named("user:all"), with[s.below(with.len())]] {
        let d = expect_msg(feed_once(&mut *set.decoder(), &bytes)?.0, "own encoding")?;
        let want: Vec<(u16, Val)> =
            gen::spec_vals(&sp, false).into_iter().filter(|(t, _)| set.known().knows(*t) && is_addr(*t).is_some()).collect();
        let got: Vec<(u16, Val)> = d.view().known.into_iter().filter(|(t, _)| is_addr(*t).is_some()).collect();
        ensure!(got == want, "{} decodes {got:?} instead of {want:?}", set.name());
    }
    Ok(())
}

/// Received addresses: the value is the received one XORed, whatever the bits.
fn c14_received(s: &mut Src, cx: &mut Cx) -> R {
    let types: Vec<u16> = ATTRS.iter().map(|a| a.0).filter(|t| is_addr(*t).is_some()).collect();
    let tid = gen::tid(s);
    let v6 = s.bool();
    let n = 1 + s.below(3);
    let mut attrs = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let ty = types[s.below(types.len())];
        let mut v = vec![0, if v6 { 2 } else { 1 }];
        v.extend(s.bytes(if v6 { 18 } else { 6 }));
        // What is on the wire XORed once more is what was meant.
        let port = u16::from_be_bytes([v[2], v[3]]);
        let ip: IpAddr = if v6 {
            let mut o = [0; 16];
            o.copy_from_slice(&v[4..]);
            IpAddr::from(o)
        } else {
            IpAddr::from([v[4], v[5], v[6], v[7]])
        };
        let x = if is_addr(ty) == Some(true) { xor_wire(ip, port, &tid) } else { v.clone() };
        want.push((ty, x));
        attrs.push(Wire::new(ty, v));
    }
    let b = model::encode(gen::class(s), 1, &tid, &attrs);
    let set = set_named("user:all");
    describe_bytes(cx, set, &b);
    cx.nontrivial();
    let d = expect_msg(feed_once(&mut *set.decoder(), &b)?.0, "addresses")?;
    let got: Vec<(u16, Vec<u8>)> = d
        .view()
        .known
        .into_iter()
        .map(|(t, v)| match v {
            Val::Addr(ip, port) => (t, plain_wire(ip, port)),
            _ => (t, vec![]),
        })
        .collect();
    ensure!(got == want, "decoded as {got:?} instead of {want:?}");
    ensure!(d.encode() == Ok(b.clone()), "encoded again as {:?}", d.encode());
    Ok(())
}

// ---------------------------------------------------------------- C15

fn invalid<T: std::fmt::Debug>(r: bytecodec::Result<T>, what: &str) -> R {
    match r {
        Ok(v) => fail!("{what} is taken: {v:.80?}"),
        Err(e) => {
            ensure!(*e.kind() == ErrorKind::InvalidInput, "{what} gives {:?} instead of InvalidInput", e.kind());
            Ok(())
        }
    }
}

/// Decodes a message with just this attribute by a few sets; `Ok(Some)` if accepted.
fn decode_one(ty: u16, value: &[u8]) -> R<Option<Val>> {
    let b = model::encode(0, 1, &[9; 12], &[Wire::new(ty, value.to_vec())]);
    let mut r = None;
    for set in sets().iter().filter(|x| x.known().types.contains(&ty)) {
        let (o, _) = feed_once(&mut *set.decoder(), &b)?;
        let v = match o {
            Outcome::Msg(m) => {
                let mut v = m.view();
                ensure!(v.known.len() == 1 && v.known[0].0 == ty, "{} decodes {:?}", set.name(), v.known);
                Some(v.known.remove(0).1)
            }
            Outcome::Broken(_) => None,
            o => fail!("{} by {}: {}", o.tag(), set.name(), hex(&b)),
        };
        if let Some(r) = &r {
            ensure!(*r == v, "{} decodes {v:?}, another set {r:?}: {}", set.name(), hex(&b));
        }
        r = Some(v);
    }
    r.ok_or_else(|| Fail(format!("no set for 0x{ty:04x}")))
}

fn c15_error_new(_: &mut Src, cx: &mut Cx) -> R {
    let code = cx.idx as u16;
    cx.nontrivial();
    cx.describe(|| format!("ErrorCode::new({code})"));
    let phrase = format!("reason {code}");
    let r = ErrorCode::new(code, phrase.clone());
    if (300..600).contains(&code) {
        let e = r.map_err(|_| Fail(format!("error code {code} is refused")))?;
        ensure!(e.code() == code && e.reason_phrase() == phrase, "{code} becomes {} {:?}", e.code(), e.reason_phrase());
        let got = decode_one(0x0009, &encode_value(0x0009, &Val::Error(code, phrase.clone()), &[9; 12]))?;
        ensure!(got == Some(Val::Error(code, phrase.clone())), "{code} is decoded as {got:?}");
        cx.label("within");
    } else {
        invalid(r, &format!("error code {code}"))?;
        cx.label("beyond");
    }
    Ok(())
}
fn c15_error_decode(_: &mut Src, cx: &mut Cx) -> R {
    let (class, number) = ((cx.idx >> 8) as u8, cx.idx as u8);
    cx.nontrivial();
    cx.describe(|| format!("ERROR-CODE class byte {class} number {number}"));
    let set = set_named("rfc5389");
    let b = model::encode(3, 1, &[9; 12], &[Wire::new(9, vec![0, 0, class, number])]);
    let (o, _) = feed_once(&mut *set.decoder(), &b)?;
    // The upper five bits of the class byte are reserved.
    let c = u16::from(class & 7);
    let ok = (3..=5).contains(&c) && number < 100;
    ensure!(o.accepted() == ok, "class {class} number {number}: {}", o.tag());
    if let Outcome::Msg(m) = o {
        let want = Val::Error(c * 100 + u16::from(number), String::new());
        ensure!(m.view().known == vec![(9, want.clone())], "decoded as {:?} instead of {want:?}", m.view().known);
        cx.label("within");
    } else {
        cx.label("beyond");
    }
    Ok(())
}
fn c15_channel(_: &mut Src, cx: &mut Cx) -> R {
    let n = cx.idx as u16;
    cx.nontrivial();
    cx.describe(|| format!("channel number 0x{n:04x}"));
    let ok = (0x4000..=0x4FFF).contains(&n);
    let r = ChannelNumber::new(n);
    let d = decode_one(0x000C, &[(n >> 8) as u8, n as u8, 0, 0])?;
    ensure!(d == if ok { Some(Val::Channel(n)) } else { None }, "0x{n:04x} is decoded as {d:?}");
    if ok {
        let c = r.map_err(|_| Fail(format!("channel number 0x{n:04x} is refused")))?;
        ensure!(c.value() == n, "0x{n:04x} becomes 0x{:04x}", c.value());
        let next = c.wrapping_increment().value();
        let want = if n == 0x4FFF { 0x4000 } else { n + 1 };
        ensure!(next == want, "0x{n:04x} is followed by 0x{next:04x}");
        ensure!(ChannelNumber::min() <= c && c <= ChannelNumber::max(), "min() and max() are not the limits");
        ensure!(
            ChannelNumber::min().value() == 0x4000 && ChannelNumber::max().value() == 0x4FFF,
            "min() or max() is wrong"
        );
        ensure!(ChannelNumber::MIN == 0x4000 && ChannelNumber::MAX == 0x4FFF, "MIN or MAX is wrong");
        cx.label("within");
    } else {
        invalid(r, &format!("channel number 0x{n:04x}"))?;
        cx.label("beyond");
    }
    Ok(())
}
fn c15_method(_: &mut Src, cx: &mut Cx) -> R {
    let n = cx.idx as u16;
    cx.nontrivial();
    cx.describe(|| format!("method 0x{n:04x}"));
    let r = Method::new(n);
    if n < 0x1000 {
        let m = r.map_err(|_| Fail(format!("method 0x{n:04x} is refused")))?;
        ensure!(m.as_u16() == n, "0x{n:04x} becomes 0x{:04x}", m.as_u16());
        if n < 256 {
            ensure!(Method::from(n as u8) == m, "From<u8> gives another method for {n}");
        }
        cx.label("within");
    } else {
        invalid(r, &format!("method 0x{n:04x}"))?;
        cx.label("beyond");
    }
    Ok(())
}
fn c15_lifetime(s: &mut Src, cx: &mut Cx) -> R {
    let secs = match s.below(4) {
        0 => u64::from(s.u32()),
        1 => (1u64 << 32).wrapping_add(s.below(9) as u64).wrapping_sub(4),
        2 => s.u64() >> s.below(40),
        _ => *s.pick(&[0, 1, 600, u64::from(u32::MAX), 1 << 32, u64::MAX, 1 << 33, (1 << 32) + 600]),
    };
    let nanos = if s.bool() { s.u32() % 1_000_000_000 } else { *s.pick(&[0, 999_999_999, 1, 500_000_000]) };
    cx.key(&secs.to_be_bytes());
    cx.key(&nanos.to_be_bytes());
    cx.describe(|| format!("Lifetime::new({secs} s {nanos} ns)"));
    cx.nontrivial();
    let r = Lifetime::new(Duration::new(secs, nanos));
    match u32::try_from(secs) {
        Ok(n) => {
            let l = r.map_err(|_| Fail(format!("lifetime {secs} s {nanos} ns is refused")))?;
            ensure!(l.lifetime() == Duration::from_secs(secs), "{secs} s {nanos} ns becomes {:?}", l.lifetime());
            ensure!(l == Lifetime::from_u32(n), "from_u32 gives another value for {n}");
            let d = decode_one(0x000D, &n.to_be_bytes())?;
            ensure!(d == Some(Val::U32(n)), "{n} is decoded as {d:?}");
            cx.label("within");
        }
        Err(_) => {
            invalid(r, &format!("lifetime {secs} s"))?;
            cx.label("beyond");
        }
    }
    Ok(())
}

fn text_at(s: &mut Src, n: usize) -> String {
    // n characters, of one width or several
    gen::chars(s, n)
}
fn c15_text(s: &mut Src, cx: &mut Cx) -> R {
    let n = match s.below(3) {
        0 => 120 + s.below(16),
        1 => *s.pick(&[126usize, 127, 128, 129, 0, 1]),
        _ => s.below(600),
    };
    let t = text_at(s, n);
    assert_eq!(t.chars().count(), n);
    let what = s.below(3);
    let (name, ty) = [("Realm", 0x0014), ("Nonce", 0x0015), ("Software", 0x8022)][what];
    cx.key(&[what as u8]);
    cx.key(t.as_bytes());
    cx.describe(|| format!("{name} of {n} characters, {} bytes: {t:.60?}", t.len()));
    cx.nontrivial();
    let what = format!("{name} of {n} characters and {} bytes", t.len());
    // Memory to spare is not length.
    let _other = sets::OtherWay::when(s.chance(64));
    let r = match name {
        "Realm" => Realm::new(sets::owned(&t)).map(|a| a.text().to_string()),
        "Nonce" => Nonce::new(sets::owned(&t)).map(|a| a.value().to_string()),
        _ => Software::new(sets::owned(&t)).map(|a| a.description().to_string()),
    };
    let d = decode_one(ty, t.as_bytes())?;
    if n < 128 {
        let v = r.map_err(|_| Fail(format!("{what} is refused")))?;
        ensure!(v == t, "{what} becomes {v:?}");
        ensure!(d == Some(Val::Text(t.clone())), "{what} is decoded as {d:?}");
        cx.label(&format!("{name} within"));
    } else {
        invalid(r, &what)?;
        ensure!(d.is_none(), "{what} is decoded as {d:?}");
        cx.label(&format!("{name} beyond"));
    }
    Ok(())
}
fn c15_username(s: &mut Src, cx: &mut Cx) -> R {
    let n = match s.below(3) {
        0 => 505 + s.below(16),
        1 => *s.pick(&[511usize, 512, 513, 514, 0, 1, 128, 127]),
        _ => s.below(1100),
    };
    let t = gen::text_of_bytes(s, n);
    cx.key(t.as_bytes());
    cx.describe(|| format!("Username of {} bytes, {} characters: {t:.60?}", t.len(), t.chars().count()));
    cx.nontrivial();
    let _other = sets::OtherWay::when(s.chance(64));
    let r = Username::new(sets::owned(&t)).map(|a| a.name().to_string());
    let d = decode_one(0x0006, t.as_bytes())?;
    let what = format!("Username of {} bytes and {} characters", t.len(), t.chars().count());
    if t.len() < 513 {
        let v = r.map_err(|_| Fail(format!("{what} is refused")))?;
        ensure!(v == t, "{what} becomes {v:?}");
        ensure!(d == Some(Val::Text(t.clone())), "{what} is decoded as {d:?}");
        cx.label("within");
    } else {
        invalid(r, &what)?;
        ensure!(d.is_none(), "{what} is decoded as {d:?}");
        cx.label("beyond");
    }
    Ok(())
}
fn c15_bytes(s: &mut Src, cx: &mut Cx) -> R {
    let n = match s.below(4) {
        0 => 65530 + s.below(16),
        1 => *s.pick(&[65535usize, 65536, 65534, 0, 1, 131_071, 65536 + 4, 1 << 17, 65537]),
        2 => s.below(300),
        _ => s.below(140_000),
    };
    let b = s.bytes(n);
    let ticket = s.bool();
    let what = format!("{} of {n} bytes", if ticket { "MobilityTicket" } else { "Data" });
    cx.key(what.as_bytes());
    cx.describe(|| what.clone());
    cx.nontrivial();
    let _other = sets::OtherWay::when(s.chance(64));
    let r = if ticket {
        MobilityTicket::new(sets::owned_bytes(&b)).map(|a| a.data().to_vec())
    } else {
        Data::new(sets::owned_bytes(&b)).map(|a| a.data().to_vec())
    };
    if n <= 65535 {
        let v = r.map_err(|_| Fail(format!("{what} is refused")))?;
        ensure!(v == b, "{what} is altered");
        if n < 65000 {
            let d = decode_one(if ticket { 0x8030 } else { 0x0013 }, &b)?;
            ensure!(d == Some(Val::Bytes(b)), "{what} is altered by decoding");
        }
        cx.label("within");
    } else {
        invalid(r.map(|v| v.len()), &what)?;
        cx.label("beyond");
    }
    ensure!(MobilityTicket::empty().data().is_empty(), "the empty ticket is not empty");
    Ok(())
}

/// `Software::new_static` accepts exactly what `Software::new` does, and panics otherwise.
fn c15_new_static(_: &mut Src, cx: &mut Cx) -> R {
    const WIDE: [char; 6] = ['a', '\u{e9}', '\u{20ac}', '\u{1f600}', '\0', '\u{7ff}'];
    let n = (cx.idx / 6) as usize;
    let c = WIDE[(cx.idx % 6) as usize];
    cx.nontrivial();
    cx.describe(|| format!("Software::new_static of {n} times {c:?}"));
    let t: &'static str = Box::leak(c.to_string().repeat(n).into_boxed_str());
    let r = guarded(|| Ok(Software::new_static(t)));
    let again = || Software::new(t.to_string());
    if n < 128 {
        let a = r.map_err(|_| Fail(format!("new_static refuses {n} times {c:?}")))?;
        ensure!(a.description() == t, "new_static alters the text");
        ensure!(again().ok().as_ref() == Some(&a), "new and new_static differ for {n} times {c:?}");
        cx.label("within");
    } else {
        ensure!(r.is_err(), "new_static takes {n} times {c:?}");
        invalid(again(), &format!("{n} times {c:?}"))?;
        cx.label("beyond");
    }
    Ok(())
}

/// Every kind of attribute with values of every length from 0 to 40.
fn c15_lengths(s: &mut Src, cx: &mut Cx) -> R {
    let (ty, name, k) = ATTRS[(cx.idx / 41) as usize];
    let n = (cx.idx % 41) as usize;
    let v: Vec<u8> = match k {
        Kind::TextBytes(_) | Kind::TextChars(_) => vec![b'x'; n],
        Kind::Crc | Kind::Mac => vec![0; n],
        _ => {
            // A valid value, cut or extended
            let val = gen::val(s, k);
            let mut v = encode_value(ty, &val, &[9; 12]);
            v.resize(n, b'1');
            v
        }
    };
    cx.nontrivial();
    cx.describe(|| format!("{name} of {n} bytes: {}", hex(&v)));
    if k == Kind::Crc && n == 4 {
        return Ok(());
    }
    let want = model::decode_value(k, &v, &[9; 12]);
    let got = decode_one(ty, &v)?;
    ensure!(got == want.clone().ok(), "{name} {}: decoded as {got:?} instead of {want:?}", hex(&v));
    cx.label(if want.is_ok() { "valid length" } else { "invalid length" });
    Ok(())
}

// ---------------------------------------------------------------- C22

fn errors() -> Vec<(&'static str, u16, ErrorCode, u16, &'static str)> {
    macro_rules! table {
        ($($t:ident $code:literal $phrase:literal;)*) => {
            vec![$((stringify!($t), $t::CODEPOINT, ErrorCode::from($t), $code, $phrase)),*]
        };
    }
    table! {
        TryAlternate 300 "Try Alternate";
        BadRequest 400 "Bad Request";
        Unauthorized 401 "Unauthorized";
        UnknownAttribute 420 "Unknown Attribute";
        StaleNonce 438 "Stale Nonce";
        ServerError 500 "Server Error";
        RoleConflict 487 "Role Conflict";
        Forbidden 403 "Forbidden";
        AllocationMismatch 437 "Allocation Mismatch";
        WrongCredentials 441 "Wrong Credentials";
        UnsupportedTransportProtocol 442 "Unsupported Transport Protocol";
        AllocationQuotaReached 486 "Allocation Quota Reached";
        InsufficientCapacity 508 "Insufficient Capacity";
        MobilityForbidden 405 "Mobility Forbidden";
        AddressFamilyNotSupported 440 "Address Family not Supported";
        PeerAddressFamilyMismatch 443 "Peer Address Family Mismatch";
    }
}
const ERRORS: u64 = 16;

fn c22_errors(_: &mut Src, cx: &mut Cx) -> R {
    let all = errors();
    ensure!(all.len() as u64 == ERRORS, "table of {} errors", all.len());
    let (name, codepoint, code, want, phrase) = &all[cx.idx as usize];
    cx.nontrivial();
    cx.describe(|| format!("{name} {want} {phrase:?}"));
    ensure!(codepoint == want, "{name} has number {codepoint} instead of {want}");
    ensure!(code.code() == *want, "{name} converts to {} instead of {want}", code.code());
    ensure!(code.reason_phrase() == *phrase, "{name} converts to {:?} instead of {phrase:?}", code.reason_phrase());
    let v = Val::Error(code.code(), code.reason_phrase().to_string());
    for set in ["rfc5389", "user:all", "user:turn", "single:ErrorCode"] {
        let set = set_named(set);
        let mut m = set.message(3, 1, [3; 12]);
        ensure!(m.add(&El::Plain(9, v.clone())), "{name} cannot be added");
        let b = m.encode().map_err(|e| Fail(format!("{name} is not encoded: {:?}", e.kind)))?;
        let mut wire = vec![0, 0, (want / 100) as u8, (want % 100) as u8];
        wire.extend_from_slice(phrase.as_bytes());
        let expected = model::encode(3, 1, &[3; 12], &[Wire::new(9, wire)]);
        ensure!(b == expected, "{name} is encoded as {} instead of {}", hex(&b), hex(&expected));
        let d = expect_msg(feed_once(&mut *set.decoder(), &b)?.0, name)?;
        ensure!(d.view().known == vec![(9, v.clone())], "{name} is decoded as {:?}", d.view().known);
    }
    Ok(())
}

const KINDS: [ErrorKind; 7] = [
    ErrorKind::InvalidInput,
    ErrorKind::InconsistentState,
    ErrorKind::UnexpectedEos,
    ErrorKind::EncoderFull,
    ErrorKind::DecoderTerminated,
    ErrorKind::IncompleteDecoding,
    ErrorKind::Other,
];
fn mapped(e: bytecodec::Error) -> R<ErrorCode> {
    let kind = *e.kind();
    let c = ErrorCode::from(e);
    let want = if kind == ErrorKind::InvalidInput { (400, "Bad Request") } else { (500, "Server Error") };
    ensure!((c.code(), c.reason_phrase()) == want, "{kind:?} maps to {} {:?}", c.code(), c.reason_phrase());
    Ok(c)
}
fn c22_kinds(_: &mut Src, cx: &mut Cx) -> R {
    use trackable::error::ErrorKindExt;
    let kind = KINDS[cx.idx as usize % 7];
    cx.nontrivial();
    cx.describe(|| format!("an error of kind {kind:?}"));
    let e: bytecodec::Error = match cx.idx / 7 {
        0 => kind.error().into(),
        1 => kind.cause("some cause").into(),
        2 => kind.takes_over(bytecodec::Error::from(ErrorKind::InvalidInput.cause("inner"))).into(),
        3 => kind.takes_over(bytecodec::Error::from(ErrorKind::Other.cause("inner"))).into(),
        _ => {
            fn tracked(k: ErrorKind) -> bytecodec::Result<()> {
                trackable::track_assert!(false, k, "tracked");
                Ok(())
            }
            let again = || -> bytecodec::Result<()> { trackable::track!(tracked(kind)) };
            again().unwrap_err()
        }
    };
    ensure!(*e.kind() == kind, "the error has kind {:?}", e.kind());
    mapped(e)?;
    Ok(())
}

/// The errors that come out of constructors and broken messages.
fn c22_real(s: &mut Src, cx: &mut Cx) -> R {
    let e = match s.below(8) {
        0 => Username::new("x".repeat(513 + s.below(4))).err(),
        1 => Realm::new("x".repeat(128 + s.below(4))).err(),
        2 => ErrorCode::new(s.u16() % 300, String::new()).err(),
        3 => ChannelNumber::new(s.u16() & 0x3fff).err(),
        4 => Method::new(s.u16() | 0x1000).err(),
        5 => Data::new(vec![0; 65536 + s.below(9)]).err(),
        _ => {
            let set = gen::any_set(s);
            let b = gen::message_bytes(s, set.known());
            describe_bytes(cx, set, &b);
            match feed_once(&mut *set.decoder(), &b)?.0 {
                Outcome::Broken(r) => {
                    cx.nontrivial();
                    // The cause in the report
                    if let Expect::Whole(p, _) = expect(&b, set) {
                        let why = match &p.attrs {
                            Ok(_) => Some("wrong fingerprint".to_string()),
                            Err(why) => model::bad_content(why).then(|| why.clone()),
                        };
                        if let Some(why) = why {
                            let c = mapped(r.msg.error().clone())?;
                            ensure!(c.code() == 400, "the cause of a broken message ({why}) maps to {}", c.code());
                            cx.label("cause of a broken message");
                        }
                    }
                    let c = mapped(r.msg.into())?;
                    ensure!(c.code() == 400, "a broken message maps to {}", c.code());
                    cx.label("broken message");
                }
                Outcome::Rejected if b.len() >= 20 && model::parse_header(&b).is_err() => {
                    cx.nontrivial();
                    match sets::decode_once(set, &b) {
                        Err(e) => ensure!(e.kind == ErrorKind::InvalidInput, "a rejected header gives {:?}", e.kind),
                        Ok(_) => fail!("rejected and not rejected"),
                    }
                    cx.label("rejected message");
                }
                _ => {}
            }
            return Ok(());
        }
    };
    cx.nontrivial();
    cx.label("constructor");
    let Some(e) = e else { fail!("no error for an invalid value") };
    ensure!(mapped(e)?.code() == 400, "an invalid value is not a bad request");
    Ok(())
}

const METHODS: [(u16, &str); 7] = [
    (1, "binding"),
    (3, "allocate"),
    (4, "refresh"),
    (6, "send"),
    (7, "data"),
    (8, "create permission"),
    (9, "channel bind"),
];
fn c22_methods(_: &mut Src, cx: &mut Cx) -> R {
    use stun_codec::rfc5389::methods::BINDING;
    use stun_codec::rfc5766::methods::{ALLOCATE, CHANNEL_BIND, CREATE_PERMISSION, DATA, REFRESH, SEND};
    let n = cx.idx as u16;
    cx.nontrivial();
    let m = Method::new(n).map_err(|_| Fail(format!("method {n} is refused")))?;
    let shown = m.to_string();
    cx.describe(|| format!("method {n} shown as {shown:?}"));
    let predefined = [BINDING, ALLOCATE, REFRESH, SEND, DATA, CREATE_PERMISSION, CHANNEL_BIND];
    match METHODS.iter().position(|x| x.0 == n) {
        Some(i) => {
            let p = predefined[i];
            ensure!(p.as_u16() == n && p == m, "method {} has number {}", METHODS[i].1, p.as_u16());
            ensure!(shown == METHODS[i].1, "method {n} is shown as {shown:?} instead of {:?}", METHODS[i].1);
            // In a header, in each class
            for class in 0..4 {
                let b = model::encode(class, n, &[5; 12], &[]);
                let d = expect_msg(feed_once(&mut *set_named("user:all").decoder(), &b)?.0, "empty message")?;
                ensure!(d.view().method == n && d.view().class == class, "method {n} is decoded as {}", d.view().method);
                ensure!(d.encode() == Ok(b), "method {n} is encoded otherwise");
            }
        }
        None => {
            ensure!(!predefined.contains(&m), "method {n} equals a predefined one");
            ensure!(!METHODS.iter().any(|x| x.1 == shown), "method {n} is shown as {shown:?}");
        }
    }
    Ok(())
}
fn c22_classes(_: &mut Src, cx: &mut Cx) -> R {
    let names = ["request", "indication", "success response", "error response"];
    let c = [
        MessageClass::Request,
        MessageClass::Indication,
        MessageClass::SuccessResponse,
        MessageClass::ErrorResponse,
    ][cx.idx as usize];
    cx.nontrivial();
    cx.describe(|| format!("{c:?}"));
    ensure!(c.to_string() == names[cx.idx as usize], "{c:?} is shown as {c}");
    ensure!(sets::class_num(c) == cx.idx as u8, "{c:?}");
    Ok(())
}
/// Address families show their name and channel numbers their number, also when received.
fn c22_shown(_: &mut Src, cx: &mut Cx) -> R {
    use stun_codec::rfc5766::attributes::ChannelNumber;
    use stun_codec::rfc8656::attributes::AddressFamily;
    cx.nontrivial();
    if cx.idx < 2 {
        let (f, name) = [(AddressFamily::V4, "IPv4"), (AddressFamily::V6, "IPv6")][cx.idx as usize];
        cx.describe(|| name.to_string());
        ensure!(f.to_string() == name, "{f:?} is shown as {f}");
        return Ok(());
    }
    let n = 0x4000 + (cx.idx - 2) as u16;
    cx.describe(|| format!("channel {n}"));
    let a = ChannelNumber::new(n).map_err(|_| Fail(format!("channel {n} is refused")))?;
    ensure!(a.to_string() == n.to_string(), "channel {n} is shown as {a}");
    Ok(())
}
/// Every attribute type has its number: as constant, as reported and on the wire.
fn c22_types(s: &mut Src, cx: &mut Cx) -> R {
    let (ty, name, k) = ATTRS[cx.idx as usize % ATTRS.len()];
    cx.nontrivial();
    let set = set_named(&format!("single:{name}"));
    cx.describe(|| format!("{name} 0x{ty:04x}"));
    ensure!(set.known().types == [ty], "{name} has number {:04x?} instead of 0x{ty:04x}", set.known().types);
    let el = match k {
        Kind::Mac => El::MiShort("pw".into()),
        Kind::Crc => El::Fp,
        k => El::Plain(ty, gen::val(s, k)),
    };
    for set in sets().iter().filter(|x| x.known().types.contains(&ty)) {
        let mut m = set.message(0, 1, [1; 12]);
        ensure!(m.add(&el), "{name} cannot be added to {}", set.name());
        ensure!(m.view().known[0].0 == ty, "{name} reports 0x{:04x} in {}", m.view().known[0].0, set.name());
        let b = m.encode().map_err(|e| Fail(format!("{name} is not encoded: {:?}", e.kind)))?;
        let on_wire = u16::from_be_bytes([b[20], b[21]]);
        ensure!(on_wire == ty, "{name} is encoded as 0x{on_wire:04x} in {}", set.name());
        let d = expect_msg(feed_once(&mut *set.decoder(), &b)?.0, name)?;
        ensure!(d.view().known.len() == 1, "{name} is not known to {} that offers it", set.name());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            rule: "A case is an address with a transaction ID, or a message with address attributes, built or received; every case is non-trivial. The bytes are compared with the XOR by its definition.",
            assumptions: &["Addresses are compared on IP and port."],
            parts: vec![
                random("the operation", 200_000, c14_function),
                random("built messages", 40_000, c14_wire),
                random("received addresses", 60_000, c14_received),
            ],
        },
        Prop {
            id: "C15",
            rule: "A case is a value around (or, for error codes, channel numbers and methods, every value within and beyond) a documented limit, given to the constructor and to the decoder; every case is non-trivial.",
            assumptions: &[],
            parts: vec![
                exhaustive("all error codes, constructor", 65536, c15_error_new),
                exhaustive("all error class and number bytes, decoder", 65536, c15_error_decode),
                exhaustive("all channel numbers", 65536, c15_channel),
                exhaustive("all methods", 65536, c15_method),
                random("lifetimes", 40_000, c15_lifetime),
                random("REALM, NONCE and SOFTWARE", 40_000, c15_text),
                random("USERNAME", 20_000, c15_username),
                random("DATA and MOBILITY-TICKET", 2_000, c15_bytes),
                directed("Software::new_static", 6 * 160, c15_new_static),
                directed("every attribute with every length to 40", ATTRS.len() as u64 * 41, c15_lengths),
            ],
        },
        Prop {
            id: "C22",
            rule: "A case is a predefined error, method, class or attribute type compared with the registry of its RFC (all are enumerated), or an error of some kind to be mapped; non-trivial if there is something to compare.",
            assumptions: &["The tables of this check transcribe the RFCs correctly."],
            parts: vec![
                exhaustive("all errors", ERRORS, c22_errors),
                exhaustive("all error kinds", 35, c22_kinds),
                exhaustive("all methods", 4096, c22_methods),
                exhaustive("all classes", 4, c22_classes),
                exhaustive("all address families and channel numbers shown", 2 + 0x1000, c22_shown),
                exhaustive("all attribute types", ATTRS.len() as u64, c22_types),
                random("errors that occur", 30_000, c22_real),
            ],
        },
    ]
}
