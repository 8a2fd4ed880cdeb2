//! C01, C02, C03, C05, C10, C16, C17: what is encoded and decoded.
use super::*;
use crate::engine::{directed, exhaustive, random, Cx, Prop, R};
use crate::gen::{self, SpecOpts, WireOpts, CLEAN, MIXED};
use crate::model::{self, encode_value, hex, kind, pad_len, Kind, Val, Wire, ATTRS};
use crate::sets::{self, sets, El, OtherWay};
use bytecodec::ErrorKind;
use stun_codec::rfc5389::attributes::ErrorCode;
use stun_codec::AttributeType;

const OPTS: SpecOpts = SpecOpts { auth: true, big: true };

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case is an attribute set (predefined, user-defined, single type, raw) and a message built from generated values; it is non-trivial if it has at least one attribute.",
            assumptions: &["Addresses are compared on IP and port."],
            parts: vec![
                random("every type alone", 60_000, c01_each),
                random("built messages", 60_000, c01_spec),
                random("address details", 4_000, c01_flowinfo),
            ],
        },
        Prop {
            id: "C02",
            rule: "A case is an attribute set and a built message whose bytes are compared with those of the reference encoder; non-trivial if it has at least one attribute, or if it is one of the 16384 class/method pairs.",
            assumptions: &["The reference encoder (model.rs) transcribes the RFCs correctly."],
            parts: vec![
                exhaustive("all class/method pairs", 16384, c02_types),
                random("every type alone", 60_000, c02_each),
                random("built messages", 60_000, c02_spec),
            ],
        },
        Prop {
            id: "C03",
            rule: "A case is an attribute set and a byte string (attribute-wise generated with invalid values and lengths, byte-wise damaged, or random) whose verdict and content are compared with the reference decoder; non-trivial if the header is valid.",
            assumptions: &[
                "The reference decoder (model.rs) transcribes the RFCs and the documented limits correctly.",
                "Where a fingerprint follows attributes with reserved bits set, either verdict is accepted here (see C11).",
            ],
            parts: vec![
                exhaustive("all message types", 65536, c03_types),
                random("one attribute", 150_000, c03_one),
                random("whole messages", 120_000, c03_bytes),
            ],
        },
        Prop {
            id: "C05",
            rule: "A case is an attribute set and a generated byte string; non-trivial if it is accepted and has at least one attribute, and then its re-encoding is compared with it.",
            assumptions: &["Known findings: reserved bits of known attributes are cleared (known_findings.txt)."],
            parts: vec![
                directed("reserved bits", 16, reserved_reencode),
                random("clean messages", 90_000, c05_clean),
                random("any messages", 90_000, c05_any),
            ],
        },
        Prop {
            id: "C10",
            rule: "A case is a message around or beyond the limits of the 16-bit length fields, or any generated message; non-trivial if its attribute part is within 64 bytes of the limit or beyond it.",
            assumptions: &[],
            parts: vec![random("around the limit", 2_500, c10_limit), random("any message", 20_000, c10_any)],
        },
        Prop {
            id: "C16",
            rule: "A case is a message and an attribute set that knows some of its attributes; non-trivial if there are at least two attributes.",
            assumptions: &[],
            parts: vec![
                exhaustive("comprehension of all types", 65536, c16_comprehension),
                random("received", 90_000, c16_received),
                random("built", 30_000, c16_built),
            ],
        },
        Prop {
            id: "C17",
            rule: "A case is a message with a valid header and a damaged attribute part; non-trivial if the reference decoder finds it broken.",
            assumptions: &[],
            parts: vec![random("damaged attributes", 150_000, c17), random("damaged attributes in pieces", 40_000, c17_pieces)],
        },
    ]
}

/// One element of each type of each set in turn.
fn each_spec(s: &mut Src, cx: &Cx) -> Option<(&'static dyn DynSet, Spec)> {
    let all = sets();
    // Walk over sets and types so that each pair has many values.
    let set = &*all[(cx.idx as usize) % all.len()];
    let k = cx.idx as usize / all.len();
    let known = set.known();
    let (class, method, tid) = (gen::class(s), gen::method(s), gen::tid(s));
    let el = if known.raw {
        gen::el(s, set, true)?
    } else {
        let ty = known.types[k % known.types.len()];
        match ty {
            model::MI => {
                if s.bool() {
                    El::MiLong(gen::text_bytes(s, 513), gen::text_chars(s, 128), gen::password(s))
                } else {
                    El::MiShort(gen::password(s))
                }
            }
            model::FP => El::Fp,
            ty => El::Plain(ty, gen::val(s, kind(ty).unwrap())),
        }
    };
    Some((set, Spec { class, method, tid, els: vec![el] }))
}

fn round_trip(set: &dyn DynSet, sp: &Spec, cx: &mut Cx) -> R {
    describe_spec(cx, set, sp);
    if !sp.els.is_empty() {
        cx.nontrivial();
    }
    cx.label(&format!("set {}", if set.name().starts_with("single") { "single type" } else { set.name() }));
    let m = build(set, sp)?;
    let bytes = match m.encode() {
        Ok(b) => b,
        Err(e) => fail!("a message that fits is refused: {e:?}"),
    };
    let d = match sets::decode_once(set, &bytes) {
        Ok(Decoded::Msg(d)) => d,
        Ok(Decoded::Broken(b)) => fail!("own encoding is broken: {} (bytes {})", b.msg.error(), hex(&bytes)),
        Err(e) => fail!("own encoding is rejected: {:?} (bytes {})", e, hex(&bytes)),
    };
    let want = View {
        class: sp.class,
        method: sp.method,
        tid: sp.tid,
        known: gen::spec_vals(sp, set.known().raw),
        unknown: vec![],
    };
    let got = d.view();
    ensure!(got == want, "decoded {got:?} instead of {want:?}");
    ensure!(m.view() == want, "encoding changed or misrepresents the message: {:?} instead of {want:?}", m.view());
    if let Some(same) = m.same_attributes(&*d) {
        ensure!(same, "decoded attributes are not == to the encoded ones: {} versus {}", d.debug(), m.debug());
    }
    for el in &sp.els {
        if let El::Plain(ty, _) = el {
            cx.label(&model::name(if kind(*ty).is_some() { *ty } else { 0xfff0 }));
        } else {
            cx.label("integrity or fingerprint");
        }
    }
    Ok(())
}
fn c01_each(s: &mut Src, cx: &mut Cx) -> R {
    match each_spec(s, cx) {
        Some((set, sp)) => round_trip(set, &sp, cx),
        None => Ok(()),
    }
}
fn c01_spec(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let sp = gen::spec(s, set, &OPTS);
    let _other = OtherWay::when(s.chance(32));
    round_trip(set, &sp, cx)
}
/// IPv6 socket addresses with flow information and scope: IP and port survive.
fn c01_flowinfo(s: &mut Src, cx: &mut Cx) -> R {
    use bytecodec::{DecodeExt, EncodeExt};
    use std::net::{IpAddr, SocketAddr, SocketAddrV6};
    use stun_codec::rfc5389::attributes::{MappedAddress, XorMappedAddress};
    use stun_codec::{rfc5389, Message, MessageDecoder, MessageEncoder, Method, TransactionId};
    let mut o = [0u8; 16];
    o.iter_mut().for_each(|b| *b = s.u8());
    let addr = SocketAddr::V6(SocketAddrV6::new(o.into(), gen::port(s), s.u32(), s.u32()));
    let tid = gen::tid(s);
    cx.nontrivial();
    cx.describe(|| format!("address {addr:?} tid {}", hex(&tid)));
    let mut m = Message::<rfc5389::Attribute>::new(sets::class_of(gen::class(s)), Method::new(gen::method(s)).unwrap(), TransactionId::new(tid));
    m.add_attribute(MappedAddress::new(addr));
    m.add_attribute(XorMappedAddress::new(addr));
    let bytes = MessageEncoder::new().encode_into_bytes(m).map_err(|e| Fail(format!("refused: {e}")))?;
    let d = MessageDecoder::<rfc5389::Attribute>::new()
        .decode_from_bytes(&bytes)
        .map_err(|e| Fail(format!("rejected: {e}")))?
        .map_err(|e| Fail(format!("broken: {e:?}")))?;
    let want = (IpAddr::V6(o.into()), addr.port());
    for a in [d.get_attribute::<MappedAddress>().map(|a| a.address()), d.get_attribute::<XorMappedAddress>().map(|a| a.address())] {
        let got = a.map(|a| (a.ip(), a.port()));
        ensure!(got == Some(want), "address {got:?} instead of {want:?}");
    }
    Ok(())
}

fn c02_types(_: &mut Src, cx: &mut Cx) -> R {
    let (class, method) = ((cx.idx & 3) as u8, (cx.idx >> 2) as u16);
    let tid = [0x5a; 12];
    cx.nontrivial();
    cx.describe(|| format!("class {class} method 0x{method:03x}"));
    for set in [sets::set_named("rfc5389"), sets::set_named("raw")] {
        let got = set.message(class, method, tid).encode();
        let want = model::encode(class, method, &tid, &[]);
        ensure!(got.as_ref() == Ok(&want), "class {class} method 0x{method:03x}: {:?} instead of {}", got.map(|b| hex(&b)), hex(&want));
    }
    Ok(())
}
fn conform(set: &dyn DynSet, sp: &Spec, cx: &mut Cx) -> R {
    describe_spec(cx, set, sp);
    if !sp.els.is_empty() {
        cx.nontrivial();
    }
    let m = build(set, sp)?;
    let want = model::encode(sp.class, sp.method, &sp.tid, &gen::spec_wires(sp));
    let got = m.encode();
    ensure!(got.as_ref() == Ok(&want), "encoded {:?} instead of {}", got.map(|b| hex(&b)), hex(&want));
    for el in &sp.els {
        if let El::Plain(ty, _) = el {
            cx.label(&model::name(if kind(*ty).is_some() { *ty } else { 0xfff0 }));
        }
    }
    Ok(())
}
fn c02_each(s: &mut Src, cx: &mut Cx) -> R {
    match each_spec(s, cx) {
        Some((set, sp)) => conform(set, &sp, cx),
        None => Ok(()),
    }
}
fn c02_spec(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let sp = gen::spec(s, set, &OPTS);
    let _other = OtherWay::when(s.chance(32));
    conform(set, &sp, cx)
}

/// Compares the verdict and content for the message that starts `b`.
pub fn judge(set: &dyn DynSet, b: &[u8], cx: &mut Cx) -> R {
    describe_bytes(cx, set, b);
    let mut d = set.decoder();
    let (o, consumed) = feed_once(&mut *d, b)?;
    match expect(b, set) {
        Expect::NotAccepted(why) => {
            cx.label(&format!("model: {why}"));
            ensure!(!o.accepted(), "accepted, although: {why}");
            let cut = why == "cut short";
            ensure!(cut || matches!(o, Outcome::Rejected | Outcome::Unfinished), "{} instead of rejected: {why}", o.tag());
            if announced(b).is_none() && b.len() >= 20 {
                ensure!(matches!(o, Outcome::Rejected), "{} instead of rejected: {why}", o.tag());
            }
        }
        Expect::Whole(p, n) => {
            cx.nontrivial();
            let broken = match &p.attrs {
                Err(e) => Some(e.clone()),
                Ok(_) if !p.fp_strict => Some("wrong fingerprint".into()),
                Ok(_) => None,
            };
            let either = p.attrs.is_ok() && p.fp_strict != p.fp_canon;
            if either {
                cx.label("fingerprint after reserved bits");
            }
            match (&o, &broken) {
                (Outcome::Msg(m), why) => {
                    ensure!(why.is_none() || either, "accepted, although: {}", why.clone().unwrap());
                    let (got, want) = (m.view(), view_of(&p));
                    ensure!(got == want, "decoded {got:?} instead of {want:?}");
                    cx.label("accepted");
                }
                (Outcome::Broken(r), why) => {
                    ensure!(why.is_some() || either, "broken ({}), although it is well-formed", r.msg.error());
                    ensure!(
                        (r.class, r.method, r.tid) == (p.class, p.method, p.tid),
                        "the report has another class, method or transaction ID"
                    );
                    if let Some(why) = why {
                        let why: String = why.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                        cx.label(&format!("broken: {why}"));
                    }
                }
                (o, why) => fail!("{} instead of {}", o.tag(), if why.is_some() { "broken" } else { "accepted" }),
            }
            ensure!(consumed == n, "consumed {consumed} bytes of a message of {n}");
        }
    }
    Ok(())
}
fn c03_types(_: &mut Src, cx: &mut Cx) -> R {
    let t = cx.idx as u16;
    let mut b = t.to_be_bytes().to_vec();
    b.extend_from_slice(&[0, 4]);
    b.extend_from_slice(&model::COOKIE);
    b.extend_from_slice(b"transactions");
    // An attribute of this type without value
    b.extend_from_slice(&t.to_be_bytes());
    b.extend_from_slice(&[0, 0]);
    judge(sets::set_named("user:all"), &b, cx)
}
fn c03_one(s: &mut Src, cx: &mut Cx) -> R {
    let set = if s.chance(100) { gen::any_set(s) } else { sets::set_named("user:all") };
    let o = WireOpts { odd: 140, reserved: 20, pad: 60, bad_fp: 40, big: false };
    let mut m = gen::wires(s, set.known(), &o);
    // Types in turn, so that each gets its share of odd values
    if !set.known().raw {
        let ty = set.known().types[cx.idx as usize % set.known().types.len()];
        m.attrs.retain(|a| a.ty == ty);
        m.attrs.truncate(1);
    } else {
        m.attrs.truncate(1);
    }
    let b = m.bytes();
    judge(set, &b, cx)
}
fn c03_bytes(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let mut b = gen::message_bytes(s, set.known());
    if s.chance(20) {
        let n = s.below(30);
        b.extend(s.bytes(n));
    }
    judge(set, &b, cx)
}

/// Directed: one message per attribute type with reserved bits.
fn reserved_cases(i: u64) -> (u16, Vec<u8>) {
    let types: Vec<u16> = ATTRS
        .iter()
        .filter(|a| {
            matches!(
                a.2,
                Kind::Addr | Kind::XorAddr | Kind::Error | Kind::Channel | Kind::Port | Kind::Transport | Kind::Family | Kind::Even | Kind::Change
            )
        })
        .map(|a| a.0)
        .collect();
    assert_eq!(types.len(), 16);
    let ty = types[i as usize];
    let v = match kind(ty).unwrap() {
        Kind::Addr | Kind::XorAddr => vec![0x5a, 1, 0x0d, 0x96, 192, 0, 2, 1],
        Kind::Error => vec![0, 0, 0x1c, 1],
        Kind::Channel => vec![0x40, 1, 0, 9],
        Kind::Port => vec![0x0d, 0x96, 1, 0],
        Kind::Transport => vec![17, 0, 0, 1],
        Kind::Family => vec![1, 0, 0, 1],
        Kind::Even => vec![0x81],
        Kind::Change => vec![0, 0, 0, 7],
        _ => unreachable!(),
    };
    (ty, v)
}
pub fn reserved_attr(i: u64) -> Wire {
    let (ty, v) = reserved_cases(i);
    Wire::new(ty, v)
}
fn reserved_reencode(_: &mut Src, cx: &mut Cx) -> R {
    let w = reserved_attr(cx.idx);
    let b = model::encode(0, 1, &[7; 12], &[w]);
    lossless(sets::set_named("user:all"), &b, cx)
}

/// An accepted message is encoded to what it was decoded from.
fn lossless(set: &dyn DynSet, b: &[u8], cx: &mut Cx) -> R {
    describe_bytes(cx, set, b);
    let Some(n) = announced(b).filter(|n| *n <= b.len()) else { return Ok(()) };
    let b = &b[..n];
    let Ok(Decoded::Msg(m)) = sets::decode_once(set, b) else {
        cx.label("not accepted");
        return Ok(());
    };
    if n > 20 {
        cx.nontrivial();
    }
    cx.label("accepted");
    let got = m.encode();
    if got.as_deref() != Ok(b) {
        // Only clearing reserved bits of known attributes is a known deviation.
        let p = model::parse(b, set.known()).map_err(|e| Fail(format!("accepted although {e}")))?;
        if let Ok(attrs) = &p.attrs {
            if !p.reserved.is_empty() && got == Ok(model::canon_prefix(b, attrs, attrs.len())) {
                let mut names = p.reserved.clone();
                names.sort();
                names.dedup();
                for name in names {
                    cx.finding(&format!("reserved-bits:{name}"), || format!("{} is encoded again as {:?}", hex(b), got.as_ref().map(|b| hex(b))))?;
                }
                cx.label("reserved bits cleared (known finding)");
                return Ok(());
            }
        }
        fail!("{} is encoded again as {:?}", hex(b), got.map(|b| hex(&b)));
    }
    let v = m.view();
    if !v.unknown.is_empty() {
        cx.label("with unknown attributes");
    }
    // And once more through another decoding
    let Ok(Decoded::Msg(m2)) = sets::decode_once(set, b) else { fail!("accepted only once") };
    ensure!(m2.clone_box().encode().as_deref() == Ok(b), "a clone is encoded differently");
    Ok(())
}
fn c05_clean(s: &mut Src, cx: &mut Cx) -> R {
    // Generated for one set, decoded with another as often as not
    let from = gen::any_set(s);
    let set = if s.bool() { gen::any_set(s) } else { from };
    let b = gen::wires(s, from.known(), &CLEAN).bytes();
    lossless(set, &b, cx)
}
fn c05_any(s: &mut Src, cx: &mut Cx) -> R {
    let from = gen::any_set(s);
    let set = if s.bool() { gen::any_set(s) } else { from };
    let b = gen::message_bytes(s, from.known());
    lossless(set, &b, cx)
}

/// Walks the attributes by their length fields.
fn walk(b: &[u8]) -> R {
    ensure!(b.len() >= 20, "{} bytes", b.len());
    let n = usize::from(u16::from_be_bytes([b[2], b[3]]));
    ensure!(n == b.len() - 20, "the header announces {n} bytes, {} follow", b.len() - 20);
    ensure!(n % 4 == 0, "length {n} is not a multiple of 4");
    let mut at = 20;
    while at < b.len() {
        ensure!(at + 4 <= b.len(), "the attributes end within an attribute header");
        let l = usize::from(u16::from_be_bytes([b[at + 2], b[at + 3]]));
        at += 4 + l + pad_len(l);
    }
    ensure!(at == b.len(), "the attributes end at {at} instead of {}", b.len());
    Ok(())
}
fn c10_limit(s: &mut Src, cx: &mut Cx) -> R {
    let set = *s.pick(&[
        sets::set_named("user:all"),
        sets::set_named("raw"),
        sets::set_named("rfc5389"),
        sets::set_named("rfc5766"),
        sets::set_named("single:Data"),
        sets::set_named("single:UnknownAttributes"),
        sets::set_named("single:MobilityTicket"),
        sets::set_named("single:ErrorCode"),
    ]);
    let (class, method, tid) = (gen::class(s), gen::method(s), gen::tid(s));
    let known = set.known();
    let mut els = vec![];
    // The long attribute: its value is about `n` bytes.
    let long = |s: &mut Src, n: usize| -> El {
        if known.raw {
            return El::Plain(gen::attr_type(s), Val::Bytes(s.bytes(n)));
        }
        let options: Vec<u16> = [0x0013u16, 0x8030, 0x0009, 0x000A].into_iter().filter(|t| known.knows(*t)).collect();
        let ty = *s.pick(&options);
        let v = match kind(ty).unwrap() {
            Kind::Bytes => Val::Bytes(s.bytes(n.min(65535))),
            Kind::Error => Val::Error(gen::error_code(s), gen::text_of_bytes(s, n.saturating_sub(4))),
            _ => Val::Types(s.bytes(n / 2 * 2).chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect()),
        };
        El::Plain(ty, v)
    };
    let used = |els: &[El]| gen::size_of(els, &tid);
    match s.below(5) {
        0 => {
            // One attribute just at the limit of its own length field
            let n = 65520 + s.below(36);
            els.push(long(s, n));
        }
        1 => {
            // Beyond it by any amount, also twice
            let n = *s.pick(&[65535usize, 65536, 65537, 65540, 66000, 70000, 131072, 131076, 131071, 196608]);
            els.push(long(s, n));
        }
        2 => {
            // Small ones, then one that just fits or not
            let k = s.below(6);
            for _ in 0..k {
                if let Some(e) = gen::el(s, set, false) {
                    els.push(e);
                }
            }
            let room = 65532usize.saturating_sub(used(&els) + 4);
            let n = (room + 8).saturating_sub(s.below(20));
            els.push(long(s, n));
        }
        3 => {
            // One that nearly fills, then small ones
            let n = 65532 - 4 - 4 * s.below(20);
            els.push(long(s, n));
            let k = s.below(6);
            for _ in 0..k {
                if let Some(e) = gen::el(s, set, false) {
                    els.push(e);
                }
            }
        }
        _ => {
            // Several long ones; the sum may pass 65536 by little or by far
            let k = 2 + s.below(4);
            for _ in 0..k {
                let n = 20000 + s.below(30000);
                els.push(long(s, n));
            }
        }
    }
    let sp = Spec { class, method, tid, els };
    limit(set, &sp, cx)
}
fn c10_any(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let sp = gen::spec(s, set, &OPTS);
    limit(set, &sp, cx)
}
fn limit(set: &dyn DynSet, sp: &Spec, cx: &mut Cx) -> R {
    let total: usize = gen::size_of(&sp.els, &sp.tid);
    let long = sp.els.iter().any(|e| matches!(e, El::Plain(ty, v) if encode_value(*ty, v, &sp.tid).len() > 65535));
    describe_spec(cx, set, sp);
    cx.describe(|| format!("attribute part of {total} bytes"));
    if total + 64 > 65535 {
        cx.nontrivial();
    }
    let fits = total <= 65535 && !long;
    let m = build(set, sp)?;
    let r = m.encode();
    match r {
        Ok(b) => {
            walk(&b)?;
            ensure!(fits, "a message with {total} bytes of attributes is encoded");
            ensure!(b.len() == 20 + total, "{} bytes instead of {}", b.len(), 20 + total);
            cx.label("encoded");
        }
        Err(e) => {
            ensure!(!fits, "a message with {total} bytes of attributes is refused: {e:?}");
            ensure!(e.kind == ErrorKind::InvalidInput, "refused with {:?} instead of InvalidInput", e.kind);
            cx.label(if long { "refused: attribute too long" } else { "refused: message too long" });
        }
    }
    Ok(())
}

fn c16_comprehension(_: &mut Src, cx: &mut Cx) -> R {
    let t = AttributeType::new(cx.idx as u16);
    cx.nontrivial();
    let want = cx.idx < 0x8000;
    ensure!(t.is_comprehension_required() == want, "type 0x{:04x}: required {}", cx.idx, !want);
    ensure!(t.is_comprehension_optional() != want, "type 0x{:04x}: optional {want}", cx.idx);
    ensure!(t.as_u16() == cx.idx as u16 && AttributeType::from(cx.idx as u16) == t, "type 0x{:04x} changes", cx.idx);
    Ok(())
}
fn partition(set: &dyn DynSet, m: &dyn DynMsg, want: &View) -> R {
    let got = m.view();
    ensure!(got == *want, "the message shows {got:?} instead of {want:?}");
    for (ty, ..) in ATTRS {
        if let Some(got) = m.get(*ty) {
            ensure!(set.known().knows(*ty), "{} is offered", model::name(*ty));
            let want = want.known.iter().find(|a| a.0 == *ty).map(|a| a.1.clone());
            ensure!(got == want, "looking up {} gives {got:?} instead of {want:?}", model::name(*ty));
        }
    }
    Ok(())
}
fn c16_received(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let mut m = gen::wires(s, set.known(), &CLEAN);
    // Repetitions of types with other values
    let k = s.below(4);
    for _ in 0..k {
        if m.attrs.is_empty() {
            break;
        }
        let ty = m.attrs[s.below(m.attrs.len())].ty;
        if ty == model::FP || ty == model::MI {
            continue;
        }
        let v = match kind(ty) {
            Some(k) => encode_value(ty, &gen::val(s, k), &m.tid),
            None => {
                let n = gen::byte_len(s);
                s.bytes(n)
            }
        };
        let w = Wire::new(ty, v);
        if m.attrs.iter().map(|a| a.len()).sum::<usize>() + w.len() <= 65532 {
            m.attrs.push(w);
        }
    }
    let b = m.bytes();
    describe_bytes(cx, set, &b);
    let p = model::parse(&b, set.known()).map_err(Fail)?;
    if p.attrs.is_err() || !p.fp_strict {
        cx.label("not accepted");
        return Ok(());
    }
    if m.attrs.len() >= 2 {
        cx.nontrivial();
    }
    let mut d = set.decoder();
    let sizes = gen::pieces(s, b.len());
    let o = if s.bool() {
        feed_once(&mut *d, &b)?.0
    } else {
        feed(&mut *d, &plan(s, &b, &sizes), |_, _| Ok(()))?.0
    };
    let m = expect_msg(o, "a well-formed message")?;
    let want = view_of(&p);
    cx.label_n("known attributes", want.known.len() as u64);
    cx.label_n("unknown attributes", want.unknown.len() as u64);
    partition(set, &*m, &want)
}
fn c16_built(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let sp = gen::spec(s, set, &OPTS);
    describe_spec(cx, set, &sp);
    if sp.els.len() >= 2 {
        cx.nontrivial();
    }
    let m = build(set, &sp)?;
    let want = View { class: sp.class, method: sp.method, tid: sp.tid, known: gen::spec_vals(&sp, set.known().raw), unknown: vec![] };
    partition(set, &*m, &want)
}

fn broken_bytes(s: &mut Src, set: &dyn DynSet) -> Vec<u8> {
    let o = WireOpts { odd: 90, ..MIXED };
    let mut b = gen::wires(s, set.known(), &o).bytes();
    if s.chance(90) && b.len() > 20 {
        // Damage after the header, and lengths
        let mut tail = b.split_off(20);
        let mut h = b.clone();
        h.append(&mut tail);
        gen::mutate(s, &mut h);
        let n = h.len().max(20);
        h.resize(n, 0);
        h[..20].copy_from_slice(&b);
        let len = ((h.len() - 20) as u16).to_be_bytes();
        h[2..4].copy_from_slice(&len);
        b = h;
    }
    b
}
fn report(set: &dyn DynSet, b: &[u8], o: Outcome, consumed: usize, cx: &mut Cx) -> R {
    let Expect::Whole(p, n) = expect(b, set) else { fail!("generator: not a whole message") };
    if p.attrs.is_ok() && p.fp_strict != p.fp_canon {
        cx.label("fingerprint after reserved bits");
        return Ok(());
    }
    let why = match &p.attrs {
        Err(e) => e.clone(),
        Ok(_) if !p.fp_strict => "wrong fingerprint".into(),
        Ok(_) => {
            cx.label("not broken");
            return Ok(());
        }
    };
    cx.nontrivial();
    let r = match o {
        Outcome::Broken(r) => r,
        o => fail!("{} instead of broken: {why}", o.tag()),
    };
    ensure!(consumed == n, "consumed {consumed} bytes of a message of {n}");
    ensure!(
        (r.class, r.method, r.tid) == (p.class, p.method, p.tid),
        "the report has class {} method 0x{:03x} tid {}, the header class {} method 0x{:03x} tid {}",
        r.class,
        r.method,
        hex(&r.tid),
        p.class,
        p.method,
        hex(&p.tid)
    );
    let _ = (r.msg.error().kind(), format!("{} {:?}", r.msg.error(), r.msg));
    let again = r.msg.clone();
    let e = bytecodec::Error::from(r.msg);
    ensure!(*e.kind() == ErrorKind::InvalidInput, "the report converts to {:?}", e.kind());
    let c = ErrorCode::from(e);
    ensure!(c.code() == 400 && c.reason_phrase() == "Bad Request", "the report maps to {} {}", c.code(), c.reason_phrase());
    ensure!(
        sets::class_num(again.class()) == p.class && again.method().as_u16() == p.method,
        "a clone of the report differs"
    );
    Ok(())
}
fn c17(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let b = broken_bytes(s, set);
    describe_bytes(cx, set, &b);
    let mut d = set.decoder();
    let (o, n) = feed_once(&mut *d, &b)?;
    report(set, &b, o, n, cx)
}
fn c17_pieces(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let b = broken_bytes(s, set);
    describe_bytes(cx, set, &b);
    let sizes = gen::pieces(s, b.len());
    cx.describe(|| format!("pieces {sizes:?}"));
    let p = plan(s, &b, &sizes);
    let mut d = set.decoder();
    let (o, n) = feed(&mut *d, &p, |_, _| Ok(()))?;
    report(set, &b, o, n, cx)
}
