//! C18: attribute hooks, observed through attributes defined by a user.
use super::*;
use crate::engine::{random, Cx, Prop, R};
use crate::gen;
use crate::model::{pad_len, Wire, FP, MI};
use crate::probe::{self, Event, Probe};
use crate::sets::class_of;
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, SizedEncode};
use stun_codec::rfc5389::attributes::{Fingerprint, MappedAddress, MessageIntegrity, Software, XorMappedAddress};
use stun_codec::{Attribute, Message, MessageDecoder, MessageEncoder, Method, TransactionId};

pub type P1 = Probe<0x7001>;
pub type P2 = Probe<0x7002>;
pub type P3 = Probe<0xB003>;
pub mod mixed {
    use super::*;
    stun_codec::define_attribute_enums!(Attr, AttrDecoder, AttrEncoder, [P1, Software, P2, P3, MappedAddress, XorMappedAddress]);
}
pub mod authed {
    use super::*;
    stun_codec::define_attribute_enums!(Attr, AttrDecoder, AttrEncoder, [P2, MessageIntegrity, P3, Fingerprint]);
}

/// An attribute set with probes.
pub trait Probed: Attribute + std::fmt::Debug + 'static {
    const TYPES: &'static [u16];
    fn make(ty: u16, v: Vec<u8>, tid: &[u8; 12]) -> Option<Self>;
    /// The value in a message with that transaction ID.
    fn value(&self, tid: &[u8; 12]) -> Vec<u8>;
}
macro_rules! single {
    ($($n:literal),*) => {$(
        impl Probed for Probe<$n> {
            const TYPES: &'static [u16] = &[$n];
            fn make(ty: u16, v: Vec<u8>, _: &[u8; 12]) -> Option<Self> {
                (ty == $n).then(|| Probe::new(v))
            }
            fn value(&self, _: &[u8; 12]) -> Vec<u8> {
                self.0.clone()
            }
        }
    )*};
}
single!(0x7001, 0xB003);
fn bytes_of(a: &MappedAddress) -> Vec<u8> {
    model::encode_value(1, &model::Val::Addr(a.address().ip(), a.address().port()), &[0; 12])
}
impl Probed for mixed::Attr {
    const TYPES: &'static [u16] = &[0x7001, 0x7002, 0xB003, 0x8022, 0x0001, 0x0020];
    fn make(ty: u16, v: Vec<u8>, tid: &[u8; 12]) -> Option<Self> {
        Some(match ty {
            0x7001 => P1::new(v).into(),
            0x7002 => P2::new(v).into(),
            0xB003 => P3::new(v).into(),
            0x8022 => Software::new(String::from_utf8(v).ok()?).ok()?.into(),
            0x0001 => {
                let model::Val::Addr(ip, port) = model::decode_value(model::Kind::Addr, &v, &[0; 12]).ok()? else { return None };
                MappedAddress::new(std::net::SocketAddr::new(ip, port)).into()
            }
            0x0020 => {
                let model::Val::Addr(ip, port) = model::decode_value(model::Kind::XorAddr, &v, tid).ok()? else { return None };
                XorMappedAddress::new(std::net::SocketAddr::new(ip, port)).into()
            }
            _ => return None,
        })
    }
    fn value(&self, tid: &[u8; 12]) -> Vec<u8> {
        match self {
            mixed::Attr::P1(p) => p.0.clone(),
            mixed::Attr::P2(p) => p.0.clone(),
            mixed::Attr::P3(p) => p.0.clone(),
            mixed::Attr::Software(s) => s.description().as_bytes().to_vec(),
            mixed::Attr::MappedAddress(a) => bytes_of(a),
            mixed::Attr::XorMappedAddress(a) => {
                model::encode_value(0x0020, &model::Val::Addr(a.address().ip(), a.address().port()), tid)
            }
        }
    }
}
impl Probed for authed::Attr {
    const TYPES: &'static [u16] = &[0x7002, 0xB003, MI, FP];
    fn make(_: u16, _: Vec<u8>, _: &[u8; 12]) -> Option<Self> {
        None
    }
    fn value(&self, _: &[u8; 12]) -> Vec<u8> {
        match self {
            authed::Attr::P2(p) => p.0.clone(),
            authed::Attr::P3(p) => p.0.clone(),
            authed::Attr::MessageIntegrity(m) => m.hmac_sha1().to_vec(),
            authed::Attr::Fingerprint(f) => f.crc32().to_be_bytes().to_vec(),
        }
    }
}
fn is_probe(ty: u16) -> bool {
    matches!(ty, 0x7001 | 0x7002 | 0xB003)
}

/// A header and attributes, with the set that knows some of them.
#[derive(Clone, Debug)]
struct Plan {
    class: u8,
    method: u16,
    tid: [u8; 12],
    attrs: Vec<Wire>,
    /// The paddings received.
    pads: Vec<Vec<u8>>,
}
impl Plan {
    fn bytes(&self) -> Vec<u8> {
        model::encode(self.class, self.method, &self.tid, &self.attrs)
    }
}
fn with_value(ty: u16, v: Vec<u8>, received: Option<&Vec<u8>>) -> Wire {
    match received {
        // Padding received is kept if it fits.
        Some(pad) if pad_len(v.len()) == pad.len() => Wire { ty, value: v, pad: pad.clone() },
        _ => Wire::new(ty, v),
    }
}

/// An XOR-ed address not XOR-ed.
fn plain(w: &Wire, tid: &[u8; 12]) -> Wire {
    match model::decode_value(model::Kind::XorAddr, &w.value, tid) {
        Ok(a) if w.ty == 0x0020 => Wire { value: model::encode_value(1, &a, tid), ..w.clone() },
        _ => w.clone(),
    }
}

/// What the hooks see and do: the events, and the attributes afterwards or the
/// index of the one whose hook fails.
fn run_hooks(p: &Plan, types: &[u16], decode: bool) -> (Vec<Event>, Result<Vec<Wire>, usize>) {
    let mut events = vec![];
    let mut done = vec![];
    for (i, w) in p.attrs.iter().enumerate() {
        if !is_probe(w.ty) || !types.contains(&w.ty) || w.value.len() < 2 {
            done.push(w.clone());
            continue;
        }
        let bytes = if decode {
            model::encode(p.class, p.method, &p.tid, &done)
        } else {
            // The hook of an XOR-ed address has run, and runs once more as the probe encodes the message
            let seen: Vec<Wire> = done.iter().map(|w| if types.contains(&w.ty) { plain(w, &p.tid) } else { w.clone() }).collect();
            model::encode(p.class, p.method, &p.tid, &seen)
        };
        let known: Vec<u16> = done.iter().map(|a: &Wire| a.ty).filter(|t| types.contains(t)).collect();
        let unknown: Vec<u16> = done.iter().map(|a| a.ty).filter(|t| !types.contains(t)).collect();
        let mut v = w.value.clone();
        events.push(Event { decode, ty: w.ty, value: v.clone(), known, unknown, bytes: bytes.clone() });
        if probe::apply(w.value[usize::from(decode)], &mut v, i, &p.tid, &bytes).is_err() {
            return (events, Err(i));
        }
        done.push(with_value(w.ty, v, p.pads.get(i)));
    }
    (events, Ok(done))
}

fn directives(s: &mut Src, fail: u16) -> u8 {
    if s.chance(fail) {
        probe::FAIL
    } else {
        *s.pick(&[probe::NONE, probe::XOR, probe::LONGER, probe::SHORTER, probe::COUNT, probe::CRC, probe::XOR, probe::SIGN, probe::NEST])
    }
}
/// Attributes for a set; `foreign`: also ones unknown to it, and odd padding.
fn plan_for(s: &mut Src, types: &[u16], foreign: bool, fail: (u16, u16)) -> Plan {
    let mut p = Plan { class: gen::class(s), method: gen::method(s), tid: gen::tid(s), attrs: vec![], pads: vec![] };
    let n = match s.below(8) {
        0..=5 => s.below(6),
        6 => s.below(16),
        _ => s.below(60),
    };
    for _ in 0..n {
        let ty = if foreign && s.chance(80) {
            *s.pick(&[0x7002u16, 0x0006, 0x8022, 0xB003, 0x1234, 0x9999, 0x7001])
        } else {
            types[s.below(types.len())]
        };
        let value = match ty {
            0x8022 => {
                let n = s.below(12);
                gen::chars(s, n).into_bytes()
            }
            0x0001 => model::encode_value(1, &model::Val::Addr(gen::ip(s), gen::port(s)), &[0; 12]),
            0x0020 => model::encode_value(0x0020, &model::Val::Addr(gen::ip(s), gen::port(s)), &p.tid),
            MI | FP => continue,
            _ => {
                let n = match s.below(8) {
                    0 => s.below(2),
                    7 => s.below(300),
                    _ => 2 + s.below(12),
                };
                let mut v = s.bytes(n);
                if n >= 2 {
                    v[0] = directives(s, fail.0);
                    v[1] = directives(s, fail.1);
                }
                v
            }
        };
        let mut w = Wire::new(ty, value);
        if foreign && s.chance(60) {
            w.pad.iter_mut().for_each(|b| *b = s.u8());
        }
        p.attrs.push(w);
    }
    if s.chance(2) && s.bool() {
        // Many attributes without directives before the others
        let ty = if foreign && s.bool() { 0x1234 } else { types[0] };
        let mut front = vec![Wire::new(ty, vec![]); gen::many(s).min(4500)];
        front.append(&mut p.attrs);
        p.attrs = front;
    }
    if foreign {
        p.pads = p.attrs.iter().map(|w| w.pad.clone()).collect();
    }
    p
}

fn same_events(got: &[Event], want: &[Event], what: &str) -> R {
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) => ensure!(g == w, "{what}: hook call {i} is {g:02x?} instead of {w:02x?}"),
            (Some(g), None) => fail!("{what}: unexpected hook call {i}: {g:02x?}"),
            (None, Some(w)) => fail!("{what}: hook call {i} is missing: {w:02x?}"),
            (None, None) => {}
        }
    }
    Ok(())
}

/// Encodes with an encoder in pieces.
fn encode_in_pieces<A: Attribute>(s: &mut Src, e: &mut MessageEncoder<A>) -> R<Vec<u8>> {
    let mut out = vec![];
    let total = e.exact_requiring_bytes();
    while !e.is_idle() {
        let mut buf = vec![0; 1 + s.below(40)];
        let n = e.encode(&mut buf, Eos::new(false)).map_err(|e| Fail(format!("encode fails: {:?}", e.kind())))?;
        out.extend_from_slice(&buf[..n]);
        ensure!(n > 0 || e.is_idle(), "no progress");
    }
    ensure!(out.len() as u64 == total, "{total} bytes announced, {} produced", out.len());
    Ok(out)
}

/// Encodes a message and compares hook calls and bytes with the plan.
fn check_encode<A: Probed>(s: &mut Src, cx: &mut Cx, m: &Message<A>, p: &Plan, e: &mut MessageEncoder<A>) -> R {
    let (events, done) = run_hooks(p, A::TYPES, false);
    let before = format!("{m:?}");
    probe::take_log();
    let r = if s.bool() {
        e.encode_into_bytes(m.clone()).map_err(|e| format!("{:?}", e.kind()))
    } else {
        match e.start_encoding(m.clone()) {
            Ok(()) => Ok(encode_in_pieces(s, e)?),
            Err(e) => Err(format!("{:?}", e.kind())),
        }
    };
    let log = probe::take_log();
    same_events(&log, &events, "encoding")?;
    ensure!(format!("{m:?}") == before, "encoding a clone changes the message");
    cx.label_n("before-encode calls", events.len() as u64);
    match (r, done) {
        (Ok(b), Ok(wires)) => {
            let want = model::encode(p.class, p.method, &p.tid, &wires);
            ensure!(b == want, "encoded as {} instead of {}", hex(&b), hex(&want));
            if s.chance(64) && want.len() < 60_000 {
                // The hooks run as well where the message is encoded to be signed
                let mac = MessageIntegrity::new_short_term_credential(m, "outer").map(|i| i.hmac_sha1());
                let log = probe::take_log();
                same_events(&log, &events, "computing the integrity value")?;
                match mac {
                    Ok(mac) => ensure!(mac == model::mac_of(&want, b"outer"), "the integrity value is not that of {}", hex(&want)),
                    Err(e) => fail!("no integrity value: {:?}", e.kind()),
                }
                let crc = Fingerprint::new(m).map(|f| f.crc32());
                let log = probe::take_log();
                same_events(&log, &events, "computing the fingerprint")?;
                match crc {
                    Ok(crc) => ensure!(crc == model::crc_of(&want), "the fingerprint is not that of {}", hex(&want)),
                    Err(e) => fail!("no fingerprint: {:?}", e.kind()),
                }
                cx.label("integrity and fingerprint of a message with hooks");
            }
        }
        (Err(_), Err(_)) => {
            cx.label("failing before-encode hook");
            ensure!(
                Fingerprint::new(m).is_err() && MessageIntegrity::new_short_term_credential(m, "outer").is_err(),
                "a message of which a hook fails is signed"
            );
            probe::take_log();
        }
        (Ok(b), Err(i)) => fail!("encoded as {} although the hook of attribute {i} fails", hex(&b)),
        (Err(k), Ok(_)) => fail!("not encoded ({k}) although no hook fails"),
    }
    Ok(())
}

fn built<A: Probed>(s: &mut Src, cx: &mut Cx) -> R {
    let mut e = MessageEncoder::<A>::new();
    for _ in 0..1 + s.below(3) {
        let p = plan_for(s, A::TYPES, false, (14, 14));
        cx.key(&p.bytes());
        cx.describe(|| format!("built {}", hex(&p.bytes())));
        if p.attrs.len() > 1 {
            cx.nontrivial();
        }
        let method = Method::new(p.method).map_err(|_| Fail("method".into()))?;
        let mut m = Message::<A>::new(class_of(p.class), method, TransactionId::new(p.tid));
        for w in &p.attrs {
            m.add_attribute(A::make(w.ty, w.value.clone(), &p.tid).ok_or_else(|| Fail("attribute".into()))?);
        }
        ensure!(probe::take_log().is_empty(), "building a message runs hooks");
        check_encode(s, cx, &m, &p, &mut e)?;
    }
    Ok(())
}

fn received<A: Probed>(s: &mut Src, cx: &mut Cx) -> R {
    let mut d = MessageDecoder::<A>::new();
    let mut e = MessageEncoder::<A>::new();
    for _ in 0..1 + s.below(3) {
        let p = plan_for(s, A::TYPES, true, (8, 14));
        let b = p.bytes();
        cx.key(&b);
        cx.describe(|| format!("received {}", hex(&b)));
        if p.attrs.len() > 1 {
            cx.nontrivial();
        }
        // Attributes of the set that are invalid
        let invalid = p.attrs.iter().any(|w| {
            A::TYPES.contains(&w.ty) && !is_probe(w.ty) && A::make(w.ty, w.value.clone(), &p.tid).is_none()
        });
        let (events, done) = run_hooks(&p, A::TYPES, true);
        probe::take_log();
        let r = if s.bool() {
            d.decode_from_bytes(&b)
        } else {
            let sizes = gen::pieces(s, b.len());
            let mut at = 0;
            for n in sizes {
                let mut off = 0;
                while off < n && !d.is_idle() {
                    let k = d
                        .decode(&b[at + off..at + n], Eos::new(false))
                        .map_err(|e| Fail(format!("decode fails: {:?}", e.kind())))?;
                    ensure!(k > 0 || d.is_idle(), "no progress");
                    off += k;
                }
                at += n;
            }
            ensure!(d.is_idle(), "the decoder wants more than the message");
            d.finish_decoding()
        };
        let log = probe::take_log();
        let r = r.map_err(|e| Fail(format!("an error instead of a message: {:?}", e.kind())))?;
        if invalid {
            ensure!(r.is_err(), "accepted although an attribute is invalid");
            cx.label("invalid attribute");
            continue;
        }
        same_events(&log, &events, "decoding")?;
        cx.label_n("after-decode calls", events.len() as u64);
        match (r, done) {
            (Ok(m), Ok(wires)) => {
                let q = Plan { attrs: wires, ..p.clone() };
                let known: Vec<(u16, Vec<u8>)> = m.attributes().map(|a| (a.get_type().as_u16(), a.value(&p.tid))).collect();
                let want: Vec<(u16, Vec<u8>)> =
                    q.attrs.iter().filter(|w| A::TYPES.contains(&w.ty)).map(|w| (w.ty, w.value.clone())).collect();
                ensure!(known == want, "decoded attributes {known:02x?} instead of {want:02x?}");
                let unknown: Vec<(u16, Vec<u8>)> =
                    m.unknown_attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect();
                let want: Vec<(u16, Vec<u8>)> =
                    q.attrs.iter().filter(|w| !A::TYPES.contains(&w.ty)).map(|w| (w.ty, w.value.clone())).collect();
                ensure!(unknown == want, "unknown attributes {unknown:02x?} instead of {want:02x?}");
                // And back
                check_encode(s, cx, &m, &q, &mut e)?;
            }
            (Err(b), Err(_)) => {
                ensure!(
                    crate::sets::class_num(b.class()) == p.class
                        && b.method().as_u16() == p.method
                        && *b.transaction_id().as_bytes() == p.tid,
                    "the report of the failing hook has another header"
                );
                cx.label("failing after-decode hook");
            }
            (Ok(_), Err(i)) => fail!("accepted although the hook of attribute {i} fails"),
            (Err(e), Ok(_)) => fail!("broken ({:?}) although no hook fails", e.error().kind()),
        }
    }
    Ok(())
}

/// Among attributes whose own hooks look at the message: the after-decode hooks run
/// once and see what precedes them.
fn authed(s: &mut Src, cx: &mut Cx) -> R {
    use authed::Attr;
    let mut p = plan_for(s, &[0x7002, 0xB003], true, (0, 10));
    // Values that verification does not depend on: the hooks of preceding
    // attributes are undone or nothing.
    for w in p.attrs.iter_mut().filter(|w| matches!(w.ty, 0x7002 | 0xB003) && w.value.len() >= 2) {
        if w.value[1] != probe::FAIL {
            w.value[0] = *s.pick(&[probe::NONE, probe::XOR]);
            w.value[1] = w.value[0];
        } else {
            w.value[0] = probe::NONE;
        }
    }
    for _ in 0..1 + s.below(2) {
        let at = s.below(p.attrs.len() + 1);
        p.attrs.insert(at, Wire::new(MI, vec![s.u8(); 20]));
    }
    if s.bool() {
        // Hooks that compute integrity and fingerprint, or decode and encode, within those that do so
        for i in 0..p.attrs.len() {
            if !matches!(p.attrs[i].ty, 0x7002 | 0xB003) || p.attrs[i].value.len() < 2 || p.attrs[i].value[1] == probe::FAIL {
                continue;
            }
            let preceding = model::encode(p.class, p.method, &p.tid, &p.attrs[..i]);
            let d = *s.pick(&[probe::SIGN, probe::NEST, probe::CRC, probe::NONE]);
            let mut v = p.attrs[i].value.clone();
            (v[0], v[1]) = (d, d);
            let _ = probe::apply(d, &mut v, i, &p.tid, &preceding);
            p.attrs[i] = Wire::new(p.attrs[i].ty, v);
        }
        cx.label("hooks that compute within hooks");
    }
    let crc = model::crc_of(&p.bytes());
    p.attrs.push(Wire::new(FP, crc.to_be_bytes().to_vec()));
    p.pads = p.attrs.iter().map(|w| w.pad.clone()).collect();
    let b = p.bytes();
    cx.key(&b);
    cx.describe(|| format!("received {}", hex(&b)));
    cx.nontrivial();
    let (events, done) = run_hooks(&p, Attr::TYPES, true);
    probe::take_log();
    let r = MessageDecoder::<Attr>::new().decode_from_bytes(&b);
    let log: Vec<Event> = probe::take_log().into_iter().filter(|e| e.decode).collect();
    let r = r.map_err(|e| Fail(format!("an error instead of a message: {:?}", e.kind())))?;
    same_events(&log, &events, "decoding")?;
    match (r, done) {
        (Ok(m), Ok(wires)) => {
            let got: Vec<Vec<u8>> = m.attributes().map(|a| a.value(&p.tid)).collect();
            let want: Vec<Vec<u8>> =
                wires.into_iter().filter(|w| Attr::TYPES.contains(&w.ty)).map(|w| w.value).collect();
            ensure!(got == want, "decoded attributes {got:02x?} instead of {want:02x?}");
            let again = MessageEncoder::new().encode_into_bytes(m).map_err(|e| Fail(format!("not encoded: {:?}", e.kind())))?;
            ensure!(again == b, "encoded again as {} instead of {}", hex(&again), hex(&b));
        }
        (Err(_), Err(_)) => cx.label("failing after-decode hook"),
        (Ok(_), Err(i)) => fail!("accepted although the hook of attribute {i} fails"),
        (Err(e), Ok(_)) => fail!("broken although no hook fails: {}", e.error()),
    }
    Ok(())
}

fn clean(r: R) -> R {
    probe::take_log();
    r
}
fn c18_built_mixed(s: &mut Src, cx: &mut Cx) -> R {
    clean(built::<mixed::Attr>(s, cx))
}
fn c18_built_single(s: &mut Src, cx: &mut Cx) -> R {
    clean(if s.bool() { built::<P1>(s, cx) } else { built::<P3>(s, cx) })
}
fn c18_received_mixed(s: &mut Src, cx: &mut Cx) -> R {
    clean(received::<mixed::Attr>(s, cx))
}
fn c18_received_single(s: &mut Src, cx: &mut Cx) -> R {
    clean(if s.bool() { received::<P1>(s, cx) } else { received::<P3>(s, cx) })
}
fn c18_authed(s: &mut Src, cx: &mut Cx) -> R {
    clean(authed(s, cx))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        rule: "A case is a sequence of messages with attributes of a user-defined type whose hooks record the message they are given, change their value (also its length, also depending on the message) or fail; the calls, the bytes and the decoded message are compared with a simulation. Non-trivial if a message has at least two attributes.",
        assumptions: &[],
        parts: vec![
            random("built, aggregated set", 50_000, c18_built_mixed),
            random("built, single type", 20_000, c18_built_single),
            random("received, aggregated set", 80_000, c18_received_mixed),
            random("received, single type", 30_000, c18_received_single),
            random("received with integrity and fingerprint", 30_000, c18_authed),
        ],
    }]
}
