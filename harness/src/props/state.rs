//! C25, C26, C27: no hidden state, decoded messages used further, attributes as values.
use super::auth::{check, near};
use super::*;
use crate::model::Wire;
use crate::probe;
use crate::props::hooks::{authed, P1};
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use stun_codec::rfc5389::attributes::{Fingerprint, MessageIntegrity, Realm, Username};
use stun_codec::{Message, MessageClass, MessageDecoder, MessageEncoder, RawAttribute};
use crate::engine::{directed, random, Cx, Prop, R};
use crate::gen::{self, Key, SpecOpts, WireOpts};
use crate::model::{Val, FP, MI};
use crate::sets::{self, DynAttr, DynSet, El, OtherWay, Spec};
use std::collections::BTreeMap;
use std::net::SocketAddr;
use stun_codec::net::socket_addr_xor;
use stun_codec::{AttributeType, Method, TransactionId};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "A case is a history of 4 to 12 operations (encode, decode and check credentials, XOR an address; also work of other codecs that is refused, fails, panics in a hook or is given up, up to 80 times) over related inputs (same transaction IDs, values that differ in one place, passwords that extend one another); it is run in order, in reverse on a new thread, and on three threads at once. Non-trivial if at least two different operations share a transaction ID. The thread-safety part has one case per public type.",
            assumptions: &["Threads are real ones under the system's scheduler; interleavings are not enumerated."],
            parts: vec![random("histories", 4_000, c25), directed("thread safety", thread_safety().len() as u64, c25_types)],
        },
        Prop {
            id: "C26",
            rule: "A case is a received message that 1 to 4 hops decode (each with a set of its own), extend by 0 to 3 attributes and encode, or whose attributes are copied to a new message; non-trivial if something is added to or taken from a message that has attributes.",
            assumptions: &["Received attributes have no reserved bits set (known finding of C05)."],
            parts: vec![random("hops", 50_000, c26_hops), random("copies", 60_000, c26_copies)],
        },
        Prop {
            id: "C27",
            rule: "A case is an attribute set and two attributes of it, equal or nearly so, or two identifiers; non-trivial if the two values are of one type.",
            assumptions: &[],
            parts: vec![random("attributes", 250_000, c27_attrs), random("identifiers", 100_000, c27_ids)],
        },
    ]
}

// ---- C25

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Encode(Spec),
    /// Bytes and the credentials to try on every integrity attribute.
    Decode(Vec<u8>, Vec<Key>),
    Xor(SocketAddr, [u8; 12]),
    /// Work of other codecs, so many times, that fails, panics or is given up.
    Trouble(Trouble, usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Trouble {
    /// A message that is too large is encoded, signed and fingerprinted.
    TooLarge,
    /// A hook fails (or panics) before encoding.
    Encoding(u8),
    /// A hook fails (or panics) after decoding.
    Decoding(u8),
    /// Half a message is encoded, and decoded.
    Half,
    /// Bytes that are no messages, and broken ones.
    Garbage,
}
/// Whether the hook fails, or panics.
fn ends(d: u8, f: &dyn Fn() -> bool) -> bool {
    let r = catch_unwind(AssertUnwindSafe(f));
    probe::unmute();
    probe::take_log();
    if d == probe::PANIC { r.is_err() } else { r.unwrap_or(false) }
}
impl Trouble {
    const ALL: [Trouble; 7] = [
        Trouble::TooLarge,
        Trouble::Encoding(probe::FAIL),
        Trouble::Encoding(probe::PANIC),
        Trouble::Decoding(probe::FAIL),
        Trouble::Decoding(probe::PANIC),
        Trouble::Half,
        Trouble::Garbage,
    ];
    /// Whether it ends as it must.
    fn run(self) -> bool {
        let raw = |n: usize| {
            let mut m = Message::<RawAttribute>::new(MessageClass::Request, Method::from(1), TransactionId::new([9; 12]));
            m.add_attribute(RawAttribute::new(AttributeType::new(0x8022), vec![7; n]));
            m
        };
        match self {
            Trouble::TooLarge => {
                let m = raw(0x10000);
                Fingerprint::new(&m).is_err()
                    && MessageIntegrity::new_short_term_credential(&m, "key").is_err()
                    && MessageEncoder::new().encode_into_bytes(m).is_err()
            }
            Trouble::Encoding(d) => {
                let mut m = Message::<P1>::new(MessageClass::Request, Method::from(1), TransactionId::new([9; 12]));
                m.add_attribute(P1::new(vec![probe::NONE; 4]));
                m.add_attribute(P1::new(vec![d; 4]));
                let (Ok(user), Ok(realm)) = (Username::new("u".into()), Realm::new("r".into())) else { return false };
                let works: [&dyn Fn() -> bool; 4] = [
                    &|| MessageIntegrity::new_short_term_credential(&m, "key").is_err(),
                    &|| MessageIntegrity::new_long_term_credential(&m, &user, &realm, "key").is_err(),
                    &|| Fingerprint::new(&m).is_err(),
                    &|| MessageEncoder::new().encode_into_bytes(m.clone()).is_err(),
                ];
                works.iter().all(|f| ends(d, f))
            }
            Trouble::Decoding(d) => {
                let b = model::encode(0, 1, &[9; 12], &[Wire::new(0x7001, vec![probe::NONE; 4]), Wire::new(0x7001, vec![d; 4])]);
                // The hook before encoding, as integrity and fingerprint are looked at
                let w = |ty: u16| {
                    let last = if ty == MI { vec![0; 20] } else { vec![0; 4] };
                    model::encode(0, 1, &[9; 12], &[Wire::new(0x7002, vec![d, probe::NONE, 0, 0]), Wire::new(ty, last)])
                };
                ends(d, &|| matches!(MessageDecoder::<P1>::new().decode_from_bytes(&b), Ok(Err(_))))
                    && [MI, FP].iter().all(|ty| {
                        ends(d, &|| matches!(MessageDecoder::<authed::Attr>::new().decode_from_bytes(&w(*ty)), Ok(Err(_))))
                    })
            }
            Trouble::Half => {
                let mut b = [0; 30];
                let mut e = MessageEncoder::new();
                let mut d = MessageDecoder::<stun_codec::rfc5389::Attribute>::new();
                e.start_encoding(raw(9)).is_ok()
                    && e.encode(&mut b, Eos::new(false)).ok() == Some(30)
                    && d.decode(&b, Eos::new(false)).ok() == Some(30)
            }
            Trouble::Garbage => {
                let mut d = MessageDecoder::<stun_codec::rfc5389::Attribute>::new();
                let broken = model::encode(0, 1, &[9; 12], &[Wire::new(0x8028, vec![1; 4])]);
                let cut = model::encode(0, 1, &[9; 12], &[Wire::new(0x0020, vec![0, 1, 2])]);
                d.decode_from_bytes(&[0xff; 24]).is_err()
                    && d.decode_from_bytes(&broken[..12]).is_err()
                    && matches!(d.decode_from_bytes(&broken), Ok(Err(_)))
                    && matches!(d.decode_from_bytes(&cut), Ok(Err(_)))
            }
        }
    }
}
impl Op {
    fn tid(&self) -> [u8; 12] {
        match self {
            Op::Encode(sp) => sp.tid,
            Op::Decode(b, _) => b.get(8..20).and_then(|t| t.try_into().ok()).unwrap_or([0; 12]),
            Op::Xor(_, t) => *t,
            Op::Trouble(..) => [9; 12],
        }
    }
    fn run(&self, set: &dyn DynSet) -> R<String> {
        match self {
            Op::Encode(sp) => {
                let m = super::build(set, sp)?;
                Ok(match m.encode() {
                    Ok(b) => hex(&b),
                    Err(e) => format!("{:?}", e.kind),
                })
            }
            Op::Decode(b, keys) => {
                let (o, _) = feed_once(&mut *set.decoder(), b)?;
                let mut t = o.shape();
                if let Outcome::Msg(m) = o {
                    for (i, mi) in m.mis() {
                        for (j, k) in keys.iter().enumerate() {
                            if check(mi, k)? {
                                t.push_str(&format!(" attribute {i} has key {j}"));
                            }
                        }
                    }
                }
                Ok(t)
            }
            Op::Xor(a, t) => Ok(socket_addr_xor(*a, TransactionId::new(*t)).to_string()),
            Op::Trouble(t, n) => Ok(if (0..*n).all(|_| t.run()) { "as ever" } else { "otherwise" }.to_string()),
        }
    }
    /// What the model says.
    fn want(&self, set: &dyn DynSet) -> String {
        match self {
            Op::Encode(sp) => hex(&gen::spec_bytes(sp)),
            Op::Decode(b, keys) => match expect(b, set) {
                Expect::NotAccepted(_) => "not accepted".to_string(),
                Expect::Whole(p, n) => match &p.attrs {
                    attrs if attrs.is_err() || !p.fp_strict => format!("broken class={} method={} tid={}", p.class, p.method, hex(&p.tid)),
                    attrs => {
                        let attrs = attrs.as_ref().expect("accepted");
                        let mut t = format!("accepted {:?}", view_of(&p));
                        let mut i = 0;
                        for (at, a) in attrs.iter().enumerate() {
                            if a.known && a.ty == MI && !set.known().raw {
                                let prefix = model::canon_prefix(&b[..n], attrs, at);
                                for (j, k) in keys.iter().enumerate() {
                                    if a.wire == model::mac_of(&prefix, &k.bytes()) {
                                        t.push_str(&format!(" attribute {i} has key {j}"));
                                    }
                                }
                            }
                            i += usize::from(a.known);
                        }
                        t
                    }
                },
            },
            Op::Xor(a, t) => {
                let (ip, port) = model::xor(a.ip(), a.port(), t);
                SocketAddr::new(ip, port).to_string()
            }
            Op::Trouble(..) => "as ever".to_string(),
        }
    }
}

/// A value like another one.
fn near_val(s: &mut Src, ty: u16, v: &Val) -> Val {
    match v {
        Val::Addr(ip, port) => match s.below(3) {
            0 => Val::Addr(gen::ip(s), *port),
            1 => Val::Addr(*ip, gen::port(s)),
            _ => match ip {
                std::net::IpAddr::V4(i) => {
                    let mut o = i.octets();
                    o[s.below(4)] ^= 1 << s.below(8);
                    Val::Addr(o.into(), *port)
                }
                std::net::IpAddr::V6(i) => {
                    let mut o = i.octets();
                    o[s.below(16)] ^= 1 << s.below(8);
                    Val::Addr(o.into(), *port)
                }
            },
        },
        Val::Bytes(b) if !b.is_empty() => {
            let mut b = b.clone();
            let i = s.below(b.len());
            b[i] ^= 1 << s.below(8);
            Val::Bytes(b)
        }
        Val::Text(t) if !t.is_empty() => {
            // Another last, first or some character, of the same length mostly
            let mut c: Vec<char> = t.chars().collect();
            let i = [0, c.len() - 1, s.below(c.len())][s.below(3)];
            c[i] = match s.below(3) {
                0 => if c[i] == 'a' { 'b' } else { 'a' },
                1 => c[i].to_ascii_uppercase(),
                _ => c[i].to_ascii_lowercase(),
            };
            Val::Text(c.into_iter().collect())
        }
        Val::Error(c, p) => match s.below(3) {
            0 => Val::Error(gen::error_code(s), p.clone()),
            1 => Val::Error(*c, format!("{p} ")),
            _ => Val::Error(*c, p.chars().rev().collect()),
        },
        Val::Types(t) if !t.is_empty() => {
            let mut t = t.clone();
            match s.below(3) {
                0 => t.reverse(),
                1 => t.push(t[0]),
                _ => {
                    let i = s.below(t.len());
                    t[i] ^= 1 << s.below(16);
                }
            }
            Val::Types(t)
        }
        Val::U32(x) => Val::U32(x ^ 1 << s.below(32)),
        Val::U64(x) => Val::U64(x ^ 1 << s.below(64)),
        _ => match model::kind(ty) {
            Some(k) => gen::val(s, k),
            None => v.clone(),
        },
    }
}
fn near_el(s: &mut Src, e: &El) -> El {
    match e {
        El::Plain(ty, v) => El::Plain(*ty, near_val(s, *ty, v)),
        El::MiShort(p) => match near(s, &Key::Short(p.clone())) {
            Key::Short(p) => El::MiShort(p),
            Key::Long(u, r, p) => El::MiLong(u, r, p),
        },
        El::MiLong(u, r, p) => match near(s, &Key::Long(u.clone(), r.clone(), p.clone())) {
            Key::Short(p) => El::MiShort(p),
            Key::Long(u, r, p) => El::MiLong(u, r, p),
        },
        El::Fp => El::Fp,
    }
}
fn key_of(e: &El) -> Option<Key> {
    match e {
        El::MiShort(p) => Some(Key::Short(p.clone())),
        El::MiLong(u, r, p) => Some(Key::Long(u.clone(), r.clone(), p.clone())),
        _ => None,
    }
}
fn offered(set: &dyn DynSet, sp: &Spec) -> bool {
    gen::size_of(&sp.els, &sp.tid) <= 65532 && super::build(set, sp).is_ok()
}

fn c25(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let base = gen::spec(s, set, &SpecOpts { auth: true, big: false });
    let mut pool = vec![base.clone()];
    for _ in 0..s.range(1, 4) {
        let mut sp = pool[s.below(pool.len())].clone();
        match s.below(6) {
            0 => sp.tid[s.below(12)] ^= 1 << s.below(8),
            1 => sp.class = gen::class(s),
            2 if !sp.els.is_empty() => {
                let (i, j) = (s.below(sp.els.len()), s.below(sp.els.len()));
                sp.els.swap(i, j);
            }
            _ if !sp.els.is_empty() => {
                let i = s.below(sp.els.len());
                sp.els[i] = near_el(s, &sp.els[i]);
            }
            _ => {
                if let Some(e) = gen::el(s, set, true) {
                    sp.els.push(e);
                }
            }
        }
        if offered(set, &sp) {
            pool.push(sp);
        }
    }
    let mut keys: Vec<Key> = pool.iter().flat_map(|p| p.els.iter().filter_map(key_of)).filter(super::auth::valid).collect();
    if let Some(k) = keys.first().cloned() {
        // Another one, and a longer password
        let k = near(s, &k);
        if super::auth::valid(&k) {
            keys.push(k.clone());
        }
        keys.push(match k {
            Key::Short(p) => Key::Short(p + "x"),
            Key::Long(u, r, p) => Key::Long(u, r, p + "x"),
        });
    }
    keys.retain(super::auth::valid);
    keys.truncate(6);
    let mut ops = vec![];
    for _ in 0..s.range(4, 12) {
        let sp = pool[s.below(pool.len())].clone();
        if s.chance(20) {
            // Few are often, many are rarely
            let n = if s.chance(40) { s.below(80) } else { 1 + s.below(3) };
            ops.push(Op::Trouble(*s.pick(&Trouble::ALL), n));
            continue;
        }
        ops.push(match s.below(5) {
            0 | 1 => Op::Encode(sp),
            2 | 3 => {
                let mut b = gen::spec_bytes(&sp);
                match s.below(6) {
                    0 => gen::mutate(s, &mut b),
                    1 if b.len() > 20 => {
                        let i = s.range(20, b.len() - 1);
                        b[i] ^= 1 << s.below(8);
                    }
                    _ => (),
                }
                if matches!(expect(&b, set), Expect::Whole(p, _) if !p.reserved.is_empty()) {
                    // The known finding of C05
                    continue;
                }
                Op::Decode(b, keys.clone())
            }
            _ => {
                let a = sp.els.iter().find_map(|e| match e {
                    El::Plain(_, Val::Addr(ip, port)) => Some(SocketAddr::new(*ip, *port)),
                    _ => None,
                });
                let a = a.unwrap_or_else(|| SocketAddr::new(gen::ip(s), gen::port(s)));
                Op::Xor(a, sp.tid)
            }
        });
    }
    cx.key(format!("{} {ops:?}", set.name()).as_bytes());
    cx.describe(|| {
        let mut t = format!("set {} {ops:?}", set.name());
        if t.len() > 2500 {
            let mut n = 2500;
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            t.truncate(n);
        }
        t
    });
    let mut by_tid: BTreeMap<[u8; 12], Vec<&Op>> = BTreeMap::new();
    for o in &ops {
        let v = by_tid.entry(o.tid()).or_default();
        if !v.contains(&o) {
            v.push(o);
        }
    }
    if by_tid.values().any(|v| v.len() > 1) {
        cx.nontrivial();
    }
    let wants: Vec<String> = ops.iter().map(|o| o.want(set)).collect();
    let run = |order: Vec<usize>| -> R<Vec<(usize, String)>> {
        order.into_iter().map(|i| Ok((i, crate::engine::guarded(|| ops[i].run(set))?))).collect()
    };
    let judge = |what: &str, r: R<Vec<(usize, String)>>| -> R {
        for (i, got) in r? {
            ensure!(
                got == wants[i],
                "{what}: operation {i} ({}) gives {} instead of {}",
                match ops[i] {
                    Op::Encode(_) => "encode",
                    Op::Decode(..) => "decode",
                    Op::Xor(..) => "xor",
                    Op::Trouble(..) => "trouble",
                },
                clip(&got),
                clip(&wants[i])
            );
        }
        Ok(())
    };
    let n = ops.len();
    judge("in order", run((0..n).collect()))?;
    let joined = |r: std::thread::Result<R<Vec<(usize, String)>>>| r.unwrap_or_else(|_| Err(Fail("a thread panicked".into())));
    std::thread::scope(|t| {
        let h = t.spawn(|| run((0..n).rev().collect()));
        judge("in reverse order on a new thread", joined(h.join()))?;
        let hs: Vec<_> = (0..3).map(|k| t.spawn(move || run((0..n).map(|i| (i + k * n / 3) % n).collect()))).collect();
        let rs: Vec<_> = hs.into_iter().map(|h| joined(h.join())).collect();
        for r in rs {
            judge("on three threads at once", r)?;
        }
        R::Ok(())
    })?;
    for o in &ops {
        cx.label(match o {
            Op::Encode(_) => "encode",
            Op::Decode(..) => "decode",
            Op::Xor(..) => "xor",
            Op::Trouble(..) => "trouble",
        });
    }
    cx.label_n("credentials", keys.len() as u64);
    Ok(())
}
fn clip(t: &str) -> String {
    t.chars().take(600).collect()
}

struct Wrap<T: ?Sized>(std::marker::PhantomData<T>);
trait Neither {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Neither for Wrap<T> {}
struct SendOf<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> Neither for SendOf<T> {}
impl<T: ?Sized + Send> SendOf<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> Wrap<T> {
    const SYNC: bool = true;
}
/// (type, Send, Sync) of the public types.
fn thread_safety() -> Vec<(&'static str, bool, bool)> {
    use stun_codec::*;
    macro_rules! of {
        ($($t:ty),* $(,)?) => {
            vec![$((stringify!($t), <SendOf<$t>>::SEND, <Wrap<$t>>::SYNC)),*]
        };
    }
    macro_rules! of_attrs {
        ($v:ident, $($a:ty),*) => {$(
            $v.extend(of![
                $a,
                Message<$a>,
                MessageDecoder<$a>,
                MessageEncoder<$a>,
                DecodedMessage<$a>,
                <$a as Attribute>::Decoder,
                <$a as Attribute>::Encoder,
            ]);
        )*};
    }
    let mut v = of![
        BrokenMessage,
        TransactionId,
        Method,
        MessageClass,
        AttributeType,
        net::SocketAddrDecoder,
        net::SocketAddrEncoder,
        rfc8656::attributes::AddressFamily,
    ];
    of_attrs!(
        v,
        RawAttribute,
        rfc5389::Attribute,
        rfc5245::Attribute,
        rfc5766::Attribute,
        rfc5780::Attribute,
        sets::user::all::Attr,
        rfc8016::attributes::MobilityTicket,
        rfc8656::attributes::RequestedAddressFamily,
        rfc8656::attributes::AdditionalAddressFamily
    );
    v
}
fn c25_types(_: &mut Src, cx: &mut Cx) -> R {
    let (name, send, sync) = thread_safety()[cx.idx as usize];
    cx.nontrivial();
    cx.describe(|| name.to_string());
    ensure!(send, "{name} cannot be sent to another thread");
    ensure!(sync, "{name} cannot be shared between threads");
    Ok(())
}

// ---- C26

/// An accepted message for a set, without reserved bits.
fn received(s: &mut Src, set: &dyn DynSet) -> Vec<u8> {
    gen::wires(s, set.known(), &WireOpts { big: false, ..gen::CLEAN }).bytes()
}

fn c26_hops(s: &mut Src, cx: &mut Cx) -> R {
    let first = gen::any_set(s);
    let mut bytes = received(s, first);
    describe_bytes(cx, first, &bytes);
    let n = s.range(1, 4);
    let mut d = first.decoder();
    let mut set = first;
    for hop in 0..n {
        if hop > 0 && s.bool() {
            set = gen::any_set(s);
            d = set.decoder();
        }
        // A set that knows more may find a fingerprint wrong or a value invalid
        match expect(&bytes, set) {
            Expect::Whole(p, _) if p.attrs.is_ok() && p.fp_strict && p.reserved.is_empty() => (),
            _ => {
                cx.label("hop that refuses");
                continue;
            }
        }
        let (o, _) = feed_once(&mut *d, &bytes)?;
        let mut m = expect_msg(o, &format!("hop {hop} with set {}", set.name()))?;
        let (class, method, tid, _) = model::parse_header(&bytes).map_err(Fail)?;
        let mut want = bytes.clone();
        let mut els = vec![];
        let mut macs = 0;
        for _ in 0..s.below(4) {
            let Some(e) = gen::el(s, set, true) else { continue };
            macs += usize::from(!matches!(e, El::Plain(..)));
            let more = gen::size_of(std::slice::from_ref(&e), &tid);
            if want.len() - 20 + more > 65532 || macs > 3 {
                continue;
            }
            let w = match &e {
                El::Plain(ty, v) => model::Wire::new(*ty, model::encode_value(*ty, v, &tid)),
                El::Fp => model::Wire::new(FP, model::crc_of(&want).to_be_bytes().to_vec()),
                e => model::Wire::new(MI, model::mac_of(&want, &key_of(e).expect("credential").bytes()).to_vec()),
            };
            ensure!(m.add(&e), "hop {hop}: {e:?} cannot be added to the decoded message");
            w.put(&mut want);
            els.push(e);
        }
        let len = (want.len() - 20) as u16;
        want[2..4].copy_from_slice(&len.to_be_bytes());
        if !els.is_empty() {
            cx.nontrivial();
        }
        cx.key(format!("{} {els:?}", set.name()).as_bytes());
        cx.describe(|| format!("hop with {} adds {els:?}", set.name()));
        let v = m.view();
        ensure!((v.class, v.method, v.tid) == (class, method, tid), "hop {hop}: the identity has changed");
        let got = m.encode().map_err(|e| Fail(format!("hop {hop}: encoding the extended message fails: {:?}", e.kind)))?;
        ensure!(got == want, "hop {hop} with {} adding {els:?}: encoded as {} instead of {}", set.name(), hex(&got), hex(&want));
        cx.label_n("attributes added", els.len() as u64);
        bytes = got;
    }
    Ok(())
}

fn c26_copies(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let bytes = received(s, set);
    describe_bytes(cx, set, &bytes);
    let (o, _) = feed_once(&mut *set.decoder(), &bytes)?;
    let src = match (o, expect(&bytes, set)) {
        (Outcome::Msg(m), _) => m,
        (_, Expect::Whole(p, _)) if p.attrs.is_ok() && p.fp_strict => fail!("refused"),
        _ => {
            cx.label("source refused");
            return Ok(());
        }
    };
    let known = src.view().known;
    let (class, method) = (gen::class(s), gen::method(s));
    let tid = if s.bool() { gen::tid(s) } else { src.view().tid };
    let mut m = set.message(class, method, tid);
    let mut want = model::header(class, method, &tid, 0);
    let mut plan = vec![];
    let mut macs = 0;
    for _ in 0..s.range(1, 6) {
        if !known.is_empty() && s.chance(200) {
            let i = s.below(known.len());
            let (ty, v) = &known[i];
            let w = model::Wire::new(*ty, model::encode_value(*ty, v, &tid));
            if want.len() - 20 + w.len() > 65532 {
                continue;
            }
            m.add_from(&*src, i);
            w.put(&mut want);
            plan.push(format!("copy {i}"));
            cx.label(if tid == src.view().tid { "copied" } else { "copied to another transaction" });
            cx.nontrivial();
        } else if let Some(e) = gen::el(s, set, true) {
            macs += usize::from(!matches!(e, El::Plain(..)));
            if want.len() - 20 + gen::size_of(std::slice::from_ref(&e), &tid) > 65532 || macs > 3 {
                continue;
            }
            let w = match &e {
                El::Plain(ty, v) => model::Wire::new(*ty, model::encode_value(*ty, v, &tid)),
                El::Fp => model::Wire::new(FP, model::crc_of(&want).to_be_bytes().to_vec()),
                e => model::Wire::new(MI, model::mac_of(&want, &key_of(e).expect("credential").bytes()).to_vec()),
            };
            ensure!(m.add(&e), "{e:?} cannot be added");
            w.put(&mut want);
            plan.push(format!("add {e:?}"));
        }
    }
    let len = (want.len() - 20) as u16;
    want[2..4].copy_from_slice(&len.to_be_bytes());
    cx.key(format!("{class} {method} {tid:?} {plan:?}").as_bytes());
    cx.describe(|| format!("class {class} method 0x{method:03x} tid {} {plan:?}", hex(&tid)));
    let got = m.encode().map_err(|e| Fail(format!("encoding the new message fails: {:?}", e.kind)))?;
    ensure!(got == want, "{plan:?}: encoded as {} instead of {}", hex(&got), hex(&want));
    // The source is what it was, and a copy of it too
    for (m, what) in [(&src, "the source"), (&src.clone_box(), "a copy of the source")] {
        let got = m.encode().map_err(|e| Fail(format!("encoding {what} fails: {:?}", e.kind)))?;
        ensure!(got == bytes, "{what} is encoded as {} instead of {}", hex(&got), hex(&bytes));
    }
    // The unknown ones can be carried on as raw attributes
    let raw = sets::set_named("raw");
    let v = src.view();
    let mut m = raw.message(class, method, tid);
    let mut want = model::header(class, method, &tid, 0);
    for (ty, b) in &v.unknown {
        ensure!(m.add(&El::Plain(*ty, Val::Bytes(b.clone()))), "no raw attribute of type 0x{ty:04x}");
        model::Wire::new(*ty, b.clone()).put(&mut want);
    }
    let len = (want.len() - 20) as u16;
    want[2..4].copy_from_slice(&len.to_be_bytes());
    let got = m.encode().map_err(|e| Fail(format!("encoding the raw message fails: {:?}", e.kind)))?;
    ensure!(got == want, "raw attributes encoded as {} instead of {}", hex(&got), hex(&want));
    Ok(())
}

// ---- C27

fn c27_attrs(s: &mut Src, cx: &mut Cx) -> R {
    let all = sets::sets();
    let set = &*all[s.below(all.len())];
    let types: Vec<u16> = set.known().types.iter().copied().filter(|t| *t != MI && *t != FP).collect();
    let (ty, v) = if set.known().raw {
        let n = gen::byte_len(s).min(200);
        (gen::attr_type(s), Val::Bytes(s.bytes(n)))
    } else if types.is_empty() {
        return Ok(());
    } else {
        let ty = types[s.below(types.len())];
        (ty, gen::val(s, model::kind(ty).expect("kind")))
    };
    let (ty2, w) = match s.below(3) {
        0 => (ty, v.clone()),
        1 => (ty, near_val(s, ty, &v)),
        _ if types.is_empty() => (gen::attr_type(s), v.clone()),
        _ => {
            let ty = types[s.below(types.len())];
            (ty, gen::val(s, model::kind(ty).expect("kind")))
        }
    };
    cx.key(format!("{} {ty} {v:?} {ty2} {w:?}", set.name()).as_bytes());
    cx.describe(|| format!("set {} 0x{ty:04x} {v:?} and 0x{ty2:04x} {w:?}", set.name()));
    let mut make = |ty: u16, v: &Val| -> R<Option<Box<dyn DynAttr>>> {
        let how = s.weighted(&[4, 2, 2]);
        let _other = OtherWay::when(how == 1);
        let a = set.attr(ty, v);
        if how < 2 || a.is_none() {
            return Ok(a);
        }
        // Taken out of a received message
        let tid = gen::tid(s);
        let mut wire = model::Wire::new(ty, model::encode_value(ty, v, &tid));
        wire.pad.iter_mut().for_each(|b| *b = s.u8());
        let bytes = model::encode(0, 1, &tid, &[wire]);
        if bytes.len() - 20 > 65532 {
            return Ok(a);
        }
        cx.label("received");
        let (o, _) = feed_once(&mut *set.decoder(), &bytes)?;
        let m = expect_msg(o, &format!("0x{ty:04x} {v:?} in {}", hex(&bytes)))?;
        match m.attr(0) {
            Some(a) => Ok(Some(a)),
            None => Err(Fail(format!("no attribute in {}", hex(&bytes)))),
        }
    };
    let (Some(a), Some(b)) = (make(ty, &v)?, make(ty2, &w)?) else {
        // Not to be built from this value (an empty ticket)
        cx.label("no such value");
        return Ok(());
    };
    if ty == ty2 {
        cx.nontrivial();
    }
    for (a, ty, v) in [(&a, ty, &v), (&b, ty2, &w)] {
        ensure!(a.ty() == ty, "an attribute of type 0x{ty:04x} says it is of type 0x{:04x}", a.ty());
        ensure!(a.val() == *v, "{v:?} reads back as {:?}", a.val());
        let refs = a.refs();
        if !set.known().raw {
            ensure!(refs == vec![(ty, v.clone())], "0x{ty:04x} {v:?} converts to {refs:?}");
        }
        let c = a.clone_box();
        ensure!(c.val() == *v && c.ty() == ty, "the clone of {v:?} is {:?}", c.val());
        ensure!(a.debug() == c.debug(), "a clone is printed differently");
        if let Some(same) = a.same(&*c) {
            ensure!(same, "{v:?} differs from its clone");
            ensure!(a.hash() == c.hash(), "{v:?} hashes differently from its clone");
        }
    }
    if let (Some(x), Some(y)) = (a.same(&*b), b.same(&*a)) {
        let want = ty == ty2 && v == w;
        ensure!(x == want && y == want, "0x{ty:04x} {v:?} == 0x{ty2:04x} {w:?} gives {x} and, the other way round, {y}");
        if want {
            ensure!(a.hash() == b.hash(), "equal attributes {v:?} hash differently");
            cx.label("equal");
        } else {
            cx.label("different");
        }
    }
    Ok(())
}

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn compare<T: Ord + std::hash::Hash + std::fmt::Debug, K: Ord + std::fmt::Debug>(a: T, b: T, x: K, y: K) -> R {
    ensure!((a == b) == (x == y), "{a:?} == {b:?} for {x:?} and {y:?}");
    ensure!((a != b) == (x != y), "{a:?} != {b:?} for {x:?} and {y:?}");
    ensure!(a.cmp(&b) == x.cmp(&y), "{a:?} is ordered {:?} to {b:?}", a.cmp(&b));
    ensure!(a.partial_cmp(&b) == Some(x.cmp(&y)), "{a:?} is partially ordered {:?} to {b:?}", a.partial_cmp(&b));
    ensure!(b.cmp(&a) == y.cmp(&x), "{b:?} is ordered {:?} to {a:?}", b.cmp(&a));
    if x == y {
        ensure!(hash_of(&a) == hash_of(&b), "{a:?} has two hashes");
    }
    Ok(())
}
fn c27_ids(s: &mut Src, cx: &mut Cx) -> R {
    cx.nontrivial();
    match s.below(4) {
        0 => {
            let x = gen::tid(s);
            let mut y = x;
            match s.below(4) {
                0 => (),
                1 => y = gen::tid(s),
                _ => y[s.below(12)] ^= 1 << s.below(8),
            }
            cx.key(&x);
            cx.key(&y);
            cx.describe(|| format!("transaction IDs {} and {}", hex(&x), hex(&y)));
            cx.label("transaction IDs");
            let (a, b) = (TransactionId::new(x), TransactionId::new(y));
            ensure!(*a.as_bytes() == x && AsRef::<[u8]>::as_ref(&a) == x, "{a:?} is made of other bytes than {}", hex(&x));
            let shown = format!("{a:?}");
            ensure!(
                shown.to_lowercase().contains(&hex(&x).to_lowercase()),
                "transaction ID {} is printed as {shown}",
                hex(&x)
            );
            compare(a, b, x, y)
        }
        1 => {
            let x = gen::method(s);
            let y = match s.below(3) {
                0 => x,
                1 => gen::method(s),
                _ => x ^ 1 << s.below(12),
            };
            cx.key(&[1, (x >> 8) as u8, x as u8, (y >> 8) as u8, y as u8]);
            cx.describe(|| format!("methods {x} and {y}"));
            cx.label("methods");
            let new = |n| Method::new(n).map_err(|_| Fail(format!("method {n} is refused")));
            compare(new(x)?, new(y)?, x, y)
        }
        2 => {
            let x = gen::attr_type(s);
            let y = match s.below(3) {
                0 => x,
                1 => gen::attr_type(s),
                _ => x ^ 1 << s.below(16),
            };
            cx.key(&[2, (x >> 8) as u8, x as u8, (y >> 8) as u8, y as u8]);
            cx.describe(|| format!("attribute types {x} and {y}"));
            cx.label("attribute types");
            ensure!(AttributeType::from(x) == AttributeType::new(x), "From<u16> gives another type");
            ensure!(AttributeType::from(x).as_u16() == x, "type 0x{x:04x} has number 0x{:04x}", AttributeType::from(x).as_u16());
            compare(AttributeType::new(x), AttributeType::new(y), x, y)
        }
        _ => {
            use stun_codec::rfc5766::attributes::ChannelNumber;
            let x = 0x4000 + s.below(0x1000) as u16;
            let y = if s.bool() { x } else { 0x4000 + s.below(0x1000) as u16 };
            cx.key(&[3, (x >> 8) as u8, x as u8, (y >> 8) as u8, y as u8]);
            cx.describe(|| format!("channel numbers {x} and {y}"));
            cx.label("channel numbers");
            let new = |n| ChannelNumber::new(n).map_err(|_| Fail(format!("channel {n} is refused")));
            compare(new(x)?, new(y)?, x, y)
        }
    }
}
