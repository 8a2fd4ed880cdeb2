//! Type-erased access to stun_codec through its public API, in the terms of the
//! model, for many attribute sets.
use crate::model::{Known, Val};
use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, SizedEncode};
use std::any::Any;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::net::SocketAddr;
use std::time::Duration;
use stun_codec::convert::TryAsRef;
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;
use stun_codec::{
    Attribute, AttributeType, BrokenMessage, Message, MessageClass, MessageDecoder, MessageEncoder, Method, RawAttribute,
    TransactionId,
};

thread_local! {
    static OTHER_WAY: Cell<bool> = const { Cell::new(false) };
}
/// Whether attributes are made with the second constructor of their type, if it has one.
fn other_way() -> bool {
    OTHER_WAY.with(|w| w.get())
}
/// A copy, in the other way one with room to spare.
pub fn owned(s: &str) -> String {
    let mut t = String::with_capacity(if other_way() { s.len() + 700 } else { s.len() });
    t.push_str(s);
    t
}
pub fn owned_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(if other_way() { b.len() + 70_000 } else { b.len() });
    v.extend_from_slice(b);
    v
}
/// Makes attributes with the second constructors, until dropped.
pub struct OtherWay;
impl OtherWay {
    pub fn when(yes: bool) -> Option<OtherWay> {
        yes.then(|| {
            OTHER_WAY.with(|w| w.set(true));
            OtherWay
        })
    }
}
impl Drop for OtherWay {
    fn drop(&mut self) {
        OTHER_WAY.with(|w| w.set(false));
    }
}

/// A concrete attribute type of the library.
pub trait Concrete: Attribute + Debug + Clone + PartialEq + Hash + 'static {
    const TY: u16;
    fn val(&self) -> Val;
    /// `None` if there is no way to build this value.
    fn from_val(v: &Val) -> Option<bytecodec::Result<Self>>;
    fn mi(&self) -> Option<&MessageIntegrity> {
        None
    }
    fn from_mi(_: MessageIntegrity) -> Option<Self> {
        None
    }
    fn from_fp(_: Fingerprint) -> Option<Self> {
        None
    }
}

macro_rules! addr {
    ($($t:ident),*) => {$(
        impl Concrete for $t {
            const TY: u16 = $t::CODEPOINT;
            fn val(&self) -> Val {
                Val::Addr(self.address().ip(), self.address().port())
            }
            fn from_val(v: &Val) -> Option<bytecodec::Result<Self>> {
                match v {
                    Val::Addr(ip, port) => Some(Ok($t::new(SocketAddr::new(*ip, *port)))),
                    _ => None,
                }
            }
        }
    )*};
}
macro_rules! concrete {
    ($($t:ident: |$s:ident| $val:expr, $pat:pat => $build:expr;)*) => {$(
        impl Concrete for $t {
            const TY: u16 = $t::CODEPOINT;
            fn val(&self) -> Val {
                let $s = self;
                $val
            }
            fn from_val(v: &Val) -> Option<bytecodec::Result<Self>> {
                #[allow(unreachable_patterns)]
                match v {
                    $pat => Some($build),
                    _ => None,
                }
            }
        }
    )*};
}

addr!(
    MappedAddress, AlternateServer, XorMappedAddress, XorMappedAddress2, XorPeerAddress, XorRelayAddress, ResponseOrigin,
    OtherAddress
);
concrete! {
    Username: |a| Val::Text(a.name().to_string()), Val::Text(s) => Username::new(owned(s));
    Realm: |a| Val::Text(a.text().to_string()), Val::Text(s) => Realm::new(owned(s));
    Nonce: |a| Val::Text(a.value().to_string()), Val::Text(s) => Nonce::new(owned(s));
    Software: |a| Val::Text(a.description().to_string()), Val::Text(s) => if other_way() && s.chars().count() < 128 {
        Ok(Software::new_static(Box::leak(s.clone().into_boxed_str())))
    } else {
        Software::new(s.clone())
    };
    ErrorCode: |a| Val::Error(a.code(), a.reason_phrase().to_string()), Val::Error(c, p) => ErrorCode::new(*c, owned(p));
    UnknownAttributes: |a| Val::Types(a.unknowns().iter().map(|t| t.as_u16()).collect()),
        Val::Types(ts) => Ok(UnknownAttributes::new(ts.iter().map(|t| AttributeType::new(*t)).collect()));
    Priority: |a| Val::U32(a.prio()), Val::U32(x) => Ok(Priority::new(*x));
    UseCandidate: |_a| Val::Empty, Val::Empty => Ok(if other_way() { UseCandidate::default() } else { UseCandidate::new() });
    IceControlled: |a| Val::U64(a.prio()), Val::U64(x) => Ok(IceControlled::new(*x));
    IceControlling: |a| Val::U64(a.prio()), Val::U64(x) => Ok(IceControlling::new(*x));
    ChannelNumber: |a| Val::Channel(a.value()), Val::Channel(x) => ChannelNumber::new(*x);
    Lifetime: |a| Val::U32(lifetime_secs(a)), Val::U32(x) => if other_way() {
        Lifetime::new(Duration::new(u64::from(*x), 987_654_321))
    } else {
        Ok(Lifetime::from_u32(*x))
    };
    Data: |a| Val::Bytes(a.data().to_vec()), Val::Bytes(b) => Data::new(owned_bytes(b));
    EvenPort: |a| Val::Even(a.is_requested()), Val::Even(b) => Ok(EvenPort::new(*b));
    RequestedTransport: |a| Val::Transport(a.protocol()), Val::Transport(x) => Ok(RequestedTransport::new(*x));
    DontFragment: |_a| Val::Empty, Val::Empty => Ok(DontFragment);
    ReservationToken: |a| Val::U64(a.token()), Val::U64(x) => Ok(ReservationToken::new(*x));
    ChangeRequest: |a| Val::Change(a.ip(), a.port()), Val::Change(i, p) => Ok(ChangeRequest::new(*i, *p));
    ResponsePort: |a| Val::Port(a.port()), Val::Port(x) => Ok(ResponsePort::new(*x));
    MobilityTicket: |a| Val::Bytes(a.data().to_vec()),
        Val::Bytes(b) => if b.is_empty() { Ok(MobilityTicket::empty()) } else { MobilityTicket::new(owned_bytes(b)) };
    RequestedAddressFamily: |a| Val::Family(a.address_family() == AddressFamily::V6),
        Val::Family(v6) => Ok(RequestedAddressFamily::new(if *v6 { AddressFamily::V6 } else { AddressFamily::V4 }));
    AdditionalAddressFamily: |a| Val::Family(a.address_family() == AddressFamily::V6),
        Val::Family(v6) => Ok(AdditionalAddressFamily::new(if *v6 { AddressFamily::V6 } else { AddressFamily::V4 }));
}
/// Whole seconds; u32::MAX marks anything else as wrong (never generated).
fn lifetime_secs(a: &Lifetime) -> u32 {
    let d = a.lifetime();
    assert_eq!(d.subsec_nanos(), 0, "lifetime with a fraction of a second: {d:?}");
    u32::try_from(d.as_secs()).expect("lifetime above u32")
}
impl Concrete for MessageIntegrity {
    const TY: u16 = MessageIntegrity::CODEPOINT;
    fn val(&self) -> Val {
        Val::Mac(self.hmac_sha1())
    }
    fn from_val(_: &Val) -> Option<bytecodec::Result<Self>> {
        None
    }
    fn mi(&self) -> Option<&MessageIntegrity> {
        Some(self)
    }
    fn from_mi(a: MessageIntegrity) -> Option<Self> {
        Some(a)
    }
}
impl Concrete for Fingerprint {
    const TY: u16 = Fingerprint::CODEPOINT;
    fn val(&self) -> Val {
        Val::Crc(self.crc32())
    }
    fn from_val(_: &Val) -> Option<bytecodec::Result<Self>> {
        None
    }
    fn from_fp(a: Fingerprint) -> Option<Self> {
        Some(a)
    }
}

/// An attribute set.
pub trait Set: Attribute + Debug + 'static {
    const RAW: bool = false;
    fn types() -> Vec<u16>;
    fn val(&self) -> Val;
    fn build(ty: u16, v: &Val) -> Option<bytecodec::Result<Self>>;
    fn mi(&self) -> Option<&MessageIntegrity>;
    fn from_mi(a: MessageIntegrity) -> Option<Self>;
    fn from_fp(a: Fingerprint) -> Option<Self>;
    /// `get_attribute` for the type; outer `None` if not offered.
    fn get(m: &Message<Self>, ty: u16) -> Option<Option<Val>>;
    fn same(&self, other: &Self) -> Option<bool>;
    /// Every attribute type this converts to, with the value.
    fn refs(&self) -> Vec<(u16, Val)>;
    fn hash_value(&self) -> Option<u64>;
}
fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! enum_set {
    ($set:ty: $($t:ident),*) => {
        impl Set for $set {
            fn types() -> Vec<u16> {
                vec![$($t::TY),*]
            }
            fn val(&self) -> Val {
                $(if let Some(a) = TryAsRef::<$t>::try_as_ref(self) { return Concrete::val(a); })*
                panic!("attribute of no type: {self:?}")
            }
            fn build(ty: u16, v: &Val) -> Option<bytecodec::Result<Self>> {
                $(if ty == $t::TY { return $t::from_val(v).map(|r| r.map(Into::into)); })*
                None
            }
            fn mi(&self) -> Option<&MessageIntegrity> {
                $(if let Some(a) = TryAsRef::<$t>::try_as_ref(self) { return Concrete::mi(a); })*
                None
            }
            fn from_mi(_a: MessageIntegrity) -> Option<Self> {
                $(if $t::TY == MessageIntegrity::TY { return <$t as Concrete>::from_mi(_a).map(Into::into); })*
                None
            }
            fn from_fp(_a: Fingerprint) -> Option<Self> {
                $(if $t::TY == Fingerprint::TY { return <$t as Concrete>::from_fp(_a).map(Into::into); })*
                None
            }
            fn get(m: &Message<Self>, ty: u16) -> Option<Option<Val>> {
                $(if ty == $t::TY { return Some(m.get_attribute::<$t>().map(|a| Concrete::val(a))); })*
                None
            }
            fn same(&self, other: &Self) -> Option<bool> {
                Some(self == other)
            }
            fn refs(&self) -> Vec<(u16, Val)> {
                let mut v = vec![];
                $(if let Some(a) = TryAsRef::<$t>::try_as_ref(self) { v.push(($t::TY, Concrete::val(a))); })*
                v
            }
            fn hash_value(&self) -> Option<u64> {
                Some(hash_of(self))
            }
        }
    };
}
macro_rules! single_set {
    ($($t:ident),*) => {$(
        impl Set for $t {
            fn types() -> Vec<u16> {
                vec![$t::TY]
            }
            fn val(&self) -> Val {
                Concrete::val(self)
            }
            fn build(ty: u16, v: &Val) -> Option<bytecodec::Result<Self>> {
                if ty == $t::TY { <$t as Concrete>::from_val(v) } else { None }
            }
            fn mi(&self) -> Option<&MessageIntegrity> {
                Concrete::mi(self)
            }
            fn from_mi(a: MessageIntegrity) -> Option<Self> {
                <$t as Concrete>::from_mi(a)
            }
            fn from_fp(a: Fingerprint) -> Option<Self> {
                <$t as Concrete>::from_fp(a)
            }
            fn get(_: &Message<Self>, _: u16) -> Option<Option<Val>> {
                None
            }
            fn same(&self, other: &Self) -> Option<bool> {
                Some(self == other)
            }
            fn refs(&self) -> Vec<(u16, Val)> {
                vec![($t::TY, Concrete::val(self))]
            }
            fn hash_value(&self) -> Option<u64> {
                Some(hash_of(self))
            }
        }
    )*};
}

/// Attribute sets defined by a user of the library.
pub mod user {
    use super::*;
    macro_rules! define {
        ($m:ident: $($t:ident),*) => {
            pub mod $m {
                use super::*;
                stun_codec::define_attribute_enums!(Attr, AttrDecoder, AttrEncoder, [$($t),*]);
            }
            enum_set!($m::Attr: $($t),*);
        };
    }
    define!(all: MappedAddress, ChangeRequest, Username, MessageIntegrity, ErrorCode, UnknownAttributes, ChannelNumber,
        Lifetime, XorPeerAddress, Data, Realm, Nonce, XorRelayAddress, RequestedAddressFamily, EvenPort,
        RequestedTransport, DontFragment, XorMappedAddress, ReservationToken, Priority, UseCandidate, ResponsePort,
        AdditionalAddressFamily, XorMappedAddress2, Software, AlternateServer, Fingerprint, IceControlled,
        IceControlling, ResponseOrigin, OtherAddress, MobilityTicket);
    define!(ice: Username, Realm, Nonce, XorMappedAddress, Priority, UseCandidate, IceControlled, IceControlling,
        MessageIntegrity, Fingerprint, ErrorCode);
    define!(turn: ErrorCode, MessageIntegrity, Username, Realm, Nonce, ChannelNumber, Lifetime, XorPeerAddress,
        XorRelayAddress, Data, RequestedTransport, RequestedAddressFamily, AdditionalAddressFamily, MobilityTicket,
        EvenPort, ReservationToken, DontFragment);
    define!(reversed: Fingerprint, AlternateServer, Software, XorMappedAddress2, XorMappedAddress, Nonce, Realm,
        UnknownAttributes, ErrorCode, MessageIntegrity, Username, MappedAddress);
    define!(plain: Software, Data, MappedAddress, EvenPort);
}

enum_set!(stun_codec::rfc5389::Attribute: MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes,
    Realm, Nonce, XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint);
enum_set!(stun_codec::rfc5245::Attribute: Priority, UseCandidate, IceControlled, IceControlling);
enum_set!(stun_codec::rfc5766::Attribute: ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort,
    RequestedTransport, DontFragment, ReservationToken);
enum_set!(stun_codec::rfc5780::Attribute: ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress);

macro_rules! every_type {
    ($m:ident) => {
        $m! { MappedAddress, ChangeRequest, Username, MessageIntegrity, ErrorCode, UnknownAttributes, ChannelNumber,
        Lifetime, XorPeerAddress, Data, Realm, Nonce, XorRelayAddress, RequestedAddressFamily, EvenPort,
        RequestedTransport, DontFragment, XorMappedAddress, ReservationToken, Priority, UseCandidate, ResponsePort,
        AdditionalAddressFamily, XorMappedAddress2, Software, AlternateServer, Fingerprint, IceControlled,
        IceControlling, ResponseOrigin, OtherAddress, MobilityTicket }
    };
}
every_type!(single_set);

impl Set for RawAttribute {
    const RAW: bool = true;
    fn types() -> Vec<u16> {
        vec![]
    }
    fn val(&self) -> Val {
        let v = self.value().to_vec();
        assert_eq!(v, self.clone().into_value(), "value() and into_value() differ");
        Val::Bytes(v)
    }
    fn build(ty: u16, v: &Val) -> Option<bytecodec::Result<Self>> {
        match v {
            Val::Bytes(b) => Some(Ok(RawAttribute::new(AttributeType::new(ty), owned_bytes(b)))),
            _ => None,
        }
    }
    fn mi(&self) -> Option<&MessageIntegrity> {
        None
    }
    fn from_mi(_: MessageIntegrity) -> Option<Self> {
        None
    }
    fn from_fp(_: Fingerprint) -> Option<Self> {
        None
    }
    fn get(_: &Message<Self>, _: u16) -> Option<Option<Val>> {
        None
    }
    fn same(&self, _: &Self) -> Option<bool> {
        None
    }
    fn refs(&self) -> Vec<(u16, Val)> {
        vec![]
    }
    fn hash_value(&self) -> Option<u64> {
        None
    }
}

/// One attribute of a set.
pub trait DynAttr {
    fn ty(&self) -> u16;
    fn val(&self) -> Val;
    fn refs(&self) -> Vec<(u16, Val)>;
    fn clone_box(&self) -> Box<dyn DynAttr>;
    fn debug(&self) -> String;
    /// Whether it equals another one of the same set, if that can be asked.
    fn same(&self, other: &dyn DynAttr) -> Option<bool>;
    fn hash(&self) -> Option<u64>;
    fn any(&self) -> &dyn Any;
}
struct OneAttr<A>(A);
impl<A: Set> DynAttr for OneAttr<A> {
    fn ty(&self) -> u16 {
        self.0.get_type().as_u16()
    }
    fn val(&self) -> Val {
        Set::val(&self.0)
    }
    fn refs(&self) -> Vec<(u16, Val)> {
        self.0.refs()
    }
    fn clone_box(&self) -> Box<dyn DynAttr> {
        Box::new(OneAttr(self.0.clone()))
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn same(&self, other: &dyn DynAttr) -> Option<bool> {
        self.0.same(&other.any().downcast_ref::<Self>()?.0)
    }
    fn hash(&self) -> Option<u64> {
        self.0.hash_value()
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

/// An element of a message to build.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum El {
    Plain(u16, Val),
    MiShort(String),
    MiLong(String, String, String),
    Fp,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Spec {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub els: Vec<El>,
}

pub fn class_of(c: u8) -> MessageClass {
    match c {
        0 => MessageClass::Request,
        1 => MessageClass::Indication,
        2 => MessageClass::SuccessResponse,
        _ => MessageClass::ErrorResponse,
    }
}
pub fn class_num(c: MessageClass) -> u8 {
    match c {
        MessageClass::Request => 0,
        MessageClass::Indication => 1,
        MessageClass::SuccessResponse => 2,
        MessageClass::ErrorResponse => 3,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Err {
    pub kind: ErrorKind,
    pub text: String,
}
impl Err {
    pub fn of(e: bytecodec::Error) -> Self {
        Err { kind: *e.kind(), text: String::new() }
    }
}

/// What a decoded message shows.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct View {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub known: Vec<(u16, Val)>,
    pub unknown: Vec<(u16, Vec<u8>)>,
}

pub trait DynMsg {
    fn view(&self) -> View;
    fn get(&self, ty: u16) -> Option<Option<Val>>;
    /// The integrity attributes among the known ones, as (index among known, attribute).
    fn mis(&self) -> Vec<(usize, &MessageIntegrity)>;
    fn encode(&self) -> Result<Vec<u8>, Err>;
    fn debug(&self) -> String;
    fn clone_box(&self) -> Box<dyn DynMsg>;
    fn new_fp(&self) -> Result<Fingerprint, Err>;
    fn new_mi_short(&self, pw: &str) -> Result<MessageIntegrity, Err>;
    fn new_mi_long(&self, u: &Username, r: &Realm, pw: &str) -> Result<MessageIntegrity, Err>;
    /// Appends an element; `false` if this set or the library does not offer it.
    fn add(&mut self, el: &El) -> bool;
    /// Appends a copy of the i-th known attribute of a message of the same set.
    fn add_from(&mut self, other: &dyn DynMsg, i: usize);
    fn same_attributes(&self, other: &dyn DynMsg) -> Option<bool>;
    /// A copy of the i-th known attribute.
    fn attr(&self, i: usize) -> Option<Box<dyn DynAttr>>;
    fn any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
}
struct Msg<A: Attribute>(Message<A>);
impl<A: Set> DynMsg for Msg<A> {
    fn view(&self) -> View {
        let m = &self.0;
        View {
            class: class_num(m.class()),
            method: m.method().as_u16(),
            tid: *m.transaction_id().as_bytes(),
            known: m.attributes().map(|a| (a.get_type().as_u16(), a.val())).collect(),
            unknown: m.unknown_attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect(),
        }
    }
    fn get(&self, ty: u16) -> Option<Option<Val>> {
        A::get(&self.0, ty)
    }
    fn mis(&self) -> Vec<(usize, &MessageIntegrity)> {
        self.0.attributes().enumerate().filter_map(|(i, a)| a.mi().map(|m| (i, m))).collect()
    }
    fn encode(&self) -> Result<Vec<u8>, Err> {
        use bytecodec::EncodeExt;
        MessageEncoder::<A>::new().encode_into_bytes(self.0.clone()).map_err(Err::of)
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn clone_box(&self) -> Box<dyn DynMsg> {
        Box::new(Msg(self.0.clone()))
    }
    fn new_fp(&self) -> Result<Fingerprint, Err> {
        Fingerprint::new(&self.0).map_err(Err::of)
    }
    fn new_mi_short(&self, pw: &str) -> Result<MessageIntegrity, Err> {
        MessageIntegrity::new_short_term_credential(&self.0, pw).map_err(Err::of)
    }
    fn new_mi_long(&self, u: &Username, r: &Realm, pw: &str) -> Result<MessageIntegrity, Err> {
        MessageIntegrity::new_long_term_credential(&self.0, u, r, pw).map_err(Err::of)
    }
    fn add(&mut self, el: &El) -> bool {
        let a = match el {
            El::Plain(ty, v) => match A::build(*ty, v) {
                Some(Ok(a)) => Some(a),
                _ => None,
            },
            El::MiShort(pw) => MessageIntegrity::new_short_term_credential(&self.0, pw).ok().and_then(A::from_mi),
            El::MiLong(u, r, pw) => match (Username::new(u.clone()), Realm::new(r.clone())) {
                (Ok(u), Ok(r)) => {
                    MessageIntegrity::new_long_term_credential(&self.0, &u, &r, pw).ok().and_then(A::from_mi)
                }
                _ => None,
            },
            El::Fp => Fingerprint::new(&self.0).ok().and_then(A::from_fp),
        };
        match a {
            Some(a) => {
                self.0.add_attribute(a);
                true
            }
            None => false,
        }
    }
    fn add_from(&mut self, other: &dyn DynMsg, i: usize) {
        let other = &other.any().downcast_ref::<Msg<A>>().expect("message of this set").0;
        let a = other.attributes().nth(i).expect("attribute").clone();
        self.0.add_attribute(a);
    }
    fn attr(&self, i: usize) -> Option<Box<dyn DynAttr>> {
        Some(Box::new(OneAttr(self.0.attributes().nth(i)?.clone())))
    }
    fn same_attributes(&self, other: &dyn DynMsg) -> Option<bool> {
        let other = &other.any().downcast_ref::<Msg<A>>()?.0;
        if self.0.attributes().count() != other.attributes().count() {
            return Some(false);
        }
        for (a, b) in self.0.attributes().zip(other.attributes()) {
            if !a.same(b)? {
                return Some(false);
            }
        }
        Some(true)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}

pub struct Broken {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub msg: BrokenMessage,
}
pub enum Decoded {
    Msg(Box<dyn DynMsg>),
    Broken(Broken),
}

pub trait DynDec {
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize, Err>;
    fn finish(&mut self) -> Result<Decoded, Err>;
    fn requiring(&self) -> ByteCount;
    fn is_idle(&self) -> bool;
    fn debug(&self) -> String;
    /// `bytecodec::io::IoDecodeExt::decode_exact` on a reader.
    fn decode_exact(&mut self, r: &mut dyn std::io::Read) -> Result<Decoded, Err>;
    /// `bytecodec::DecodeExt::decode_from_bytes`.
    fn from_bytes(&mut self, b: &[u8]) -> Result<Decoded, Err>;
}
struct Dec<A: Attribute>(MessageDecoder<A>);
fn decoded<A: Set>(r: stun_codec::DecodedMessage<A>) -> Decoded {
    match r {
        Ok(m) => Decoded::Msg(Box::new(Msg(m))),
        Err(b) => Decoded::Broken(Broken {
            class: class_num(b.class()),
            method: b.method().as_u16(),
            tid: *b.transaction_id().as_bytes(),
            msg: b,
        }),
    }
}
impl<A: Set> DynDec for Dec<A>
where
    A::Decoder: Debug,
{
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize, Err> {
        self.0.decode(buf, eos).map_err(Err::of)
    }
    fn finish(&mut self) -> Result<Decoded, Err> {
        self.0.finish_decoding().map(decoded).map_err(Err::of)
    }
    fn requiring(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn decode_exact(&mut self, r: &mut dyn std::io::Read) -> Result<Decoded, Err> {
        use bytecodec::io::IoDecodeExt;
        self.0.decode_exact(r).map(decoded).map_err(Err::of)
    }
    fn from_bytes(&mut self, b: &[u8]) -> Result<Decoded, Err> {
        use bytecodec::DecodeExt;
        self.0.decode_from_bytes(b).map(decoded).map_err(Err::of)
    }
}

pub trait DynEnc {
    /// Starts encoding a message of the same set.
    fn start(&mut self, m: &dyn DynMsg) -> Result<(), Err>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize, Err>;
    fn requiring(&self) -> ByteCount;
    fn exact(&self) -> u64;
    fn is_idle(&self) -> bool;
    fn debug(&self) -> String;
    /// `bytecodec::EncodeExt::encode_into_bytes`.
    fn into_bytes(&mut self, m: &dyn DynMsg) -> Result<Vec<u8>, Err>;
    /// `bytecodec::io::IoEncodeExt::encode_all` into a writer.
    fn encode_all(&mut self, w: &mut dyn std::io::Write) -> Result<(), Err>;
}
struct Enc<A: Attribute>(MessageEncoder<A>);
impl<A: Set> DynEnc for Enc<A>
where
    A::Encoder: Debug,
{
    fn start(&mut self, m: &dyn DynMsg) -> Result<(), Err> {
        let m = m.any().downcast_ref::<Msg<A>>().expect("message of this set").0.clone();
        self.0.start_encoding(m).map_err(Err::of)
    }
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize, Err> {
        self.0.encode(buf, eos).map_err(Err::of)
    }
    fn requiring(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn exact(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn into_bytes(&mut self, m: &dyn DynMsg) -> Result<Vec<u8>, Err> {
        use bytecodec::EncodeExt;
        let m = m.any().downcast_ref::<Msg<A>>().expect("message of this set").0.clone();
        self.0.encode_into_bytes(m).map_err(Err::of)
    }
    fn encode_all(&mut self, w: &mut dyn std::io::Write) -> Result<(), Err> {
        use bytecodec::io::IoEncodeExt;
        self.0.encode_all(w).map_err(Err::of)
    }
}

pub trait DynSet: Sync + Send {
    fn name(&self) -> &str;
    fn known(&self) -> Known<'_>;
    fn decoder(&self) -> Box<dyn DynDec>;
    fn encoder(&self) -> Box<dyn DynEnc>;
    fn message(&self, class: u8, method: u16, tid: [u8; 12]) -> Box<dyn DynMsg>;
    /// `None` if there is no such attribute.
    fn attr(&self, ty: u16, v: &Val) -> Option<Box<dyn DynAttr>>;
}
struct SetOf<A> {
    name: String,
    types: Vec<u16>,
    raw: bool,
    p: PhantomData<fn() -> A>,
}
impl<A: Set> DynSet for SetOf<A>
where
    A::Decoder: Debug,
    A::Encoder: Debug,
{
    fn name(&self) -> &str {
        &self.name
    }
    fn known(&self) -> Known<'_> {
        Known { raw: self.raw, types: &self.types }
    }
    fn decoder(&self) -> Box<dyn DynDec> {
        Box::new(Dec(MessageDecoder::<A>::new()))
    }
    fn encoder(&self) -> Box<dyn DynEnc> {
        Box::new(Enc(MessageEncoder::<A>::new()))
    }
    fn message(&self, class: u8, method: u16, tid: [u8; 12]) -> Box<dyn DynMsg> {
        let method = Method::new(method).expect("12-bit method");
        Box::new(Msg(Message::<A>::new(class_of(class), method, TransactionId::new(tid))))
    }
    fn attr(&self, ty: u16, v: &Val) -> Option<Box<dyn DynAttr>> {
        match A::build(ty, v)? {
            Ok(a) => Some(Box::new(OneAttr(a))),
            Err(_) => None,
        }
    }
}

fn set<A: Set>(name: &str) -> Box<dyn DynSet>
where
    A::Decoder: Debug,
    A::Encoder: Debug,
{
    Box::new(SetOf::<A> { name: name.to_string(), types: A::types(), raw: A::RAW, p: PhantomData })
}

/// The sets; the first `BROAD` are the aggregated ones and the raw one.
pub const BROAD: usize = 10;
pub fn sets() -> &'static [Box<dyn DynSet>] {
    static SETS: std::sync::OnceLock<Vec<Box<dyn DynSet>>> = std::sync::OnceLock::new();
    SETS.get_or_init(|| {
        let mut v = vec![
            set::<user::all::Attr>("user:all"),
            set::<stun_codec::rfc5389::Attribute>("rfc5389"),
            set::<stun_codec::rfc5245::Attribute>("rfc5245"),
            set::<stun_codec::rfc5766::Attribute>("rfc5766"),
            set::<stun_codec::rfc5780::Attribute>("rfc5780"),
            set::<user::ice::Attr>("user:ice"),
            set::<user::turn::Attr>("user:turn"),
            set::<user::reversed::Attr>("user:reversed"),
            set::<user::plain::Attr>("user:plain"),
            set::<RawAttribute>("raw"),
        ];
        macro_rules! push {
            ($($t:ident),*) => { $( v.push(set::<$t>(concat!("single:", stringify!($t)))); )* };
        }
        every_type!(push);
        v
    })
}
pub fn set_named(name: &str) -> &'static dyn DynSet {
    &**sets().iter().find(|s| s.name() == name).expect("set")
}

/// Decodes one whole buffer with a fresh decoder, all at once.
pub fn decode_once(set: &dyn DynSet, bytes: &[u8]) -> Result<Decoded, Err> {
    let mut d = set.decoder();
    d.from_bytes(bytes)
}

/// Builds a message; elements the set does not offer are an error of the generator.
pub fn build(set: &dyn DynSet, spec: &Spec) -> Result<Box<dyn DynMsg>, usize> {
    let mut m = set.message(spec.class, spec.method, spec.tid);
    for (i, el) in spec.els.iter().enumerate() {
        if !m.add(el) {
            return Err(i);
        }
    }
    Ok(m)
}

/// The registry of attribute codecs, type-erased.
pub fn codecs() -> &'static [Box<dyn crate::props::codecs::DynCodec>] {
    static CODECS: std::sync::OnceLock<Vec<Box<dyn crate::props::codecs::DynCodec>>> = std::sync::OnceLock::new();
    CODECS.get_or_init(|| {
        use crate::props::codecs::of;
        let mut v = vec![
            of::<user::all::Attr>("user:all"),
            of::<stun_codec::rfc5389::Attribute>("rfc5389"),
            of::<stun_codec::rfc5245::Attribute>("rfc5245"),
            of::<stun_codec::rfc5766::Attribute>("rfc5766"),
            of::<stun_codec::rfc5780::Attribute>("rfc5780"),
            of::<user::reversed::Attr>("user:reversed"),
            of::<RawAttribute>("raw"),
        ];
        macro_rules! push {
            ($($t:ident),*) => { $( v.push(of::<$t>(concat!("single:", stringify!($t)))); )* };
        }
        every_type!(push);
        // the same codecs made by their `new` instead of by `Default`
        use crate::props::codecs::with;
        use stun_codec as sc;
        macro_rules! new {
            ($($m:path, $t:ident, $d:ident, $e:ident;)*) => { $( {
                use $m as m;
                v.push(with::<m::$t>(concat!("new:", stringify!($t)), m::$d::new, m::$e::new));
            } )* };
        }
        new! {
            user::all, Attr, AttrDecoder, AttrEncoder;
            stun_codec, RawAttribute, RawAttributeDecoder, RawAttributeEncoder;
            sc::rfc5389::attributes, AlternateServer, AlternateServerDecoder, AlternateServerEncoder;
            sc::rfc5389::attributes, ErrorCode, ErrorCodeDecoder, ErrorCodeEncoder;
            sc::rfc5389::attributes, Fingerprint, FingerprintDecoder, FingerprintEncoder;
            sc::rfc5389::attributes, MappedAddress, MappedAddressDecoder, MappedAddressEncoder;
            sc::rfc5389::attributes, MessageIntegrity, MessageIntegrityDecoder, MessageIntegrityEncoder;
            sc::rfc5389::attributes, Nonce, NonceDecoder, NonceEncoder;
            sc::rfc5389::attributes, Realm, RealmDecoder, RealmEncoder;
            sc::rfc5389::attributes, Software, SoftwareDecoder, SoftwareEncoder;
            sc::rfc5389::attributes, UnknownAttributes, UnknownAttributesDecoder, UnknownAttributesEncoder;
            sc::rfc5389::attributes, Username, UsernameDecoder, UsernameEncoder;
            sc::rfc5389::attributes, XorMappedAddress, XorMappedAddressDecoder, XorMappedAddressEncoder;
            sc::rfc5389::attributes, XorMappedAddress2, XorMappedAddress2Decoder, XorMappedAddress2Encoder;
            sc::rfc5245::attributes, Priority, PriorityDecoder, PriorityEncoder;
            sc::rfc5245::attributes, UseCandidate, UseCandidateDecoder, UseCandidateEncoder;
            sc::rfc5245::attributes, IceControlled, IceControlledDecoder, IceControlledEncoder;
            sc::rfc5245::attributes, IceControlling, IceControllingDecoder, IceControllingEncoder;
            sc::rfc5766::attributes, ChannelNumber, ChannelNumberDecoder, ChannelNumberEncoder;
            sc::rfc5766::attributes, Lifetime, LifetimeDecoder, LifetimeEncoder;
            sc::rfc5766::attributes, XorPeerAddress, XorPeerAddressDecoder, XorPeerAddressEncoder;
            sc::rfc5766::attributes, Data, DataDecoder, DataEncoder;
            sc::rfc5766::attributes, XorRelayAddress, XorRelayAddressDecoder, XorRelayAddressEncoder;
            sc::rfc5766::attributes, EvenPort, EvenPortDecoder, EvenPortEncoder;
            sc::rfc5766::attributes, RequestedTransport, RequestedTransportDecoder, RequestedTransportEncoder;
            sc::rfc5766::attributes, DontFragment, DontFragmentDecoder, DontFragmentEncoder;
            sc::rfc5766::attributes, ReservationToken, ReservationTokenDecoder, ReservationTokenEncoder;
            sc::rfc5780::attributes, ChangeRequest, ChangeRequestDecoder, ChangeRequestEncoder;
            sc::rfc5780::attributes, ResponseOrigin, ResponseOriginDecoder, ResponseOriginEncoder;
            sc::rfc5780::attributes, OtherAddress, OtherAddressDecoder, OtherAddressEncoder;
            sc::rfc5780::attributes, ResponsePort, ResponsePortDecoder, ResponsePortEncoder;
            sc::rfc8016::attributes, MobilityTicket, MobilityTicketDecoder, MobilityTicketEncoder;
            sc::rfc8656::attributes, RequestedAddressFamily, RequestedAddressFamilyDecoder, RequestedAddressFamilyEncoder;
            sc::rfc5389, Attribute, AttributeDecoder, AttributeEncoder;
            sc::rfc5245, Attribute, AttributeDecoder, AttributeEncoder;
            sc::rfc5766, Attribute, AttributeDecoder, AttributeEncoder;
            sc::rfc5780, Attribute, AttributeDecoder, AttributeEncoder;
        }
        v
    })
}
