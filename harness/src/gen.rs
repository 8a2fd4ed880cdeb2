//! Generators.
use crate::model::{self, crc_of, encode_value, kind, long_term_key, mac_of, pad_len, Kind, Known, Val, Wire, ATTRS, FP, MI};
use crate::sets::{sets, DynSet, El, Spec, BROAD};
use crate::src::Src;
use bytecodec::Eos;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

pub fn tid(s: &mut Src) -> [u8; 12] {
    let mut t = [0; 12];
    match s.weighted(&[6, 1, 1, 1]) {
        0 => t.iter_mut().for_each(|b| *b = s.u8()),
        1 => t = [0xff; 12],
        2 => t = [s.u8(); 12],
        _ => {
            // Bytes of a header
            t[..4].copy_from_slice(&model::COOKIE);
            t[4..8].copy_from_slice(&[0, 1, 0, 0]);
        }
    }
    if let Some(h) = s.hint() {
        match s.below(3) {
            0 => t[s.below(12)] = h as u8,
            1 => {
                let at = s.below(11);
                t[at..at + 2].copy_from_slice(&(h as u16).to_be_bytes());
            }
            _ => {
                let at = 4 * s.below(3);
                t[at..at + 4].copy_from_slice(&(h as u32).to_be_bytes());
            }
        }
    }
    if s.chance(14) && !s.pool.tids.is_empty() {
        // One of before, or nearly
        t = {
        let i = s.below(s.pool.tids.len());
        s.pool.tids[i]
    };
        if s.bool() {
            t[s.below(12)] ^= 1 << s.below(8);
        }
    }
    if s.pool.tids.len() < 8 {
        s.pool.tids.push(t);
    }
    t
}
pub fn method(s: &mut Src) -> u16 {
    if let Some(h) = s.hint() {
        return h as u16 & 0xfff;
    }
    match s.weighted(&[3, 2, 2]) {
        0 => *s.pick(&[1u16, 3, 4, 6, 7, 8, 9, 0]),
        1 => s.u16() & 0xfff,
        _ => (1u16 << s.below(12)) | if s.bool() { 0 } else { s.u16() & 0xfff },
    }
}
pub fn class(s: &mut Src) -> u8 {
    s.below(4) as u8
}

pub fn port(s: &mut Src) -> u16 {
    if let Some(h) = s.hint() {
        return h as u16;
    }
    if s.chance(14) && !s.pool.ports.is_empty() {
        return {
            let i = s.below(s.pool.ports.len());
        s.pool.ports[i]
    };
    }
    let p = new_port(s);
    if s.pool.ports.len() < 8 {
        s.pool.ports.push(p);
    }
    p
}
fn new_port(s: &mut Src) -> u16 {
    if s.chance(96) {
        s.u16()
    } else {
        *s.pick(&[0u16, 80, 3478, 5349, 65535, 0x2112, 0xA442, 0x1221, 1, 255, 256, 0x8000, 0xDEED])
    }
}
pub fn ip(s: &mut Src) -> IpAddr {
    if s.chance(14) && !s.pool.ips.is_empty() {
        return {
            let i = s.below(s.pool.ips.len());
        s.pool.ips[i]
    };
    }
    let mut a = new_ip(s);
    if let Some(h) = s.hint() {
        a = match a {
            IpAddr::V4(_) if h > 0xffff || s.bool() => IpAddr::V4(Ipv4Addr::from(h as u32)),
            IpAddr::V4(a) => {
                let mut o = a.octets();
                o[s.below(4)] = h as u8;
                IpAddr::V4(o.into())
            }
            IpAddr::V6(a) => {
                let mut o = a.octets();
                if s.bool() {
                    o[s.below(16)] = h as u8;
                } else {
                    let at = 2 * s.below(8);
                    o[at..at + 2].copy_from_slice(&(h as u16).to_be_bytes());
                }
                IpAddr::V6(o.into())
            }
        };
    }
    if let (true, IpAddr::V6(x), Some(t)) = (s.chance(14), a, s.pool.tids.last()) {
        // An address that looks like this one when XORed
        let mut o = x.octets();
        model::COOKIE.iter().chain(t).zip(&mut o).for_each(|(m, b)| *b ^= m);
        a = IpAddr::V6(o.into());
    }
    if s.pool.ips.len() < 8 {
        s.pool.ips.push(a);
    }
    a
}
fn new_ip(s: &mut Src) -> IpAddr {
    match s.weighted(&[4, 4, 3, 5]) {
        0 => IpAddr::V4(Ipv4Addr::from(*s.pick(&[
            [127, 0, 0, 1],
            [0, 0, 0, 0],
            [255, 255, 255, 255],
            [0x21, 0x12, 0xA4, 0x42],
            [192, 0, 2, 1],
            [10, 0, 0, 1],
            [224, 0, 0, 1],
            [1, 2, 3, 4],
        ]))),
        1 => IpAddr::V4(Ipv4Addr::from(s.u32())),
        2 => {
            let mut o = [0u8; 16];
            match s.below(8) {
                0 => o[15] = 1,
                1 => {}
                2 => {
                    // IPv4-mapped
                    o[10] = 0xff;
                    o[11] = 0xff;
                    o[12..].copy_from_slice(&[192, 0, 2, 33]);
                }
                3 => o[..4].copy_from_slice(&model::COOKIE),
                4 => o = [0xff; 16],
                5 => {
                    o[0] = 0xfe;
                    o[1] = 0x80;
                    o[15] = 7;
                }
                6 => {
                    // IPv4-compatible
                    o[12..].copy_from_slice(&[10, 1, 2, 3]);
                }
                _ => {
                    // 64:ff9b::/96
                    o[..4].copy_from_slice(&[0, 0x64, 0xff, 0x9b]);
                    o[12..].copy_from_slice(&[198, 51, 100, 7]);
                }
            }
            IpAddr::V6(Ipv6Addr::from(o))
        }
        _ => {
            let mut o = [0u8; 16];
            o.iter_mut().for_each(|b| *b = s.u8());
            IpAddr::V6(Ipv6Addr::from(o))
        }
    }
}

const CHARS: &[char] = &[
    'a', 'b', 'Z', '0', ' ', ':', '"', '\0', '@', '\u{e9}', '\u{df}', '\u{20ac}', '\u{30de}', '\u{1f600}', '\u{feff}',
    '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{301}', '\\', '\n', '\t',
];
pub fn chars(s: &mut Src, n: usize) -> String {
    match s.weighted(&[4, 4, 1]) {
        0 if n <= 40 => (0..n).map(|_| (b'a' + s.u8() % 26) as char).collect(),
        1 if n <= 40 => (0..n).map(|_| *s.pick(CHARS)).collect(),
        2 => std::iter::repeat(*s.pick(CHARS)).take(n).collect(),
        _ => {
            let mut r = crate::src::Rng::new(u64::from(s.u32()));
            (0..n).map(|_| CHARS[r.next() as usize % CHARS.len()]).collect()
        }
    }
}
/// Now and then, another text: one of before or one from the source of the library,
/// alone or together with this one.
fn other_text(s: &mut Src, t: String, ok: impl Fn(&str) -> bool) -> String {
    let other = if s.chance(14) && !s.pool.texts.is_empty() {
        let i = s.below(s.pool.texts.len());
        let o = s.pool.texts[i].clone();
        match s.below(8) {
            0..=3 => o,
            4 => o.to_uppercase(),
            5 => o.to_lowercase(),
            6 => o.chars().rev().collect(),
            _ => o.chars().skip(1).collect(),
        }
    } else {
        match s.text_hint().map(std::str::from_utf8) {
            Some(Ok(h)) => h.to_string(),
            _ => String::new(),
        }
    };
    let r = if other.is_empty() {
        t
    } else {
        let u = match s.below(4) {
            0 | 1 => other,
            2 => other + &t,
            _ => t.clone() + &other,
        };
        if ok(&u) {
            u
        } else {
            t
        }
    };
    if s.pool.texts.len() < 8 && r.len() < 600 {
        s.pool.texts.push(r.clone());
    }
    r
}
/// A text of about n bytes (exactly n).
pub fn text_of_bytes(s: &mut Src, n: usize) -> String {
    let mut t = String::new();
    let wide = *s.pick(CHARS);
    while t.len() + wide.len_utf8() <= n {
        t.push(wide);
    }
    while t.len() < n {
        t.push('x');
    }
    t
}
pub fn text_chars(s: &mut Src, limit: usize) -> String {
    let n = match (s.hint_upto(limit - 1), s.weighted(&[6, 3, 2, 1])) {
        (Some(n), _) => n,
        (_, 0) => s.below(9),
        (_, 1) => s.below(41),
        (_, 2) => limit - 1 - s.below(3),
        _ => s.below(limit),
    };
    let t = chars(s, n);
    other_text(s, t, |t| t.chars().count() < limit)
}
pub fn text_bytes(s: &mut Src, limit: usize) -> String {
    let t = match (s.hint_upto(limit - 1), s.weighted(&[6, 3, 2, 1])) {
        (Some(n), _) => text_of_bytes(s, n),
        (_, 0) => {
            let n = s.below(9);
            chars(s, n)
        }
        (_, 1) => {
            let n = s.below(41);
            chars(s, n)
        }
        (_, 2) => {
            let n = limit - 1 - s.below(3);
            text_of_bytes(s, n)
        }
        _ => {
            let n = s.below(limit);
            text_of_bytes(s, n)
        }
    };
    other_text(s, t, |t| t.len() < limit)
}
pub fn free_text(s: &mut Src) -> String {
    let t = match (s.hint_upto(10_000), s.weighted(&[8, 4, 1, 1, 1])) {
        (Some(n), _) => text_of_bytes(s, n),
        (_, 0) => {
            let n = s.below(12);
            chars(s, n)
        }
        (_, 1) => {
            let n = s.below(70);
            chars(s, n)
        }
        (_, 2) => {
            let n = 120 + s.below(20);
            chars(s, n)
        }
        (_, 3) => {
            let n = 700 + s.below(100);
            text_of_bytes(s, n)
        }
        _ => {
            let n = s.below(1100);
            text_of_bytes(s, n)
        }
    };
    other_text(s, t, |_| true)
}
pub fn password(s: &mut Src) -> String {
    let t = match (s.hint_upto(10_000), s.weighted(&[12, 4, 4, 2, 1])) {
        (Some(n), _) => text_of_bytes(s, n),
        (_, 0) => {
            let n = s.below(24);
            chars(s, n)
        }
        (_, 1) => {
            let n = 60 + s.below(10);
            text_of_bytes(s, n)
        }
        (_, 2) => {
            let n = s.below(6);
            chars(s, n)
        }
        (_, 3) => {
            let n = 100 + s.below(60);
            chars(s, n)
        }
        _ => {
            let n = s.below(700);
            text_of_bytes(s, n)
        }
    };
    other_text(s, t, |_| true)
}
pub fn byte_len(s: &mut Src) -> usize {
    if let Some(n) = s.hint_upto(65_528) {
        return n;
    }
    match s.weighted(&[100, 60, 12, 12, 4, 1, 8]) {
        6 => s.below(1100),
        0 => s.below(9),
        1 => s.below(48),
        2 => 250 + s.below(14),
        3 => 500 + s.below(30),
        4 => 1000 + s.below(600),
        _ => 4000 + s.below(12000),
    }
}
pub fn error_code(s: &mut Src) -> u16 {
    if let Some(h) = s.hint_upto(599).filter(|h| *h >= 300) {
        return h as u16;
    }
    match s.weighted(&[3, 2, 1]) {
        0 => *s.pick(&[400u16, 401, 300, 420, 438, 500, 487, 403, 437, 440, 441, 442, 443, 486, 508, 405]),
        1 => 300 + s.below(300) as u16,
        _ => *s.pick(&[300u16, 599, 399, 499, 355, 556]),
    }
}
pub fn u64v(s: &mut Src) -> u64 {
    if let Some(h) = s.hint() {
        return h as u64;
    }
    match s.weighted(&[3, 1, 1]) {
        0 => s.u64(),
        1 => *s.pick(&[0u64, 1, u64::MAX, 1 << 63, 0x0102_0304_0506_0708, 0xffff_ffff, 1 << 32]),
        _ => 1 << s.below(64),
    }
}
pub fn u32v(s: &mut Src) -> u32 {
    if let Some(h) = s.hint() {
        return h as u32;
    }
    match s.weighted(&[3, 1, 1]) {
        0 => s.u32(),
        1 => *s.pick(&[0u32, 1, u32::MAX, 1 << 31, 0x0102_0304, 0x2112_A442, 600]),
        _ => 1 << s.below(32),
    }
}

/// A valid value for an attribute of the given kind (for `Mac` and `Crc`: any value).
pub fn val(s: &mut Src, k: Kind) -> Val {
    match k {
        Kind::Addr | Kind::XorAddr => Val::Addr(ip(s), port(s)),
        Kind::TextBytes(l) => Val::Text(text_bytes(s, l)),
        Kind::TextChars(l) => Val::Text(text_chars(s, l)),
        Kind::U32 => Val::U32(u32v(s)),
        Kind::U64 => Val::U64(u64v(s)),
        Kind::Bytes => {
            let n = byte_len(s);
            Val::Bytes(s.hinted_bytes(n))
        }
        Kind::Empty => Val::Empty,
        Kind::Channel => Val::Channel(if let Some(h) = s.hint() {
            0x4000 | h as u16 & 0xfff
        } else if s.bool() {
            0x4000 + (s.u16() & 0xfff)
        } else {
            *s.pick(&[0x4000u16, 0x4FFF, 0x4001, 0x4ffe, 0x4100, 0x40ff])
        }),
        Kind::Transport => Val::Transport(if let Some(h) = s.hint() {
            h as u8
        } else if s.bool() { s.u8() } else { *s.pick(&[17u8, 6, 0, 255, 1]) }),
        Kind::Even => Val::Even(s.bool()),
        Kind::Change => Val::Change(s.bool(), s.bool()),
        Kind::Port => Val::Port(port(s)),
        Kind::Family => Val::Family(s.bool()),
        Kind::Error => Val::Error(error_code(s), free_text(s)),
        Kind::Types => {
            let n = match (s.hint_upto(5000), s.weighted(&[8, 2, 1])) {
                (Some(n), _) => n,
                (_, 0) => s.below(5),
                (_, 1) => s.below(40),
                _ => 120 + s.below(20),
            };
            Val::Types((0..n).map(|_| attr_type(s)).collect())
        }
        Kind::Mac => {
            let mut m = [0; 20];
            m.iter_mut().for_each(|b| *b = s.u8());
            Val::Mac(m)
        }
        Kind::Crc => Val::Crc(u32v(s)),
    }
}

/// Any attribute type: mostly registered ones and their neighbours.
pub fn attr_type(s: &mut Src) -> u16 {
    if let Some(h) = s.hint() {
        return h as u16;
    }
    match s.weighted(&[6, 2, 2, 1]) {
        0 => ATTRS[s.below(ATTRS.len())].0,
        1 => ATTRS[s.below(ATTRS.len())].0 ^ (1 << s.below(16)),
        2 => s.u16(),
        _ => *s.pick(&[0u16, 0x7fff, 0x8000, 0xffff, 0x0002, 0x0004, 0x0005, 0x0007, 0x000b]),
    }
}

pub fn any_set(s: &mut Src) -> &'static dyn DynSet {
    let all = sets();
    if s.chance(64) {
        &*all[s.below(all.len())]
    } else {
        // The comprehensive ones most of the time.
        let i = [0usize, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9][s.below(13)];
        debug_assert!(i < BROAD);
        &*all[i]
    }
}

pub struct SpecOpts {
    /// Whether MESSAGE-INTEGRITY and FINGERPRINT may occur.
    pub auth: bool,
    /// Now and then messages with many or very long attributes.
    pub big: bool,
}

pub fn el(s: &mut Src, set: &dyn DynSet, auth: bool) -> Option<El> {
    let known = set.known();
    if known.raw {
        let ty = attr_type(s);
        let n = byte_len(s);
        return Some(El::Plain(ty, Val::Bytes(s.hinted_bytes(n))));
    }
    let ty = known.types[s.below(known.types.len())];
    match ty {
        MI | FP if !auth => None,
        MI => Some(if s.bool() {
            El::MiLong(text_bytes(s, 513), text_chars(s, 128), password(s))
        } else {
            El::MiShort(password(s))
        }),
        FP => Some(El::Fp),
        _ => Some(El::Plain(ty, val(s, kind(ty).expect("kind")))),
    }
}

/// A number of attributes beyond what a byte, say, counts.
pub fn many(s: &mut Src) -> usize {
    match s.below(4) {
        0 => s.range(250, 300),
        1 => s.range(100, 1100),
        2 => s.range(1000, 5000),
        _ => s.range(5000, 16383),
    }
}

/// A message to build that fits the length field.
pub fn spec(s: &mut Src, set: &dyn DynSet, o: &SpecOpts) -> Spec {
    let (class, method, tid) = (class(s), method(s), tid(s));
    let n = match (s.hint_upto(1500), s.weighted(&[24, 12, 3, u32::from(o.big)])) {
        (Some(n), _) => n,
        (_, 0) => s.below(5),
        (_, 1) => s.below(13),
        (_, 2) => s.below(60),
        _ => s.below(1200),
    };
    let mut els: Vec<El> = vec![];
    let mut size = 0;
    let mut macs = 0;
    for i in 0..n {
        if !s.has_more() && i > 0 && i > 40 {
            break;
        }
        let e = if !els.is_empty() && s.chance(24) {
            // A repetition
            Some(els[s.below(els.len())].clone())
        } else if n > 60 {
            // Many small ones
            let types: Vec<u16> = set.known().types.iter().copied().filter(|t| *t != MI && *t != FP).collect();
            if types.is_empty() || set.known().raw {
                el(s, set, false)
            } else {
                let ty = types[s.below(types.len())];
                Some(El::Plain(ty, val(s, kind(ty).unwrap())))
            }
        } else {
            el(s, set, o.auth)
        };
        let Some(e) = e else { continue };
        let len = match &e {
            El::Plain(ty, v) => {
                let l = encode_value(*ty, v, &tid).len();
                4 + l + pad_len(l)
            }
            El::Fp => 8,
            _ => 24,
        };
        if matches!(e, El::Fp | El::MiShort(_) | El::MiLong(..)) {
            macs += 1;
            if macs > 12 {
                continue;
            }
        }
        if size + len > 65532 {
            continue;
        }
        size += len;
        els.push(e);
    }
    if o.big && s.chance(2) {
        // Hundreds or thousands of attributes before the others
        let plain: Vec<El> = els.iter().filter(|e| matches!(e, El::Plain(..))).cloned().collect();
        let smallest = set.known().types.iter().find_map(|t| match kind(*t) {
            Some(Kind::TextBytes(_) | Kind::TextChars(_)) => Some(El::Plain(*t, Val::Text(String::new()))),
            Some(Kind::Bytes) => Some(El::Plain(*t, Val::Bytes(vec![]))),
            Some(Kind::Empty) => Some(El::Plain(*t, Val::Empty)),
            _ => None,
        });
        let smallest = if set.known().raw { Some(El::Plain(0x8099, Val::Bytes(vec![]))) } else { smallest };
        let palette = match (plain.len(), smallest) {
            (0, None) => vec![],
            (0, Some(e)) => vec![e],
            (_, Some(e)) if s.bool() => vec![e],
            (n, _) if s.bool() => vec![plain[s.below(n)].clone()],
            _ => plain,
        };
        let count = many(s);
        let mut front = vec![];
        if !palette.is_empty() {
            let sizes: Vec<usize> = palette.iter().map(|e| size_of(std::slice::from_ref(e), &tid)).collect();
            while front.len() < count && size + sizes[front.len() % sizes.len()] <= 65532 {
                size += sizes[front.len() % sizes.len()];
                front.push(palette[front.len() % palette.len()].clone());
            }
        }
        front.append(&mut els);
        els = front;
    }
    if o.big && s.chance(3) {
        // Fill up to (nearly) the limit
        let room = 65532 - size;
        let slack = *s.pick(&[0usize, 4, 8, 24, 28, 32, 36, 40]);
        if room > 4 + slack {
            let n = room - 4 - slack - if slack > 0 { s.below(4) } else { 0 };
            let filler = if set.known().raw {
                Some(0x8099u16)
            } else {
                set.known().types.iter().copied().find(|t| kind(*t) == Some(Kind::Bytes))
            };
            if let Some(ty) = filler {
                els.push(El::Plain(ty, Val::Bytes(s.bytes(n))));
            }
        }
    }
    if o.auth && !set.known().raw {
        // The usual ending
        let total: usize = size_of(&els, &tid);
        if set.known().knows(MI) && s.chance(40) && total + 24 <= 65532 {
            els.push(El::MiShort(password(s)));
        }
        let total: usize = size_of(&els, &tid);
        if set.known().knows(FP) && s.chance(64) && total + 8 <= 65532 {
            els.push(El::Fp);
        }
    }
    Spec { class, method, tid, els }
}
pub fn size_of(els: &[El], tid: &[u8; 12]) -> usize {
    els.iter()
        .map(|e| match e {
            El::Plain(ty, v) => {
                let l = encode_value(*ty, v, tid).len();
                4 + l + pad_len(l)
            }
            El::Fp => 8,
            _ => 24,
        })
        .sum()
}

/// The attributes a spec has on the wire, by the model.
pub fn spec_wires(sp: &Spec) -> Vec<Wire> {
    let mut bytes = model::header(sp.class, sp.method, &sp.tid, 0);
    let mut wires = vec![];
    for e in &sp.els {
        let w = match e {
            El::Plain(ty, v) => Wire::new(*ty, encode_value(*ty, v, &sp.tid)),
            El::MiShort(pw) => Wire::new(MI, mac_of(&bytes, pw.as_bytes()).to_vec()),
            El::MiLong(u, r, pw) => Wire::new(MI, mac_of(&bytes, &long_term_key(u, r, pw)).to_vec()),
            El::Fp => Wire::new(FP, crc_of(&bytes).to_be_bytes().to_vec()),
        };
        w.put(&mut bytes);
        wires.push(w);
    }
    wires
}
/// The bytes of a spec, by the model.
pub fn spec_bytes(sp: &Spec) -> Vec<u8> {
    model::encode(sp.class, sp.method, &sp.tid, &spec_wires(sp))
}
/// The values a decoded or built message of this spec has.
pub fn spec_vals(sp: &Spec, raw: bool) -> Vec<(u16, Val)> {
    sp.els
        .iter()
        .zip(spec_wires(sp))
        .map(|(e, w)| match e {
            El::Plain(ty, v) => (*ty, v.clone()),
            _ if raw => (w.ty, Val::Bytes(w.value)),
            El::Fp => (FP, Val::Crc(u32::from_be_bytes(w.value.try_into().unwrap()))),
            _ => (MI, Val::Mac(w.value.try_into().unwrap())),
        })
        .collect()
}

/// Ways to make the value of an attribute wrong or odd.
pub fn odd_value(s: &mut Src, ty: u16, tid: &[u8; 12]) -> Vec<u8> {
    let Some(k) = kind(ty) else {
        let n = byte_len(s);
        return s.bytes(n);
    };
    let v = val(s, k);
    let mut b = encode_value(ty, &v, tid);
    match s.weighted(&[3, 3, 2, 5]) {
        0 => {
            // Wrong length
            match s.below(4) {
                0 => {
                    b.pop();
                }
                1 => b.push(s.u8()),
                2 => {
                    let n = s.below(b.len() + 1);
                    b.truncate(n);
                }
                _ => {
                    let n = 1 + s.below(8);
                    b.extend(s.bytes(n));
                }
            }
        }
        1 => {
            if !b.is_empty() {
                let i = s.below(b.len());
                b[i] ^= 1 << s.below(8);
            }
        }
        2 => {
            let n = s.below(24);
            b = s.bytes(n);
        }
        _ => match k {
            // The edges of what is allowed
            Kind::Addr | Kind::XorAddr | Kind::Family => {
                let at = if k == Kind::Family { 0 } else { 1 };
                b[at] = *s.pick(&[0u8, 3, 1, 2, 0x11, 0x81, 255]);
            }
            Kind::Error => {
                b[2] = match s.below(4) {
                    0 => s.u8(),
                    _ => *s.pick(&[2u8, 6, 0, 7, 3, 4, 5]),
                };
                b[3] = *s.pick(&[99u8, 100, 0, 255, 127, 128]);
                if s.bool() {
                    b[2] = 3 + s.below(3) as u8;
                    b[3] = s.below(100) as u8;
                    b.push(*s.pick(&[0xffu8, 0x80, 0xc3, 0xed]));
                }
            }
            Kind::Channel => {
                let x = *s.pick(&[0x3fffu16, 0x5000, 0x4fff, 0x4000, 0x7fff, 0x8000, 0, 0xffff, 0x5fff, 0x7ffe]);
                b[..2].copy_from_slice(&x.to_be_bytes());
            }
            Kind::TextBytes(l) => {
                let n = l - 2 + s.below(4);
                b = text_of_bytes(s, n).into_bytes();
            }
            Kind::TextChars(l) => {
                let n = l - 2 + s.below(4);
                b = chars(s, n).into_bytes();
                if s.chance(64) {
                    let i = s.below(b.len());
                    b[i] = *s.pick(&[0xffu8, 0x80, 0xc0, 0xed, 0xf5]);
                }
            }
            _ => {
                let n = s.below(12);
                b = s.bytes(n);
            }
        },
    }
    b
}

/// Sets some of the bits RFCs reserve in a valid value.
pub fn set_reserved(s: &mut Src, ty: u16, b: &mut [u8]) -> bool {
    let Some(k) = kind(ty) else { return false };
    // (byte, mask) of reserved bits
    let bits: &[(usize, u8)] = match k {
        Kind::Addr | Kind::XorAddr => &[(0, 0xff)],
        Kind::Error => &[(0, 0xff), (1, 0xff), (2, 0xf8)],
        Kind::Channel | Kind::Port => &[(2, 0xff), (3, 0xff)],
        Kind::Transport | Kind::Family => &[(1, 0xff), (2, 0xff), (3, 0xff)],
        Kind::Even => &[(0, 0x7f)],
        Kind::Change => &[(0, 0xff), (1, 0xff), (2, 0xff), (3, 0xf9)],
        _ => return false,
    };
    let (i, mask) = *s.pick(bits);
    let x = match s.u8() & mask {
        0 => mask & mask.wrapping_neg(),
        x => x,
    };
    b[i] |= x;
    true
}

pub struct WireOpts {
    /// Chance (of 256) that an attribute value is made odd.
    pub odd: u16,
    /// Chance that reserved bits are set in an attribute.
    pub reserved: u16,
    /// Chance that padding is not zero.
    pub pad: u16,
    /// Chance that a fingerprint is wrong.
    pub bad_fp: u16,
    pub big: bool,
}
pub const CLEAN: WireOpts = WireOpts { odd: 0, reserved: 0, pad: 60, bad_fp: 0, big: true };
pub const MIXED: WireOpts = WireOpts { odd: 14, reserved: 4, pad: 60, bad_fp: 20, big: true };

/// A message put together attribute by attribute, as an attacker or another
/// implementation might send it.
pub struct Raw {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub attrs: Vec<Wire>,
    /// (index of an integrity attribute, its key) for the right ones.
    pub keys: Vec<(usize, Key)>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Key {
    Short(String),
    Long(String, String, String),
}
impl Key {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Key::Short(p) => p.as_bytes().to_vec(),
            Key::Long(u, r, p) => long_term_key(u, r, p).to_vec(),
        }
    }
}
impl Raw {
    pub fn bytes(&self) -> Vec<u8> {
        model::encode(self.class, self.method, &self.tid, &self.attrs)
    }
    /// The bytes before attribute i.
    pub fn prefix(&self, i: usize) -> Vec<u8> {
        let mut v = model::header(self.class, self.method, &self.tid, 0);
        self.attrs[..i].iter().for_each(|a| a.put(&mut v));
        v
    }
}
pub fn key(s: &mut Src) -> Key {
    if s.bool() {
        Key::Long(text_bytes(s, 513), text_chars(s, 128), password(s))
    } else {
        Key::Short(password(s))
    }
}

pub fn wires(s: &mut Src, known: Known, o: &WireOpts) -> Raw {
    let (class, method, tid) = (class(s), method(s), tid(s));
    let n = match (s.hint_upto(1500), s.weighted(&[24, 12, 3, u32::from(o.big)])) {
        (Some(n), _) => n,
        (_, 0) => s.below(5),
        (_, 1) => s.below(13),
        (_, 2) => s.below(50),
        _ => s.below(700),
    };
    let mut m = Raw { class, method, tid, attrs: vec![], keys: vec![] };
    let mut bytes = model::header(class, method, &tid, 0);
    let mut macs = 0;
    for i in 0..n {
        if !s.has_more() && i > 40 {
            break;
        }
        let ty = if s.chance(70) || known.types.is_empty() {
            attr_type(s)
        } else {
            known.types[s.below(known.types.len())]
        };
        let mut right_key = None;
        let value = if s.chance(o.odd) {
            odd_value(s, ty, &tid)
        } else {
            match ty {
                MI | FP if macs > 10 => continue,
                MI => {
                    macs += 1;
                    let k = key(s);
                    let mac = mac_of(&bytes, &k.bytes());
                    right_key = Some(k);
                    mac.to_vec()
                }
                FP => {
                    macs += 1;
                    let mut c = crc_of(&bytes);
                    if s.chance(o.bad_fp) {
                        c ^= 1 << s.below(32);
                    }
                    c.to_be_bytes().to_vec()
                }
                _ => match kind(ty) {
                    Some(k) => {
                        let v = val(s, k);
                        let mut b = encode_value(ty, &v, &tid);
                        if s.chance(o.reserved) {
                            set_reserved(s, ty, &mut b);
                        }
                        b
                    }
                    None => {
                        let n = byte_len(s);
                        s.hinted_bytes(n)
                    }
                },
            }
        };
        let mut w = Wire::new(ty, value);
        if s.chance(o.pad) {
            w.pad.iter_mut().for_each(|b| *b = s.u8());
        }
        if bytes.len() - 20 + w.len() > 65532 {
            continue;
        }
        w.put(&mut bytes);
        if let Some(k) = right_key {
            m.keys.push((m.attrs.len(), k));
        }
        m.attrs.push(w);
    }
    let macs = m.attrs.iter().any(|w| matches!(w.ty, MI | FP));
    if o.big && !macs && s.chance(2) {
        // Hundreds or thousands of attributes before the others
        let palette = match m.attrs.len() {
            n if n > 0 && s.bool() => {
                if s.bool() {
                    vec![m.attrs[s.below(n)].clone()]
                } else {
                    m.attrs.clone()
                }
            }
            _ => vec![Wire::new(*s.pick(&[0x7F77, 0xC0FE]), vec![])],
        };
        let count = many(s);
        let mut size = bytes.len() - 20;
        let mut front: Vec<Wire> = vec![];
        while front.len() < count && size + palette[front.len() % palette.len()].len() <= 65532 {
            size += palette[front.len() % palette.len()].len();
            front.push(palette[front.len() % palette.len()].clone());
        }
        front.append(&mut m.attrs);
        m.attrs = front;
        bytes = m.bytes();
    }
    if known.knows(FP) && !known.raw && s.chance(48) && bytes.len() - 20 + 8 <= 65532 {
        let mut c = crc_of(&bytes);
        if s.chance(o.bad_fp) {
            c ^= 1 << s.below(32);
        }
        m.attrs.push(Wire::new(FP, c.to_be_bytes().to_vec()));
    }
    m
}

fn fix_len(b: &mut [u8]) {
    if b.len() >= 20 {
        let n = ((b.len() - 20) as u16).to_be_bytes();
        b[2..4].copy_from_slice(&n);
    }
}

/// Damages a message; keeps the length field right about half the time.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    let ops = 1 + s.below(3);
    for _ in 0..ops {
        if b.is_empty() {
            b.push(s.u8());
            continue;
        }
        let at = if s.chance(80) { s.below(b.len().min(24)) } else { s.below(b.len()) };
        match s.below(9) {
            0 => b[at] ^= 1 << s.below(8),
            1 => b[at] = *s.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0x21, 0x40, 4, 8]),
            2 => b[at] = s.hint().map_or_else(|| s.u8(), |h| h as u8),
            3 => {
                let n = 1 + s.below(5);
                for _ in 0..n {
                    b.insert(at, s.u8());
                }
                if s.bool() {
                    fix_len(b);
                }
            }
            4 => {
                let n = (1 + s.below(5)).min(b.len() - at);
                b.drain(at..at + n);
                if s.bool() {
                    fix_len(b);
                }
            }
            5 => {
                let n = s.below(b.len() + 1);
                b.truncate(n);
                if s.bool() {
                    fix_len(b);
                }
            }
            6 => {
                let n = 1 + s.below(9);
                b.extend(s.bytes(n));
                if s.bool() {
                    fix_len(b);
                }
            }
            7 => {
                // The header length
                if b.len() >= 4 {
                    let old = u16::from_be_bytes([b[2], b[3]]);
                    let new = match s.below(5) {
                        0 => old.wrapping_add(4),
                        1 => old.wrapping_sub(4),
                        2 => old ^ (1 << s.below(16)),
                        3 => s.u16(),
                        _ => *s.pick(&[0u16, 1, 2, 3, 4, 5, 0xffff, 0xfffc]),
                    };
                    b[2..4].copy_from_slice(&new.to_be_bytes());
                }
            }
            _ => {
                // An attribute length (walking from the start)
                let mut offs = vec![];
                let mut p = 20;
                while p + 4 <= b.len() {
                    offs.push(p);
                    let n = usize::from(u16::from_be_bytes([b[p + 2], b[p + 3]]));
                    p += 4 + n + pad_len(n);
                }
                if !offs.is_empty() {
                    let p = offs[s.below(offs.len())];
                    let old = u16::from_be_bytes([b[p + 2], b[p + 3]]);
                    let new = match s.below(6) {
                        0 => old.wrapping_add(1),
                        1 => old.wrapping_sub(1),
                        2 => old.wrapping_add(4),
                        3 => old.wrapping_sub(4),
                        4 => ((b.len() - p - 4) as u16).wrapping_add(s.below(5) as u16).wrapping_sub(2),
                        _ => *s.pick(&[0u16, 0xffff, 0xfffd, 0x8000, 0x7fff, 1, 2, 3]),
                    };
                    b[p + 2..p + 4].copy_from_slice(&new.to_be_bytes());
                }
            }
        }
    }
}

/// Bytes to decode: whole messages of every degree of damage.
pub fn message_bytes(s: &mut Src, known: Known) -> Vec<u8> {
    match s.weighted(&[10, 6, 5, 1]) {
        0 => {
            let o = WireOpts { odd: 0, ..MIXED };
            wires(s, known, &o).bytes()
        }
        1 => wires(s, known, &MIXED).bytes(),
        2 => {
            let mut b = wires(s, known, &MIXED).bytes();
            mutate(s, &mut b);
            b
        }
        _ => {
            let n = s.below(64);
            let mut b = s.bytes(n);
            if s.bool() && b.len() >= 8 {
                b[4..8].copy_from_slice(&model::COOKIE);
                b[0] &= 0x3f;
                if s.bool() {
                    fix_len(&mut b);
                }
            }
            b
        }
    }
}

/// Sizes of the pieces n bytes are fed in.
pub fn pieces(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    if let Some(k) = s.hint_upto(n) {
        v.push(k);
        left -= k;
    }
    match s.weighted(&[3, 3, 4, 2]) {
        0 => {
            // A few cuts anywhere
            let cuts = 1 + s.below(4);
            for _ in 0..cuts {
                let k = s.below(left + 1);
                v.push(k);
                left -= k;
            }
        }
        1 if left <= 3000 => {
            v.extend(vec![1; left]);
            left = 0;
        }
        2 => {
            // Small pieces, some empty
            let mut i = 0;
            while left > 0 && i < 400 {
                let k = s.below(9).min(left);
                v.push(k);
                left -= k;
                i += 1;
            }
        }
        _ => {
            // Around the boundaries of header and attribute headers
            for k in [2usize, 2, 4, 12, 2, 2] {
                let k = match s.below(4) {
                    0 => k + 1,
                    1 => k.saturating_sub(1),
                    _ => k,
                }
                .min(left);
                v.push(k);
                left -= k;
            }
            while left > 0 && v.len() < 200 {
                let k = (4 * (1 + s.below(3)) + s.below(3)).min(left);
                v.push(k);
                left -= k;
            }
        }
    }
    if left > 0 || v.is_empty() {
        v.push(left);
    }
    if s.chance(40) {
        v.push(0);
    }
    v
}

/// How the end of the stream is announced with a piece that `rest` bytes follow.
pub fn eos(s: &mut Src, rest: usize, final_piece: bool) -> Eos {
    if final_piece {
        match s.below(3) {
            0 => Eos::new(true),
            1 => Eos::with_remaining_bytes(bytecodec::ByteCount::Finite(0)),
            _ => Eos::new(false),
        }
    } else if rest > 0 {
        match s.below(4) {
            0 => Eos::with_remaining_bytes(bytecodec::ByteCount::Finite(rest as u64)),
            1 => Eos::with_remaining_bytes(bytecodec::ByteCount::Unknown),
            _ => Eos::new(false),
        }
    } else {
        Eos::new(false)
    }
}
