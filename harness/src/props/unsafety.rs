//! C20: the unsafe code around the hooks, natively (counting attributes and bytes) and,
//! with the same cases, under Miri (src/miri_main.rs).
use super::*;
use crate::alloc::Meter;
use crate::engine::{random, Cx, Part, Prop, R};
use crate::gen;
use crate::model::Wire;
use crate::probe;
use crate::props::hooks::{mixed, Probed, P1};
use crate::sets::{class_of, El};
use bytecodec::{Decode, DecodeExt, Encode};
use std::panic::{catch_unwind, AssertUnwindSafe};
use stun_codec::{Message, MessageDecoder, MessageEncoder, Method, TransactionId};

const SMALL: bool = cfg!(miri);

fn value(s: &mut Src, panics: bool) -> Vec<u8> {
    let n = 2 + s.below(if SMALL { 4 } else { 12 });
    let mut v = s.bytes(n);
    for d in &mut v[..2] {
        *d = if panics && s.chance(24) {
            probe::PANIC
        } else if s.chance(24) {
            probe::FAIL
        } else {
            *s.pick(&[probe::NONE, probe::XOR, probe::LONGER, probe::SHORTER, probe::COUNT, probe::CRC, probe::NEST])
        };
    }
    v
}
fn wire(s: &mut Src, types: &[u16], foreign: bool, panics: bool) -> Wire {
    let ty = if foreign && s.chance(60) { *s.pick(&[0x7002u16, 0x0006, 0x9999, 0xB003]) } else { types[s.below(types.len())] };
    let v = match ty {
        0x8022 => {
            let n = s.below(5);
            gen::chars(s, n).into_bytes()
        }
        0x0001 => model::encode_value(1, &model::Val::Addr(gen::ip(s), gen::port(s)), &[0; 12]),
        0x0020 => model::encode_value(0x0020, &model::Val::Addr(gen::ip(s), gen::port(s)), &[0; 12]),
        _ => value(s, panics),
    };
    Wire::new(ty, v)
}

/// A message with what it must contain.
struct Held<A: Probed> {
    m: Message<A>,
    known: Vec<Vec<u8>>,
    unknown: usize,
}
fn hold<A: Probed>(m: Message<A>) -> Held<A> {
    let known = m.attributes().map(|a| a.value(&[0; 12])).collect();
    let unknown = m.unknown_attributes().count();
    Held { m, known, unknown }
}
impl<A: Probed> Held<A> {
    fn check(&self) -> R {
        let now: Vec<Vec<u8>> = self.m.attributes().map(|a| a.value(&[0; 12])).collect();
        ensure!(now == self.known, "a message changed from {:02x?} to {now:02x?}", self.known);
        ensure!(self.m.unknown_attributes().count() == self.unknown, "the unknown attributes of a message changed");
        Ok(())
    }
}

/// Operations in any order on messages, an encoder and a decoder. Returns whether a
/// hook panicked, and the number of operations.
fn history<A: Probed>(s: &mut Src, panics: bool) -> R<(bool, usize)> {
    let mut pool: Vec<Held<A>> = vec![];
    let mut e = MessageEncoder::<A>::new();
    let mut d = MessageDecoder::<A>::new();
    let mut panicked = false;
    let n = 1 + s.below(if SMALL { 5 } else { 14 });
    let most = if SMALL { 4 } else { 9 };
    for _ in 0..n {
        match s.weighted(&[4, 6, 6, 2, 1, 1, 1]) {
            0 => {
                let method = Method::new(gen::method(s)).map_err(|_| Fail("method".into()))?;
                let mut m = Message::<A>::new(class_of(gen::class(s)), method, TransactionId::new(gen::tid(s)));
                for _ in 0..s.below(most) {
                    let w = wire(s, A::TYPES, false, panics);
                    if let Some(a) = A::make(w.ty, w.value, &[0; 12]) {
                        m.add_attribute(a);
                    }
                }
                pool.push(hold(m));
            }
            1 => {
                // Encode, wholly or in part
                if pool.is_empty() {
                    continue;
                }
                let i = s.below(pool.len());
                let m = pool[i].m.clone();
                let stop = if s.chance(60) { s.below(6) } else { 1000 };
                let k = 1 + s.below(30);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if e.start_encoding(m).is_ok() {
                        let mut buf = [0; 40];
                        for _ in 0..stop {
                            if e.is_idle() || e.encode(&mut buf[..k], Eos::new(false)).is_err() {
                                break;
                            }
                        }
                    }
                }));
                panicked |= r.is_err();
                probe::unmute();
                if s.chance(80) {
                    e = MessageEncoder::new();
                }
            }
            2 => {
                // Decode
                let attrs: Vec<Wire> = (0..s.below(most)).map(|_| wire(s, A::TYPES, true, panics)).collect();
                let mut b = model::encode(gen::class(s), gen::method(s), &gen::tid(s), &attrs);
                if s.chance(30) {
                    let n = s.below(b.len() + 1);
                    b.truncate(n);
                }
                let cut = s.below(b.len() + 1);
                let whole = s.bool();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if whole {
                        return d.decode_from_bytes(&b).ok();
                    }
                    let n = d.decode(&b[..cut], Eos::new(false)).ok()?;
                    if !d.is_idle() {
                        d.decode(&b[n..], Eos::new(true)).ok()?;
                    }
                    d.finish_decoding().ok()
                }));
                probe::unmute();
                match r {
                    Ok(Some(Ok(m))) => pool.push(hold(m)),
                    Ok(_) => {}
                    Err(_) => {
                        panicked = true;
                        // The message that panicked is gone; the decoder goes on.
                    }
                }
                if s.chance(60) {
                    d = MessageDecoder::new();
                }
            }
            3 => {
                if !pool.is_empty() {
                    let i = s.below(pool.len());
                    let c = Held { m: pool[i].m.clone(), known: pool[i].known.clone(), unknown: pool[i].unknown };
                    pool.push(c);
                }
            }
            4 => {
                if !pool.is_empty() {
                    let i = s.below(pool.len());
                    pool.swap_remove(i);
                }
            }
            5 => {
                for h in &pool {
                    let _ = format!("{:?}", h.m).len();
                }
            }
            _ => {
                // Going on with a message
                if !pool.is_empty() {
                    let i = s.below(pool.len());
                    let w = wire(s, A::TYPES, false, panics);
                    if let Some(a) = A::make(w.ty, w.value, &[0; 12]) {
                        pool[i].known.push(a.value(&[0; 12]));
                        pool[i].m.add_attribute(a);
                    }
                }
            }
        }
        for h in &pool {
            h.check()?;
        }
        probe::take_log();
    }
    Ok((panicked, n))
}

fn run<A: Probed>(s: &mut Src, cx: &mut Cx, panics: bool) -> R {
    probe::take_log();
    let before = probe::live();
    let r = history::<A>(s, panics);
    probe::take_log();
    probe::unmute();
    let left = probe::live() - before;
    probe::forget(left);
    let (panicked, n) = r?;
    cx.key(s.choices());
    cx.describe(|| format!("{n} operations{}", if panicked { ", with a panicking hook" } else { "" }));
    if n > 2 {
        cx.nontrivial();
    }
    if panicked {
        cx.label("panicking hook");
        ensure!(left >= 0, "{} attributes were dropped twice", -left);
    } else {
        ensure!(left == 0, "{left} attributes are left after everything was dropped (negative: dropped twice)");
    }
    Ok(())
}
fn c20_mixed(s: &mut Src, cx: &mut Cx) -> R {
    run::<mixed::Attr>(s, cx, false)
}
fn c20_mixed_panics(s: &mut Src, cx: &mut Cx) -> R {
    run::<mixed::Attr>(s, cx, true)
}
fn c20_single(s: &mut Src, cx: &mut Cx) -> R {
    run::<P1>(s, cx, false)
}
fn c20_single_panics(s: &mut Src, cx: &mut Cx) -> R {
    run::<P1>(s, cx, true)
}

/// The library's own hooks (XOR, integrity, fingerprint).
fn c20_own(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let mut inputs = vec![];
    let mut specs = vec![];
    for _ in 0..1 + s.below(2) {
        let mut sp = sets_spec(s, set);
        if set.known().knows(model::FP) && !set.known().raw && s.bool() {
            sp.els.push(El::Fp);
        }
        let mut b = gen::spec_bytes(&sp);
        if s.chance(80) {
            gen::mutate(s, &mut b);
        }
        cx.key(&b);
        cx.describe(|| format!("set {} bytes {}", set.name(), hex(&b)));
        inputs.push((b, s.u8()));
        specs.push(sp);
    }
    cx.nontrivial();
    let meter = Meter::start();
    {
        let mut d = set.decoder();
        let mut e = set.encoder();
        for (b, cut) in &inputs {
            let cut = usize::from(*cut) % (b.len() + 1);
            let r = match d.decode(&b[..cut], Eos::new(false)) {
                Ok(n) if !d.is_idle() => d.decode(&b[n..], Eos::new(true)).and_then(|_| d.finish()),
                Ok(_) => d.finish(),
                Err(e) => Err(e),
            };
            if let Ok(Decoded::Msg(m)) = r {
                let _ = e.into_bytes(&*m);
                for (_, mi) in m.mis() {
                    let _ = mi.check_short_term_credential("x");
                }
                let _ = m.clone_box().new_fp();
            }
        }
        for sp in &specs {
            if let Ok(m) = crate::sets::build(set, sp) {
                let _ = e.into_bytes(&*m);
            }
        }
    }
    let live = meter.read().live;
    if !SMALL {
        ensure!(live == 0, "{live} bytes are left after everything was dropped");
    }
    Ok(())
}
fn sets_spec(s: &mut Src, set: &dyn DynSet) -> Spec {
    let mut sp = Spec { class: gen::class(s), method: gen::method(s), tid: gen::tid(s), els: vec![] };
    for _ in 0..s.below(if SMALL { 4 } else { 7 }) {
        if let Some(e) = gen::el(s, set, true) {
            if !SMALL || format!("{e:?}").len() < 200 {
                sp.els.push(e);
            }
        }
    }
    sp
}

/// The parts, and whether a leak is a violation.
pub fn parts() -> Vec<(Part, bool)> {
    vec![
        (random("aggregated set", 60_000, c20_mixed), true),
        (random("single type", 40_000, c20_single), true),
        (random("the library's own hooks", 40_000, c20_own), true),
        (random("aggregated set, panicking hooks", 40_000, c20_mixed_panics), false),
        (random("single type, panicking hooks", 20_000, c20_single_panics), false),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "A case is a history of building, cloning, encoding, decoding and dropping messages whose attributes have hooks that read and clone the message they are given, change their attribute, fail or panic; natively the attributes and bytes alive are counted and every message is compared with a copy of its values, and under Miri (with Tree Borrows and its leak checker) the same histories are interpreted. Non-trivial: at least three operations, or a message of the library's own attributes.",
        assumptions: &["Miri's Tree Borrows is taken for Rust's aliasing rules"],
        parts: parts().into_iter().map(|p| p.0).collect(),
    }]
}
