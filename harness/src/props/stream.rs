//! C06, C07, C08, C09, C23: pieces, reuse and size announcements.
use super::*;
use crate::engine::{random, Cx, Prop, R};
use crate::gen::{self, SpecOpts};
use crate::model::hex;
use crate::sets::{self, DynSet, El};
use bytecodec::{ByteCount, Eos};

const OPTS: SpecOpts = SpecOpts { auth: true, big: true };

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "A case is an attribute set, a byte string and a way to cut it (with end-of-stream marks); non-trivial if the header is valid and there are at least two pieces. Truncation cases take every proper prefix of a message.",
            assumptions: &[],
            parts: vec![random("pieces", 120_000, c06_pieces), random("every prefix", 6_000, c06_prefixes), random("large messages", 3_000, c06_large)],
        },
        Prop {
            id: "C07",
            rule: "A case is a sequence of 2 to 7 byte strings (in the long histories, hundreds to 66500 of up to 6 different ones) (accepted, broken, rejected, cut short) fed to one decoder as datagrams or as a stream in pieces; non-trivial if at least two are whole messages or one of them fails.",
            assumptions: &["After a rejected or cut-short input the next one starts afresh, as with datagrams; a stream ends there."],
            parts: vec![random("datagrams", 60_000, c07_datagrams), random("stream", 50_000, c07_stream), random("long histories", 3, c07_long)],
        },
        Prop {
            id: "C08",
            rule: "A case is a message and a sequence of output buffer sizes; non-trivial if at least two buffers are used.",
            assumptions: &[],
            parts: vec![random("buffers", 100_000, c08)],
        },
        Prop {
            id: "C09",
            rule: "A case is a history of 2 to 8 operations (in the long histories, hundreds to 66500) on one encoder (encode whole or in pieces, offer a message that is too long, whose attribute is refused, or while busy); non-trivial if a refusal precedes an encoded message or a message is encoded after another.",
            assumptions: &[],
            parts: vec![random("histories", 60_000, c09), random("long histories", 3, c09_long)],
        },
        Prop {
            id: "C23",
            rule: "A case is a stream of 1 to 5 messages, whole or broken, read as the decoder asks; non-trivial if at least one message has attributes.",
            assumptions: &["Reading follows bytecodec's IoDecodeExt::decode_exact or reads at most the announced number of bytes at a time."],
            parts: vec![random("hints", 60_000, c23_hints), random("decode_exact", 60_000, c23_exact)],
        },
    ]
}

fn c06_pieces(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let mut b = gen::message_bytes(s, set.known());
    if s.chance(16) {
        let n = s.below(24);
        b.extend(s.bytes(n));
    }
    let sizes = gen::pieces(s, b.len());
    c06_compare(s, cx, set, b, sizes)
}

/// Messages of kilobytes, often broken early, in few pieces.
fn c06_large(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let known = set.known();
    let mut m = gen::wires(s, known, &gen::WireOpts { odd: 40, big: false, ..gen::MIXED });
    let mut size = m.bytes().len();
    for _ in 0..s.range(1, 4) {
        let limit = *s.pick(&[300, 2500, 9000, 30000, 65000]);
        let n = s.below(limit);
        let w = model::Wire::new(gen::attr_type(s), s.bytes(n));
        if size + w.len() > 65552 {
            continue;
        }
        size += w.len();
        let at = s.below(m.attrs.len() + 1);
        m.attrs.insert(at, w);
    }
    let b = m.bytes();
    let mut left = b.len();
    let mut sizes = vec![];
    while left > 0 && sizes.len() < 24 {
        let k = match s.below(4) {
            0 => s.below(left + 1),
            1 => (1usize << s.below(17)).min(left),
            2 => ((1usize << s.below(17)) + s.below(3)).saturating_sub(1).min(left),
            _ => left.saturating_sub(s.below(9)),
        };
        sizes.push(k);
        left -= k;
    }
    if left > 0 {
        sizes.push(left);
    }
    c06_compare(s, cx, set, b, sizes)
}

fn c06_compare(s: &mut Src, cx: &mut Cx, set: &dyn DynSet, b: Vec<u8>, sizes: Vec<usize>) -> R {
    describe_bytes(cx, set, &b);
    cx.key(format!("{sizes:?}").as_bytes());
    cx.describe(|| format!("pieces {:?}", &sizes[..sizes.len().min(60)]));
    let total = announced(&b);
    if total.is_some() && sizes.len() > 1 {
        cx.nontrivial();
    }
    let mut d = set.decoder();
    let (whole, n0) = feed_as(true, &mut *d, &[(&b, Eos::new(true))], |_, _| Ok(()))?;
    let p = plan(s, &b, &sizes);
    let mut d = set.decoder();
    let (pieces, n1) = feed_as(true, &mut *d, &p, |consumed, d| {
        if let Some(t) = total {
            ensure!(d.is_idle() == (consumed == t), "idle: {} after {consumed} of {t} bytes", d.is_idle());
        }
        Ok(())
    })?;
    same_outcome(&whole, &pieces, "at once versus in pieces")?;
    if matches!(whole, Outcome::Msg(_) | Outcome::Broken(_)) {
        ensure!(n0 == n1 && Some(n1) == total, "consumed {n0} at once, {n1} in pieces, announced {total:?}");
    }
    cx.label(whole.tag());
    Ok(())
}

fn c06_prefixes(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let b = gen::wires(s, set.known(), &gen::WireOpts { odd: 6, reserved: 2, pad: 60, bad_fp: 10, big: false }).bytes();
    describe_bytes(cx, set, &b);
    if b.len() > 24 {
        cx.nontrivial();
    }
    let step = 1 + b.len() / 300;
    for k in (0..b.len()).step_by(step) {
        cx.label("prefixes");
        let cut = &b[..k];
        // At once, with the end marked
        let mut d = set.decoder();
        let (o, _) = feed_once(&mut *d, cut)?;
        ensure!(!o.accepted(), "the first {k} of {} bytes are accepted at once", b.len());
        // In two pieces; then the end is marked with an empty one
        let mut d = set.decoder();
        let at = s.below(k + 1);
        let two = [(&cut[..at], Eos::new(false)), (&cut[at..], Eos::new(false))];
        let (o, _) = feed_as(true, &mut *d, &two, |n, d| {
            ensure!(!d.is_idle(), "idle after {n} of {} bytes", b.len());
            Ok(())
        })?;
        ensure!(!o.accepted(), "the first {k} of {} bytes are accepted in pieces", b.len());
        if matches!(o, Outcome::Unfinished) {
            if s.chance(40) {
                // Taking the message now must not give one
                ensure!(!take(&mut *d).accepted(), "a message is taken after {k} of {} bytes", b.len());
            } else {
                let (o, _) = feed(&mut *d, &[(&[], Eos::new(true))], |_, _| Ok(()))?;
                ensure!(!o.accepted(), "the first {k} of {} bytes are accepted once the end is marked", b.len());
            }
        }
    }
    Ok(())
}

/// A message of some sort, with what to expect of it.
fn some_message(s: &mut Src, set: &dyn DynSet, whole_only: bool) -> Vec<u8> {
    let o = gen::WireOpts { odd: 20, reserved: 2, pad: 60, bad_fp: 60, big: false };
    let mut b = gen::wires(s, set.known(), &o).bytes();
    if whole_only {
        return b;
    }
    match s.weighted(&[10, 1, 1, 2, 1]) {
        0 => {}
        1 => b[s.below(8)] ^= 1 << s.below(8),
        2 => b[4 + s.below(4)] ^= 1 << s.below(8),
        3 => {
            let n = s.below(b.len());
            b.truncate(n);
        }
        _ => gen::mutate(s, &mut b),
    }
    b
}

fn c07_datagrams(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let n = 2 + s.below(6);
    let mut d = set.decoder();
    let (mut wholes, mut failures) = (0, 0);
    cx.key(set.name().as_bytes());
    cx.describe(|| format!("set {}", set.name()));
    for i in 0..n {
        let b = some_message(s, set, false);
        cx.key(&b);
        let mut fresh = set.decoder();
        let (want, n0) = feed_once(&mut *fresh, &b)?;
        let cut_short = announced(&b).map_or(true, |t| t > b.len());
        let how = s.below(3);
        cx.describe(|| format!("datagram {i} ({}): {}", want.tag(), hex(&b)));
        let (got, n1) = match how {
            0 => feed_once(&mut *d, &b)?,
            1 => {
                let sizes = gen::pieces(s, b.len());
                let mut p = plan(s, &b, &sizes);
                // A datagram has an end
                if let Some(l) = p.last_mut() {
                    l.1 = Eos::new(true);
                }
                feed(&mut *d, &p, |_, _| Ok(()))?
            }
            _ => {
                // decode_from_bytes: also refuses trailing bytes, and leaves the
                // decoder idle then, with the message still to be taken.
                let r = d.from_bytes(&b);
                if let (Err(_), true) = (&r, d.is_idle()) {
                    (take(&mut *d), n0)
                } else {
                    (
                        match r {
                            Ok(Decoded::Msg(m)) => Outcome::Msg(m),
                            Ok(Decoded::Broken(b)) => Outcome::Broken(b),
                            Err(_) => Outcome::Rejected,
                        },
                        n0,
                    )
                }
            }
        };
        cx.label(want.tag());
        if matches!(got, Outcome::Unfinished) {
            // The end is marked: what there is is taken and discarded, as
            // decode_from_bytes does.
            ensure!(cut_short, "message {i}: the decoder wants more although the message is complete");
            ensure!(!take(&mut *d).accepted(), "message {i}: a message cut short is accepted");
        }
        if cut_short {
            ensure!(!want.accepted() && !got.accepted(), "message {i}: a message cut short is accepted");
        } else {
            same_outcome(&want, &got, &format!("message {i} by a fresh decoder versus by the used one"))?;
        }
        match want {
            Outcome::Msg(_) | Outcome::Broken(_) if !cut_short => {
                wholes += 1;
                if matches!(want, Outcome::Broken(_)) {
                    failures += 1;
                }
                ensure!(n0 == n1, "message {i}: consumed {n1} bytes instead of {n0}");
                if let Some(t) = announced(&b).filter(|t| *t <= b.len()) {
                    ensure!(n1 == t, "message {i}: consumed {n1} bytes of a message of {t}");
                }
            }
            _ => failures += 1,
        }
    }
    if wholes >= 2 || failures > 0 {
        cx.nontrivial();
    }
    Ok(())
}

/// How long a history is.
pub fn history(s: &mut Src) -> usize {
    match (s.hint().filter(|n| *n < 200_000), s.below(4)) {
        (Some(n), _) => 2 + n as usize,
        (_, 0) => s.range(200, 600),
        (_, 1) => s.range(1000, 9000),
        _ => s.range(65_500, 66_500),
    }
}
/// One decoder and many thousands of inputs.
fn c07_long(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let n = history(s);
    let mut inputs = vec![];
    for _ in 0..1 + s.below(6) {
        let mut b = some_message(s, set, false);
        if b.len() > 400 {
            b = model::header(gen::class(s), gen::method(s), &gen::tid(s), 0);
        }
        let (want, n0) = feed_once(&mut *set.decoder(), &b)?;
        cx.key(&b);
        cx.describe(|| format!("input {} ({}): {}", inputs.len(), want.tag(), hex(&b)));
        inputs.push((b, want, n0));
    }
    let mut rng = crate::src::Rng::new(s.u64());
    let at_once = s.bool();
    cx.key(set.name().as_bytes());
    cx.describe(|| format!("set {}, {n} inputs", set.name()));
    cx.nontrivial();
    cx.label_n("inputs", n as u64);
    let mut d = set.decoder();
    for i in 0..n {
        let r = rng.next() as usize;
        let (b, want, n0) = &inputs[r % inputs.len()];
        let cut = if at_once { 0 } else { (r >> 16) % (b.len() + 1) };
        let (got, n1) = feed(&mut *d, &[(&b[..cut], Eos::new(false)), (&b[cut..], Eos::new(true))][usize::from(cut == 0)..], |_, _| Ok(()))?;
        if matches!(got, Outcome::Unfinished) {
            ensure!(!want.accepted() && !take(&mut *d).accepted(), "input {i}: a message cut short is accepted");
            continue;
        }
        if announced(b).map_or(true, |t| t > b.len()) {
            ensure!(!got.accepted(), "input {i}: a message cut short is accepted");
            continue;
        }
        same_outcome(want, &got, &format!("input {i} by a fresh decoder versus by the used one"))?;
        if !matches!(want, Outcome::Rejected) {
            ensure!(*n0 == n1, "input {i}: consumed {n1} bytes instead of {n0}");
        }
    }
    Ok(())
}

fn c07_stream(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let n = 2 + s.below(6);
    let msgs: Vec<Vec<u8>> = (0..n).map(|_| some_message(s, set, true)).collect();
    let stream = msgs.concat();
    cx.key(set.name().as_bytes());
    cx.key(&stream);
    cx.nontrivial();
    let sizes = gen::pieces(s, stream.len());
    cx.describe(|| format!("set {} messages {:?} pieces {:?}", set.name(), msgs.iter().map(|m| hex(m)).collect::<Vec<_>>(), &sizes[..sizes.len().min(40)]));
    let mut d = set.decoder();
    let mut done = 0; // whole messages
    let mut start = 0; // where the current one starts
    let mut at = 0;
    let mut piece_end = 0;
    for (i, k) in sizes.iter().enumerate() {
        piece_end += k;
        let eos = if i + 1 == sizes.len() && s.bool() { Eos::new(true) } else { Eos::new(false) };
        let mut first = true;
        while at < piece_end || (first && *k == 0) {
            first = false;
            let r = d.decode(&stream[at..piece_end], eos);
            let Ok(m) = r else { fail!("message {done}: an error at byte {}", at - start) };
            ensure!(m <= piece_end - at, "decode reports {m} bytes consumed of {}", piece_end - at);
            at += m;
            let len = msgs[done].len();
            ensure!(at - start <= len, "message {done}: consumed {} bytes of {len}", at - start);
            ensure!(d.is_idle() == (at - start == len), "message {done}: idle: {} after {} of {len} bytes", d.is_idle(), at - start);
            if d.is_idle() {
                let got = take(&mut *d);
                let mut fresh = set.decoder();
                let (want, _) = feed_once(&mut *fresh, &msgs[done])?;
                same_outcome(&want, &got, &format!("message {done} by a fresh decoder versus in the stream"))?;
                cx.label(want.tag());
                done += 1;
                start = at;
                if done == n {
                    break;
                }
            } else {
                ensure!(m > 0 || at == piece_end, "message {done}: no progress");
            }
        }
        if done == n {
            break;
        }
    }
    ensure!(done == n, "{done} of {n} messages");
    Ok(())
}

/// Encodes into buffers of the given sizes (cycled), checking the announcements.
fn drain(s: &mut Src, e: &mut dyn sets::DynEnc, want: &[u8], sizes: &[usize], stop_after: Option<usize>, cx: &mut Cx) -> R<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    let mut i = 0;
    loop {
        let left = want.len() as u64 - out.len() as u64;
        ensure!(e.exact() == left, "{} bytes announced, {left} are to come", e.exact());
        ensure!(e.requiring() == ByteCount::Finite(left), "{:?} announced, {left} bytes are to come", e.requiring());
        ensure!(e.is_idle() == (left == 0), "idle: {} with {left} bytes to come", e.is_idle());
        if left == 0 {
            return Ok(out);
        }
        if stop_after.map_or(false, |n| i >= n) {
            return Ok(out);
        }
        let n = if i < sizes.len() { sizes[i] } else { 1 + sizes[i % sizes.len()] };
        let mut buf = vec![0xA5u8; n];
        let eos = if n as u64 >= left && s.bool() {
            Eos::new(true)
        } else if s.chance(30) {
            Eos::with_remaining_bytes(ByteCount::Finite(1 << 20))
        } else {
            Eos::new(false)
        };
        let k = match e.encode(&mut buf, eos) {
            Ok(k) => k,
            Err(e) => fail!("an error after {} bytes: {e:?}", out.len()),
        };
        ensure!(k <= n, "{k} bytes written into a buffer of {n}");
        ensure!(k as u64 == left.min(n as u64), "{k} bytes written into a buffer of {n} with {left} to come");
        ensure!(buf[k..].iter().all(|b| *b == 0xA5), "bytes beyond the {k} reported ones are written");
        out.extend_from_slice(&buf[..k]);
        ensure!(out.len() <= want.len() && out[..] == want[..out.len()], "{} written, at once {}", hex(&out), hex(want));
        i += 1;
        cx.label("buffers");
        if i > 1 {
            cx.nontrivial();
        }
    }
}

fn c08(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    // Built, or decoded (with unknown attributes and odd padding)
    let m: Box<dyn DynMsg> = if s.chance(80) {
        let b = gen::wires(s, set.known(), &gen::CLEAN).bytes();
        match sets::decode_once(set, &b) {
            Ok(Decoded::Msg(m)) => {
                describe_bytes(cx, set, &b);
                m
            }
            _ => return Ok(()),
        }
    } else {
        let sp = gen::spec(s, set, &OPTS);
        describe_spec(cx, set, &sp);
        build(set, &sp)?
    };
    let want = match m.encode() {
        Ok(b) => b,
        Err(e) => fail!("refused: {e:?}"),
    };
    let mut sizes = gen::pieces(s, want.len());
    if sizes.iter().all(|n| *n == 0) {
        sizes.push(1);
    }
    cx.key(format!("{sizes:?}").as_bytes());
    cx.describe(|| format!("buffers {:?}", &sizes[..sizes.len().min(40)]));
    let mut e = set.encoder();
    ensure!(e.is_idle() && e.exact() == 0, "a new encoder is not idle");
    if let Err(e) = e.start(&*m) {
        fail!("refused: {e:?}");
    }
    let out = drain(s, &mut *e, &want, &sizes, None, cx)?;
    ensure!(out == want, "{} in pieces, {} at once", hex(&out), hex(&want));
    ensure!(e.encode(&mut [0; 8], Eos::new(false)) == Ok(0), "an idle encoder writes");
    // Through a writer
    if s.chance(60) {
        let mut w = vec![];
        let mut e = set.encoder();
        if let Err(x) = e.start(&*m).and_then(|_| e.encode_all(&mut w)) {
            fail!("encode_all: {x:?}");
        }
        ensure!(w == want, "encode_all writes {}, at once {}", hex(&w), hex(&want));
    }
    Ok(())
}

/// A message that is refused: too long in one of several ways.
fn too_long(s: &mut Src, set: &dyn DynSet) -> Option<sets::Spec> {
    let known = set.known();
    let (class, method, tid) = (gen::class(s), gen::method(s), gen::tid(s));
    let mut els = vec![];
    if s.bool() {
        if let Some(e) = gen::el(s, set, false) {
            els.push(e);
        }
    }
    let raw = known.raw;
    let options: Vec<u16> = [0x0013u16, 0x8030, 0x0009, 0x000A].into_iter().filter(|t| raw || known.knows(*t)).collect();
    if options.is_empty() {
        return None;
    }
    let ty = *s.pick(&options);
    let long = 65536 + s.below(12);
    let v = |s: &mut Src, n: usize| {
        use crate::model::{kind, Kind, Val};
        if raw {
            return Val::Bytes(s.bytes(n));
        }
        match kind(ty).unwrap() {
            Kind::Bytes => Val::Bytes(s.bytes(n.min(65535))),
            Kind::Error => Val::Error(400, "e".repeat(n)),
            _ => Val::Types(vec![s.u16(); n / 2 + 2]),
        }
    };
    if s.bool() {
        // One attribute beyond its own length field (or of 65535 bytes)
        let val = v(s, long);
        els.push(El::Plain(ty, val));
    } else {
        let a = v(s, 40000);
        let b = v(s, 30000);
        els.push(El::Plain(ty, a));
        els.push(El::Plain(ty, b));
    }
    if s.bool() {
        if let Some(e) = gen::el(s, set, false) {
            els.push(e);
        }
    }
    Some(sets::Spec { class, method, tid, els })
}

fn c09(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    cx.key(set.name().as_bytes());
    cx.describe(|| format!("set {}", set.name()));
    let mut e = set.encoder();
    let n = 2 + s.below(7);
    let (mut refused, mut encoded) = (0, 0);
    let small = SpecOpts { auth: true, big: false };
    for i in 0..n {
        match s.weighted(&[5, 4, 1, 1]) {
            0 | 1 if i > 0 || n > 1 => {
                let sp = gen::spec(s, set, &small);
                cx.key(format!("{sp:?}").as_bytes());
                let m = build(set, &sp)?;
                let before = m.view();
                let want = match m.encode() {
                    Ok(b) => b,
                    Err(e) => fail!("refused: {e:?}"),
                };
                if refused + encoded > 0 {
                    cx.nontrivial();
                }
                if s.bool() {
                    let got = e.into_bytes(&*m);
                    ensure!(got.as_ref() == Ok(&want), "message {i} by the used encoder: {:?}, by a fresh one {}", got.map(|b| hex(&b)), hex(&want));
                    cx.describe(|| format!("encode {}", hex(&want)));
                } else {
                    let mut sizes = gen::pieces(s, want.len());
                    if sizes.iter().all(|n| *n == 0) {
                        sizes.push(1);
                    }
                    if let Err(x) = e.start(&*m) {
                        fail!("message {i} is refused by the used encoder: {x:?}");
                    }
                    let stop = s.below(sizes.len() + 1);
                    let mut out = drain(s, &mut *e, &want, &sizes, Some(stop), cx)?;
                    let mut offers = 0;
                    while out.len() < want.len() && s.bool() {
                        // Busy: another message is refused and changes nothing
                        offers += 1;
                        let other = if s.chance(60) {
                            match too_long(s, set) {
                                Some(sp) => sp,
                                None => gen::spec(s, set, &small),
                            }
                        } else {
                            gen::spec(s, set, &small)
                        };
                        let other = build(set, &other)?;
                        ensure!(e.start(&*other).is_err(), "message {i}: another one is taken with {} of {} bytes written", out.len(), want.len());
                        refused += 1;
                        let size = s.below(20);
                        let rest = drain(s, &mut *e, &want[out.len()..], &[size], Some(1), cx)?;
                        out.extend(rest);
                    }
                    let size = s.below(40);
                    let rest = drain(s, &mut *e, &want[out.len()..], &[size], None, cx)?;
                    out.extend(rest);
                    ensure!(out == want, "message {i} by the used encoder: {}, by a fresh one {}", hex(&out), hex(&want));
                    cx.describe(|| format!("encode in pieces with {offers} offers while busy {}", hex(&want)));
                }
                encoded += 1;
                ensure!(m.view() == before, "encoding changed the message");
                let again = m.encode();
                ensure!(again.as_ref() == Ok(&want), "encoded again: {:?} instead of {}", again.map(|b| hex(&b)), hex(&want));
                cx.label("encoded");
            }
            _ => {
                if let Some(sp) = too_long(s, set) {
                    let m = build(set, &sp)?;
                    cx.describe(|| format!("offer {} bytes of attributes", gen::size_of(&sp.els, &sp.tid)));
                    let r = if s.bool() { e.start(&*m).map(|_| vec![]) } else { e.into_bytes(&*m) };
                    ensure!(r.is_err(), "a message that does not fit is taken");
                    ensure!(e.is_idle(), "not idle after refusing a message");
                    ensure!(e.exact() == 0, "{} bytes announced after refusing a message", e.exact());
                    let mut buf = [0u8; 64];
                    let r = e.encode(&mut buf, Eos::new(false));
                    ensure!(r == Ok(0), "{r:?} bytes written after refusing a message: {}", hex(&buf));
                    refused += 1;
                    cx.label("refused");
                }
            }
        }
    }
    Ok(())
}

/// One encoder and many thousands of messages.
fn c09_long(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let n = history(s);
    let small = SpecOpts { auth: true, big: false };
    let mut msgs = vec![];
    for i in 0..1 + s.below(5) {
        let mut sp = gen::spec(s, set, &small);
        while gen::size_of(&sp.els, &sp.tid) > 400 {
            sp.els.pop();
        }
        let m = build(set, &sp)?;
        let Ok(want) = m.encode() else { fail!("message {i} is refused") };
        cx.key(&want);
        cx.describe(|| format!("message {i}: {}", hex(&want)));
        msgs.push((m, want));
    }
    let refused = if s.bool() { too_long(s, set) } else { None };
    let refused = match refused {
        Some(sp) => Some(build(set, &sp)?),
        None => None,
    };
    let mut rng = crate::src::Rng::new(s.u64());
    cx.key(set.name().as_bytes());
    cx.describe(|| format!("set {}, {n} messages", set.name()));
    cx.nontrivial();
    cx.label_n("messages", n as u64);
    let mut e = set.encoder();
    for i in 0..n {
        let r = rng.next() as usize;
        let (m, want) = &msgs[r % msgs.len()];
        match &refused {
            Some(x) if (r >> 20) % 1000 == 0 => ensure!(e.start(&**x).is_err(), "message {i}: one that does not fit is taken"),
            _ => {}
        }
        if (r >> 32) % 4 > 0 {
            let got = e.into_bytes(&**m);
            ensure!(got.as_ref() == Ok(want), "message {i} by the used encoder: {:?}, by a fresh one {}", got.map(|b| hex(&b)), hex(want));
        } else {
            if let Err(x) = e.start(&**m) {
                fail!("message {i} is refused by the used encoder: {x:?}");
            }
            let mut got = vec![];
            let mut buf = [0; 500];
            while !e.is_idle() {
                ensure!(e.exact() == (want.len() - got.len()) as u64, "message {i}: {} bytes announced, {} are to come", e.exact(), want.len() - got.len());
                let size = 1 + (r >> 40) % 97;
                match e.encode(&mut buf[..size], Eos::new(false)) {
                    Ok(k) if k > 0 && got.len() + k <= want.len() => got.extend_from_slice(&buf[..k]),
                    k => fail!("message {i}: encode gives {k:?} with {} bytes to come", want.len() - got.len()),
                }
            }
            ensure!(&got == want, "message {i} by the used encoder: {}, by a fresh one {}", hex(&got), hex(want));
        }
    }
    Ok(())
}

fn stream_of(s: &mut Src, set: &dyn DynSet, cx: &mut Cx) -> Vec<Vec<u8>> {
    let n = 1 + s.below(5);
    let msgs: Vec<Vec<u8>> = (0..n).map(|_| some_message(s, set, true)).collect();
    cx.key(set.name().as_bytes());
    msgs.iter().for_each(|m| cx.key(m));
    if msgs.iter().any(|m| m.len() > 20) {
        cx.nontrivial();
    }
    cx.describe(|| format!("set {} messages {:?}", set.name(), msgs.iter().map(|m| hex(m)).collect::<Vec<_>>()));
    msgs
}

fn c23_hints(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let msgs = stream_of(s, set, cx);
    let mut d = set.decoder();
    let greedy = s.bool();
    for (i, m) in msgs.iter().enumerate() {
        let mut at = 0;
        let mut guard = 0;
        loop {
            let left = m.len() - at;
            let want = d.requiring();
            match want {
                ByteCount::Finite(n) => {
                    ensure!(n <= left as u64, "message {i}: {n} bytes required after {at} of {} bytes", m.len());
                    ensure!(n > 0 || left == 0, "message {i}: 0 bytes required after {at} of {} bytes", m.len());
                }
                ByteCount::Unknown => {}
                ByteCount::Infinite => fail!("message {i}: an infinite number of bytes required"),
            }
            if left == 0 && d.is_idle() {
                break;
            }
            guard += 1;
            ensure!(guard < 200_000, "message {i}: no end");
            let most = finite(want).unwrap_or(1) as usize;
            let k = if greedy { most } else { 1.max(s.below(most.max(1) + 1)).min(most) };
            ensure!(left > 0, "message {i}: not idle after all its bytes");
            let k = k.min(left).max(1);
            cx.label("reads");
            match d.decode(&m[at..at + k], Eos::new(false)) {
                Ok(n) => ensure!(n == k, "message {i}: {n} of the {k} required bytes consumed"),
                Err(_) => fail!("message {i}: an error at byte {at}"),
            }
            at += k;
        }
        let got = take(&mut *d);
        let (want, _) = feed_once(&mut *set.decoder(), m)?;
        same_outcome(&want, &got, &format!("message {i} at once versus as required"))?;
        cx.label(want.tag());
    }
    ensure!(finite(d.requiring()) != Some(0), "a decoder ready for a message requires 0 bytes");
    Ok(())
}

/// A reader that hands out its bytes in odd portions.
struct Portions<'a> {
    bytes: &'a [u8],
    sizes: Vec<usize>,
    i: usize,
    calls: usize,
}
impl std::io::Read for Portions<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls > 300_000 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "read without end"));
        }
        let n = self.sizes[self.i % self.sizes.len()].min(buf.len()).min(self.bytes.len());
        self.i += 1;
        buf[..n].copy_from_slice(&self.bytes[..n]);
        self.bytes = &self.bytes[n..];
        Ok(n)
    }
}

fn c23_exact(s: &mut Src, cx: &mut Cx) -> R {
    let set = gen::any_set(s);
    let msgs = stream_of(s, set, cx);
    let mut stream = msgs.concat();
    let tail = s.below(30);
    stream.extend(s.bytes(tail));
    let sizes = match s.below(3) {
        0 => vec![usize::MAX],
        1 => vec![1],
        _ => (0..1 + s.below(6)).map(|_| 1 + s.below(20)).collect(),
    };
    let mut r = Portions { bytes: &stream, sizes, i: 0, calls: 0 };
    let mut d = set.decoder();
    let mut end = 0;
    for (i, m) in msgs.iter().enumerate() {
        end += m.len();
        let got = match d.decode_exact(&mut r) {
            Ok(Decoded::Msg(m)) => Outcome::Msg(m),
            Ok(Decoded::Broken(b)) => Outcome::Broken(b),
            Err(e) => fail!("message {i} is not read: {e:?}"),
        };
        let (want, _) = feed_once(&mut *set.decoder(), m)?;
        same_outcome(&want, &got, &format!("message {i} at once versus from a reader"))?;
        let pos = stream.len() - r.bytes.len();
        ensure!(pos == end, "after message {i} the stream is at byte {pos} instead of {end}");
        cx.label(want.tag());
    }
    // The rest is too short for a message, or starts another
    if tail < 20 {
        ensure!(d.decode_exact(&mut r).is_err(), "a message is read from {tail} bytes");
    }
    Ok(())
}
